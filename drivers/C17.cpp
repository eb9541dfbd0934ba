// C17: finite-difference sensitivities.
#include "all.h"
const int quick_cases = 20000, thorough_cases = 200000;
using slsm::BoundaryPoint;
static bool same(const BoundaryPoint& a, const BoundaryPoint& b, bool coord) {
    return (!coord || (memcmp(&a.coord, &b.coord, sizeof a.coord) == 0)) && memcmp(&a.normal, &b.normal, sizeof a.normal) == 0
        && a.length == b.length && a.velocity == b.velocity && a.negativeLimit == b.negativeLimit && a.positiveLimit == b.positiveLimit
        && a.isDomain == b.isDomain && a.isFixed == b.isFixed && a.nSegments == b.nSegments && a.segments == b.segments
        && a.nNeighbours == b.nNeighbours && a.neighbours == b.neighbours && a.sensitivities == b.sensitivities;
}
void runcase(int k, Rng& r)
{
    double delta = k % 3 ? 1e-4 : r.real(1e-5, 0.5);
    slsm::Sensitivity dflt; slsm::Sensitivity given(delta);
    bool useDefault = k % 7 == 0;
    if (useDefault) delta = 1e-4;
    slsm::Sensitivity& s = useDefault ? dflt : given;
    BoundaryPoint p;
    p.coord = slsm::Coord(r.real(0, 40), r.real(0, 40));
    double a = r.real(0, 6.283185307);
    p.normal = k % 5 == 0 ? slsm::Coord(r.range(-1, 1), r.range(-1, 1)) : slsm::Coord(cos(a), sin(a));
    p.length = r.real(0.05, 2); p.velocity = r.real(-1, 1); p.negativeLimit = -r.unit(); p.positiveLimit = r.unit();
    p.isDomain = r.chance(0.3); p.isFixed = r.chance(0.3); p.nSegments = r.below(3); p.nNeighbours = r.below(3);
    p.neighbours = {r.below(9), r.below(9)}; p.segments = {r.below(9), r.below(9)};
    p.sensitivities = {r.real(-1, 1), r.real(-1, 1)};
    BoundaryPoint before = p;
    double c[6]; for (auto& v : c) v = r.real(-2, 2);
    auto f = [&](double x, double y) { return c[0] + c[1]*x + c[2]*y + 0.1*c[3]*x*x + 0.1*c[4]*x*y + c[5]*sin(y); };
    std::vector<slsm::Coord> seen; bool otherOk = true; std::vector<double> vals;
    slsm::SensitivityCallback cb = [&](const BoundaryPoint& q) {
        seen.push_back(q.coord); if (!same(q, before, false)) otherOk = false;
        double v = f(q.coord.x, q.coord.y); vals.push_back(v); return v; };
    note(fmt("delta=%g point (%.17g,%.17g) normal (%.17g,%.17g) length %.17g", delta, p.coord.x, p.coord.y, p.normal.x, p.normal.y, p.length));
    double got = s.computeSensitivity(p, cb);
    distinct(hashd(hashd(1, p.coord.x), p.normal.x));
    CHECK(same(p, before, true), "the boundary point is not restored: (%.17g,%.17g) became (%.17g,%.17g)", before.coord.x, before.coord.y, p.coord.x, p.coord.y);
    CHECK(otherOk, "the callback saw the point changed in more than its position");
    double xp = before.coord.x + delta*before.normal.x, yp = before.coord.y + delta*before.normal.y;
    double xm = before.coord.x - delta*before.normal.x, ym = before.coord.y - delta*before.normal.y;
    bool plus = false, minus = false;
    for (auto& q : seen) {
        bool isP = fabs(q.x-xp) < 1e-12 && fabs(q.y-yp) < 1e-12, isM = fabs(q.x-xm) < 1e-12 && fabs(q.y-ym) < 1e-12;
        CHECK(isP || isM, "callback evaluated at (%.17g,%.17g), expected (%.17g,%.17g) or (%.17g,%.17g)", q.x, q.y, xp, yp, xm, ym);
        plus |= isP; minus |= isM;
    }
    CHECK(plus && minus, "callback was not evaluated at both displaced points");
    double want = (f(xp, yp) - f(xm, ym)) / (2*delta) / before.length;
    CHECK(fabs(got - want) <= 1e-9 * std::max(1.0, fabs(want)) + 1e-12 / delta / before.length, "sensitivity %.12g, expected %.12g", got, want);
}
