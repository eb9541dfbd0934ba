// C18: the Ito correction.
#include "all.h"
const int quick_cases = 400, thorough_cases = 4000;
typedef slsm::BoundaryPoint BP;
static double perim(const std::vector<BP>& ps, const BP& p, double x, double y) {
    double s = 0;
    for (unsigned k = 0; k < p.nNeighbours; k++) s += hypot(x - ps[p.neighbours[k]].coord.x, y - ps[p.neighbours[k]].coord.y);
    return s;
}
static bool eqc(const slsm::Coord& a, const slsm::Coord& b) { return a.x == b.x && a.y == b.y; }
void runcase(int k, Rng& r)
{
    double delta = k % 2 ? 1e-4 : r.real(1e-4, 0.3), T = k % 5 == 0 ? 0 : r.real(-1, 3);
    slsm::Sensitivity s(delta);
    slsm::Boundary b;
    std::unique_ptr<slsm::LevelSet> ls;
    bool viaLevelSet = k % 3 == 0;
    if (viaLevelSet) {
        unsigned W = r.range(12, 30), H = r.range(12, 30);
        std::vector<slsm::Hole> holes;
        holes.push_back(slsm::Hole(r.real(5, W-5), r.real(5, H-5), r.real(2.1, 4.2)));
        ls.reset(new slsm::LevelSet(W, H, holes, 0.5, 6, false)); ls->reinitialise();
        b.discretise(*ls);
        note(fmt("%ux%u hole (%g,%g) r=%g: %zu points", W, H, holes[0].coord.x, holes[0].coord.y, holes[0].r, b.points.size()));
    } else {
        unsigned n = r.range(3, 40);
        b.points.resize(n); b.nPoints = n;
        for (unsigned i = 0; i < n; i++) {
            BP& p = b.points[i]; double a = r.real(0, 6.28318);
            p.coord = slsm::Coord(r.real(0, 20), r.real(0, 20)); p.normal = slsm::Coord(cos(a), sin(a)); p.length = r.real(0.1, 2);
            p.isDomain = r.chance(0.2); p.isFixed = r.chance(0.2); p.velocity = r.real(-1, 1); p.negativeLimit = -r.unit(); p.positiveLimit = r.unit(); p.nSegments = r.below(3);
            p.nNeighbours = r.below(3);
            for (unsigned j = 0; j < p.nNeighbours; j++) do p.neighbours[j] = r.below(n); while (p.neighbours[j] == i);
        }
    }
    for (auto& p : b.points) { p.sensitivities.resize(3); for (auto& v : p.sensitivities) v = r.real(-2, 2); }
    slsm::Boundary o = b;
    if (viaLevelSet) { s.itoCorrection(b, *ls, T); if (T != 0) o.computeNormalVectors(*ls); }
    else s.itoCorrection(b, T);
    note(fmt("delta=%g T=%g points=%zu", delta, T, o.points.size()));
    distinct(hashd(hashd(k, T), delta));
    CHECK(b.points.size() == o.points.size() && b.segments.size() == o.segments.size() && b.length == o.length, "the boundary itself changed");
    for (unsigned i = 0; i < o.points.size(); i++) {
        const BP &p = o.points[i], &q = b.points[i];
        CHECK(eqc(p.coord, q.coord), "point %u moved", i);
        CHECK(p.length == q.length && p.isFixed == q.isFixed && p.isDomain == q.isDomain && p.nNeighbours == q.nNeighbours && p.neighbours == q.neighbours && p.negativeLimit == q.negativeLimit && p.positiveLimit == q.positiveLimit, "point %u changed", i);
        CHECK(q.sensitivities.size() == 3 && q.sensitivities[1] == p.sensitivities[1] && q.sensitivities[2] == p.sensitivities[2], "a constraint sensitivity of point %u changed", i);
        if (T == 0) { CHECK(q.sensitivities[0] == p.sensitivities[0] && eqc(p.normal, q.normal), "temperature zero changed point %u", i); continue; }
        if (p.normal.x != p.normal.x || p.length < 1e-3) continue;
        double c = (perim(o.points, p, p.coord.x + delta*p.normal.x, p.coord.y + delta*p.normal.y) - perim(o.points, p, p.coord.x - delta*p.normal.x, p.coord.y - delta*p.normal.y)) / (2*delta) / p.length;
        double want = p.sensitivities[0] - T*c/(2*p.length), got = q.sensitivities[0];
        CHECK(fabs(got - want) < 1e-8*std::max(1.0, fabs(want)) + 1e-12/delta/p.length/p.length, "objective sensitivity of point %u is %.12g, expected %.12g", i, got, want);
    }
}
