// C05: piecewise linear shapes.
#include "ls.h"
const int quick_cases = 400, thorough_cases = 4000;
static void compare(const LS& l, const std::vector<double>& f, const Poly& p) {
    for (unsigned n = 0; n < l.mesh.nNodes; n++) {
        double x = nx_(l, n), y = ny_(l, n), w = polymin(l, n, p);
        bool tiny = false;
        for (size_t i = 0; i + 1 < p.size(); i++) { double q = std::hypot(p[i].x - p[i+1].x, p[i].y - p[i+1].y); if (q > 0 && q < 1.1e-3) tiny = true; }
        double got = std::fabs(f[n]);
        CHECK(std::fabs(got - w) <= (tiny ? 1.1e-3 : 1e-9), "|signed distance| of node (%g,%g) is %.17g, the smallest distance is %.17g", x, y, got, w);
        if (delicate(p, x, y) || w == 0) continue;
        bool in = wind_(p, x, y) != 0;
        CHECK((f[n] < 0) == in, "node (%g,%g): winding number %d but signed distance %.17g", x, y, wind_(p, x, y), f[n]);
    }
}
void runcase(int k, Rng& r)
{
    unsigned W = r.range(1, 20), H = r.range(1, 20);
    Poly p = randpoly(r, W, H);
    if (k % 8 == 7) {      // a bare segment
        p.clear(); p.push_back(slsm::Coord(r.real(-3, W+3), r.real(-3, H+3)));
        p.push_back(r.chance(0.2) ? p[0] : slsm::Coord(r.real(-3, W+3), r.real(-3, H+3)));
        if (r.chance(0.3)) p[1] = slsm::Coord(p[0].x + r.real(-3e-3, 3e-3), p[0].y + r.real(-3e-3, 3e-3));
    }
    if (k % 8 == 3) for (auto& c : p) { c.x /= 3; c.y /= 3; }   // small: crossings with |cross product| < 1
    note(fmt("%ux%u polygon %s", W, H, pstr(p).c_str())); distinct(hashd(k, p[0].x));
    if (k % 3 == 1) {
        Poly t = randpoly(r, W, H);
        LS l(W, H, p, t, 0.5, 6, r.chance(0.5)); compare(l, l.signedDistance, p);
        for (unsigned n = 0; n < l.mesh.nNodes; n++) { double x = nx_(l, n), y = ny_(l, n); if (delicate(t, x, y) || edge_(l, n) == 0) continue;
            CHECK((l.target[n] < 0) == (wind_(t, x, y) != 0), "target sign of node (%g,%g) for polygon %s", x, y, pstr(t).c_str()); }
        return;
    }
    LS l(W, H, p, 0.5, 6, r.chance(0.5)); compare(l, l.signedDistance, p);
}
