// C16: move limits, domain and fixed flags.
#include "bd.h"
const int quick_cases = 1500, thorough_cases = 30000;
void runcase(int k, Rng& r)
{
    Field f = randfield(k % 2 ? k : k*5, r); LS& l = *f.l; slsm::Mesh& m = l.mesh; unsigned W = m.width, H = m.height;
    for (unsigned i = 0; i < f.b.nPoints; i++) {
        auto& p = f.b.points[i]; double x = p.coord.x, y = p.coord.y, e = std::min(std::min(x, W - x), std::min(y, H - y)), ml = l.moveLimit;
        if (std::fabs(e - 1e-6) > 1e-9) CHECK(p.isDomain == (e < 1e-6), "point %u (%.17g, %.17g): isDomain=%d", i, x, y, p.isDomain);
        CHECK(p.positiveLimit == ml, "point %u: positive limit %.17g", i, p.positiveLimit);
        double lim = std::min(ml, e); bool ok = false; std::string want;
        for (int dx = 0; dx < 2; dx++) for (int dy = 0; dy < 2; dy++) {
            double nx = std::min<double>(W, std::floor(x) + dx), ny = std::min<double>(H, std::floor(y) + dy);
            if (std::fabs(nx - x) > 0.5 + 1e-5 || std::fabs(ny - y) > 0.5 + 1e-5) continue;
            bool masked = m.nodes[(unsigned)nx + (unsigned)ny*(W+1)].isMasked, on = std::fabs(nx - x) < 1e-6 && std::fabs(ny - y) < 1e-6;
            double neg = masked && !on ? std::min(lim, std::hypot(nx - x, ny - y)) : lim;
            want += fmt(" (-%.17g fixed %d)", neg, masked && on);
            if (std::fabs(p.negativeLimit + neg) < 1e-12 && p.isFixed == (masked && on)) ok = true;
        }
        CHECK(ok, "point %u (%.17g, %.17g): negative limit %.17g fixed %d, expected%s", i, x, y, p.negativeLimit, p.isFixed, want.c_str());
    }
}
