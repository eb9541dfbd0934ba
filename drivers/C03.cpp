// C03: point location.
#include "common.h"
#include "Mesh.cpp"
const int quick_cases = 300, thorough_cases = 3000;
static double pick(Rng& r, unsigned W) {
    switch (r.below(7)) {
        case 0: return r.range(0, W);
        case 1: return std::min<double>(W, r.range(0, W) + 0.5);
        case 2: return std::min<double>(W, std::max(0.0, r.range(0, W) + r.real(-3e-6, 3e-6)));
        case 3: return W;
        case 4: return 0;
        case 5: return std::min<double>(W, std::max(0.0, r.range(0, W) + 0.5 + r.real(-1e-3, 1e-3)));
        default: return r.real(0, W);
    }
}
void runcase(int k, Rng& r)
{
    unsigned W = k < 36 ? 1 + k % 6 : r.range(1, 60), H = k < 36 ? 1 + k / 6 : r.range(1, 60);
    note(fmt("Mesh(%u,%u)", W, H));
    slsm::Mesh m(W, H);
    for (int i = 0; i < 400; i++) {
        double x = pick(r, W), y = pick(r, H);
        slsm::Coord c(x, y);
        distinct(hashd(hashd(W*1000+H, x), y));
        for (int ov = 0; ov < 2; ov++) {
            unsigned e = ov ? m.getElement(x, y) : m.getElement(c);
            CHECK(e < W*H, "getElement(%.17g,%.17g) on %ux%u is %u: no such element", x, y, W, H, e);
            double ex = e % W, ey = e / W, t = 1.0001e-6;
            CHECK(x >= ex - 1e-12 && x <= ex + 1 + t && y >= ey - 1e-12 && y <= ey + 1 + t, "getElement(%.17g,%.17g) on %ux%u is %u, which does not contain the point", x, y, W, H, e);
            if (x > 1.0001e-6) CHECK(x > ex, "getElement(%.17g,%.17g) on %ux%u is %u: a point on a grid line belongs to the left element", x, y, W, H, e);
            if (y > 1.0001e-6) CHECK(y > ey, "getElement(%.17g,%.17g) on %ux%u is %u: a point on a grid line belongs to the lower element", x, y, W, H, e);
            unsigned n = ov ? m.getClosestNode(x, y) : m.getClosestNode(c);
            CHECK(n < m.nNodes, "getClosestNode(%.17g,%.17g) is %u", x, y, n);
            double nx = n % (W+1), ny = n / (W+1);
            CHECK(std::fabs(x-nx) <= 0.5+1e-9 && std::fabs(y-ny) <= 0.5+1e-9, "getClosestNode(%.17g,%.17g) on %ux%u is node %u at (%g,%g), not the nearest", x, y, W, H, n, nx, ny);
        }
    }
}
