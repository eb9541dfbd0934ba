// C12: status of nodes and elements; position, completeness and uniqueness of boundary points.
#include "bd.h"
const int quick_cases = 1500, thorough_cases = 30000;
void runcase(int k, Rng& r)
{
    Field f = randfield(k, r); LS& l = *f.l; slsm::Mesh& m = l.mesh; const std::vector<double>& S = f.S;
    unsigned W = m.width, H = m.height, R = W + 1;
    for (unsigned n = 0; n < m.nNodes; n++) {
        int s = st_(S[n]); auto t = m.nodes[n].status;
        CHECK(t == (s == 0 ? slsm::NodeStatus::BOUNDARY : s < 0 ? slsm::NodeStatus::OUTSIDE : slsm::NodeStatus::INSIDE), "node %u (phi %.9g) has status %d", n, S[n], (int)t);
    }
    for (unsigned e = 0; e < m.nElements; e++) {
        unsigned a = e % W + (e / W)*R; int q[4] = {st_(S[a]), st_(S[a+1]), st_(S[a+R+1]), st_(S[a+R])}; bool in = false, out = false;
        for (int v : q) { if (v > 0) in = true; if (v < 0) out = true; }
        auto t = m.elements[e].status;
        CHECK((t == slsm::ElementStatus::INSIDE) == !out, "element %u (%d %d %d %d) has status %d", e, q[0], q[1], q[2], q[3], (int)t);
        CHECK((t == slsm::ElementStatus::OUTSIDE) == (out && !in), "element %u (%d %d %d %d) has status %d", e, q[0], q[1], q[2], q[3], (int)t);
    }
    CHECK(f.b.points.size() == f.b.nPoints, "nPoints");
    std::map<std::pair<unsigned, unsigned>, int> seen;
    for (unsigned i = 0; i < f.b.nPoints; i++) {
        double x = f.b.points[i].coord.x, y = f.b.points[i].coord.y;
        CHECK(x >= 0 && x <= W && y >= 0 && y <= H, "point %u (%.17g, %.17g) is outside the domain", i, x, y);
        bool ok = false;
        double rx = std::floor(x + 0.5), ry = std::floor(y + 0.5);
        unsigned n = (unsigned)rx + (unsigned)ry*R;
        if (std::fabs(x - rx) < 1e-9 && std::fabs(y - ry) < 1e-9 && st_(S[n]) == 0) { ok = true; CHECK(!seen[std::make_pair(n, n)]++, "two points on node %u", n); }
        else {
            bool hor = std::fabs(y - ry) < 1e-9, ver = std::fabs(x - rx) < 1e-9;
            for (int d = 0; d < 2 && !ok; d++) {
                if (d == 0 ? !hor : !ver) continue;
                unsigned lo = d == 0 ? (unsigned)std::min(std::floor(x), W - 1.0) + (unsigned)ry*R : (unsigned)rx + (unsigned)std::min(std::floor(y), H - 1.0)*R, hi = lo + (d == 0 ? 1 : R);
                if (st_(S[lo])*st_(S[hi]) >= 0) continue;
                double z = S[lo]/(S[lo] - S[hi]), w = d == 0 ? x - lo % R : y - lo / R;
                if (std::fabs(z - w) < 1e-9) { ok = true; CHECK(!seen[std::make_pair(lo, hi)]++, "two points on the edge %u-%u", lo, hi); }
            }
        }
        CHECK(ok, "point %u (%.17g, %.17g) is not on the zero contour", i, x, y);
    }
    for (unsigned n = 0; n < m.nNodes; n++) for (int d = 0; d < 2; d++) {
        unsigned x = n % R, y = n / R; if (d == 0 ? x == W : y == H) continue;
        unsigned o = n + (d == 0 ? 1 : R);
        if (st_(S[n])*st_(S[o]) < 0 && f.look(n, o)) CHECK(seen.count(std::make_pair(n, o)), "no point on the cut edge %u-%u", n, o);
    }
}
