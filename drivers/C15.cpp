// C15: boundary normals.
#include "bd.h"
const int quick_cases = 1500, thorough_cases = 30000;
void runcase(int k, Rng& r)
{
    Field f = randfield(k, r); LS& l = *f.l; slsm::Mesh& m = l.mesh; slsm::Boundary& b = f.b; unsigned W = m.width, H = m.height, N = m.nNodes;
    // a field of its own for the gradient: the discretised one, noise, or a plane
    std::vector<double> S = f.S; bool plane = k % 4 == 1; double ga = r.real(-2, 2), gb = r.real(-2, 2), gc = r.real(-5, 5);
    if (k % 8 == 1) (r.chance(0.5) ? ga : gb) = 0;
    if (k % 4 == 2) for (auto& v : S) v = r.real(-3, 3);
    if (plane) for (unsigned n = 0; n < N; n++) S[n] = ga*(n % (W+1)) + gb*(n / (W+1)) + gc;
    l.signedDistance = S;
    if (k % 3) {          // band with given nodes, in any order (otherwise the one the constructor made)
        std::vector<unsigned> v; for (unsigned n = 0; n < N; n++) if (r.chance(k % 3 == 1 ? 0.6 : 1.0)) v.push_back(n);
        if (r.chance(0.5)) for (unsigned i = 1; i < v.size(); i++) std::swap(v[i], v[r.below(i+1)]);
        l.nNarrowBand = v.size(); for (unsigned i = 0; i < v.size(); i++) l.narrowBand[i] = v[i];
    }
    auto v = [&](int x, int y) { return S[x + y*(W+1)]; };
    std::vector<long double> wt(b.nPoints, 0), sx(b.nPoints, 0), sy(b.nPoints, 0), ox(b.nPoints, 0), oy(b.nPoints, 0); std::vector<int> on(b.nPoints, 0), bad(b.nPoints, 0);
    for (unsigned i = 0; i < l.nNarrowBand; i++) {
        unsigned n = l.narrowBand[i]; int x = n % (W+1), y = n / (W+1); if (!m.nodes[n].nBoundaryPoints) continue;
        long double gx = x == 0 ? v(1, y) - v(0, y) : x == (int)W ? v(x, y) - v(x-1, y) : (v(x+1, y) - v(x-1, y))/2.0L;
        long double gy = y == 0 ? v(x, 1) - v(x, 0) : y == (int)H ? v(x, y) - v(x, y-1) : (v(x, y+1) - v(x, y-1))/2.0L;
        long double g = hypotl(gx, gy);
        for (unsigned j = 0; j < m.nodes[n].nBoundaryPoints; j++) {
            unsigned p = m.nodes[n].boundaryPoints[j]; long double dx = x - b.points[p].coord.x, dy = y - b.points[p].coord.y, r2 = dx*dx + dy*dy;
            if (g < 1e-9 || std::fabs((double)r2 - 1e-6) < 1e-9) { bad[p] = 1; continue; }
            if (r2 < 1e-6) { on[p] = 1; ox[p] = gx/g; oy[p] = gy/g; } else { wt[p] += 1/r2; sx[p] += gx/g/r2; sy[p] += gy/g/r2; }
        }
    }
    std::vector<slsm::BoundaryPoint> was = b.points;
    b.computeNormalVectors(l);
    CHECK(b.points.size() == was.size() && l.signedDistance == S, "changes the points or the level set");
    for (unsigned p = 0; p < b.nPoints; p++) {
        CHECK(b.points[p].coord.x == was[p].coord.x && b.points[p].coord.y == was[p].coord.y && b.points[p].length == was[p].length && b.points[p].isDomain == was[p].isDomain, "point %u is changed otherwise", p);
        if (b.points[p].isDomain || bad[p] || !(on[p] || wt[p] > 0)) continue;
        long double mx = on[p] ? ox[p] : sx[p]/wt[p], my = on[p] ? oy[p] : sy[p]/wt[p], g = hypotl(mx, my);
        if (g < 1e-6) continue;
        double nx = b.points[p].normal.x, ny = b.points[p].normal.y, X = b.points[p].coord.x, Y = b.points[p].coord.y;
        CHECK(std::fabs(std::hypot(nx, ny) - 1) < 1e-9, "normal of point %u (%.17g, %.17g) is (%.17g, %.17g), length %.17g", p, X, Y, nx, ny, std::hypot(nx, ny));
        CHECK(std::fabs(nx - (double)(mx/g)) < 1e-7 && std::fabs(ny - (double)(my/g)) < 1e-7, "normal of point %u (%.17g, %.17g) is (%.17g, %.17g), expected (%.17g, %.17g)", p, X, Y, nx, ny, (double)(mx/g), (double)(my/g));
        if (plane) { double gg = std::hypot(ga, gb); CHECK(std::fabs(nx - ga/gg) < 1e-7 && std::fabs(ny - gb/gg) < 1e-7, "normal of point %u (%.17g, %.17g) is (%.17g, %.17g), the gradient of the plane is (%.17g, %.17g)", p, X, Y, nx, ny, ga, gb); }
    }
}
