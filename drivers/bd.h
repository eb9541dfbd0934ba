// Random discretisation inputs for the boundary drivers.
#pragma once
#include "ls.h"
struct Field {
    std::unique_ptr<LS> l; slsm::Boundary b; bool target; std::vector<double> S; std::string desc;
    const std::vector<double>& phi() const { return S; }
    bool look(unsigned a, unsigned b) const { auto& m = l->mesh; return target || m.nodes[a].isActive || m.nodes[a].isMasked || m.nodes[b].isActive || m.nodes[b].isMasked; }
};
static int st_(double v) { return std::fabs(v) < 1e-6 ? 0 : (v < 0 ? -1 : 1); }
// values keep away from the 1e-6 threshold (other than exact ones below it), so that rounding decides nothing
static double safe_(double v) { return std::fabs(v) < 1e-3 ? (v < 0 ? -1e-3 : 1e-3) : v; }
static std::vector<double> randvalues(Rng& r, const LS& l, int kind)
{
    unsigned W = l.mesh.width, H = l.mesh.height, N = (W+1)*(H+1); std::vector<double> s(N);
    double gx = r.real(-1, 1), gy = r.real(-1, 1), c = r.real(-3, 3); int m = r.range(1, 3); Holes h = randholes(r, W, H, r.range(1, 4));
    for (unsigned n = 0; n < N; n++) {
        double x = n % (W+1), y = n / (W+1), v;
        switch (kind) {
            case 0: v = r.range(-m, m); break;                                   // lattice values, many zeros
            case 1: v = safe_(r.real(-2, 2)); break;                             // noise, many saddles
            case 2: v = safe_(gx*(x - W*0.5) + gy*(y - H*0.5) + c); break;       // straight contour
            case 3: v = ((int)(x + y) % 2 ? 1 : -1) * (r.chance(0.5) ? 1.0 : r.real(0.5, 1.5)); break;   // checkerboard, saddle ties
            case 4: v = r.chance(0.3) ? (r.chance(0.5) ? 5e-7 : -5e-7) : safe_(r.real(-1, 1)); break;
            case 5: v = r.chance(0.5) ? 0 : (r.chance(0.5) ? 1 : -0.5); break;   // mostly on the contour
            case 7: v = (r.chance(0.5) ? 1 : -1)*(r.chance(0.4) ? std::pow(10.0, r.real(-5.3, -2.5)) : r.real(0.3, 1)); break;   // crossings very near a node
            default: v = safe_(holemin(l, n, h));
        }
        s[n] = v;
    }
    return s;
}
static Field randfield(int k, Rng& r)
{
    Field f; unsigned W = r.range(1, k % 3 ? 9 : 24), H = r.range(1, k % 3 ? 9 : 24); int kind = r.below(8);
    double ml = r.real(0.05, 0.95);
    f.l.reset(new LS(W, H, randholes(r, W, H, r.range(1, 4)), ml, 6, false));
    LS& l = *f.l;
    f.target = r.chance(0.2);
    std::vector<double> s = randvalues(r, l, kind);
    for (unsigned n = 0; n < l.mesh.nNodes; n++) {
        if (k % 4 == 1) l.mesh.nodes[n].isActive = true; else if (k % 4 == 2) l.mesh.nodes[n].isActive = r.chance(0.7);
        l.mesh.nodes[n].isMasked = k % 5 == 0 && r.chance(0.3);
        if (k % 4 != 0 && l.mesh.nodes[n].isMasked) l.mesh.nodes[n].isActive = false;
    }
    if (f.target) { l.target = s; l.signedDistance = randvalues(r, l, r.below(8)); } else l.signedDistance = s;
    f.S = s;
    if (r.chance(0.3)) { std::vector<double> k2 = l.signedDistance; l.signedDistance = randvalues(r, l, r.below(8)); f.b.discretise(l); l.signedDistance = k2; }   // reuse the object
    f.desc = fmt("%ux%u kind %d target %d moveLimit %.17g field", W, H, kind, f.target, ml);
    if (l.mesh.nNodes <= 60) for (double v : s) f.desc += fmt(" %.9g", v);
    note(f.desc); distinct(hashmix(hashmix(W, H), k*7 + kind));
    f.b.discretise(l, f.target);
    return f;
}
