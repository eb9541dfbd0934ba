// C07: the explicit Euler step.
#include "ls.h"
const int quick_cases = 400, thorough_cases = 4000;
void runcase(int k, Rng& r)
{
    unsigned W = r.range(4, 40), H = r.range(4, 40), bw = r.range(3, 7); bool fixed = r.chance(0.3);
    Holes h = randholes(r, W, H, r.range(1, 4));
    note(fmt("%ux%u band %u fixed %d holes %s", W, H, bw, fixed, hstr(h).c_str())); distinct(hashmix(hashmix(W, H), k));
    LS l(W, H, h, 0.5, bw, fixed);
    if (r.chance(0.3)) { Holes m = randholes(r, W, H, 1); if (maskable(l, m)) l.mask(m); }
    if (mixed(l)) l.reinitialise();
    for (int it = 0; it < 8; it++) {
        double amp = r.chance(0.3) ? 3 : 0.5, dt = r.real(0.01, 1);
        bool cleanmines = r.chance(0.4);
        for (unsigned n = 0; n < l.mesh.nNodes; n++) { l.velocity[n] = r.real(-amp, amp); l.gradient[n] = r.real(0, 1.5); l.mesh.nodes[n].nBoundaryPoints = r.below(3); }
        if (cleanmines) for (unsigned i = 0; i < l.nMines; i++) l.velocity[l.mines[i]] = r.real(-0.2, 0.2);
        else if (l.nMines && r.chance(0.7)) {   // exactly one mine reached, preferably the first or the last
            unsigned j = r.chance(0.4) ? 0 : r.chance(0.5) ? l.nMines - 1 : r.below(l.nMines);
            for (unsigned i = 0; i < l.nMines; i++) l.velocity[l.mines[i]] = r.real(-0.2, 0.2);
            unsigned n = l.mines[j]; l.gradient[n] = 1; l.velocity[n] = (l.signedDistance[n] - (r.chance(0.5) ? 0.7 : -0.7)) / dt;
        }
        std::vector<double> want = l.signedDistance, g0 = l.gradient, v0 = l.velocity; std::vector<char> in(l.mesh.nNodes, 0);
        for (unsigned i = 0; i < l.nNarrowBand; i++) {
            unsigned n = l.narrowBand[i]; in[n] = 1;
            want[n] = l.signedDistance[n] - dt*g0[n]*v0[n];
            if (onedge(l, n) && want[n] > 0) want[n] = 0;
        }
        bool expect = false, unsure = false;
        for (unsigned i = 0; i < l.nMines; i++) { double a = std::fabs(want[l.mines[i]]); if (a < 1) expect = true; if (std::fabs(a - 1) < 1e-9) unsure = true; }
        if (unsure) continue;
        LS before = l;
        bool degenerate = !(([&]{ LS q = l; q.signedDistance = want; return mixed(q); })());
        if (expect && degenerate) continue;
        bool got = l.update(dt);
        CHECK(got == expect, "step %d: update returned %d, but a mine is %s one grid unit", it, got, expect ? "within" : "never within");
        CHECK(l.gradient == g0 && l.velocity == v0, "step %d: update changed gradient or velocity", it);
        for (unsigned n = 0; n < l.mesh.nNodes; n++) {
            if (!got) CHECK(near(l.signedDistance[n], want[n], 1e-12), "step %d: node %u (band %d, edge %d) moved from %.17g to %.17g, expected %.17g", it, n, in[n], onedge(l, n), before.signedDistance[n], l.signedDistance[n], want[n]);
            CHECK(l.mesh.nodes[n].isMasked == before.mesh.nodes[n].isMasked, "mask of node %u changed", n);
        }
        if (!got) { CHECK(l.nNarrowBand == before.nNarrowBand && l.narrowBand == before.narrowBand && l.nMines == before.nMines, "band changed without reinitialisation"); }
        else {
            before.signedDistance = want; before.reinitialise();
            for (unsigned n = 0; n < l.mesh.nNodes; n++) CHECK(near(l.signedDistance[n], before.signedDistance[n], 1e-9), "step %d: node %u is %.17g, reinitialising the stepped field gives %.17g", it, n, l.signedDistance[n], before.signedDistance[n]);
            checkband(l, bw, fixed);
        }
    }
}
