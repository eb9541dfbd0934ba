// C04: level sets built from holes.
#include "ls.h"
const int quick_cases = 300, thorough_cases = 3000;
static void compare(const LS& l, const std::vector<double>& f, const Holes& h, const char* what) {
    CHECK(f.size() == l.mesh.nNodes, "%s has %zu entries", what, f.size());
    for (unsigned n = 0; n < l.mesh.nNodes; n++) {
        double w = holemin(l, n, h);
        CHECK(near(f[n], w, 1e-9), "%s of node %u (%g,%g) is %.17g, the minimum is %.17g", what, n, nx_(l, n), ny_(l, n), f[n], w);
        CHECK(!onedge(l, n) || f[n] <= 0, "%s of edge node %u is %g > 0", what, n, f[n]);
    }
}
void runcase(int k, Rng& r)
{
    if (k % 10 == 9) {   // default structure
        unsigned W = r.range(1, 200), H = r.range(1, 200);
        if (k % 20 == 9) { W = r.range(75, 240); H = r.range(75, 240); }
        unsigned a = (W + 15) / 30, b = (H + 15) / 30;
        note(fmt("default structure on %ux%u", W, H)); distinct(hashmix(W, H));
        if (a <= 2 || b <= 2) { CHECK(exits([&]{ LS l(W, H); }), "a %ux%u mesh was not refused", W, H); return; }
        LS l(W, H);
        Holes h;
        for (unsigned y = 0; y < b; y++) for (unsigned x = 0; x < a; x++) h.push_back(slsm::Hole(W*(2*x + 1)/(2.0*a), H*(2*y + 1)/(2.0*b), 5));
        for (unsigned y = 0; y + 1 < b; y++) for (unsigned x = 0; x + 1 < a; x++) h.push_back(slsm::Hole(W*(x + 1)/(1.0*a), H*(y + 1)/(1.0*b), 5));
        compare(l, l.signedDistance, h, "signed distance");
        return;
    }
    unsigned W = r.range(1, 25), H = r.range(1, 25), bw = r.range(3, 8);
    Holes h = randholes(r, W, H, r.below(6));
    if (k % 7 == 0) h.clear();
    note(fmt("%ux%u holes %s", W, H, hstr(h).c_str())); distinct(hashmix(hashmix(k, W), H));
    if (k % 13 == 5) {
        double ml = r.chance(0.5) ? 0.5 : r.chance(0.5) ? -r.real(0, 1) : 1 + r.real(0, 1);
        unsigned b2 = r.chance(0.5) ? r.below(3) : bw;
        bool bad = ml <= 0 || ml >= 1 || b2 <= 2;
        CHECK(exits([&]{ LS l(W, H, h, ml, b2, false); }) == bad, "bandWidth %u, moveLimit %g %s", b2, ml, bad ? "accepted" : "refused");
        return;
    }
    if (k % 4 == 1) {
        Holes t = randholes(r, W, H, r.range(1, 4));
        note("target " + hstr(t));
        LS ref(W, H, t, 0.5, bw, false); 
        LS l(W, H, h, t, 0.5, bw, r.chance(0.5));
        compare(l, l.signedDistance, h, "signed distance");
        for (unsigned n = 0; n < l.mesh.nNodes; n++) CHECK((l.target[n] < 0) == (ref.signedDistance[n] < 0) && (l.target[n] > 0) == (ref.signedDistance[n] > 0), "target sign of node %u", n);
        return;
    }
    if (k % 4 == 2) {
        Poly t = randpoly(r, W, H);
        LS l(W, H, h, t, 0.5, bw, r.chance(0.5));
        compare(l, l.signedDistance, h, "signed distance");
        return;
    }
    LS l(W, H, h, r.real(0.01, 0.99), bw, r.chance(0.5));
    compare(l, l.signedDistance, h, "signed distance");
}
