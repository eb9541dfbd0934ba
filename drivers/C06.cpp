// C06: narrow band and mines.
#include "ls.h"
const int quick_cases = 400, thorough_cases = 4000;
void runcase(int k, Rng& r)
{
    unsigned W = r.range(2, 40), H = r.range(2, 40), bw = r.range(3, 9); bool fixed = r.chance(0.5);
    if (k % 6 == 0) { W = r.range(60, 90); H = r.range(60, 90); }
    Holes h = randholes(r, W, H, r.range(1, 5));
    note(fmt("%ux%u band %u fixed %d holes %s", W, H, bw, fixed, hstr(h).c_str())); distinct(hashmix(hashmix(W, H), k));
    LS l(W, H, h, 0.5, bw, fixed);
    checkband(l, bw, fixed);
    if (r.chance(0.4)) {
        Holes m = randholes(r, W, H, 1); note("mask " + hstr(m));
        if (maskable(l, m)) l.mask(m); checkband(l, bw, fixed);
    }
    for (int it = 0; it < 4; it++) {
        double s = r.real(-3, 3), gx = r.real(-1, 1), gy = r.real(-1, 1); bool lat = r.chance(0.3), wipe = r.chance(0.4);
        for (unsigned n = 0; n < l.mesh.nNodes; n++) {
            double v = wipe ? gx*(nx_(l, n) - W*0.5) + gy*(ny_(l, n) - H*0.5) + s : l.signedDistance[n] + (it % 2 ? s : r.real(-1.5, 1.5));
            l.signedDistance[n] = lat ? std::floor(v) : v;
        }
        for (unsigned n = 0; n < l.mesh.nNodes; n++) if (l.mesh.nodes[n].isMasked) l.signedDistance[n] = -std::fabs(l.signedDistance[n]) - 1e-6;
        if (!mixed(l)) continue;
        l.reinitialise(); checkband(l, bw, fixed);
    }
}
