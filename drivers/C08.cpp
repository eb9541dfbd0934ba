// C08: masking.
#include "ls.h"
const int quick_cases = 400, thorough_cases = 4000;
void runcase(int k, Rng& r)
{
    unsigned W = r.range(3, 30), H = r.range(3, 30), bw = r.range(3, 7);
    Holes h = randholes(r, W, H, r.range(1, 4));
    note(fmt("%ux%u band %u holes %s", W, H, bw, hstr(h).c_str())); distinct(hashmix(hashmix(W, H), k));
    bool fixed = r.chance(0.3);
    LS l(W, H, h, 0.5, bw, fixed);
    if (mixed(l)) l.reinitialise();
    std::vector<char> masked(l.mesh.nNodes, 0);
    for (int it = 0; it < 3; it++) {
        std::vector<char> in(l.mesh.nNodes, 0), skip(l.mesh.nNodes, 0);
        std::vector<double> sd = l.signedDistance;
        int kind = r.below(3);
        Holes m; Poly p;
        if (kind == 0) { m = randholes(r, W, H, r.range(1, 3)); note("mask holes " + hstr(m)); }
        else if (kind == 1) {
            bool lat = r.chance(0.5);
            double a = lat ? r.range(-1, W) : r.real(-1, W), b = lat ? r.range(-1, H) : r.real(-1, H), c = a + (lat ? r.range(1, 6) : r.real(0.5, 6)), d = b + (lat ? r.range(1, 6) : r.real(0.5, 6));
            p.push_back(slsm::Coord(a, b)); p.push_back(slsm::Coord(c, d)); note("mask rectangle " + pstr(p));
        }
        else { p = randpoly(r, W, H); if (r.chance(0.3)) for (auto& c : p) { c.x = W*0.4 + c.x/5; c.y = H*0.4 + c.y/5; } note("mask polygon " + pstr(p)); }
        bool any = false;
        for (unsigned n = 0; n < l.mesh.nNodes; n++) {
            double x = nx_(l, n), y = ny_(l, n);
            if (kind == 0) { for (auto& q : m) { double d = std::hypot(q.coord.x - x, q.coord.y - y); if (d < q.r) in[n] = 1; if (std::fabs(d - q.r) < 1e-9) { if (d != q.r || q.r != std::floor(q.r)) skip[n] = 1; } } }
            else if (kind == 1) in[n] = x > p[0].x && y > p[0].y && x < p[1].x && y < p[1].y;
            else { in[n] = wind_(p, x, y) != 0; skip[n] = delicate(p, x, y); }
            if (in[n]) any = true;
        }
        LS test = l; for (unsigned n = 0; n < l.mesh.nNodes; n++) if (in[n]) test.signedDistance[n] = -1e-6;
        if (!mixed(test)) continue;
        if (kind == 0) l.mask(m); else l.mask(p);
        for (unsigned n = 0; n < l.mesh.nNodes; n++) {
            double x = nx_(l, n), y = ny_(l, n);
            if (!skip[n]) CHECK(l.mesh.nodes[n].isMasked == (masked[n] || in[n]), "node (%g,%g) isMasked=%d, earlier %d, inside the region %d", x, y, l.mesh.nodes[n].isMasked, masked[n], in[n]);
            masked[n] = l.mesh.nodes[n].isMasked;
            if (masked[n]) { CHECK(l.signedDistance[n] < 0, "masked node (%g,%g) has signed distance %g", x, y, l.signedDistance[n]); CHECK(!l.mesh.nodes[n].isActive, "masked node (%g,%g) is active", x, y); }
            else if (!skip[n]) CHECK((l.signedDistance[n] < 0) == (sd[n] < 0), "node (%g,%g) outside the region changed sign: %g -> %g", x, y, sd[n], l.signedDistance[n]);
        }
        checkband(l, bw, fixed);
        for (unsigned n = 0; n < l.mesh.nNodes; n++) { l.velocity[n] = r.real(-0.3, 0.3); l.gradient[n] = 1; }
        std::vector<double> s2 = l.signedDistance;
        if (!l.update(0.5)) for (unsigned n = 0; n < l.mesh.nNodes; n++) if (masked[n]) CHECK(l.signedDistance[n] == s2[n], "masked node %u moved in an update", n);
        for (unsigned n = 0; n < l.mesh.nNodes; n++) CHECK(l.mesh.nodes[n].isMasked == masked[n], "update changed the mask of node %u", n);
    }
}
