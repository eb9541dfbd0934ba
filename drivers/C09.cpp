// C09: interpolated velocities against the definition, and extension within the range of the sources.
#include "fmmref.h"
const int quick_cases = 1500, thorough_cases = 20000;
typedef std::vector<slsm::BoundaryPoint> Points;
static slsm::BoundaryPoint bp(double x, double y, double v) { slsm::BoundaryPoint p; p.coord.x = x; p.coord.y = y; p.velocity = v; return p; }
static int nbr(const LS& l, int n, int j) { int W = l.mesh.width, H = l.mesh.height, x = n % (W+1), y = n / (W+1); if (j == 0) return x > 0 ? n-1 : -1; if (j == 1) return x < W ? n+1 : -1; if (j == 2) return y > 0 ? n-W-1 : -1; return y < H ? n+W+1 : -1; }
// a point on (nearly on) a cell's mid line has two closest nodes; one within rounding of unit distance or of a node is undecided too
static bool vague(const Points& P) {
    for (auto& p : P) {
        double fx = p.coord.x - std::floor(p.coord.x), fy = p.coord.y - std::floor(p.coord.y);
        if (std::fabs(fx - 0.5) < 1e-9 || std::fabs(fy - 0.5) < 1e-9) return true;
        for (int sx = 0; sx < 2; sx++) for (int sy = 0; sy < 2; sy++) { double q = (sx-fx)*(sx-fx) + (sy-fy)*(sy-fy); if (std::fabs(q - 1e-6) < 1e-9 || (std::fabs(q - 1) < 1e-9 && fx != 0 && fy != 0 )) return true; }
    }
    return false;
}
static void mapped(const LS& l, const Points& P, std::vector<double>& v, std::vector<char>& touched) {
    unsigned N = l.mesh.nNodes, W = l.mesh.width; std::vector<double> num(N, 0), den(N, 0), ex(N, 0); std::vector<char> exact(N, 0);
    for (auto& p : P) {
        int cx = (int)std::floor(p.coord.x + 0.5), cy = (int)std::floor(p.coord.y + 0.5), c = cx + cy*(W+1);
        for (int j = -1; j < 4; j++) {
            int n = j < 0 ? c : nbr(l, c, j); if (n < 0) continue;
            double dx = n % (W+1) - p.coord.x, dy = n / (W+1) - p.coord.y, q = dx*dx + dy*dy;
            if (j >= 0 && q > 1) continue;
            if (q < 1e-6) { exact[n] = 1; ex[n] = p.velocity; } else { num[n] += p.velocity/q; den[n] += 1/q; }
        }
    }
    v.assign(N, 0); touched.assign(N, 0);
    for (unsigned n = 0; n < N; n++) { touched[n] = exact[n] || den[n] > 0; v[n] = exact[n] ? ex[n] : den[n] > 0 ? num[n]/den[n] : 0; }
}
void runcase(int k, Rng& r)
{
    unsigned W = r.range(3, 24), H = r.range(3, 24), bw = r.range(3, 7); bool fixed = r.chance(0.4);
    Holes h = randholes(r, W, H, r.range(1, 4)), m;
    LS l(W, H, h, 0.5, bw, fixed); if (!mixed(l)) return;
    if (r.chance(0.4)) { m = randholes(r, W, H, 1); if (maskable(l, m)) l.mask(m); else m.clear(); }
    if (r.chance(0.6)) {
        double a = r.real(0.3, 0.9), b = r.real(0.3, 0.9), c = r.real(0, 6), d = r.real(0, 6), e = r.real(-0.4, 0.4); note(fmt("field sin(%.17g x + %.17g) cos(%.17g y + %.17g) + %.17g", a, c, b, d, e));
        for (unsigned n = 0; n < l.mesh.nNodes; n++) if (!l.mesh.nodes[n].isMasked) l.signedDistance[n] = std::sin(a*nx_(l, n) + c)*std::cos(b*ny_(l, n) + d) + e;
    }
    if (!mixed(l) || exits([&]{ l.reinitialise(); })) return;
    note(fmt("%ux%u band %u fixed %d holes %s mask %s", W, H, bw, fixed, hstr(h).c_str(), hstr(m).c_str())); distinct(hashmix(hashmix(W, H), k));
    Points P;
    int kind = r.below(3);
    if (kind < 2) { slsm::Boundary b; b.discretise(l); P = b.points; }
    if (kind > 0) {
        unsigned c = r.range(1, 30);
        for (unsigned i = 0; i < c; i++) {
            double x = r.real(0, W), y = r.real(0, H); int q = r.below(6);
            if (q == 0) { x = r.range(0, W); y = r.range(0, H); }
            if (q == 1) x = r.range(0, W);
            if (q == 2) y = r.range(0, H);
            if (q == 3) { x = std::min((double) W, std::max(0.0, r.range(0, W) + r.real(-5e-4, 5e-4))); y = std::min((double) H, std::max(0.0, r.range(0, H) + r.real(-5e-4, 5e-4))); }
            P.insert(P.begin() + r.below(P.size() + 1), bp(x, y, 0));
        }
    }
    double lo = r.real(-2, 1), hi = lo + (r.chance(0.2) ? 0 : r.real(0, 2));
    for (auto& p : P) { p.velocity = r.real(lo, hi); note(fmt("point (%.17g, %.17g) velocity %.17g", p.coord.x, p.coord.y, p.velocity)); }
    std::vector<double> sd = l.signedDistance, want; std::vector<char> touched; bool unsure = vague(P);
    for (unsigned n = 0; n < l.mesh.nNodes; n++) l.velocity[n] = r.real(-9, 9);   // what an earlier step left
    mapped(l, P, want, touched);
    bool refused = exits([&]{ l.computeVelocities(P); });
    std::vector<double> ev = want; Ref q(W, H, sd); q.vel = &ev; for (auto& n : l.mesh.nodes) q.active.push_back(n.isActive); q.freeze(); if (!unsure) q.run();
    if (!unsure && !q.delicate) CHECK(refused == q.refused, "velocity extension %s", refused ? "refused" : "accepted a node at the same distance as its neighbours");
    if (refused) return;    // two equal distances leave the mean undefined
    std::vector<char> src(l.mesh.nNodes, 0); double mn = 1e300, mx = -1e300;
    for (unsigned n = 0; n < l.mesh.nNodes; n++) {
        CHECK(l.signedDistance[n] == sd[n], "signed distance of node %u changed from %.17g to %.17g", n, sd[n], l.signedDistance[n]);
        bool s = sd[n] == 0; for (int j = 0; j < 4; j++) { int q = nbr(l, n, j); if (q >= 0 && ((sd[n] < 0 && sd[q] > 0) || (sd[n] > 0 && sd[q] < 0))) s = true; }
        src[n] = s; if (s && !unsure) { mn = std::min(mn, want[n]); mx = std::max(mx, want[n]); }
        if (s && !unsure) CHECK(near(l.velocity[n], want[n], 1e-9), "node %u at the contour (level set %.17g, active %d): velocity %.17g, the weighted mean of the points touching it is %.17g", n, sd[n], l.mesh.nodes[n].isActive, l.velocity[n], want[n]);
    }
    if (unsure) return;
    if (!q.delicate) for (unsigned n = 0; n < l.mesh.nNodes; n++) CHECK(near(l.velocity[n], ev[n], 1e-6), "node %u (level set %.17g): velocity %.17g, the extension from accepted neighbours gives %.17g", n, sd[n], l.velocity[n], ev[n]);
    // which nodes the extension reaches: active ones connected to the contour
    std::vector<char> in(src); std::vector<int> st; for (unsigned n = 0; n < l.mesh.nNodes; n++) if (src[n]) st.push_back(n);
    while (!st.empty()) { int n = st.back(); st.pop_back(); for (int j = 0; j < 4; j++) { int q = nbr(l, n, j); if (q >= 0 && !in[q] && l.mesh.nodes[q].isActive) { in[q] = 1; st.push_back(q); } } }
    for (unsigned n = 0; n < l.mesh.nNodes; n++) {
        if (in[n]) CHECK(l.velocity[n] >= mn - 1e-9 && l.velocity[n] <= mx + 1e-9, "node %u (level set %.17g): extended velocity %.17g, but the sources have [%.17g, %.17g]", n, sd[n], l.velocity[n], mn, mx);
        else CHECK(near(l.velocity[n], want[n], 1e-9), "node %u is not reached by the extension and has velocity %.17g, the weighted mean of the points touching it is %.17g", n, l.velocity[n], want[n]);
        // a filled node lies between two accepted neighbours, at most one per direction
        if (in[n] && !src[n]) {
            double a = 1e300, b = -1e300; for (int j = 0; j < 4; j++) { int q = nbr(l, n, j); if (q >= 0 && in[q]) { a = std::min(a, l.velocity[q]); b = std::max(b, l.velocity[q]); } }
            CHECK(l.velocity[n] >= a - 1e-9 && l.velocity[n] <= b + 1e-9, "node %u: extended velocity %.17g outside its neighbours' [%.17g, %.17g]", n, l.velocity[n], a, b);
        }
    }
}
