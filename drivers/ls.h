// Reference values for level-set drivers, straight from the property texts.
#pragma once
#include "all.h"
typedef slsm::LevelSet LS;
typedef std::vector<slsm::Hole> Holes;
typedef std::vector<slsm::Coord> Poly;
static double nx_(const LS& l, unsigned n) { return n % (l.mesh.width + 1); }
static double ny_(const LS& l, unsigned n) { return n / (l.mesh.width + 1); }
static double edge_(const LS& l, unsigned n) { double x = nx_(l, n), y = ny_(l, n); return std::min(std::min(x, l.mesh.width - x), std::min(y, l.mesh.height - y)); }
static bool onedge(const LS& l, unsigned n) { return edge_(l, n) == 0; }
static double holemin(const LS& l, unsigned n, const Holes& h) {
    double d = edge_(l, n);
    for (auto& q : h) d = std::min(d, std::hypot(q.coord.x - nx_(l, n), q.coord.y - ny_(l, n)) - q.r);
    return d;
}
static double segdist(const slsm::Coord& a, const slsm::Coord& b, double x, double y) {
    long double dx = (long double)b.x - a.x, dy = (long double)b.y - a.y, r = dx*dx + dy*dy;
    if (r == 0) return std::hypot(a.x - x, a.y - y);
    long double t = ((x - a.x)*dx + (y - a.y)*dy) / r; t = std::max(0.0L, std::min(1.0L, t));
    return (double)sqrtl((a.x + t*dx - x)*(a.x + t*dx - x) + (a.y + t*dy - y)*(a.y + t*dy - y));
}
static long double cross_(const slsm::Coord& a, const slsm::Coord& b, double x, double y) { return ((long double)b.x - a.x)*(y - a.y) - ((long double)x - a.x)*((long double)b.y - a.y); }
static int wind_(const Poly& p, double x, double y) {
    int w = 0;
    for (size_t i = 0; i + 1 < p.size(); i++) {
        if (p[i].y <= y && p[i+1].y > y && cross_(p[i], p[i+1], x, y) > 0) w++;
        if (p[i].y > y && p[i+1].y <= y && cross_(p[i], p[i+1], x, y) < 0) w--;
    }
    return w;
}
// whether rounding could decide the inside test of (x, y): it is (nearly) on an edge
static bool delicate(const Poly& p, double x, double y) {
    for (size_t i = 0; i + 1 < p.size(); i++) if (segdist(p[i], p[i+1], x, y) < 1e-7) return true;
    return false;
}
static double polymin(const LS& l, unsigned n, const Poly& p) {
    double d = edge_(l, n);
    for (size_t i = 0; i + 1 < p.size(); i++) d = std::min(d, segdist(p[i], p[i+1], nx_(l, n), ny_(l, n)));
    return d;
}
static Holes randholes(Rng& r, unsigned W, unsigned H, unsigned n) {
    Holes h;
    for (unsigned i = 0; i < n; i++) {
        bool lat = r.chance(0.3);
        h.push_back(slsm::Hole(lat ? r.range(0, W) : r.real(-1, W+1), lat ? r.range(0, H) : r.real(-1, H+1), lat ? r.range(1, 5) : r.real(0.3, 6)));
    }
    return h;
}
static Poly randpoly(Rng& r, unsigned W, unsigned H) {
    Poly p; unsigned n = r.range(3, 9); int kind = r.below(4); double cx = r.real(W*0.3, W*0.7), cy = r.real(H*0.3, H*0.7), ph = r.real(0, 6.3);
    bool ccw = r.chance(0.5);
    for (unsigned i = 0; i < n; i++) {
        double a = ph + (ccw ? 1 : -1) * 6.283185307179586 * i / n, q = kind == 0 ? std::min(W, H)*0.4 : r.real(0.3, std::min(W, H)*0.5);
        slsm::Coord c(cx + q*cos(a), cy + q*sin(a));
        if (kind == 2) { c.x = std::floor(c.x + 0.5); c.y = std::floor(c.y + 0.5); }
        if (kind == 3) { c.x = r.real(0, W); c.y = r.real(0, H); }
        p.push_back(c);
    }
    if (r.chance(0.15)) p.push_back(p.back());
    p.push_back(p[0]);
    return p;
}
static std::string pstr(const Poly& p) { std::string s; for (auto& c : p) s += fmt("(%.17g,%.17g)", c.x, c.y); return s; }
static std::string hstr(const Holes& h) { std::string s; for (auto& c : h) s += fmt("(%.17g,%.17g;%.17g)", c.coord.x, c.coord.y, c.r); return s; }
template <class F> static bool exits(F f) { try { f(); } catch (ExitCalled&) { return true; } return false; }
static bool mixed(const LS& l) { bool a = false, b = false; for (double d : l.signedDistance) { if (d == 0) return true; if (d < 0) a = true; else b = true; } return a && b; }
// whether masking by these holes certainly leaves a zero contour (reinitialising a field without one is refused)
static bool maskable(const LS& l, const Holes& m) {
    bool a = false, b = false;
    for (unsigned n = 0; n < l.mesh.nNodes; n++) {
        bool in = false;
        for (auto& q : m) if (std::hypot(q.coord.x - nx_(l, n), q.coord.y - ny_(l, n)) < q.r + 1e-9) in = true;
        double d = l.signedDistance[n]; if (d < 0 || in) a = true; if (d > 0 && !in) b = true;
    }
    return a && b;
}
// band / mine lists as the property describes them
static void checkband(const LS& l, unsigned bw, bool fixed) {
    std::vector<int> nb(l.mesh.nNodes, 0), mi(l.mesh.nNodes, 0);
    CHECK(l.nNarrowBand <= l.narrowBand.size() && l.nMines <= l.mines.size(), "list sizes");
    for (unsigned i = 0; i < l.nNarrowBand; i++) { CHECK(l.narrowBand[i] < l.mesh.nNodes, "band entry %u", i); nb[l.narrowBand[i]]++; }
    for (unsigned i = 0; i < l.nMines; i++) { CHECK(l.mines[i] < l.mesh.nNodes, "mine entry %u", i); mi[l.mines[i]]++; }
    for (unsigned n = 0; n < l.mesh.nNodes; n++) {
        double a = std::fabs(l.signedDistance[n]);
        bool in = !l.mesh.nodes[n].isMasked && !(fixed && onedge(l, n)) && a < bw, mine = in && a > bw - 1.0;
        CHECK(nb[n] == (in ? 1 : 0), "node %u (|phi|=%.17g, band %u) is listed %d times in the narrow band", n, a, bw, nb[n]);
        CHECK(l.mesh.nodes[n].isActive == in, "node %u (|phi|=%.17g, band %u): isActive=%d", n, a, bw, l.mesh.nodes[n].isActive);
        CHECK(mi[n] == (mine ? 1 : 0), "node %u (|phi|=%.17g, band %u) is listed %d times as mine", n, a, bw, mi[n]);
        CHECK(l.mesh.nodes[n].isMine == mine, "node %u (|phi|=%.17g, band %u): isMine=%d", n, a, bw, l.mesh.nodes[n].isMine);
    }
}
