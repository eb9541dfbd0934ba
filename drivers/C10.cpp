// C10: upwind HJ-WENO gradients against a reference written from the property.
#include "ls.h"
const int quick_cases = 600, thorough_cases = 8000;
struct Ref {
    const LS& l; int W, H;
    Ref(const LS& l_) : l(l_), W(l_.mesh.width), H(l_.mesh.height) {}
    double s(int x, int y) const { return l.signedDistance[x + y*(W+1)]; }
    double dx(int i, int y) const { i = std::max(0, std::min(W-1, i)); return s(i+1, y) - s(i, y); }
    double dy(int x, int i) const { i = std::max(0, std::min(H-1, i)); return s(x, i+1) - s(x, i); }
    static double weno(double a, double b, double c, double d, double e)
    {
        long double q[3] = { (2*a - 7*b + 11*c)/6.0L, (-b + 5*c + 2*d)/6.0L, (2*c + 5*d - e)/6.0L };
        long double t = 13.0L/12, s1 = t*(a-2*b+c)*(a-2*b+c) + (a-4*b+3*c)*(a-4*b+3*c)/4.0L, s2 = t*(b-2*c+d)*(b-2*c+d) + (b-d)*(b-d)/4.0L, s3 = t*(c-2*d+e)*(c-2*d+e) + (3*c-4*d+e)*(3*c-4*d+e)/4.0L;
        long double w[3] = { 0.1L/((s1+1e-6L)*(s1+1e-6L)), 0.6L/((s2+1e-6L)*(s2+1e-6L)), 0.3L/((s3+1e-6L)*(s3+1e-6L)) };
        return (double)((w[0]*q[0] + w[1]*q[1] + w[2]*q[2])/(w[0] + w[1] + w[2]));
    }
    // 0: generic, 1: flat corner, 2: too close to tell
    int flat(int x, int y) const
    {
        if ((x != 0 && x != W) || (y != 0 && y != H)) return 0;
        double a = std::fabs(s(x ? W-1 : 1, y) - s(x, y)), b = std::fabs(s(x, y ? H-1 : 1) - s(x, y));
        if (std::fabs(a - 1e-6) < 1e-9 || std::fabs(b - 1e-6) < 1e-9) return 2;
        return a < 1e-6 && b < 1e-6;
    }
    double grad(int x, int y, double v) const
    {
        if (flat(x, y)) return std::fabs(s(x, y) - s(x ? W-1 : 1, y ? H-1 : 1))*std::sqrt(2.0);
        double l_ = weno(dx(x-3,y), dx(x-2,y), dx(x-1,y), dx(x,y), dx(x+1,y)), r = weno(dx(x+2,y), dx(x+1,y), dx(x,y), dx(x-1,y), dx(x-2,y));
        double d = weno(dy(x,y-3), dy(x,y-2), dy(x,y-1), dy(x,y), dy(x,y+1)), u = weno(dy(x,y+2), dy(x,y+1), dy(x,y), dy(x,y-1), dy(x,y-2));
        if (v < 0) { l_ = -l_; r = -r; d = -d; u = -u; }
        double g = 0; if (l_ > 0) g += l_*l_; if (r < 0) g += r*r; if (d > 0) g += d*d; if (u < 0) g += u*u;
        return std::sqrt(g);
    }
};
void runcase(int k, Rng& r)
{
    unsigned W = r.range(4, r.chance(0.5) ? 7 : 16), H = r.range(4, r.chance(0.5) ? 7 : 16);
    bool partial = W > 8 && H > 8 && r.chance(0.4);
    Holes h(1, slsm::Hole(r.real(0, W), r.real(0, H), partial ? r.real(2, 3) : 0.1));
    LS l(W, H, h, 0.5, partial ? 3 : 60, partial && r.chance(0.5));
    unsigned N = l.mesh.nNodes; int kind = k % 4;
    double a = r.real(-1.5, 1.5), b = r.real(-1.5, 1.5), c = r.real(-5, 5), amp = r.chance(0.3) ? 1e-3 : 1;
    if (r.chance(0.3)) { a = r.range(-2, 2); b = r.range(-2, 2); } 
    if (r.chance(0.1)) a = 0;
    if (r.chance(0.1)) b = 0;
    for (unsigned n = 0; n < N; n++) {
        double x = nx_(l, n), y = ny_(l, n), s;
        if (kind == 0) s = a*x + b*y + c;
        else if (kind == 1) s = r.real(-3, 3);
        else if (kind == 2) s = std::hypot(x - 3*a - W/2.0, y - 3*b - H/2.0) - 2 + amp*r.real(-0.01, 0.01);
        else s = r.range(-2, 2)*amp;
        l.signedDistance[n] = s; l.velocity[n] = r.chance(0.2) ? 0.0 : r.real(-1, 1); l.gradient[n] = r.real(-9, 9);
    }
    if (kind == 3 && r.chance(0.7)) for (int cx = 0; cx < 2; cx++) for (int cy = 0; cy < 2; cy++) if (r.chance(0.5)) { // flat corners
        unsigned x = cx ? W : 0, y = cy ? H : 0; double s = l.signedDistance[x + y*(W+1)];
        l.signedDistance[(cx ? W-1 : 1) + y*(W+1)] = s + r.real(-9e-7, 9e-7); l.signedDistance[x + (cy ? H-1 : 1)*(W+1)] = s + r.real(-9e-7, 9e-7);
    }
    note(fmt("%ux%u kind %d a=%.17g b=%.17g c=%.17g amp %g partial %d seedcase %d", W, H, kind, a, b, c, amp, (int)partial, k)); distinct(hashd(hashd(k, a), b));
    std::vector<double> sd = l.signedDistance, v = l.velocity;
    l.computeGradients();
    CHECK(l.signedDistance == sd && l.velocity == v, "signed distance or velocity changed");
    Ref ref(l);
    for (unsigned n = 0; n < N; n++) {
        int x = n % (W+1), y = n / (W+1); double g = l.gradient[n];
        if (!l.mesh.nodes[n].isActive) { CHECK(g == 0, "node %u is outside the band, its gradient is %.17g", n, g); continue; }
        CHECK(g >= 0, "gradient of node %u is %.17g", n, g);
        int f = ref.flat(x, y); if (f == 2) continue;
        double want = ref.grad(x, y, v[n]);
        CHECK(std::fabs(g - want) <= 1e-7*(1 + want), "gradient of node %u (%d, %d), velocity %g, is %.17g, expected %.17g", n, x, y, v[n], g, want);
        if (kind == 0) CHECK(std::fabs(g - std::hypot(a, b)) <= (f ? 5e-6 : 1e-9)*(1 + std::fabs(a) + std::fabs(b)), "linear field (%.17g, %.17g): gradient of node %u (%d, %d) is %.17g", a, b, n, x, y, g);
    }
}
