// C11: fast marching reinitialisation against a reference that scans for the smallest tentative value.
#include "fmmref.h"
const int quick_cases = 6000, thorough_cases = 100000;
static std::vector<double> field(Rng& r, unsigned W, unsigned H, std::string& kind)
{
    unsigned N = (W+1)*(H+1); std::vector<double> s(N); int k = r.below(7); kind = fmt("kind %d", k);
    double cx = r.real(0, W), cy = r.real(0, H), R = r.real(0.4, 0.6*std::max(W, H)), A = r.real(-1, 1), B = r.real(-1, 1), scale = r.chance(0.5) ? 1 : std::pow(10.0, r.real(-9, 3)), ph = r.real(0, 6);
    if (k == 3) { cx = r.range(0, W); cy = r.range(0, H); R = r.range(1, 5); }
    if (k == 4) { A = 0; B = 1; cy = r.range(0, H) + (r.chance(0.5) ? 0 : 0.5); }
    for (unsigned n = 0; n < N; n++) {
        double x = n % (W+1), y = n / (W+1);
        if (k == 0 || k == 3) s[n] = std::hypot(x - cx, y - cy) - R;
        else if (k == 1 || k == 4) s[n] = A*(x - cx) + B*(y - cy);
        else if (k == 2) s[n] = std::sin(0.7*x + ph)*std::cos(0.9*y + A) + 0.5*B;
        else if (k == 5) s[n] = r.real(-1, 1);                       // rough
        else s[n] = std::floor(r.real(-3, 4));                       // many zeros and ties
        s[n] *= scale;
        if (k != 3 && k != 4 && k != 6 && r.chance(0.03)) s[n] = 0;
    }
    return s;
}
static bool spans(const std::vector<double>& s) { bool a = false, b = false; for (double d : s) { if (d == 0) return true; (d < 0 ? a : b) = true; } return a && b; }
void runcase(int k, Rng& r)
{
    unsigned W = r.range(1, 14), H = r.range(1, 14); if (r.chance(0.05)) { W = r.range(15, 40); H = r.range(15, 40); } if (r.chance(0.1)) W = 1; if (r.chance(0.1)) H = 1;
    std::string kind; std::vector<double> s = field(r, W, H, kind), t = s;
    std::string vals; if (s.size() <= 60) for (double d : s) vals += fmt(" %.17g", d);
    note(fmt("%ux%u %s:%s", W, H, kind.c_str(), vals.c_str())); distinct(hashmix(hashmix(W, H), k));
    bool viaLS = r.chance(0.4); unsigned bw = r.range(3, 7); bool fixed = r.chance(0.5);
    slsm::Mesh mesh(W, H);
    Ref q(W, H, s); int frozen = q.freeze();
    std::vector<int> initially = q.st;
    bool ex;
    if (viaLS) {
        LS l(W, H, Holes(1, slsm::Hole(1, 1, 0.5)), 0.5, bw, fixed); l.signedDistance = s;
        ex = exits([&]{ l.reinitialise(); }); t = l.signedDistance;
        if (!ex) checkband(l, bw, fixed);
    } else { slsm::FastMarchingMethod f(mesh, false); ex = exits([&]{ f.march(t); }); }
    CHECK(ex == (frozen == 0), "%s although %d nodes lie on or next to the contour", ex ? "refused" : "accepted", frozen);
    if (ex) return;
    for (int n = 0; n < q.N; n++) {
        CHECK(std::isfinite(t[n]) && (t[n] < 0) == (s[n] < 0) && (t[n] > 0) == (s[n] > 0), "node %d: sign changed, %.17g to %.17g", n, s[n], t[n]);
        if (initially[n]) CHECK(near(t[n], q.v[n], 1e-12), "node %d on or next to the contour: %.17g, linear interpolation gives %.17g", n, t[n], q.v[n]);
    }
    q.run();
    if (q.delicate) return;
    for (int n = 0; n < q.N; n++) CHECK(near(t[n], q.v[n], 1e-7), "node %d: %.17g, fast marching gives %.17g", n, t[n], q.v[n]);
}
