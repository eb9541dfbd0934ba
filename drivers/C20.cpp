// C20: reproducible random streams.
#include "all.h"
const int quick_cases = 400, thorough_cases = 8000;
struct Op { int k; int a, b; double m, d; };
static std::vector<double> play(slsm::MersenneTwister& g, const std::vector<Op>& ops)
{
    std::vector<double> v;
    for (auto& o : ops) {
        if (o.k == 0) { double x = g(); CHECK(x >= 0 && x <= 1, "uniform variate %.17g", x); v.push_back(x); }
        else if (o.k == 1) { int x = g.integer(o.a, o.b); CHECK(x >= o.a && x <= o.b, "integer(%d, %d) gives %d", o.a, o.b, x); v.push_back(x); }
        else if (o.k == 2) v.push_back(g.normal());
        else v.push_back(g.normal(o.m, o.d));
    }
    return v;
}
static std::vector<Op> ops_(Rng& r, int n)
{
    std::vector<Op> v;
    for (int i = 0; i < n; i++) { Op o; o.k = r.below(4); o.a = r.chance(0.1) ? INT_MIN : r.range(-1000, 1000); o.b = r.chance(0.1) ? INT_MAX : o.a < 2000 && o.a > -2000 ? o.a + r.range(0, 20) : o.a + r.range(0, 20); if (o.b < o.a) o.b = o.a; o.m = r.real(-5, 5); o.d = r.real(0.01, 4); v.push_back(o); }
    return v;
}
void runcase(int k, Rng& r)
{
    unsigned seed = k % 4 ? (unsigned)r.next() : r.below(3);
    std::vector<Op> ops = ops_(r, r.range(1, 60)), other = ops_(r, r.range(0, 9));
    note(fmt("seed %u, %zu draws, %zu draws before", seed, ops.size(), other.size())); distinct(hashmix(seed, ops.size()));
    slsm::MersenneTwister a, b; unsigned sb = b.getSeed();
    a.setSeed(seed); CHECK(a.getSeed() == seed, "getSeed gives %u after setSeed(%u)", a.getSeed(), seed);
    std::vector<double> v = play(a, ops);
    CHECK(a.getSeed() == seed, "the reported seed changed to %u", a.getSeed());
    slsm::MersenneTwister c; play(c, other); c.setSeed(seed); std::vector<double> w = play(c, ops);
    for (size_t i = 0; i < v.size(); i++) CHECK(v[i] == w[i], "draw %zu after setSeed(%u) is %.17g or %.17g, depending on earlier use", i, seed, v[i], w[i]);
    play(a, other); a.setSeed(seed); w = play(a, ops);
    for (size_t i = 0; i < v.size(); i++) CHECK(v[i] == w[i], "draw %zu after setSeed(%u) is %.17g or %.17g, depending on earlier use", i, seed, v[i], w[i]);
    v = play(b, ops); c.setSeed(sb); w = play(c, ops);
    for (size_t i = 0; i < v.size(); i++) CHECK(v[i] == w[i], "draw %zu of a new generator (seed %u) is %.17g, %.17g after setSeed", i, sb, v[i], w[i]);
    // location and scale
    double m = r.real(-50, 50), d = r.real(0.1, 20);
    for (int i = 0; i < 20; i++) { a.setSeed(seed + i); c.setSeed(seed + i); double x = a.normal(m, d), z = c.normal(0, 1); CHECK(near(x, m + d*z, 1e-9), "normal(%g, %g) is %.17g, expected %.17g", m, d, x, m + d*z); }
    int lo = r.range(-5, 5), hi = lo + r.range(0, 4); std::vector<int> hit(hi - lo + 1, 0); double s = 0, s2 = 0, u = 0; const int n = 2000;
    for (int i = 0; i < n; i++) { int x = a.integer(lo, hi); CHECK(x >= lo && x <= hi, "integer(%d, %d) gives %d", lo, hi, x); hit[x - lo]++; double z = a.normal(); s += z; s2 += z*z; u += a(); }
    for (int i = 0; i <= hi - lo; i++) CHECK(hit[i] > 0, "integer(%d, %d) never gives %d", lo, hi, lo + i);
    CHECK(std::fabs(s/n) < 0.15 && std::fabs(s2/n - 1) < 0.25 && std::fabs(u/n - 0.5) < 0.06, "moments: normal mean %g variance %g, uniform mean %g", s/n, s2/n, u/n);
}
