// C22: stochastic velocities.
#include "ls.h"
const int quick_cases = 300, thorough_cases = 4000;
void runcase(int k, Rng& r)
{
    unsigned W = r.range(12, 26), H = r.range(12, 26); double ml = r.real(0.1, 0.9);
    Holes h; h.push_back(slsm::Hole(r.real(5, W-5), r.real(5, H-5), r.real(2.1, 4.2)));
    LS l(W, H, h, ml, 6, false); l.reinitialise();
    slsm::Boundary b; b.discretise(l);
    double T = k % 7 == 0 ? 0 : r.real(0.001, 2), dt, lim = T > 0 ? ml*ml/(8*T) : 1;
    switch (k % 3) { case 0: dt = lim*r.real(0.05, 0.98); break; case 1: dt = lim*r.real(1.02, 30); break; default: dt = r.real(0.001, 2); }
    if (T > 0 && std::fabs(dt/lim - 1) < 1e-6) return;
    unsigned seed = (unsigned)r.next();
    for (auto& p : b.points) p.velocity = r.real(-1, 1);
    for (auto& p : b.points) if (!(p.length > 1e-6)) return;
    note(fmt("%ux%u hole %s moveLimit %.17g T=%.17g dt=%.17g seed %u points %zu", W, H, hstr(h).c_str(), ml, T, dt, seed, b.points.size())); distinct(hashd(hashd(k, T), dt));
    slsm::MersenneTwister g, t; g.setSeed(seed); t.setSeed(seed);
    std::vector<slsm::BoundaryPoint> p = b.points, o = b.points; LS l2(l); double step = dt;
    double scale = l.computeVelocities(p, step, T, g);
    bool cut = T > 0 && dt > lim;
    CHECK(near(step, cut ? lim : dt, 1e-9), "time step %.17g becomes %.17g, expected %.17g", dt, step, cut ? lim : dt);
    CHECK(near(scale, cut ? dt/lim : 1.0, 1e-9), "scale %.17g, expected %.17g", scale, cut ? dt/lim : 1.0);
    CHECK(p.size() == o.size(), "number of points");
    for (size_t i = 0; i < p.size(); i++) {
        double want = o[i].velocity + std::sqrt(2*T/step)/std::sqrt(o[i].length)*t.normal(0, 1);
        CHECK(near(p[i].velocity, want, 1e-9), "velocity of point %zu is %.17g, expected %.17g", i, p[i].velocity, want);
        CHECK(p[i].coord.x == o[i].coord.x && p[i].coord.y == o[i].coord.y && p[i].length == o[i].length, "point %zu changed", i);
    }
    CHECK(g.integer(0, INT_MAX) == t.integer(0, INT_MAX), "the generator made a different number of draws");
    l2.computeVelocities(p);
    for (unsigned n = 0; n < l.mesh.nNodes; n++) CHECK(near(l.velocity[n], l2.velocity[n], 1e-9), "extended velocity of node %u is %.17g, expected %.17g", n, l.velocity[n], l2.velocity[n]);
}
