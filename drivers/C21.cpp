// C21: the optimiser's displacements, functions, gradients and what solve() hands back, with NLopt replaced
// by the stand-in of drivers/stub/nlopt.hpp whose answer is any point within the limits.
#include "all.h"
#include "Optimise.h"
const int quick_cases = 4000, thorough_cases = 150000;
namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_optimise; }
typedef std::vector<double> Vec;
static bool close(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9*std::max(scale, std::max(std::fabs(a), std::fabs(b))) + 1e-300; }
struct Ref
{
    const std::vector<slsm::BoundaryPoint>* p;
    // displacement of point i for multipliers l (unscaled, by original function number), functions a active
    double disp(unsigned i, const Vec& l, const std::vector<unsigned>& a) const
    {
        const slsm::BoundaryPoint& b = (*p)[i]; if (b.isFixed) return 0;
        double d = 0; for (unsigned k : a) d += l[k]*b.sensitivities[k];
        if (b.isDomain && d < b.negativeLimit) d = b.negativeLimit;
        return d;
    }
    double change(unsigned k, const Vec& l, const std::vector<unsigned>& a) const
    {
        double s = 0; for (unsigned i = 0; i < p->size(); i++) s += disp(i, l, a)*(*p)[i].sensitivities[k]*(*p)[i].length;
        return s;
    }
};
void runcase(int k, Rng& r)
{
    unsigned n = r.below(6) == 0 ? 1 + r.below(3) : 2 + r.below(24), nc = k % 5 == 0 ? 0 : r.below(5), nf = nc + 1;
    std::vector<slsm::BoundaryPoint> pts(n);
    double cfl = r.chance(0.5) ? 0.5 : r.real(0.05, 0.95);
    int style = r.below(4);
    for (unsigned i = 0; i < n; i++) {
        slsm::BoundaryPoint& b = pts[i];
        b.coord.x = i; b.coord.y = 0; b.length = r.below(5) == 0 ? 0.01 : r.real(0.1, 1.4); b.velocity = -99;
        b.isFixed = i > 0 && r.below(5) == 0; b.isDomain = style == 1 ? r.chance(0.4) : style == 2 && r.below(9) == 0;
        b.negativeLimit = b.isDomain ? (r.chance(0.3) ? 0 : -cfl*r.unit()) : -cfl; b.positiveLimit = cfl;
        b.sensitivities.resize(nf + r.below(2));
        for (double& s : b.sensitivities) s = r.below(8) == 0 ? r.real(-40, 40) : r.real(-2, 2);
        for (unsigned f = 0; f < nf && i == 0; f++) if (std::fabs(b.sensitivities[f]) < 0.1) b.sensitivities[f] = 0.7;
    }
    Ref ref; ref.p = &pts;
    Vec sens(nf, 0.0);
    for (auto& b : pts) if (!b.isFixed) for (unsigned f = 0; f < nf; f++) sens[f] = std::max(sens[f], std::fabs(b.sensitivities[f]));
    Vec lim(nf); for (unsigned f = 0; f < nf; f++) lim[f] = cfl/sens[f];
    // distances of the constraints: violated, nearly met, far from active
    Vec dist(nc); std::vector<bool> equality(r.below(3) ? nc : 0);
    std::vector<unsigned> all; for (unsigned f = 0; f < nf; f++) all.push_back(f);
    for (unsigned c = 0; c < nc; c++) {
        double span = 0; for (unsigned i = 0; i < n; i++) if (!pts[i].isFixed) span += cfl*std::fabs(pts[i].sensitivities[c + 1])*pts[i].length;
        switch (r.below(5)) { case 0: dist[c] = 0; break; case 1: dist[c] = -span*r.real(0, 8); break; case 2: dist[c] = span*r.unit(); break; default: dist[c] = span*r.real(0.5, 9); }
    }
    for (unsigned c = 0; c < equality.size(); c++) equality[c] = r.chance(0.35);
    auto iseq = [&](unsigned f) { return f - 1 < equality.size() && equality[f - 1]; };
    bool isMax = r.chance(0.5);
    Vec lambdas(nf); for (double& x : lambdas) x = r.below(4) == 0 ? 0 : r.below(3) ? r.real(-1, 1) : r.real(-50, 50);
    double timeStep = -7;
    for (unsigned f = 0; f < nf; f++) note(fmt("function %u: start %.17g%s", f, lambdas[f], f ? fmt(" distance %.17g %s", dist[f-1], iseq(f) ? "equality" : "inequality").c_str() : isMax ? " maximise" : " minimise"));
    for (unsigned i = 0; i < n; i++) { std::string s; for (double x : pts[i].sensitivities) s += fmt(" %.17g", x); note(fmt("point %u: length %.17g%s%s limit %.17g sensitivities%s", i, pts[i].length, pts[i].isFixed ? " fixed" : "", pts[i].isDomain ? " domain" : "", pts[i].negativeLimit, s.c_str())); }
    // the constraints that stay: inequalities that no corner of the box of limits can break are left out, and again
    std::vector<unsigned> act = all; Vec target = dist; bool close_call = false;
    for (bool again = nc > 0; again;) {
        std::vector<unsigned> keep{0};
        for (size_t a = 1; a < act.size(); a++) {
            double lo = 1e300, hi = -1e300;
            for (unsigned v = 0; v < (1u << act.size()); v++) {
                Vec l(nf, 0.0); for (size_t b = 0; b < act.size(); b++) l[act[b]] = v >> b & 1 ? lim[act[b]] : -lim[act[b]];
                double c = ref.change(act[a], l, act); lo = std::min(lo, c); hi = std::max(hi, c);
            }
            lo *= 0.99; hi *= 0.99; double d = dist[act[a] - 1];
            if (close(d, hi, std::fabs(hi)) || (d != 0 && close(d, lo, std::fabs(lo)))) close_call = true;
            if (d < 0) { if (d < lo) target[act[a] - 1] = lo; keep.push_back(act[a]); }
            else if (d > hi && !iseq(act[a])) continue;
            else { if (d > hi) target[act[a] - 1] = hi; keep.push_back(act[a]); }
        }
        again = keep.size() < act.size() && keep.size() > 1; act = keep;
    }
    if (close_call) return;
    unsigned na = act.size();
    slsm::Optimise o(pts, dist, lambdas, timeStep, cfl, isMax, equality);
    Vec answer(nf, 0.0); double value = 0; int throwing = r.below(6) == 0 ? 1 + r.below(2) : 0; double shrink = 1; bool asked = false;
    uint64_t seed = r.next();
    nlopt::stub_optimise = [&](nlopt::opt& q, Vec& x, double& f) -> nlopt::result {
        Rng t(seed); asked = true;
        CHECK(q.n == na && x.size() == na && q.lb.size() == na && q.ub.size() == na, "the optimiser has %u variables, a start of %zu and bounds of %zu and %zu; %u functions are active", q.n, x.size(), q.lb.size(), q.ub.size(), na);
        CHECK(q.maximise == isMax, "the objective is %s", q.maximise ? "maximised" : "minimised");
        CHECK(q.constraints.size() == na - 1, "%zu constraints are posed, %u are active", q.constraints.size(), na - 1);
        for (unsigned j = 0; j < na; j++) {
            CHECK(q.ub[j] > 0 && close(q.lb[j], -q.ub[j], 0), "limits of function %u: %.17g .. %.17g", act[j], q.lb[j], q.ub[j]);
            CHECK(q.lb[j] <= x[j] && x[j] <= q.ub[j], "start of function %u is %.17g, outside of %.17g .. %.17g", act[j], x[j], q.lb[j], q.ub[j]);
        }
        // scale factor of a function: its limit on the multiplier, unscaled, is CFL / largest sensitivity
        Vec F(na); for (unsigned j = 0; j < na; j++) F[j] = lim[act[j]]/q.ub[j];
        std::vector<unsigned> order; std::vector<char> used(na, 0);
        for (unsigned c = 0; c < 3; c++) {
            Vec l(nf, 0.0), y(na); double size = 0;
            for (unsigned j = 0; j < na; j++) { y[j] = c == 0 ? 0 : t.real(q.lb[j], q.ub[j]); l[act[j]] = y[j]*F[j]; }
            for (unsigned w = 0; w < na; w++) {
                nlopt::opt::Function fn = w ? q.constraints[w - 1] : q.objective;
                CHECK(fn.f != nullptr, "function %u is not registered", w);
                bool grad = c < 2; Vec g(grad ? na : 0, 77.0);
                double got = fn.f(y, g, fn.data);
                for (unsigned i = 0; i < n; i++) { double d = ref.disp(i, l, act), z = 0; for (unsigned a : act) z += std::fabs(l[a]*pts[i].sensitivities[a]);
                    CHECK(close(o.displacements[i], d, z), "displacement of point %u is %.17g, not %.17g", i, o.displacements[i], d); }
                unsigned a = act[w]; double want = ref.change(a, l, act), z = 0;
                for (unsigned i = 0; i < n; i++) z += std::fabs(pts[i].sensitivities[a])*pts[i].length*3;
                if (w) { want -= shrink*target[a - 1]; z += std::fabs(target[a - 1]); }
                want *= F[w];
                CHECK(close(got, want, z*F[w]), "change of function %u is %.17g, not %.17g", a, got, want);
                if (w) CHECK(fn.equality == iseq(a), "constraint %u is posed as an %s", a, fn.equality ? "equality" : "inequality");
                if (grad) {
                    CHECK(g.size() == na, "gradient of function %u has %zu entries", a, g.size());
                    for (unsigned j = 0; j < na; j++) {
                        double e = 0, es = 0; for (auto& b : pts) if (!b.isFixed) { double u = b.sensitivities[a]*b.sensitivities[act[j]]*b.length*F[w]*F[j]; e += u; es += std::fabs(u); }
                        CHECK(close(g[j], e, es), "gradient of function %u along multiplier %u is %.17g, not %.17g", a, act[j], g[j], e);
                    }
                }
                size += got;
            }
        }
        // any answer within the limits
        for (unsigned j = 0; j < na; j++) {
            switch (t.below(4)) { case 0: x[j] = q.ub[j]; break; case 1: x[j] = q.lb[j]; break; case 2: x[j] = j ? 0 : 0.3*q.lb[0]; break; default: x[j] = t.real(q.lb[j], q.ub[j]); }
            if (j == 0 && x[0] == 0) x[0] = q.ub[0];
            answer[act[j]] = x[j]*F[j];
        }
        Vec g; f = value = q.objective.f(x, g, q.objective.data); value /= F[0];
        if (throwing-- > 0) { o.returnCode = nlopt::ROUNDOFF_LIMITED; shrink *= 0.7; throw nlopt::roundoff_limited(); }
        return nlopt::XTOL_REACHED;
    };
    double result = o.solve();
    CHECK(asked, "the optimiser was not called");
    CHECK(lambdas.size() == nf, "%zu multipliers are returned for %u functions", lambdas.size(), nf);
    double big = 0; for (unsigned i = 0; i < n; i++) big = std::max(big, std::fabs(ref.disp(i, answer, act)));
    double scale = big > cfl ? cfl/big : 1;
    for (unsigned a : act) CHECK(close(lambdas[a], scale*answer[a], lim[a]), "multiplier of function %u is %.17g, not %.17g", a, lambdas[a], scale*answer[a]);
    CHECK(timeStep == std::fabs(lambdas[0]), "time step %.17g, multiplier of the objective %.17g", timeStep, lambdas[0]);
    bool clipped = false;
    for (unsigned i = 0; i < n; i++) {
        double d = ref.disp(i, lambdas, act), z = 0; for (unsigned a : act) z += std::fabs(lambdas[a]*pts[i].sensitivities[a]);
        if (pts[i].isDomain) clipped = true;
        if (pts[i].isFixed) { CHECK(pts[i].velocity == 0, "fixed point %u has velocity %.17g", i, pts[i].velocity); continue; }
        CHECK(close(pts[i].velocity*timeStep, d, z), "point %u moves by %.17g in the time step, not %.17g", i, pts[i].velocity*timeStep, d);
        CHECK(std::fabs(pts[i].velocity*timeStep) <= cfl*(1 + 1e-9), "point %u moves by %.17g, the limit is %.17g", i, pts[i].velocity*timeStep, cfl);
    }
    if (!clipped) CHECK(close(result, scale*value, std::fabs(value)), "the objective changes by %.17g, not %.17g", result, scale*value);
    distinct(hashmix(hashmix(n*64 + na*8 + nc, style*4 + (scale < 1)*2 + isMax), hashd(1, timeStep)));
}
