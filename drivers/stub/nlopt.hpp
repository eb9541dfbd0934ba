// Stand-in for the NLopt C++ interface (not installed here), as far as src/Optimise uses it.
// The optimiser is whatever `nlopt::stub_optimise` says: any point within the bounds may come back.
#ifndef NLOPT_HPP
#define NLOPT_HPP
#include <cmath>
#include <cstdlib>
#include <limits>
#include <vector>
#include <stdexcept>
#include <functional>
namespace nlopt
{
    enum algorithm { GN_DIRECT = 0, GN_DIRECT_L, LD_MMA = 24, LN_COBYLA = 25, LD_SLSQP = 40 };
    enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5, SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
    class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
    class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };
    typedef double (*vfunc)(const std::vector<double>& x, std::vector<double>& grad, void* data);
    class opt;
    extern std::function<result(opt&, std::vector<double>&, double&)> stub_optimise;
    class opt
    {
    public:
        struct Function { vfunc f; void* data; double tol; bool equality; };
        algorithm alg; unsigned n; std::vector<double> lb, ub; bool maximise = false; Function objective; std::vector<Function> constraints; int maxeval = 0; double xtol = 0;
        opt(algorithm a, unsigned n_) : alg(a), n(n_) {}
        void set_lower_bounds(const std::vector<double>& v) { if (v.size() != n) throw std::invalid_argument("nlopt invalid argument"); lb = v; }
        void set_upper_bounds(const std::vector<double>& v) { if (v.size() != n) throw std::invalid_argument("nlopt invalid argument"); ub = v; }
        void set_maxeval(int k) { maxeval = k; }
        void set_xtol_rel(double t) { xtol = t; }
        void set_min_objective(vfunc f, void* d) { objective = Function{f, d, 0, false}; maximise = false; }
        void set_max_objective(vfunc f, void* d) { objective = Function{f, d, 0, false}; maximise = true; }
        void add_equality_constraint(vfunc f, void* d, double tol) { constraints.push_back(Function{f, d, tol, true}); }
        void add_inequality_constraint(vfunc f, void* d, double tol) { constraints.push_back(Function{f, d, tol, false}); }
        result optimize(std::vector<double>& x, double& value) { if (x.size() != n) throw std::invalid_argument("nlopt invalid argument"); return stub_optimise(*this, x, value); }
    };
}
#endif
