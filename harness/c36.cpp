// C36: optimisation with CMA-ES (libcmaes is a stand-in, see libcmaes/cmaes.h), and the optimisers that are
// the default where NLopt is not used (no part of this file defines USE_NLOPT)
#if PART == 0
#define USE_LIBCMAES
#endif
#include "bo.hpp"
#if PART == 0
#include <limbo/opt/cmaes.hpp>
#endif
#include <limbo/opt/grid_search.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/null_function.hpp>
#define LV_CAT2(a, b) a##b
#define LV_CAT(a, b) LV_CAT2(a, b)
namespace LV_CAT(lv36_, PART) {
using namespace lv;
using limbo::acquifun;
using limbo::acquiopt;
using limbo::initfun;
using limbo::modelfun;
using limbo::statsfun;
using limbo::stopcrit;

#if PART == 0
namespace si = libcmaes::standin;
struct CCfg {
    int restarts = 1, max_fun_evals = -1, max_iters = -1, variant = aIPOP_CMAES, elitism = 0, lambda = -1;
    bool auto_max_iters = true, equal_fun_evals = true, stagnation = true, fun_compute_initial = false, handle_uncertainty = false, verbose = false, stochastic = false;
    double fun_tolerance = -1, xrel_tolerance = -1, fun_target = -1, lbound = 0, ubound = 1;
};
static CCfg& cc()
{
    static CCfg c;
    return c;
}
struct MP : public BP {
    struct opt_cmaes {
#define LV_P(T, n) \
    static T n() { return cc().n; }
        LV_P(int, restarts)
        LV_P(int, max_fun_evals)
        LV_P(int, max_iters)
        LV_P(int, variant)
        LV_P(int, elitism)
        LV_P(int, lambda)
        LV_P(bool, auto_max_iters)
        LV_P(bool, equal_fun_evals)
        LV_P(bool, stagnation)
        LV_P(bool, fun_compute_initial)
        LV_P(bool, handle_uncertainty)
        LV_P(bool, verbose)
        LV_P(bool, stochastic)
        LV_P(double, fun_tolerance)
        LV_P(double, xrel_tolerance)
        LV_P(double, fun_target)
        LV_P(double, lbound)
        LV_P(double, ubound)
    };
};
struct DP { // the declared defaults
    struct opt_cmaes : public limbo::defaults::opt_cmaes {
    };
};
// what the library is asked to do
template <typename Q>
void check_run(Src& s, const si::Run& r, const V& init, bool bounded, const Q& q)
{
    int n = init.size();
    s.check(r.bounded == bounded, "bounds");
    if (bounded) {
        s.check(r.lb == V::Constant(n, q.lbound) && r.ub == V::Constant(n, q.ubound), "values of the bounds", str(r.lb) + " " + str(r.ub));
        s.close(r.sigma, 0.5 * (q.ubound - q.lbound), 1e-12 * (q.ubound - q.lbound), "initial step size");
    }
    else
        s.close(r.sigma, 0.5, 0, "initial step size without bounds");
    s.check(r.x0.size() == n && (r.x0 - init).cwiseAbs().maxCoeff() <= 1e-7 * (1 + init.cwiseAbs().maxCoeff()), "start", str(r.x0) + " instead of " + str(init));
    s.check(r.lambda == q.lambda, "size of the population");
    auto set = [&](const char* k, double want) {
        auto i = r.set.find(k);
        s.check(i != r.set.end(), std::string("not set: ") + k);
        s.close(i->second, want, 1e-12 * std::abs(want), std::string("setting: ") + k);
    };
    auto crit = [&](int c, const char* k, bool want) {
        auto i = r.crit.find(c);
        s.check(i != r.crit.end(), std::string("criterion not set: ") + k);
        s.check(bool(i->second) == want, std::string("criterion: ") + k);
    };
    set("algo", q.variant);
    set("restarts", q.restarts);
    set("elitism", q.elitism);
    set("max_fevals", q.max_fun_evals < 0 ? 900. * (n + 3) * (n + 3) : q.max_fun_evals);
    if (q.max_iters < 0) {
        auto i = r.set.find("max_iter");
        s.check(i != r.set.end() && i->second > 0, "no safety limit of the iterations");
    }
    else
        set("max_iter", q.max_iters);
    set("initial_fvalue", q.fun_compute_initial);
    set("uh", q.handle_uncertainty);
    set("quiet", !q.verbose);
    crit(libcmaes::MAXFEVALS, "evaluations", true);
    crit(libcmaes::MAXITER, "iterations", true);
    crit(libcmaes::AUTOMAXITER, "automatic iterations", q.auto_max_iters);
    crit(libcmaes::TOLHISTFUN, "tolerance of the value", q.fun_tolerance >= 0);
    if (q.fun_tolerance >= 0)
        set("ftolerance", q.fun_tolerance);
    crit(libcmaes::FTARGET, "target", q.fun_target > 0);
    if (q.fun_target > 0)
        set("ftarget", -q.fun_target); // of the minimised function
    crit(libcmaes::EQUALFUNVALS, "equal values", q.equal_fun_evals);
    crit(libcmaes::TOLX, "tolerance of the point", q.xrel_tolerance > 0);
    if (q.xrel_tolerance > 0)
        set("xtolerance", q.xrel_tolerance);
    crit(libcmaes::STAGNATION, "stagnation", q.stagnation);
}
static void generations(Src& s)
{
    auto& l = si::log();
    l.runs.clear();
    int most = s.i(1, 5);
    bool far = s.p(0.3);
    l.candidates = [&s, most, far](const V& x0, double sigma, int g) {
        std::vector<V> c;
        if (g >= most || s.p(0.05))
            return c;
        for (int k = s.i(1, 5); k > 0; k--) {
            V x = x0;
            if (!s.p(0.1))
                for (int i = 0; i < x.size(); i++)
                    x(i) += sigma * s.normal() * (far ? 6 : 1);
            c.push_back(!c.empty() && s.p(0.1) ? c.back() : x);
        }
        return c;
    };
    l.mean = [&s](const V& x0) {
        V x = x0;
        for (int i = 0; i < x.size(); i++)
            x(i) += s.normal();
        return x;
    };
}
template <typename Opt>
void searches(Src& s, Opt opt, const CCfg& q, bool dflt)
{
    generations(s);
    auto& l = si::log();
    int general = 0, un = 0, bd = 0, stop_at = s.p(0.3) ? s.i(1, 3) : -1;
    bool hg = s.p(0.3), hu = s.p(0.3), hb = s.p(0.3);
    if (hg)
        opt.set_progress_function([&](const libcmaes::CMASolutions&) { general++; });
    if (hu)
        opt.set_unbounded_progress_function([&](const libcmaes::CMAParameters<libcmaes::GenoPheno<libcmaes::NoBoundStrategy>>&, const libcmaes::CMASolutions&) { return ++un == stop_at; });
    if (hb)
        opt.set_bounded_progress_function([&](const libcmaes::CMAParameters<libcmaes::GenoPheno<libcmaes::pwqBoundStrategy>>&, const libcmaes::CMASolutions&) { return ++bd == stop_at; });
    const Opt& o = opt;
    int evals = 0, calls = s.i(1, 3);
    for (int c = 0; c < calls; c++) {
        int n = s.size(1, 6, 20, 0.01), kind = s.u(4);
        bool bounded = s.b();
        double lo = bounded ? q.lbound : -3, hi = bounded ? q.ubound : 3, a = s.uni(-2, 2);
        V init(n);
        for (int i = 0; i < n; i++)
            init(i) = s.p(0.1) ? (s.b() ? lo : hi) : s.uni(lo, hi);
        s << " " << (bounded ? "bounded" : "unbounded") << " D=" << n << " f" << kind;
        std::vector<V> asked;
        std::vector<double> given;
        auto f = [&](const V& x, bool grad) {
            s.check(!grad, "a gradient is asked for");
            double y = kind == 0 ? -(x.array() - 0.3 * a).square().sum() : kind == 1 ? std::floor(3 * std::sin(5 * x(0) + a)) : kind == 2 ? a : std::cos(4 * x.sum()) + a * x(0);
            asked.push_back(x);
            given.push_back(y);
            return s.b() ? limbo::opt::no_grad(y) : limbo::opt::eval_t{y, V(V::Ones(x.size()))};
        };
        general = un = bd = 0;
        size_t before = l.runs.size();
        V r = o(f, init, bounded);
        s.check(l.runs.size() == before + 1, "runs of CMA-ES", std::to_string(l.runs.size() - before));
        auto& run = l.runs.back();
        check_run(s, run, init, bounded, q);
        s.check(same(asked, run.x), "the function is not called at the candidates", std::to_string(asked.size()) + " calls, " + std::to_string(run.x.size()) + " candidates");
        for (size_t i = 0; i < given.size(); i++)
            s.check(run.v[i] == -given[i], "CMA-ES does not minimise the opposite of the function", std::to_string(run.v[i]) + " for " + std::to_string(given[i]));
        if (bounded) {
            for (auto& x : asked)
                s.check(x.minCoeff() >= lo && x.maxCoeff() <= hi, "a candidate outside the bounds", str(x));
            s.check(r.size() == n && r.minCoeff() >= lo && r.maxCoeff() <= hi, "a result outside the bounds", str(r));
        }
        if (q.stochastic || q.handle_uncertainty)
            s.check(r.size() == n && (r - run.mean).cwiseAbs().maxCoeff() <= 1e-12 * (1 + run.mean.cwiseAbs().maxCoeff()), "the result is not the mean of the last distribution", str(r) + " instead of " + str(run.mean));
        else if (!asked.empty()) {
            size_t b = std::max_element(given.begin(), given.end()) - given.begin();
            bool best = false;
            for (size_t i = 0; i < asked.size(); i++)
                best = best || (given[i] == given[b] && (asked[i] - r).cwiseAbs().maxCoeff() <= 1e-12 * (1 + r.cwiseAbs().maxCoeff()));
            s.check(best, "the result is not the best candidate ever seen", str(r) + " instead of " + str(asked[b]));
        }
        bool own = bounded ? hb : hu;
        int want_own = own ? run.progress : 0, want_general = !own && hg ? run.progress : 0, want_d = own || hg ? 0 : run.progress;
        s.check((bounded ? bd : un) == want_own && (bounded ? un : bd) == 0, "calls of the specific progress function");
        s.check(general == want_general, "calls of the general progress function");
        s.check(run.dflt == want_d, "calls of the default progress function");
        evals = std::max<int>(evals, asked.size());
        if (own && stop_at > 0 && run.progress == stop_at)
            s.label("stopped by the progress function");
    }
    s.nontrivial(evals >= 3);
}
PBT_SUITE("cma-es", 3, "at least three candidates evaluated")
{
    if (s.p(0.1)) {
        s << "declared defaults";
        return searches(s, limbo::opt::Cmaes<DP>(), CCfg(), true);
    }
    auto& c = cc();
    c = CCfg();
    c.restarts = s.i(0, 12);
    c.max_fun_evals = s.p(0.3) ? -1 : s.i(0, 5000);
    c.max_iters = s.p(0.3) ? -1 : s.i(0, 5000);
    c.variant = s.i(0, 14);
    c.elitism = s.i(0, 3);
    c.lambda = s.p(0.3) ? -1 : s.i(2, 50);
    c.auto_max_iters = s.b();
    c.equal_fun_evals = s.b();
    c.stagnation = s.b();
    c.fun_compute_initial = s.b();
    c.handle_uncertainty = s.p(0.2);
    c.verbose = s.b();
    c.stochastic = s.p(0.3);
    c.fun_tolerance = s.p(0.3) ? -1 : s.logu(1e-12, 1);
    c.xrel_tolerance = s.p(0.3) ? -1 : s.logu(1e-12, 1);
    c.fun_target = s.p(0.3) ? -s.unit() : s.logu(1e-3, 1e3);
    if (s.p(0.5)) {
        c.lbound = s.uni(-5, 5);
        c.ubound = c.lbound + s.logu(0.01, 20);
    }
    s << "bounds " << c.lbound << "," << c.ubound;
    searches(s, limbo::opt::Cmaes<MP>(), c, false);
}
#else
struct MP : public BP {
};
#endif
struct AP : public MP {
    struct bayes_opt_cboptimizer {
        static int hp_period() { return bc().hp_period; }
        static bool bounded() { return bc().bounded; }
    };
    struct bayes_opt_ehvi : public limbo::defaults::bayes_opt_ehvi {
    };
};
using MGP = limbo::model::GP<AP, limbo::kernel::MaternFiveHalves<AP>, limbo::mean::Data<AP>, HPRec<AP>>;
using GS = limbo::init::GridSampling<AP>;
using Stop = limbo::stop::MaxIterations<AP>;
struct None {
    template <typename B, typename A>
    void operator()(const B&, const A&) {}
};
template <typename... X>
using Bo = limbo::bayes_opt::BOptimizer<AP, modelfun<MGP>, acquifun<RecAcq<AP, MGP>>, initfun<GS>, statsfun<None>, stopcrit<Stop>, X...>;
static int ncon;
struct CFn : public Fn {
    static size_t nb_constraints() { return ncon; }
};
struct CAcq : public RecAcq<AP, MGP> {
    CAcq(const MGP& m, const MGP& c, int it = 0) : RecAcq<AP, MGP>(m, it), _c(c) {}
    template <typename A>
    limbo::opt::eval_t operator()(const V& v, const A& a, bool g)
    {
        auto r = RecAcq<AP, MGP>::operator()(v, a, g);
        return limbo::opt::no_grad(std::get<0>(r) - (ncon > 0 ? 0.3 * _c.sigma(v) : 0.));
    }
    const MGP& _c;
};
template <typename... X>
using Cbo = limbo::experimental::bayes_opt::CBOptimizer<AP, modelfun<MGP>, limbo::experimental::constraint_modelfun<MGP>, acquifun<CAcq>, initfun<GS>, statsfun<None>, stopcrit<Stop>, X...>;
struct Hist {
    std::vector<V> x, aq;
};
template <typename B, typename F>
Hist history()
{
    auto& l = lg();
    size_t a0 = l.aq.size();
    B bo;
    bo.optimize(F());
    Hist h;
    h.x = bo.samples();
    h.aq.assign(l.aq.begin() + a0, l.aq.end());
    return h;
}
// B: the acquisition optimiser is left out; G: it is the search on a grid
template <typename F, typename B, typename G>
void acquisition(Src& s, int outputs)
{
    auto& l = lg();
    bc().din = s.i(1, 2);
    bc().dout = s.i(1, 2);
    bc().gs_bins = s.i(1, 2);
    bc().grid_opt_bins = s.i(1, 5);
    bc().iterations = s.i(0, 4);
    l.f = gen_fn(s, bc().dout + outputs);
    size_t ni = std::pow(bc().gs_bins + 1, bc().din);
    s << "D=" << bc().din << " x" << bc().iterations;
#if PART == 0
    bc().bounded = s.p(0.7);
    cc() = CCfg();
    generations(s);
    auto h = history<B, F>();
    auto& runs = si::log().runs;
    s.check((int)runs.size() == bc().iterations, "the acquisition function is not optimised once per iteration with CMA-ES", std::to_string(runs.size()));
    size_t k = 0;
    for (size_t i = 0; i < runs.size(); i++) {
        auto& r = runs[i];
        s.check(r.bounded == bc().bounded, "bounds of the acquisition optimisation");
        if (r.x.empty())
            continue;
        for (auto& x : r.x)
            s.check(k < h.aq.size() && h.aq[k++] == x, "the acquisition function is not what CMA-ES optimises");
        double m = *std::min_element(r.v.begin(), r.v.end());
        bool best = false;
        for (size_t j = 0; j < r.x.size(); j++)
            best = best || (r.v[j] == m && (r.x[j] - h.x[ni + i]).cwiseAbs().maxCoeff() <= 1e-12 * (1 + r.x[j].cwiseAbs().maxCoeff()));
        s.check(best, "the evaluated point is not the best one CMA-ES found", str(h.x[ni + i]));
    }
    s.check(k == h.aq.size(), "other evaluations of the acquisition function");
#else
    size_t n0 = l.evals.size();
    auto h = history<B, F>();
    auto f = l.f;
    size_t n1 = l.evals.size();
    l.f = [f, n0, n1](const V& x, size_t k) { return f(x, k - (n1 - n0)); }; // the same values again
    auto g = history<G, F>();
    s.check(same(h.x, g.x) && same(h.aq, g.aq), "the acquisition function is not optimised on the grid");
    (void)ni;
#endif
    s.nontrivial(bc().iterations >= 2);
}
using Grid = acquiopt<limbo::opt::GridSearch<AP>>;
#if PART == 0
#define LV_WITH "with libcmaes"
#else
#define LV_WITH "without libraries"
#endif
PBT_SUITE("acquisition optimiser " LV_WITH, 1, "at least two iterations")
{
    reset_bo(s);
    acquisition<Fn, Bo<>, Bo<Grid>>(s, 0);
}
PBT_SUITE("constrained acquisition optimiser " LV_WITH, 1, "at least two iterations")
{
    reset_bo(s);
    ncon = s.i(0, 2);
    acquisition<CFn, Cbo<>, Cbo<Grid>>(s, ncon);
}
// multi-objective optimisation: one search from each point of the Pareto set
template <int D>
struct EFn {
    static constexpr size_t dim_in() { return D; }
    static constexpr size_t dim_out() { return 2; }
    V operator()(const V& x) const { return Fn()(x); }
};
template <typename... X>
using Ehvi = limbo::experimental::bayes_opt::Ehvi<AP, modelfun<MGP>, initfun<GS>, statsfun<None>, stopcrit<Stop>, X...>;
template <int D>
void ehvi(Src& s)
{
    auto& l = lg();
    bc().gs_bins = s.i(1, 2);
    bc().grid_opt_bins = s.i(1, 5);
    bc().iterations = s.i(1, 4);
    bc().bounded = s.b(); // not used here: the searches are bounded
    l.f = gen_fn(s, 2);
    size_t ni = std::pow(bc().gs_bins + 1, D), searches = 0;
    s << "D=" << D << " x" << bc().iterations;
#if PART == 0
    cc() = CCfg();
    generations(s);
    size_t e0 = l.evals.size();
    history<Ehvi<>, EFn<D>>();
    auto& runs = si::log().runs;
    for (size_t n = ni; e0 + n < l.evals.size(); n++) {
        std::vector<V> want;
        for (size_t i = 0; i < n; i++) {
            bool dom = false;
            for (size_t j = 0; j < n; j++) {
                V d = l.evals[e0 + j].y - l.evals[e0 + i].y;
                dom = dom || (d.minCoeff() >= 0 && d.maxCoeff() > 0);
            }
            if (!dom)
                want.push_back(l.evals[e0 + i].x);
        }
        s.check(runs.size() >= searches + want.size(), "fewer searches than points in the Pareto set", std::to_string(runs.size()));
        bool candidate = false;
        V x = l.evals[e0 + n].x;
        for (size_t k = want.size(); k > 0; k--) {
            auto& r = runs[searches++];
            s.check(r.bounded, "bounds of the acquisition optimisation");
            auto i = std::find_if(want.begin(), want.end(), [&](const V& w) { return (w - r.x0).cwiseAbs().maxCoeff() <= 1e-7; });
            s.check(i != want.end(), "a search does not start at a point of the Pareto set", str(r.x0));
            want.erase(i);
            candidate = candidate || r.x.empty();
            for (auto& c : r.x)
                candidate = candidate || (c - x).cwiseAbs().maxCoeff() <= 1e-12 * (1 + c.cwiseAbs().maxCoeff());
        }
        s.check(candidate, "the evaluated point is not a result of CMA-ES", str(x));
    }
    s.check(searches == runs.size() && l.evals.size() == e0 + ni + bc().iterations, "searches", std::to_string(runs.size()));
#else
    size_t n0 = l.evals.size();
    auto h = history<Ehvi<>, EFn<D>>();
    auto f = l.f;
    size_t n1 = l.evals.size();
    l.f = [f, n0, n1](const V& x, size_t k) { return f(x, k - (n1 - n0)); };
    auto g = history<Ehvi<Grid>, EFn<D>>();
    s.check(same(h.x, g.x), "the acquisition function is not optimised on the grid");
    s.check(h.x.size() == ni + bc().iterations, "evaluations");
    (void)searches;
#endif
    s.nontrivial(bc().iterations >= 2);
}
PBT_SUITE("multi-objective acquisition optimiser " LV_WITH, 1, "at least two iterations")
{
    reset_bo(s);
    bc().dout = 2;
    bc().din = s.i(1, 2);
    return bc().din == 1 ? ehvi<1>(s) : ehvi<2>(s);
}
}
