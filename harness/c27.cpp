// C27: constrained optimisation
#include "bo.hpp"
#include <limbo/kernel/exp.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
using namespace lv;
namespace ex = limbo::experimental;

static int ncon = 1;
struct CP : public BP {
    struct bayes_opt_cboptimizer {
        static int hp_period() { return bc().hp_period; }
        static bool bounded() { return bc().bounded; }
    };
    struct acqui_eci {
        static double jitter() { return bc().jitter; }
    };
};
struct CFn : public Fn {
    static size_t nb_constraints() { return ncon; }
};
static std::vector<V> objs(const std::vector<V>& y)
{
    std::vector<V> r;
    for (auto& v : y)
        r.push_back(v.head(bc().dout));
    return r;
}
static std::vector<V> cons(const std::vector<V>& y)
{
    std::vector<V> r;
    for (auto& v : y)
        r.push_back(v.tail(ncon));
    return r;
}
// two different hyper-parameter optimisers, so that the two models can be told apart
static int hp_obj, hp_con;
template <typename Params>
struct HPObj : public HPRec<Params> {
    template <typename GP>
    void operator()(GP& gp)
    {
        hp_obj++;
        HPRec<Params>::operator()(gp);
    }
};
template <typename Params>
struct HPCon : public HPRec<Params> {
    template <typename GP>
    void operator()(GP& gp)
    {
        hp_con++;
        HPRec<Params>::operator()(gp);
    }
};
using OM = limbo::model::GP<CP, limbo::kernel::MaternFiveHalves<CP>, limbo::mean::Data<CP>, HPObj<CP>>;
using CM = limbo::model::GP<CP, limbo::kernel::Exp<CP>, limbo::mean::Data<CP>, HPCon<CP>>;
static std::function<void(const OM&, const CM&, int)> on_acq;
static int acq_made;
struct CAcq {
    CAcq(const OM& m, const CM& c, int it = 0) : _m(m), _c(c)
    {
        acq_made++;
        if (on_acq)
            on_acq(m, c, it);
    }
    size_t dim_in() const { return _m.dim_in(); }
    size_t dim_out() const { return _m.dim_out(); }
    template <typename A>
    limbo::opt::eval_t operator()(const V& v, const A& a, bool g)
    {
        Log& l = lg();
        l.aq.push_back(v);
        l.acq_grad = g;
        l.acq_agg = agg_id(a);
        return limbo::opt::no_grad(a(_m.mu(v)) + std::sqrt(_m.sigma(v)));
    }
    const OM& _m;
    const CM& _c;
};
static int seen_stats;
struct CStat : public limbo::stat::StatBase<CP> {
    template <typename B, typename A>
    void operator()(const B& bo, const A& a) { seen_stats++; }
};
template <typename Init>
struct Types {
    using ao = limbo::acquiopt<RecOpt<CP>>;
    using st = limbo::statsfun<boost::fusion::vector<CStat>>;
    using in = limbo::initfun<Init>;
    using ac = limbo::acquifun<CAcq>;
    using sc = limbo::stopcrit<limbo::stop::MaxIterations<CP>>;
    using mf = limbo::modelfun<OM>;
    using cm = ex::constraint_modelfun<CM>;
    using A = ex::bayes_opt::CBOptimizer<CP, mf, ac, st, in, sc, ao, cm>;
    using B = ex::bayes_opt::CBOptimizer<CP, cm, ao, sc, in, st, ac, mf>;
    using C = ex::bayes_opt::CBOptimizer<CP, ao, mf, cm, ac, in, sc, st>;
};
static double agree(const V& a, const V& b) { return (a - b).cwiseAbs().maxCoeff(); }

template <typename B>
void run(Src& s, int ninit)
{
    s.check(std::is_same<typename B::model_t, OM>::value && std::is_same<typename B::constraint_model_t, CM>::value && std::is_same<typename B::acqui_optimizer_t, RecOpt<CP>>::value, "parts/a named argument is not taken into account");
    B bo;
    auto& l = lg();
    size_t start = 0;
    int total = 0, did = 0, feas_seen = 0;
    hp_obj = hp_con = 0;
    int runs = s.i(1, 3);
    for (int r = 0; r < runs; r++) {
        bool reset = r == 0 ? s.p(0.8) : s.b();
        int its = bc().iterations = s.size(0, 6, 40, 0.01);
        Agg a;
        a.id = s.i(0, 3);
        s << " " << (reset ? "reset" : "continue") << "x" << its << "a" << a.id;
        size_t e0 = l.evals.size(), o0 = l.opts.size();
        int acq0 = acq_made, st0 = seen_stats, next = 0, ho = hp_obj, hc = hp_con;
        on_acq = [&](const OM& m, const CM& c, int it) {
            size_t b = reset ? e0 : start;
            auto X = good_x(b), Y = good_y(b);
            s.check(it == next++, "run/iteration given to the acquisition function");
            s.check(same(m.samples(), X) && same(m.observations(), objs(Y)), "run/objective model is not the history", std::to_string(m.samples().size()) + " samples of " + std::to_string(X.size()));
            s.check(ncon == 0 || (same(c.samples(), X) && same(c.observations(), cons(Y))), "run/constraint model is not the history", std::to_string(c.samples().size()) + " samples of " + std::to_string(X.size()));
            s.check((int)m.mu(vec(s, bc().din)).size() == bc().dout && (ncon == 0 || (int)c.mu(vec(s, bc().din)).size() == ncon), "run/number of outputs of the models");
            if (X.empty() || !s.p(0.3))
                return;
            // the models predict like fresh ones
            V q = vec(s, bc().din);
            OM m2 = m;
            m2.compute(X, objs(Y));
            double sc = 1;
            for (auto& y : Y)
                sc = std::max(sc, y.cwiseAbs().maxCoeff());
            s.check(agree(m.mu(q), m2.mu(q)) <= 1e-6 * sc, "run/objective model is not consistent");
            if (ncon > 0) {
                CM c2 = c;
                c2.compute(X, cons(Y));
                s.check(agree(c.mu(q), c2.mu(q)) <= 1e-6 * sc, "run/constraint model is not consistent");
            }
        };
        bo.optimize(CFn(), a, reset);
        on_acq = nullptr;
        if (reset) {
            start = e0;
            total = 0;
        }
        int design = (reset || total == 0) ? ninit : 0;
        s.check(l.evals.size() == e0 + design + its, "run/number of evaluations");
        s.check(acq_made - acq0 == its && seen_stats - st0 == its, "run/one acquisition function and one statistics update per iteration");
        auto X = good_x(start), Y = good_y(start);
        s.check(same(bo.samples(), X) && same(bo.observations(), Y), "run/history");
        for (int k = 0; k < its; k++)
            s.check(same(l.opts[o0 + k].ret, l.evals[e0 + design + k].x) && l.opts[o0 + k].bounded == bc().bounded, "run/evaluated another point than the acquisition optimiser returned");
        for (int k = 0; k < its; k++) {
            const V& x0 = l.opts[o0 + k].start;
            s.check((int)x0.size() == bc().din && finite(x0) && (!bc().bounded || in_unit(x0)), "run/start of the acquisition optimiser", str(x0));
        }
        s.check(its == 0 || l.acq_agg == a.id, "run/aggregator given to the acquisition function");
        int nhp = 0;
        for (int k = 0; k < its; k++)
            nhp += bc().hp_period > 0 && (k + 1) % bc().hp_period == 0;
        s.check(hp_obj - ho == nhp && hp_con - hc == (ncon > 0 ? nhp : 0), "run/hyper-parameter optimisations");
        total += its;
        did += its;
        s.check(bo.current_iteration() == its && bo.total_iterations() == total, "run/counters");
        if (X.empty())
            continue;
        s.check(same(bo.model().samples(), X) && same(bo.model().observations(), objs(Y)), "end/objective model is not the history", std::to_string(bo.model().samples().size()) + " samples of " + std::to_string(X.size()));
        // the best point
        Agg b;
        b.id = s.i(0, 3);
        int best = -1, feas = 0;
        for (size_t k = 0; k < Y.size(); k++) {
            bool ok = true;
            for (int j = 0; j < ncon; j++)
                ok = ok && Y[k](bc().dout + j) > 0;
            feas += ok;
        }
        for (size_t k = 0; k < Y.size(); k++) {
            bool ok = true;
            for (int j = 0; j < ncon; j++)
                ok = ok && Y[k](bc().dout + j) > 0;
            if (feas > 0 && !ok)
                continue;
            if (best < 0 || b(Y[k].head(bc().dout)) > b(Y[best].head(bc().dout)))
                best = k;
        }
        feas_seen += feas > 0 && feas < (int)Y.size();
        V bs; // in either order
        bool sample_first = s.b();
        if (sample_first)
            bs = bo.best_sample(b);
        const V bo1 = bo.best_observation(b), bo2 = bo.best_observation(b);
        if (!sample_first)
            bs = bo.best_sample(b);
        s.check(bo1.size() == bc().dout && same(bo1, bo2), "best/observation");
        V want = Y[best].head(bc().dout);
        s.check(b(bo1) == b(want), "best/observation", str(bo1) + " instead of " + str(want));
        bool found = false;
        for (size_t k = 0; k < Y.size(); k++) {
            bool ok = true;
            for (int j = 0; j < ncon; j++)
                ok = ok && Y[k](bc().dout + j) > 0;
            found = found || (same(X[k], bs) && same(V(Y[k].head(bc().dout)), bo1) && (ok || feas == 0));
        }
        s.check(found, "best/sample is not where the best feasible value was observed", str(bs));
    }
    s.nontrivial(did >= 2 && (ncon == 0 || feas_seen > 0));
    s.label(ncon == 0 ? "no constraint" : ncon == 1 ? "one constraint" : "several constraints");
}
static void setup(Src& s)
{
    reset_bo(s);
    acq_made = seen_stats = 0;
    ncon = s.i(0, 3);
    bc().bounded = s.p(0.8);
    bc().hp_period = s.pick(std::vector<int>{-1, -1, 1, 2, 3});
    bc().rs_samples = s.size(0, 5, 40, 0.01);
    auto f = lg().f;
    int d = bc().dout, kind = s.i(0, 3), seed = s.i(0, 1000);
    s << " constraints=" << ncon << " kind " << kind << " dout " << d << " init " << bc().rs_samples;
    // satisfied everywhere, nowhere, in a half-space, or haphazardly
    lg().f = [=](const V& x, size_t k) {
        V y = f(x, k), r(d + ncon);
        r.head(d) = y;
        for (int j = 0; j < ncon; j++) {
            bool ok = kind == 0 ? true : kind == 1 ? false : kind == 2 ? x(j % x.size()) < 0.5 : ((k * 2654435761u + seed + j * 7919u) >> 4) % 3 != 0;
            r(d + j) = ok ? 1 + 0.25 * ((k + j) % 3) : 0;
        }
        return r;
    };
}
PBT_SUITE("run", 4, "at least two iterations; with constraints, both feasible and infeasible points in some history")
{
    setup(s);
    int w = s.i(0, 3);
    s << " arguments " << w;
    if (w == 0)
        run<typename Types<limbo::init::RandomSampling<CP>>::A>(s, bc().rs_samples);
    else if (w == 1)
        run<typename Types<limbo::init::RandomSampling<CP>>::B>(s, bc().rs_samples);
    else if (w == 2)
        run<typename Types<limbo::init::RandomSampling<CP>>::C>(s, bc().rs_samples);
    else
        run<typename Types<limbo::init::NoInit<CP>>::A>(s, 0);
}

// ---- the acquisition function
struct Pred {
    double a, b, c, v;
    int d, n;
    std::vector<V> X;
    V mu(const V& x) const
    {
        V r(d);
        for (int i = 0; i < d; i++)
            r(i) = a + b * (i + 1) * x.sum() + c * std::sin(3 * x(0));
        return r;
    }
    double sigma(const V& x) const { return v * (1 + 0.3 * std::cos(5 * x(0))); }
    std::tuple<V, double> query(const V& x) const { return std::make_tuple(mu(x), sigma(x)); }
    const std::vector<V>& samples() const { return X; }
    int nb_samples() const { return X.size(); }
    int dim_in() const { return X.empty() ? 1 : X[0].size(); }
    int dim_out() const { return d; }
};
static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.)); }
template <typename M, typename C>
void eci(Src& s, M& m, C& c, std::function<void()> grow)
{
    Agg a;
    a.id = s.i(0, 3);
    bc().jitter = s.pick(std::vector<double>{0., 0., 0.1, -0.05});
    ex::acqui::ECI<CP, M, C> acq(m, c, s.i(0, 20));
    bool nt = false;
    for (int k = 0; k < 4; k++) {
        V x = vec(s, bc().din);
        if (m.samples().size() && s.p(0.2))
            x = m.samples()[s.u(m.samples().size())];
        double got = limbo::opt::fun(acq(x, a, false)), want = 0;
        double sd = std::sqrt(m.sigma(x));
        if (m.samples().size() && sd >= 1e-9) {
            double f = -1e300;
            for (auto& q : m.samples())
                f = std::max(f, a(m.mu(q)));
            double d = a(m.mu(x)) - f - bc().jitter, z = d / sd;
            want = d * Phi(z) + sd * std::exp(-z * z / 2) / std::sqrt(2 * M_PI);
            double sc = std::sqrt(c.sigma(x));
            double pf = (c.samples().empty()) ? 1 : Phi((a(c.mu(x)) - 1) / sc);
            nt = nt || (pf > 0.01 && pf < 0.99 && want > 1e-6);
            want *= pf;
        }
        s.close(got, want, 1e-8 * (1 + sd + std::abs(want)), "acquisition/value", "expected constrained improvement");
        s.check(acq.dim_in() == (size_t)m.dim_in() && acq.dim_out() == (size_t)m.dim_out(), "acquisition/dimensions");
        if (s.p(0.3))
            grow();
    }
    s.nontrivial(nt);
}
PBT_SUITE("acquisition", 2, "a probability of feasibility between 0.01 and 0.99 and an expected improvement above 1e-6")
{
    reset_bo(s);
    if (s.b()) {
        auto gen = [&]() {
            Pred p;
            p.a = s.real(-2, 2);
            p.b = s.real(-1, 1);
            p.c = s.real(-1, 1);
            p.v = s.pick(std::vector<double>{0.5, 0.01, 4., 1., 1e-6, 1e-12, 1e-15});
            p.d = bc().dout;
            for (int k = s.i(0, 6); k > 0; k--)
                p.X.push_back(vec(s, bc().din));
            return p;
        };
        Pred m = gen(), c = gen();
        eci(s, m, c, [&]() { m.X.push_back(vec(s, bc().din)); });
    }
    else {
        OM m(bc().din, bc().dout);
        CM c(bc().din, bc().dout);
        int n = s.i(0, 6);
        auto y = [&](double l, double h) {
            V v(bc().dout);
            for (int i = 0; i < v.size(); i++)
                v(i) = s.uni(l, h);
            return v;
        };
        for (int k = 0; k < n; k++) {
            V x = vec(s, bc().din);
            m.add_sample(x, y(-2, 2));
            c.add_sample(x, y(0, 2));
        }
        eci(s, m, c, [&]() {
            V x = vec(s, bc().din);
            m.add_sample(x, y(-2, 2));
            c.add_sample(x, y(0, 2));
        });
    }
}
