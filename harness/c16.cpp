// C16: the history is exactly what was evaluated, in order
#include "bo.hpp"
#ifdef USE_NLOPT
#include <limbo/opt/nlopt_no_grad.hpp>
#endif
#include <limbo/acqui/ei.hpp>
#include <limbo/opt/grid_search.hpp>
using namespace lv;

struct NP {
    struct opt_nloptnograd {
        static int iterations() { return 30; }
        static double fun_tolerance() { return -1; }
        static double xrel_tolerance() { return -1; }
    };
};
// looks at the optimiser each time statistics are refreshed
struct Seen {
    int cur, tot;
    size_t evals, samples, observations;
    int agg;
};
static std::vector<Seen>& seen()
{
    static std::vector<Seen> v;
    return v;
}
struct RecStat : public limbo::stat::StatBase<BP> {
    template <typename B, typename A>
    void operator()(const B& bo, const A& a)
    {
        seen().push_back({bo.current_iteration(), bo.total_iterations(), lg().evals.size(), bo.samples().size(), bo.observations().size(), agg_id(a)});
    }
};

template <typename Init>
struct N {
};
template <typename P>
struct N<limbo::init::RandomSampling<P>> {
    static int n() { return std::max(0, bc().rs_samples); }
};
template <typename P>
struct N<limbo::init::LHS<P>> {
    static int n() { return bc().lhs_samples; }
};
template <typename P>
struct N<limbo::init::RandomSamplingGrid<P>> {
    static int n() { return bc().rg_samples; }
};
template <typename P>
struct N<limbo::init::NoInit<P>> {
    static int n() { return 0; }
};
template <typename P>
struct N<limbo::init::GridSampling<P>> {
    static int n()
    {
        int r = 1;
        for (int i = 0; i < bc().din; i++)
            r *= bc().gs_bins + 1;
        return r;
    }
};

template <typename Init, typename Model>
void history(Src& s)
{
    using B = BO<Init, Model, RecStat>;
    seen().clear();
    bool canunb = std::is_same<Init, limbo::init::RandomSampling<BP>>::value || std::is_same<Init, limbo::init::NoInit<BP>>::value;
    bc().bounded = !canunb || s.p(0.7);
    bc().hp_period = s.pick(std::vector<int>{-1, 1, 2, 3, 0});
    bc().rs_samples = s.size(0, 5, 40, 0.01);
    bc().lhs_samples = s.size(1, 5, 40, 0.01);
    bc().rg_samples = s.size(0, 5, 40, 0.01);
    bc().gs_bins = s.i(1, 2);
    B bo;
    size_t start = 0; // evaluations that belong to the current history
    int total = 0, runs = s.i(1, 4), did = 0;
    auto& l = lg();
    s << " bounded=" << bc().bounded << " hp=" << bc().hp_period << " runs:";
    bool mixed = false;
    for (int r = 0; r < runs; r++) {
        bool reset = r == 0 ? s.p(0.8) : s.b();
        int its = bc().iterations = s.weighted({1, 5}) ? s.size(0, 7, 40, 0.01) : 0;
        Agg a;
        a.id = s.i(0, 3);
        std::string w = std::string(r ? "later run/" : "first run/");
        s << " " << (reset ? "reset" : "continue") << "x" << its << "a" << a.id;
        if (r > 0 && reset != true && its > 0 && did > 0)
            mixed = true;
        size_t e0 = l.evals.size(), o0 = l.opts.size(), a0 = l.acq_iter.size(), s0 = seen().size();
        // the data the acquisition function sees is the whole history
        l.on_query = [&](const std::vector<V>& X, const std::vector<V>& Y) {
            size_t b = reset ? e0 : start;
            s.check(same(X, good_x(b)) && same(Y, good_y(b)), w + "the acquisition function looks at a model of other data", std::to_string(X.size()) + " samples in the model, " + std::to_string(l.evals.size() - b) + " in the history");
        };
        bo.optimize(Fn(), a, reset);
        l.on_query = nullptr;
        if (reset) {
            start = e0;
            total = 0;
        }
        // a continued run makes a new design only when no iteration was made yet
        int ninit = (reset || total == 0) ? N<Init>::n() : 0;
        s.check(l.evals.size() == e0 + ninit + its, w + "number of evaluations", std::to_string(l.evals.size() - e0) + " instead of " + std::to_string(ninit) + "+" + std::to_string(its));
        s.check(same(bo.samples(), good_x(start)), w + "samples() is not the sequence of evaluated points");
        s.check(same(bo.observations(), good_y(start)), w + "observations() is not the sequence of returned values");
        s.check(l.opts.size() == o0 + its && l.acq_iter.size() >= a0 + (its > 0), w + "acquisition optimisations");
        for (int k = 0; k < its; k++) {
            auto& o = l.opts[o0 + k];
            auto& e = l.evals[e0 + ninit + k];
            s.check(o.evals == e0 + ninit + k, w + "acquisition optimised at another time");
            s.check(same(o.ret, e.x), w + "evaluated another point than the acquisition optimiser returned", str(e.x) + " instead of " + str(o.ret));
            s.check(o.bounded == bc().bounded, w + "bounded flag of the acquisition optimiser");
            s.check(o.start.size() == bc().din && finite(o.start) && (!bc().bounded || in_unit(o.start)), w + "start of the acquisition optimiser", str(o.start));
        }
        std::vector<int> it(l.acq_iter.begin() + a0, l.acq_iter.end()), want;
        for (int k = 0; k < its; k++)
            want.push_back(k);
        s.check(it == want, w + "iteration given to the acquisition function");
        s.check(its == 0 || l.acq_agg == a.id, w + "aggregator given to the acquisition function");
        s.check((int)(seen().size() - s0) == its, w + "statistics refreshed once per iteration");
        for (int k = 0; k < its; k++) {
            auto& q = seen()[s0 + k];
            s.check(q.cur == k && q.tot == total + k, w + "iteration counters during the run", std::to_string(q.cur) + "," + std::to_string(q.tot) + " in iteration " + std::to_string(k) + " after " + std::to_string(total));
            s.check(q.evals == e0 + ninit + k + 1 && q.samples == q.evals - start && q.observations == q.samples, w + "history at the time of the statistics");
            s.check(q.agg == a.id, w + "aggregator given to the statistics");
        }
        total += its;
        did += its;
        s.check(bo.current_iteration() == its, w + "current_iteration after the run", std::to_string(bo.current_iteration()) + " instead of " + std::to_string(its));
        s.check(bo.total_iterations() == total, w + "total_iterations after the run", std::to_string(bo.total_iterations()) + " instead of " + std::to_string(total));
        for (size_t k = e0; bc().bounded && k < l.evals.size(); k++)
            s.check(in_unit(l.evals[k].x), w + "evaluated outside the unit hypercube", str(l.evals[k].x));
    }
    s.nontrivial(did >= 2);
    if (mixed)
        s.label("continued without reset");
}
PBT_SUITE("history/gp", 4, "at least two iterations over all runs of a case")
{
    reset_bo(s);
    switch (s.u(3)) {
    case 0:
        s << " random";
        return history<limbo::init::RandomSampling<BP>, BGP>(s);
    case 1:
        s << " none";
        return history<limbo::init::NoInit<BP>, BGP>(s);
    default:
        s << " lhs";
        return history<limbo::init::LHS<BP>, BGP>(s);
    }
}
PBT_SUITE("history/stub model", 3, "at least two iterations over all runs of a case")
{
    reset_bo(s);
    switch (s.u(4)) {
    case 0:
        s << " random";
        return history<limbo::init::RandomSampling<BP>, ListModel<BP>>(s);
    case 1:
        s << " none";
        return history<limbo::init::NoInit<BP>, ListModel<BP>>(s);
    case 2:
        s << " grid";
        return history<limbo::init::GridSampling<BP>, ListModel<BP>>(s);
    default:
        s << " random grid";
        return history<limbo::init::RandomSamplingGrid<BP>, ListModel<BP>>(s);
    }
}

// the optimisers and acquisition functions people use: the box, the counts and the record
template <typename Opt, typename Acq>
void real_parts(Src& s, const char* name)
{
    using B = BO<limbo::init::RandomSampling<BP>, BGP, boost::fusion::vector<>, limbo::stop::MaxIterations<BP>, Opt, Acq>;
    bc().rs_samples = s.i(1, 4);
    bc().grid_opt_bins = s.i(1, 5);
    s << " " << name;
    B bo;
    int its = 0;
    for (int r = s.i(1, 2), k = 0; k < r; k++) {
        bc().iterations = s.i(0, 4);
        its += bc().iterations;
        bo.optimize(Fn(), limbo::FirstElem(), k == 0);
        int ninit = lg().evals.size() - its;
        s.check(ninit >= bc().rs_samples && ninit <= 2 * bc().rs_samples, "real parts/number of evaluations");
        s.check(same(bo.samples(), good_x()) && same(bo.observations(), good_y()), "real parts/history");
        s.check(bo.current_iteration() == bc().iterations && bo.total_iterations() == its, "real parts/counters");
        for (auto& e : lg().evals)
            s.check(in_unit(e.x) && e.x.size() == bc().din, "real parts/outside the unit hypercube", str(e.x));
    }
    s.nontrivial(its >= 2);
}
PBT_SUITE("real parts", 1, "at least two iterations")
{
    reset_bo(s);
    bc().din = std::min(bc().din, 2);
    using ucb = limbo::acqui::UCB<BP, BGP>;
    using ei = limbo::acqui::EI<BP, BGP>;
    switch (s.u(3)) {
    case 0:
        return real_parts<limbo::opt::RandomPoint<BP>, ei>(s, "random point, EI");
    case 1:
        return real_parts<limbo::opt::GridSearch<BP>, ucb>(s, "grid search, UCB");
    default:
        return real_parts<limbo::opt::NLOptNoGrad<NP, nlopt::GN_DIRECT_L_RAND>, ucb>(s, "DIRECT, UCB");
    }
}
