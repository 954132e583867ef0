// C19: stopping criteria
#include "bo.hpp"
#include <limbo/stop/chain_criteria.hpp>
#include <limbo/stop/max_predicted_value.hpp>
using namespace lv;

// a criterion under the harness's control: asks to stop after a given number of evaluations of the case
static int g_stop_at[2];
static int g_asked[2];
template <int K>
struct StopAt {
    template <typename B, typename A>
    bool operator()(const B& bo, const A&)
    {
        g_asked[K]++;
        return g_stop_at[K] >= 0 && (int)lg().evals.size() >= g_stop_at[K];
    }
};
template <typename B, int NCUSTOM>
void count(Src& s)
{
    bc().hp_period = -1;
    bc().rs_samples = s.size(0, 3, 30, 0.01);
    B bo;
    auto& l = lg();
    int total = 0, did = 0, runs = s.i(1, 3);
    for (int r = 0; r < runs; r++) {
        bool reset = s.b();
        int lim = bc().iterations = s.weighted({1, 1, 6}) == 0 ? s.i(-3, 0) : s.size(0, 9, 60, 0.01);
        for (int k = 0; k < 2; k++)
            g_stop_at[k] = k < NCUSTOM && s.p(0.7) ? (int)l.evals.size() + s.i(0, 10) : -1;
        size_t e0 = l.evals.size();
        bo.optimize(Fn(), Agg(), reset);
        int ninit = (reset || total == 0) ? bc().rs_samples : 0;
        int want = std::max(0, lim);
        for (int k = 0; k < NCUSTOM; k++)
            if (g_stop_at[k] >= 0)
                want = std::min(want, std::max(0, g_stop_at[k] - (int)(e0 + ninit)));
        s << " " << (reset ? "reset" : "continue") << " limit " << lim << " custom " << g_stop_at[0] - (int)e0 << "," << g_stop_at[1] - (int)e0 << ";";
        s.check((int)(l.evals.size() - e0) - ninit == want, "number of iterations", std::to_string((int)(l.evals.size() - e0) - ninit) + " instead of " + std::to_string(want));
        s.check(bo.current_iteration() == want, "current_iteration");
        if (reset)
            total = 0;
        total += want;
        did += want;
    }
    s.nontrivial(did >= 1);
}
using LM_ = ListModel<BP>;
using RS = limbo::init::RandomSampling<BP>;
using NoStat = boost::fusion::vector<>;
PBT_SUITE("iteration limit", 2, "at least one iteration")
{
    reset_bo(s);
    if (s.b())
        count<BO<RS, LM_, NoStat, limbo::stop::MaxIterations<BP>>, 0>(s);
    else
        count<BO<RS, LM_, NoStat, boost::fusion::vector<limbo::stop::MaxIterations<BP>>>, 0>(s);
}
PBT_SUITE("several criteria", 3, "at least one iteration")
{
    reset_bo(s);
    using MI = limbo::stop::MaxIterations<BP>;
    switch (s.u(6)) {
    case 4: // the criteria given before the other components
        return count<limbo::bayes_opt::BOptimizer<BP, limbo::stopcrit<boost::fusion::vector<StopAt<0>, MI>>, limbo::statsfun<NoStat>, limbo::initfun<RS>, limbo::acquiopt<RecOpt<BP>>, limbo::acquifun<RecAcq<BP, LM_>>, limbo::modelfun<LM_>>, 1>(s);
    case 5:
        return count<limbo::bayes_opt::BOptimizer<BP, limbo::acquiopt<RecOpt<BP>>, limbo::modelfun<LM_>, limbo::statsfun<NoStat>, limbo::stopcrit<boost::fusion::vector<StopAt<0>, MI>>, limbo::acquifun<RecAcq<BP, LM_>>, limbo::initfun<RS>>, 1>(s);
    case 0:
        return count<BO<RS, LM_, NoStat, boost::fusion::vector<MI, StopAt<0>>>, 1>(s);
    case 1:
        return count<BO<RS, LM_, NoStat, boost::fusion::vector<StopAt<0>, MI>>, 1>(s);
    case 2:
        return count<BO<RS, LM_, NoStat, boost::fusion::vector<StopAt<0>, MI, StopAt<1>>>, 2>(s);
    default:
        return count<BO<RS, LM_, NoStat, boost::fusion::vector<StopAt<0>, StopAt<1>, MI>>, 2>(s);
    }
}

// MaxPredictedValue with an optimiser under control: returns the point of a fixed list the objective is largest at
static std::vector<V> g_cand;
static int g_calls;
struct ListOpt {
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        g_calls++;
        Src& s = *bc().src;
        s.check(init.size() == bc().din && in_unit(init) && bounded, "predicted value/search is not a bounded one from a point of the box");
        int b = 0;
        double bv = 0;
        for (size_t i = 0; i < g_cand.size(); i++) {
            double v = limbo::opt::fun(f(g_cand[i], false));
            if (i == 0 || v > bv) {
                b = i;
                bv = v;
            }
        }
        return g_cand[b];
    }
};
struct Dummy : public ListOpt {
};
// a bare optimiser object, as the criterion sees it
template <typename O>
struct FakeBO {
    using acqui_optimizer_t = O;
    std::vector<V> X, Y;
    BGP gp;
    const std::vector<V>& observations() const { return Y; }
    const std::vector<V>& samples() const { return X; }
    const BGP& model() const { return gp; }
    template <typename A = limbo::FirstElem>
    const V& best_observation(const A& a = A()) const { return Y[best_of(Y, a)]; }
    template <typename A = limbo::FirstElem>
    const V& best_sample(const A& a = A()) const { return X[best_of(Y, a)]; }
    int current_iteration() const { return 0; }
    int total_iterations() const { return 0; }
    bool stats_enabled() const { return false; }
    std::string res_dir() const { return ""; }
};
template <typename Stop, typename O>
void predicted(Src& s)
{
    FakeBO<O> bo;
    Stop stop;
    Agg a;
    int n = 0;
    bool used = false;
    // the same object may be asked again: about another model (possibly of as many samples), with another aggregator
    for (int round = 0, rounds = s.weighted({3, 2, 1}) + 1; round < rounds; round++) {
        int what = round ? s.u(4) : 0; // bit 0: only the observations and the aggregator change; bit 1: as many samples
        if (what & 1)
            bo.Y = observations(s, n, bc().dout);
        else {
            if (!(what & 2))
                n = s.weighted({1, 8}) ? s.i(1, 8) : 0;
            bo.X = points(s, n, bc().din);
            bo.Y = observations(s, n, bc().dout);
        }
        if (s.b() || n == 0 || round == 0)
            bo.gp = BGP(bc().din, bc().dout);
        if (n)
            bo.gp.compute(bo.X, bo.Y);
        if (round == 0 || s.b()) {
            g_cand.clear();
            for (int k = s.i(1, 5); k > 0; k--)
                g_cand.push_back(n && s.b() ? V(bo.X[s.u(n)].cwiseMax(0).cwiseMin(1)) : vec(s, bc().din));
        }
        a.id = s.i(0, 3);
        bc().ratio = s.pick(std::vector<double>{0.9, 1., 0.5, 0., 1.1, -1.});
        s << " n=" << n << " agg=" << a.id << " ratio=" << bc().ratio << " Y=" << str(bo.Y);
        g_calls = 0;
        bool got = stop(bo, a);
        if (n == 0) {
            s.check(!got, "predicted value/stops without observations");
            continue;
        }
        double best = a(bo.Y[best_of(bo.Y, a)]), m = -std::numeric_limits<double>::infinity();
        for (auto& c : g_cand)
            m = std::max(m, a(bo.gp.mu(c)));
        double thr = bc().ratio * m, eps = 1e-9 * (std::abs(best) + std::abs(thr)) + 1e-300;
        if (std::abs(best - thr) <= eps)
            s.discard();
        used = true;
        s.label(best > thr ? "stops" : "goes on");
        s.check(got == (best > thr), best > thr ? "predicted value/does not stop" : "predicted value/stops too early", "round " + std::to_string(round) + " best " + std::to_string(best) + " threshold " + std::to_string(thr));
    }
    s.nontrivial(used);
}
PBT_SUITE("predicted value", 3, "a model with observations")
{
    reset_bo(s);
    if (s.b())
        predicted<limbo::stop::MaxPredictedValue<BP, ListOpt>, Dummy>(s);
    else
        predicted<limbo::stop::MaxPredictedValue<BP>, ListOpt>(s); // default: the optimiser of the acquisition function
}
// in a real run: the run stops at the first iteration at which the criterion holds
PBT_SUITE("predicted value in a run", 2, "at least one observation")
{
    reset_bo(s);
    using B = BO<RS, BGP, NoStat, boost::fusion::vector<limbo::stop::MaxIterations<BP>, limbo::stop::MaxPredictedValue<BP, ListOpt>>>;
    bc().rs_samples = s.size(0, 3, 30, 0.01);
    bc().iterations = s.size(0, 8, 40, 0.01);
    bc().ratio = s.pick(std::vector<double>{0.9, 1., 0.5, 1.5, -1.});
    g_cand.clear();
    for (int k = s.i(1, 5); k > 0; k--)
        g_cand.push_back(vec(s, bc().din));
    B bo;
    size_t from = 0; // first evaluation the model knows
    bool used = false;
    for (int r = 0, runs = s.weighted({3, 1, 1}) + 1; r < runs; r++) {
        Agg a;
        a.id = s.i(0, 3);
        bool reset = s.b();
        if (r) {
            bc().iterations = s.i(0, 6);
            bc().ratio = s.pick(std::vector<double>{0.9, 1., 0.5, 1.5, -1.});
        }
        s << (reset ? " reset" : " continue") << " limit=" << bc().iterations << " ratio=" << bc().ratio << " agg=" << a.id << " init=" << bc().rs_samples;
        size_t e0 = good_x().size();
        bool initialised = reset || bo.total_iterations() == 0;
        if (reset)
            from = e0;
        bo.optimize(Fn(), a, reset);
        auto X = good_x(), Y = good_y();
        int ni = initialised ? bc().rs_samples : 0;
        int its = (int)(X.size() - e0) - ni;
        s.check(its >= 0 && its <= bc().iterations && bo.current_iteration() == its, "predicted value in a run/iterations");
        used = used || !Y.empty();
        for (int k = 0; k <= its; k++) {
            bool want = false;
            std::vector<V> x(X.begin() + from, X.begin() + e0 + ni + k), y(Y.begin() + from, Y.begin() + e0 + ni + k);
            if (!x.empty()) {
                BGP gp(bc().din, bc().dout);
                gp.compute(x, y);
                double best = a(y[best_of(y, a)]), m = -std::numeric_limits<double>::infinity();
                for (auto& c : g_cand)
                    m = std::max(m, a(gp.mu(c)));
                double thr = bc().ratio * m;
                if (std::abs(best - thr) <= 1e-8 * (std::abs(best) + std::abs(thr)) + 1e-8)
                    s.discard();
                want = best > thr;
            }
            if (k < its)
                s.check(!want, "predicted value in a run/went on although the criterion held", "run " + std::to_string(r) + " iteration " + std::to_string(k));
            else if (its < bc().iterations)
                s.check(want, "predicted value in a run/stopped although no criterion held", "run " + std::to_string(r) + " iteration " + std::to_string(k));
        }
        if (its > 0 && its < bc().iterations)
            s.label("stopped in the middle");
    }
    s.nontrivial(used);
}
