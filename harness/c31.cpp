// C31: multi-objective optimisation (Ehvi on BoMulti)
#include "ehviref.hpp"
#include "bo.hpp"
#include <map>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/stat/pareto_benchmark.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
using namespace lv;

static double g_ref[2];
struct MP : public BP {
    struct bayes_opt_ehvi {
        static double x_ref() { return g_ref[0]; }
        static double y_ref() { return g_ref[1]; }
    };
};
template <int D>
struct FnD {
    static constexpr size_t dim_in() { return D; }
    static constexpr size_t dim_out() { return 2; }
    V operator()(const V& x) const { return Fn()(x); }
};

// current state of the reference: history of the run, its Pareto set, one model per objective
struct State {
    size_t start = 0, opts0 = 0;
    std::function<double(const V&, double&)> ehvi; // value and tolerance
    std::vector<size_t> front; // indices in the log
    size_t built = (size_t)-1;
    std::vector<std::pair<size_t, int>> stats; // evaluations made, iteration counter
    int queries = 0, informative = 0;
    std::map<size_t, std::vector<std::pair<V, double>>> found; // per number of evaluations: points returned, with their value
};
static State& st()
{
    static State x;
    return x;
}
static std::vector<size_t> non_dominated(size_t from, size_t to)
{
    auto& E = lg().evals;
    std::vector<size_t> r;
    for (size_t i = from; i < to; i++) {
        bool dom = E[i].failed;
        for (size_t j = from; j < to; j++)
            if (!E[j].failed) {
                V d = E[j].y - E[i].y;
                dom = dom || (d.minCoeff() >= 0 && d.maxCoeff() > 0);
            }
        if (!dom)
            r.push_back(i);
    }
    return r;
}
template <typename Model>
std::vector<Model> models_of(const std::vector<V>& X, const std::vector<V>& Y)
{
    std::vector<Model> m;
    for (int j = 0; j < 2; j++) {
        std::vector<V> y;
        for (auto& v : Y)
            y.push_back(V::Constant(1, v(j)));
        m.push_back(Model(X[0].size(), 1));
        m.back().compute(X, y);
    }
    return m;
}
template <typename Model>
void build()
{
    State& t = st();
    if (t.built == lg().evals.size())
        return;
    t.built = lg().evals.size();
    auto m = std::make_shared<std::vector<Model>>(models_of<Model>(good_x(t.start), good_y(t.start)));
    t.front = non_dominated(t.start, t.built);
    std::vector<P> f;
    for (size_t i : t.front)
        f.push_back(P{lg().evals[i].y(0), lg().evals[i].y(1)});
    t.ehvi = [m, f](const V& x, double& tol) {
        P r{g_ref[0], g_ref[1]}, mu(2), sd(2);
        double prod = 1;
        for (int j = 0; j < 2; j++) {
            V q;
            double v;
            std::tie(q, v) = (*m)[j].query(x);
            mu[j] = q(0);
            sd[j] = std::sqrt(v);
            double hi = r[j] + 1e-3;
            for (auto& p : f)
                hi = std::max(hi, p[j]);
            prod *= sd[j] + std::max(std::abs(mu[j] - r[j]), std::abs(mu[j] - hi)) + (hi - r[j]);
        }
        tol = 1e-8 * prod;
        if (std::min(sd[0], sd[1]) < 1e-7)
            return std::nan("");
        return ref_ehvi(f, r, mu, sd, 2);
    };
}
template <typename Params, typename Model>
struct EOpt {
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        Src& s = *bc().src;
        State& t = st();
        build<Model>();
        OptCall c;
        c.start = init;
        c.bounded = bounded;
        c.evals = lg().evals.size();
        c.nq = s.i(1, 3);
        double best = 0;
        for (int i = 0; i < c.nq; i++) {
            V x = i == 0 && s.b() ? init : vec(s, init.size());
            double v = limbo::opt::fun(f(x, false)), tol, want = t.ehvi(x, tol);
            t.queries++;
            if (want > 100 * tol)
                t.informative++;
            if (!std::isnan(want))
                s.close(v, want, tol, "the maximised function is not the expected improvement over the current Pareto set");
            if (i == 0 || v > best || s.p(0.1)) {
                best = v;
                c.ret = x;
            }
        }
        lg().opts.push_back(c);
        t.found[c.evals].push_back({c.ret, best});
        return c.ret;
    }
};
template <typename Params>
struct EStat {
    template <typename B, typename A>
    void operator()(const B& bo, const A&)
    {
        st().stats.push_back({lg().evals.size(), bo.current_iteration()});
        auto& s = *bc().src;
        s.check(same(bo.samples(), good_x(st().start)) && same(bo.observations(), good_y(st().start)), "history seen by the statistics");
    }
};
static int g_stop; // extra stopping criterion: stop after this many evaluations in the history
template <typename Params>
struct EStop {
    template <typename B, typename A>
    bool operator()(const B& bo, const A&)
    {
        return (int)bo.samples().size() >= g_stop;
    }
};

struct InDir {
    char old[4096];
    InDir(const std::string& d)
    {
        if (!getcwd(old, sizeof old) || chdir(d.c_str()))
            throw std::runtime_error("chdir");
    }
    ~InDir()
    {
        if (chdir(old)) {
        }
    }
};
static int entries(const std::string& d)
{
    int r = 0;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p))
            r += std::string(e->d_name) != "." && std::string(e->d_name) != "..";
        closedir(p);
    }
    return r;
}
static std::vector<V> rows(Src& s, const std::string& f)
{
    std::ifstream in(f);
    s.check(in.good(), "missing file", f);
    std::vector<V> r;
    std::string l;
    while (std::getline(in, l)) {
        std::istringstream is(l);
        std::vector<double> v;
        double x;
        while (is >> x)
            v.push_back(x);
        r.push_back(V::Map(v.data(), v.size()));
    }
    return r;
}
static bool near(const V& got, const V& want) // six significant digits are printed
{
    if (got.size() != want.size())
        return false;
    for (int i = 0; i < got.size(); i++)
        if (!(std::abs(got(i) - want(i)) <= 6e-6 * std::abs(want(i)) + 1e-300))
            return false;
    return true;
}
// what the benchmark statistic wrote when the history had n evaluations
static void benchmark_files(Src& s, const std::string& dir, int it, size_t from, size_t n)
{
    auto& E = lg().evals;
    std::string end = "_" + std::to_string(it) + ".dat";
    auto obs = rows(s, dir + "/obs" + end);
    size_t k = 0;
    for (size_t i = from; i < n; i++)
        if (!E[i].failed) {
            V w(E[i].y.size() + E[i].x.size());
            w << E[i].y, E[i].x;
            s.check(k < obs.size() && near(obs[k], w), "observation written by the Pareto benchmark", "line " + std::to_string(k + 1));
            k++;
        }
    s.check(k == obs.size(), "number of observations written by the Pareto benchmark");
    auto front = rows(s, dir + "/pareto_data" + end);
    auto nd = non_dominated(from, n);
    std::vector<V> want;
    for (size_t i : nd)
        want.push_back(E[i].y);
    s.check(front.size() == want.size(), "number of Pareto points written by the Pareto benchmark", std::to_string(front.size()) + " instead of " + std::to_string(want.size()));
    for (auto& w : want) {
        auto p = std::find_if(front.begin(), front.end(), [&](const V& g) { return near(g, w); });
        s.check(p != front.end(), "Pareto point written by the Pareto benchmark", str(w));
        front.erase(p);
    }
}

template <typename F, typename B, typename Model>
void multi(Src& s, size_t ninit, bool own_stop)
{
    InDir here(s.dir());
    auto& l = lg();
    State& t = st();
    t = State();
    g_stop = 1 << 30;
    int kind = s.weighted({3, 2, 1, 2});
    double a = s.uni(-2, 2), h = s.uni(0, 1);
    uint64_t h0 = s.u(1 << 20);
    for (int j = 0; j < 2; j++)
        g_ref[j] = s.pick(std::vector<double>{-11, -11, -6, -100});
    l.f = [=](const V& x, size_t k) -> V {
        V y(2);
        for (int j = 0; j < 2; j++)
            switch (kind) {
            case 0: // a trade-off
                y(j) = -(x.array() - (j ? h : 1 - h)).square().sum() + 0.3 * a * std::sin(4 * x.sum() + j);
                break;
            case 1: // ties
                y(j) = std::floor(3 * std::sin(7 * x(0) + 3 * j + a)) / 2;
                break;
            case 2: // constant
                y(j) = a + j;
                break;
            default: // different every time it is called
                y(j) = (double)(pbt::mix(h0 + 77 * k + j) % 1000) / 100. - 5.;
            }
        return y;
    };
    B bo;
    int runs = s.i(1, 3), total = 0;
    std::string dir = bc().stats ? bo.res_dir() : "";
    s << (bc().stats ? " files" : "") << " f" << kind << " ref=" << g_ref[0] << "," << g_ref[1] << " runs:";
    bool cont = false;
    for (int r = 0; r < runs; r++) {
        bool reset = r == 0 ? s.p(0.8) : s.p(0.4);
        int its = bc().iterations = s.size(0, 6, 40, 0.01);
        size_t e0 = l.evals.size(), o0 = l.opts.size(), s0 = t.stats.size();
        bool fresh = reset || total == 0;
        if (reset)
            t.start = e0;
        if (fresh)
            total = 0;
        else
            cont = true;
        size_t ni = fresh ? ninit : 0, before = good_x(t.start).size();
        if (own_stop)
            g_stop = s.i(0, 10) + before;
        l.fail_at = s.p(0.15) ? (int)(e0 + ni + s.i(0, 4)) : -1;
        l.fail_how = s.i(1, 5);
        s << " " << (reset ? "reset" : "continue") << "x" << its;
        if (own_stop)
            s << "/" << g_stop;
        bool threw = false;
        try {
            bo.optimize(F(), reset);
        }
        catch (const std::exception&) {
            threw = true;
        }
        catch (const EvalThrow&) {
            threw = true;
        }
        bool failed = l.fail_at >= 0 && (int)l.evals.size() > l.fail_at;
        s.check(threw == failed, "an evaluation that fails reaches the caller, nothing else does");
        size_t made = l.evals.size() - e0 - ni - (failed ? 1 : 0);
        int want = std::min<long>(its, std::max<long>(0, (long)g_stop - (long)(before + ni)));
        if (failed) {
            s.check((int)made < want || want == 0, "evaluations after the limit");
            s.label("an evaluation fails");
        }
        else
            s.check((int)made == want, "number of iterations", std::to_string(made) + " instead of " + std::to_string(want));
        total += made;
        s.check(bo.current_iteration() == (int)made && bo.total_iterations() == total, "iteration counters");
        auto X = good_x(t.start), Y = good_y(t.start);
        s.check(same(bo.samples(), X) && same(bo.observations(), Y), "history is not what was evaluated");
        // every iteration
        size_t o = o0;
        for (size_t k = 0; k < made + (failed ? 1 : 0); k++) {
            size_t n = e0 + ni + k;
            auto front = non_dominated(t.start, n);
            std::vector<V> starts, want_starts;
            bool found = false;
            for (; o < l.opts.size() && l.opts[o].evals == n; o++) {
                starts.push_back(l.opts[o].start);
                s.check(l.opts[o].bounded, "unbounded optimisation of the acquisition function");
                found = found || l.opts[o].ret == l.evals[n].x;
            }
            for (size_t i : front)
                want_starts.push_back(l.evals[i].x);
            auto less = [](const V& p, const V& q) { return std::lexicographical_compare(p.data(), p.data() + p.size(), q.data(), q.data() + q.size()); };
            std::sort(starts.begin(), starts.end(), less);
            std::sort(want_starts.begin(), want_starts.end(), less);
            s.check(same(starts, want_starts), "the acquisition function is not optimised once from every point of the Pareto set", std::to_string(starts.size()) + " starts, " + std::to_string(want_starts.size()) + " points");
            s.check(found, "the evaluated point is not one found by the acquisition optimiser", str(l.evals[n].x));
            double top = -INFINITY, mine = -INFINITY;
            for (auto& q : t.found[n]) {
                top = std::max(top, q.second);
                if (q.first == l.evals[n].x)
                    mine = std::max(mine, q.second);
            }
            s.check(mine >= top, "the evaluated point is not the best one found", std::to_string(mine) + " < " + std::to_string(top));
            s.check(in_unit(l.evals[n].x), "a point outside the unit hypercube");
        }
        s.check(o == l.opts.size(), "acquisition optimisations without an evaluation");
        // statistics once per iteration
        s.check(t.stats.size() - s0 == made, "statistics are not updated once per iteration", std::to_string(t.stats.size() - s0) + " instead of " + std::to_string(made));
        if (bc().stats)
            for (size_t i = s0; i < t.stats.size(); i++)
                benchmark_files(s, dir, t.stats[i].second, t.start, t.stats[i].first);
        else
            s.check(entries(s.dir()) == 0, "files although statistics are disabled");
        if (failed)
            continue;
        // at the end: Pareto set of the data and models
        auto front = non_dominated(t.start, l.evals.size());
        std::vector<std::pair<V, V>> got, exp;
        for (auto& p : bo.pareto_data()) {
            got.push_back({std::get<0>(p), std::get<1>(p)});
            s.check(std::get<2>(p).size() == 2 && std::get<2>(p).isZero(0), "uncertainty of observed Pareto points");
        }
        for (size_t i : front)
            exp.push_back({l.evals[i].x, l.evals[i].y});
        s.check(got.size() == exp.size() && std::is_permutation(got.begin(), got.end(), exp.begin(), [](const std::pair<V, V>& p, const std::pair<V, V>& q) { return p.first == q.first && p.second == q.second; }), "the Pareto set is not the non-dominated part of the history", std::to_string(got.size()) + " points instead of " + std::to_string(exp.size()));
        s.check(bo.nb_objs() == 2 && bo.models().size() == 2, "one model per objective");
        auto ref = models_of<Model>(X, Y);
        for (int j = 0; j < 2; j++) {
            auto& m = bo.models()[j];
            s.check(m.nb_samples() == (int)X.size() && same(m.samples(), X), "a model does not hold the whole history", std::to_string(m.nb_samples()) + " of " + std::to_string(X.size()));
            for (int k = 0; k < 3; k++) {
                V x = k == 0 ? X[s.u(X.size())] : vec(s, X[0].size());
                V m1, m2;
                double v1, v2;
                std::tie(m1, v1) = m.query(x);
                std::tie(m2, v2) = ref[j].query(x);
                s.check(m1.size() == 1, "a model with several outputs");
                s.close(m1(0), m2(0), 1e-7 * (1 + std::abs(m2(0))), "prediction of an objective");
                s.close(v1, v2, 1e-7, "uncertainty of an objective");
            }
        }
        if (front.size() >= 2)
            s.label("several Pareto points");
    }
    if (cont)
        s.label("continued");
    s.nontrivial(t.informative >= 3);
}
using MGP = limbo::model::GP<MP, limbo::kernel::MaternFiveHalves<MP>, limbo::mean::Data<MP>, HPRec<MP>>;
using MGP0 = limbo::model::GP<MP, limbo::kernel::SquaredExpARD<MP>, limbo::mean::NullFunction<MP>, HPRec<MP>>;
using limbo::acquiopt;
using limbo::initfun;
using limbo::modelfun;
using limbo::statsfun;
using limbo::stopcrit;
namespace lb = limbo::experimental::bayes_opt;
template <typename F>
using StatV = boost::fusion::vector<EStat<MP>, limbo::experimental::stat::ParetoBenchmark<F>>;
using StopV = boost::fusion::vector<limbo::stop::MaxIterations<MP>, EStop<MP>>;
using RS = limbo::init::RandomSampling<MP>;
using GS = limbo::init::GridSampling<MP>;

template <int D>
void any(Src& s)
{
    s << " D=" << D;
    bc().stats = s.p(0.4);
    bc().rs_samples = s.i(1, 6);
    bc().gs_bins = s.i(1, 2);
    size_t rs = bc().rs_samples, gs = std::pow(bc().gs_bins + 1, D);
    using F = FnD<D>;
    switch (s.u(4)) {
    case 0:
        return multi<F, lb::Ehvi<MP, modelfun<MGP>, acquiopt<EOpt<MP, MGP>>, initfun<RS>, statsfun<StatV<F>>, stopcrit<StopV>>, MGP>(s, rs, true);
    case 1:
        return multi<F, lb::Ehvi<MP, statsfun<StatV<F>>, stopcrit<StopV>, initfun<GS>, acquiopt<EOpt<MP, MGP0>>, modelfun<MGP0>>, MGP0>(s, gs, true);
    case 2:
        return multi<F, lb::Ehvi<MP, lb::acquiopt<EOpt<MP, MGP0>>, lb::modelfun<MGP0>, lb::statsfun<StatV<F>>, lb::initfun<RS>>, MGP0>(s, rs, false);
    default:
        return multi<F, lb::Ehvi<MP, lb::initfun<GS>, lb::stopcrit<StopV>, lb::statsfun<StatV<F>>, lb::modelfun<MGP>, lb::acquiopt<EOpt<MP, MGP>>>, MGP>(s, gs, true);
    }
}
PBT_SUITE("ehvi", 1, "at least three values of the acquisition function clearly above zero")
{
    reset_bo(s);
    bc().dout = 2;
    switch (bc().din = s.i(1, 3)) {
    case 1:
        return any<1>(s);
    case 2:
        return any<2>(s);
    default:
        return any<3>(s);
    }
}
