// C32: use from several threads gives what use from one thread gives
#include "ehviref.hpp"
#include "gpzoo.hpp"
#include "multizoo.hpp"
#include "opts.hpp"
#include <atomic>
#include <boost/filesystem.hpp>
#include <hv/hypervol.h>
#include <limbo/limbo.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/acqui/ehvi.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/model/spgp.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <fstream>
#include <sstream>
#include <thread>
using namespace lv;
using D = std::vector<double>;

static int g_its = 3, g_bins = 3, g_ghp = 1;
static bool g_stats = false;
struct TP : public KP<false, 0> {
    struct acqui_ucb : public limbo::defaults::acqui_ucb {
    };
    struct acqui_gpucb : public limbo::defaults::acqui_gpucb {
    };
    struct acqui_ei : public limbo::defaults::acqui_ei {
    };
    struct acqui_eci {
        static double jitter() { return 0.; }
    };
    struct acqui_ucb_imgpo : public limbo::defaults::acqui_ucb_imgpo {
    };
    struct bayes_opt_bobase {
        static bool stats_enabled() { return g_stats; }
        static bool bounded() { return true; }
    };
    struct bayes_opt_boptimizer {
        static int hp_period() { return g_ghp; }
    };
    struct stop_maxiterations {
        static int iterations() { return g_its; }
    };
    struct init_gridsampling {
        static int bins() { return 1; }
    };
    struct opt_gridsearch {
        static int bins() { return g_bins; }
    };
    struct opt_adam : public OP::opt_adam {
    };
    struct opt_nloptgrad : public OP::opt_nloptgrad {
    };
    struct opt_nloptnograd : public OP::opt_nloptnograd {
    };
    struct model_spgp : public limbo::defaults::model_spgp {
        static double samples_percent() { return 50; }
        static int min_m() { return 2; }
    };
};
// run f(0) ... f(T - 1) at the same time
template <typename F>
void at_once(int T, const F& f)
{
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++)
        th.emplace_back([&, t] {
            ready++;
            while (ready < T)
                std::this_thread::yield();
            f(t);
        });
    for (auto& t : th)
        t.join();
}
static void equal(Src& s, const D& got, const D& want, const std::string& w)
{
    s.check(got.size() == want.size(), w + ": number of values");
    for (size_t i = 0; i < got.size(); i++)
        if (!(std::isnan(got[i]) && std::isnan(want[i])))
            s.close(got[i], want[i], 1e-12 * (1e-300 + std::abs(want[i])), w);
}
static void put(D& d, const V& v) { d.insert(d.end(), v.data(), v.data() + v.size()); }
static void put(D& d, double v) { d.push_back(v); }

// f(t): the work of thread t, as values. Compare all at once with one after the other.
static void compare(Src& s, int T, const std::function<D(int)>& f, const std::function<void()>& again, const std::string& w)
{
    std::vector<D> want(T);
    for (int t = 0; t < T; t++)
        want[t] = f(t);
    again();
    std::vector<D> got(T);
    at_once(T, [&](int t) { got[t] = f(t); });
    for (int t = 0; t < T; t++)
        equal(s, got[t], want[t], w);
}
static int threads(Src& s)
{
    int T = s.i(2, 6);
    s << " threads=" << T;
    return T;
}
struct Data {
    int din, dout, n;
    std::vector<V> X, Y, Q;
};
static Data data(Src& s, int maxd, int maxp, int minn = 1)
{
    Data d;
    d.din = s.i(1, maxd);
    d.dout = s.i(1, maxp);
    d.n = s.i(minn, 20);
    d.X = points(s, d.n, d.din);
    d.Y = observations(s, d.n, d.dout);
    for (int k = s.i(1, 5); k > 0; k--)
        d.Q.push_back(s.p(0.2) ? d.X[s.u(d.n)] : vec(s, d.din));
    s << " D=" << d.din << " P=" << d.dout << " n=" << d.n;
    return d;
}
static void model_cfg(Src& s)
{
    cfg() = Cfg();
    cfg().noise = s.pick(D{0.01, 1e-4, 0.1});
    cfg().l = s.uni(0.1, 1);
    cfg().max_points = s.i(2, 8);
    oc() = OCfg();
}

// ---- models -----------------------------------------------------------------------------------
template <typename Mo>
void ask(Src& s, const Mo& m, const Data& d, const std::string& name)
{
    int T = threads(s);
    std::vector<int> off(T);
    for (auto& o : off)
        o = s.u(d.Q.size());
    compare(
        s, T, [&](int t) {
            D r;
            for (size_t k = 0; k < d.Q.size(); k++) {
                const V& x = d.Q[(k + off[t]) % d.Q.size()];
                auto q = m.query(x);
                put(r, std::get<0>(q));
                put(r, std::get<1>(q));
                put(r, m.mu(x));
                put(r, m.sigma(x));
            }
            put(r, m.nb_samples());
            for (auto& x : m.samples())
                put(r, x);
            return r;
        },
        [] {}, name + ": prediction");
    s.nontrivial(d.n > 1);
}
template <typename GP>
void kernels(Src& s, const GP& m, const Data& d, const std::string& name)
{
    int T = threads(s);
    compare(
        s, T, [&](int) {
            D r;
            for (auto& x : d.Q)
                for (auto& y : d.X) {
                    put(r, m.kernel_function()(x, y));
                    put(r, m.kernel_function().grad(x, y));
                }
            put(r, m.mean_observation());
            put(r, m.max_observation());
            GP c(m); // a copy, changed
            c.kernel_function().set_h_params(m.kernel_function().h_params().array() + 0.1);
            c.recompute(false);
            put(r, c.compute_log_lik());
            put(r, c.compute_kernel_grad_log_lik());
            c.add_sample(d.Q[0], d.Y[0]);
            put(r, c.mu(d.Q.back()));
            return r;
        },
        [] {}, name + ": kernel, copies");
}
template <typename KF, typename MF>
void gp(Src& s)
{
    Data d = data(s, 3, 3);
    limbo::model::GP<TP, KF, MF> m(d.din, d.dout);
    if (s.b()) {
        m.compute(d.X, d.Y);
    }
    else
        for (int i = 0; i < d.n; i++)
            m.add_sample(d.X[i], d.Y[i]);
    ask(s, m, d, "GP");
    if (s.b())
        kernels(s, m, d, "GP");
}
using namespace limbo;
PBT_SUITE("models", 3, "a model with several samples")
{
    model_cfg(s);
    switch (s.u(7)) {
    case 0:
        return gp<kernel::MaternFiveHalves<TP>, mean::Data<TP>>(s);
    case 1:
        return gp<kernel::SquaredExpARD<TP>, mean::FunctionARD<TP, mean::Data<TP>>>(s);
    case 2:
        return gp<kernel::Exp<TP>, mean::Constant<TP>>(s);
    case 3:
        return gp<kernel::MaternThreeHalves<TP>, mean::NullFunction<TP>>(s);
    case 4: {
        Data d = data(s, 3, 3);
        model::MultiGP<TP, model::GP, kernel::SquaredExpARD<TP>, mean::Data<TP>> m(d.din, d.dout);
        m.compute(d.X, d.Y);
        return ask(s, m, d, "MultiGP");
    }
    case 5: {
        Data d = data(s, 2, 2);
        model::SparsifiedGP<TP, kernel::MaternFiveHalves<TP>, mean::Data<TP>> m(d.din, d.dout);
        m.compute(d.X, d.Y);
        return ask(s, m, d, "SparsifiedGP");
    }
    default: {
        Data d = data(s, 2, 1, 2);
        oc().nit = 2;
        model::SPGP<TP, kernel::MaternFiveHalves<TP>, mean::Data<TP>> m(d.din, d.dout);
        m.compute(d.X, d.Y);
        return ask(s, m, d, "SPGP");
    }
    }
}

// ---- acquisition functions ----------------------------------------------------------------------
// make(): a fresh acquisition function; all threads share one
template <typename Make, typename Call>
void acquisition(Src& s, const Data& d, const Make& make, const Call& call, const std::string& name)
{
    int T = threads(s);
    auto a = make();
    compare(
        s, T, [&](int t) {
            D r;
            for (size_t k = 0; k < d.Q.size(); k++)
                put(r, call(*a, d.Q[(k + t) % d.Q.size()]));
            return r;
        },
        [&] { a = make(); }, name + ": value");
    s.nontrivial(true);
}
PBT_SUITE("acquisition", 4, "all")
{
    model_cfg(s);
    using GP = model::GP<TP, kernel::MaternFiveHalves<TP>, mean::Data<TP>>;
    Data d = data(s, 3, 2, 2);
    GP m(d.din, d.dout);
    m.compute(d.X, d.Y);
    auto call = [](auto& a, const V& x) { return opt::fun(a(x, FirstElem(), false)); };
    int it = s.i(0, 50);
    switch (s.u(6)) {
    case 0:
        return acquisition(s, d, [&] { return std::make_shared<acqui::UCB<TP, GP>>(m, it); }, call, "UCB");
    case 1:
        return acquisition(s, d, [&] { return std::make_shared<acqui::GP_UCB<TP, GP>>(m, it); }, call, "GP_UCB");
    case 2:
        return acquisition(s, d, [&] { return std::make_shared<acqui::EI<TP, GP>>(m, it); }, call, "EI");
    case 3: {
        GP c(d.din, 1);
        std::vector<V> C;
        for (int i = 0; i < d.n; i++)
            C.push_back(V::Constant(1, s.u(2)));
        c.compute(d.X, C);
        return acquisition(s, d, [&] { return std::make_shared<experimental::acqui::ECI<TP, GP, GP>>(m, c, it); }, call, "ECI");
    }
    case 4:
        return acquisition(s, d, [&] { return std::make_shared<acqui::experimental::UCB_IMGPO<TP, GP>>(m, it + 1); }, [](auto& a, const V& x) { return a(x, FirstElem()); }, "UCB_IMGPO");
    default: {
        std::vector<GP> ms(2, GP(d.din, 1));
        for (int j = 0; j < 2; j++) {
            std::vector<V> y;
            for (int i = 0; i < d.n; i++)
                y.push_back(V::Constant(1, s.uni(-1, 1)));
            ms[j].compute(d.X, y);
        }
        std::vector<individual> in(s.i(0, 4));
        std::deque<individual*> pop;
        for (size_t i = 0; i < in.size(); i++) {
            in[i].f[0] = i + s.unit();
            in[i].f[1] = -(double)i - s.unit();
            in[i].f[2] = 0;
            pop.push_back(&in[i]);
        }
        V r = V::Constant(3, -6);
        return acquisition(s, d, [&] { return std::make_shared<acqui::Ehvi<TP, GP>>(ms, pop, r); }, [](auto& a, const V& x) { return a(x); }, "Ehvi");
    }
    }
}

// ---- hyper-parameter objectives, asked by several threads as parallel optimisers do ----------------
static Src* g_src;
template <typename Params = TP>
struct ThreadedOpt {
    template <typename F>
    V operator()(const F& f, const V& init, bool) const
    {
        Src& s = *g_src;
        if (init.size() == 0)
            return init;
        int T = threads(s);
        std::vector<V> p;
        for (int t = 0; t < T; t++)
            p.push_back(init + vec(s, init.size(), -0.5, 0.5));
        bool g = s.b();
        compare(
            s, T, [&](int t) {
                D r;
                auto e = f(p[t], g);
                put(r, opt::fun(e));
                if (g)
                    put(r, opt::grad(e));
                return r;
            },
            [] {}, "hyper-parameter objective");
        return p[0];
    }
};
PBT_SUITE("hyper-parameters", 2, "all")
{
    model_cfg(s);
    g_src = &s;
    Data d = data(s, 2, 2);
    auto run = [&](auto m) {
        m.compute(d.X, d.Y);
        m.optimize_hyperparams();
        ask(s, m, d, "after optimisation");
    };
    using O = ThreadedOpt<>;
    using K = kernel::SquaredExpARD<TP>;
    using MF = mean::FunctionARD<TP, mean::Data<TP>>;
    switch (s.u(5)) {
    case 0:
        return run(model::GP<TP, K, MF, model::gp::KernelLFOpt<TP, O>>(d.din, d.dout));
    case 1:
        return run(model::GP<TP, K, MF, model::gp::KernelLooOpt<TP, O>>(d.din, d.dout));
    case 2:
        return run(model::GP<TP, K, MF, model::gp::KernelMeanLFOpt<TP, O>>(d.din, d.dout));
    case 3:
        return run(model::GP<TP, K, MF, model::gp::MeanLFOpt<TP, O>>(d.din, d.dout));
    default: {
        Data d2 = d;
        model::MultiGP<TP, model::GP, K, mean::Data<TP>> m(d.din, d.dout);
        m.compute(d.X, d.Y);
        ask(s, m, d2, "MultiGP");
    }
    }
}

// ---- optimisers: one object for all threads, one objective per thread --------------------------------
struct Toy {
    int D, kind;
    double a, b;
    V c;
    opt::eval_t operator()(const V& x, bool g) const
    {
        V d = x - c;
        double v = -a * d.squaredNorm();
        V gr = -2 * a * d;
        if (kind == 1) {
            v += b * std::sin(5 * x.sum());
            gr.array() += 5 * b * std::cos(5 * x.sum());
        }
        return g ? opt::eval_t{v, gr} : opt::no_grad(v);
    }
};
template <typename O>
V solve(const O& o, const Toy& f, const V& x0, bool bounded) { return o(f, x0, bounded); }
template <typename O>
V solve(int, const Toy& f, const V& x0, bool bounded) { return O()(f, x0, bounded); } // has a state: one per thread
template <typename O, bool SHARED = true>
void optimiser(Src& s, const std::string& name, bool need_bounds = false)
{
    s << " " << name;
    int T = threads(s), n = s.i(1, 3);
    gen_oc(s, n);
    bool bounded = need_bounds || s.b();
    std::vector<Toy> f(T);
    std::vector<V> x0;
    for (auto& o : f) {
        o.kind = s.i(0, 1);
        o.a = s.uni(0.2, 2);
        o.b = s.uni(-0.3, 0.3);
        o.c = vec(s, n);
        x0.push_back(vec(s, n));
    }
    typename std::conditional<SHARED, const O, int>::type shared{};
    compare(s, T, [&](int t) { D r; put(r, solve<O>(shared, f[t], x0[t], bounded)); return r; }, [] {}, name + ": result");
    s.nontrivial(true);
}
PBT_SUITE("optimisers", 3, "all")
{
    switch (s.u(9)) {
    case 0:
        return optimiser<opt::Rprop<OP>>(s, "Rprop");
    case 1:
        return optimiser<opt::Adam<OP>>(s, "Adam");
    case 2:
        return optimiser<opt::GradientAscent<OP>>(s, "GradientAscent");
    case 3:
        return optimiser<opt::GridSearch<OP>>(s, "GridSearch", true);
    case 4:
        return optimiser<opt::Chained<OP, opt::GridSearch<OP>, opt::Rprop<OP>>>(s, "Chained", true);
    case 5:
        return optimiser<opt::NLOptGrad<OP, nlopt::LD_LBFGS>, false>(s, "LBFGS");
    case 6:
        return optimiser<opt::NLOptNoGrad<OP, nlopt::LN_COBYLA>, false>(s, "COBYLA");
    case 7:
        return optimiser<opt::NLOptNoGrad<OP, nlopt::GN_DIRECT_L>, false>(s, "DIRECT", true);
    default:
        return optimiser<opt::NLOptGrad<OP, nlopt::LD_MMA>, false>(s, "MMA");
    }
}

// ---- whole runs in several threads --------------------------------------------------------------------
struct Feval {
    const Toy* o;
    static constexpr size_t dim_in() { return 2; }
    static constexpr size_t dim_out() { return 1; }
    V operator()(const V& x) const { return V::Constant(1, opt::fun((*o)(x, false))); }
};
struct InDir {
    char old[4096];
    InDir(const std::string& d)
    {
        if (!getcwd(old, sizeof old) || chdir(d.c_str()))
            throw std::runtime_error("chdir");
    }
    ~InDir()
    {
        if (chdir(old)) {
        }
    }
};
// the numbers of a statistics file
static void numbers(D& r, const std::string& f)
{
    std::ifstream in(f);
    std::string line, w;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#')
            continue;
        std::istringstream l(line);
        while (l >> w)
            put(r, std::strtod(w.c_str(), nullptr));
    }
}
template <typename B>
void runs(Src& s, const std::string& name)
{
    s << " " << name << (g_stats ? " with statistics" : "");
    std::unique_ptr<InDir> here(g_stats ? new InDir(s.dir()) : nullptr);
    int T = threads(s);
    std::vector<Toy> f(T);
    for (auto& o : f) {
        o.kind = s.i(0, 1);
        o.a = s.uni(0.2, 2);
        o.b = s.uni(-0.3, 0.3);
        o.c = vec(s, 2);
    }
    compare(
        s, T, [&](int t) {
            B b;
            b.optimize(Feval{&f[t]});
            D r;
            for (auto& x : b.samples())
                put(r, x);
            put(r, b.best_observation());
            put(r, b.best_sample());
            put(r, b.model().mu(f[t].c));
            if (g_stats)
                for (auto n : {"samples.dat", "observations.dat", "best_samples.dat", "gp_kernel_hparams.dat"})
                    numbers(r, b.res_dir() + "/" + n);
            return r;
        },
        [] {}, name + ": history");
    s.nontrivial(g_its > 0);
}
PBT_SUITE("runs", 2, "at least one iteration")
{
    model_cfg(s);
    cfg().rprop_it = 5;
    g_its = s.i(0, 5);
    g_bins = s.i(2, 5);
    g_ghp = s.pick(std::vector<int>{-1, 1, 2});
    oc().it = 5;
    using namespace bayes_opt;
    using I = initfun<init::GridSampling<TP>>;
    using S = statsfun<boost::fusion::vector<>>;
    using O = acquiopt<opt::GridSearch<TP>>;
    using G = model::GP<TP, kernel::MaternFiveHalves<TP>, mean::Data<TP>>;
    using GH = model::GP<TP, kernel::SquaredExpARD<TP>, mean::Data<TP>, model::gp::KernelLFOpt<TP, opt::Rprop<TP>>>;
    using SF = statsfun<boost::fusion::vector<stat::Samples<TP>, stat::Observations<TP>, stat::BestSamples<TP>, stat::GPKernelHParams<TP>>>;
    int which = s.u(6);
    if (which < 2 || which == 5)
        g_ghp = -1;
    g_stats = which >= 4;
    switch (which) {
    case 0:
        return runs<BOptimizer<TP, modelfun<G>, acquifun<acqui::UCB<TP, G>>, O, I, S>>(s, "UCB");
    case 1:
        return runs<BOptimizer<TP, modelfun<G>, acquifun<acqui::EI<TP, G>>, O, I, S>>(s, "EI");
    case 2:
        return runs<BOptimizer<TP, modelfun<GH>, acquifun<acqui::GP_UCB<TP, GH>>, O, I, S>>(s, "GP_UCB");
    case 4:
        return runs<BOptimizer<TP, modelfun<GH>, acquifun<acqui::UCB<TP, GH>>, O, I, SF>>(s, "UCB");
    case 5:
        return runs<BOptimizer<TP, modelfun<G>, acquifun<acqui::EI<TP, G>>, O, I, SF>>(s, "EI");
    default:
        return runs<BOptimizer<TP, modelfun<GH>, acquifun<acqui::EI<TP, GH>>, acquiopt<opt::NLOptNoGrad<TP, nlopt::GN_DIRECT_L>>, I, S>>(s, "EI, DIRECT");
    }
}

// ---- archives, Pareto sets, hypervolumes ------------------------------------------------------------------
template <typename A>
void archives(Src& s)
{
    Data d = data(s, 3, 2);
    int T = threads(s);
    using G = model::GP<TP, kernel::SquaredExpARD<TP>, mean::Data<TP>>;
    std::vector<G> m;
    for (int t = 0; t < T; t++) {
        m.push_back(G(d.din, d.dout));
        m[t].compute(d.X, observations(s, d.n, d.dout));
    }
    std::string dir = s.dir();
    compare(
        s, T, [&](int t) {
            A a(dir + "/m" + std::to_string(t));
            m[t].save(a);
            G l;
            l.load(a);
            D r;
            for (auto& y : l.observations())
                put(r, y);
            put(r, l.mu(d.Q[0]));
            put(r, l.sigma(d.Q[0]));
            return r;
        },
        [] {}, "archive");
}
PBT_SUITE("files and sets", 1, "all")
{
    model_cfg(s);
    s.nontrivial(true);
    switch (s.u(3)) {
    case 0:
        return archives<serialize::TextArchive>(s);
    case 1:
        return archives<serialize::BinaryArchive>(s);
    default: {
        int T = threads(s), n = s.i(1, 12), dim = s.i(2, 4);
        using E = std::tuple<int, V>;
        std::vector<E> pts;
        for (int i = 0; i < n; i++)
            pts.push_back(E(i, vec(s, dim)));
        compare(
            s, T, [&](int) {
                D r;
                for (auto& p : pareto::pareto_set<1>(pts))
                    put(r, std::get<0>(p));
                std::vector<D> c;
                std::vector<double*> q;
                for (auto& p : pts)
                    c.push_back(D(std::get<1>(p).data(), std::get<1>(p).data() + dim));
                for (auto& v : c)
                    q.push_back(v.data());
                int k = FilterNondominatedSet(q.data(), n, dim);
                put(r, CalculateHypervolume(q.data(), k, dim));
                return r;
            },
            [] {}, "Pareto set, hypervolume");
    }
    }
}
