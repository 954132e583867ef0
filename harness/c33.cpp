// C33: components that are left out are the documented defaults, components that are given are used wherever they stand
#include "lv.hpp"
#include <boost/fusion/include/vector.hpp>
#include <dirent.h>
#include <fstream>
#include <limbo/limbo.hpp>
// eci.hpp declares limbo::experimental::acqui, where bayes_opt/ehvi.hpp would look for Ehvi: not in one file
#if PART == 2
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#elif PART == 4
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#endif
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/model/spgp.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <map>
#include <sstream>
#include <thread>
using namespace lv;
using namespace limbo;
using D = std::vector<double>;
namespace lb = limbo::bayes_opt;
namespace ex = limbo::experimental;

namespace { // every part has its own state
struct Conf {
    int din = 1, dout = 1, its = 2, samples = 3, hp = -1, bins = 3, direct = 20, rprop = 5;
    double alpha = 0.5, ratio = 0.9;
    bool stats = true, bounded = true;
    V w, p;
};
static Conf c;
struct DP : public KP<false, 0> {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return c.stats; }
        static bool bounded() { return c.bounded; }
    };
    struct bayes_opt_boptimizer {
        static int hp_period() { return c.hp; }
    };
    struct bayes_opt_cboptimizer {
        static int hp_period() { return c.hp; }
        static bool bounded() { return true; }
    };
    struct bayes_opt_imgpo {
        static bool hp_opt() { return false; }
    };
    struct acqui_ucb_imgpo : public defaults::acqui_ucb_imgpo {
    };
    struct acqui_eci {
        BO_PARAM(double, jitter, 0.);
    };
    struct bayes_opt_ehvi {
        BO_PARAM(double, x_ref, -11);
        BO_PARAM(double, y_ref, -11);
    };
    struct model_gp_parego {
        BO_PARAM(double, rho, 0.05);
    };
    struct model_sparse_gp {
        static int max_points() { return c.samples; }
    };
    struct model_spgp : public defaults::model_spgp {
    };
    struct init_randomsampling {
        static int samples() { return c.samples; }
    };
    struct stop_maxiterations {
        static int iterations() { return c.its; }
    };
    struct stop_maxpredictedvalue {
        static double ratio() { return c.ratio; }
    };
    struct acqui_ucb {
        static double alpha() { return c.alpha; }
    };
    struct acqui_ei {
        BO_PARAM(double, jitter, 0.);
    };
    struct opt_gridsearch {
        static int bins() { return c.bins; }
    };
    struct opt_nloptnograd {
        static int iterations() { return c.direct; }
        static double fun_tolerance() { return -1; }
        static double xrel_tolerance() { return -1; }
    };
    struct opt_nloptgrad {
        static int iterations() { return c.direct; }
        static double fun_tolerance() { return -1; }
        static double xrel_tolerance() { return -1; }
    };
    struct opt_rprop {
        static int iterations() { return c.rprop; }
        static double eps_stop() { return 0; }
    };
};

// the objective
static D evaluated;
struct Fn {
    static int dim_in() { return c.din; }
    static int dim_out() { return c.dout; }
    static int nb_constraints() { return 1; }
    V value(const V& x, int n) const
    {
        V y(n);
        for (int o = 0; o < n; o++) {
            y(o) = 0;
            for (int i = 0; i < x.size(); i++)
                y(o) += std::cos(c.w(o) * x(i) + c.p(o) + i);
        }
        return y;
    }
    V operator()(const V& x) const
    {
        V y = value(x, c.dout);
        for (int i = 0; i < x.size(); i++)
            evaluated.push_back(x(i));
        return y;
    }
};
// one more value, the constraint
struct FnC : public Fn {
    V operator()(const V& x) const
    {
        V y = value(x, 2);
        y(1) = y(1) > 0;
        for (int i = 0; i < x.size(); i++)
            evaluated.push_back(x(i));
        return y;
    }
};
struct Fn2 : public Fn {
    static constexpr int dim_in() { return 2; }
};

// components of a user
struct MyInit {
    template <typename F, typename A, typename B>
    void operator()(const F& f, const A&, B& bo) const
    {
        bo.eval_and_add(f, V::Constant(F::dim_in(), 0.2));
        bo.eval_and_add(f, V::Constant(F::dim_in(), 0.7));
    }
};
struct MyStop {
    template <typename B, typename A>
    bool operator()(const B& bo, const A&) const { return bo.samples().size() >= 4; }
};
static D stat_log;
struct MyStat {
    template <typename B, typename A>
    void operator()(const B& bo, const A& a)
    {
        stat_log.push_back(bo.total_iterations());
        stat_log.push_back(a(bo.observations().back()));
    }
};

struct Record {
    D v;
    std::map<std::string, std::string> files;
    std::string console;
};
static void put(D& d, const V& v)
{
    d.push_back(v.size());
    for (int i = 0; i < v.size(); i++)
        d.push_back(v(i));
}
// in a thread of its own, with the same random numbers
template <typename F>
Record recorded(uint64_t seed, const std::string& dir, const F& f)
{
    Record r;
    std::exception_ptr e;
    char old[4096];
    if (mkdir(dir.c_str(), 0755) || !getcwd(old, sizeof old) || chdir(dir.c_str()))
        throw std::runtime_error("directory");
    std::ostringstream con;
    auto buf = std::cout.rdbuf(con.rdbuf());
    evaluated.clear();
    stat_log.clear();
    std::thread t([&] {
        try {
            verif::seed_state() = seed;
            nlopt::srand(seed % 1000000);
            f(r);
        }
        catch (...) {
            e = std::current_exception();
        }
    });
    t.join();
    std::cout.rdbuf(buf);
    r.console = con.str();
    for (auto d : {&evaluated, &stat_log}) {
        r.v.push_back(d->size());
        r.v.insert(r.v.end(), d->begin(), d->end());
    }
    if (chdir(old))
        throw std::runtime_error("directory");
    if (e)
        std::rethrow_exception(e);
    return r;
}
static void compare(Src& s, const Record& a, const Record& b)
{
    size_t n = std::min(a.v.size(), b.v.size());
    for (size_t i = 0; i < n; i++)
        s.check(std::memcmp(&a.v[i], &b.v[i], sizeof(double)) == 0, "differs from the explicit one", "entry " + std::to_string(i) + ": " + std::to_string(a.v[i]) + " instead of " + std::to_string(b.v[i]));
    s.check(a.v.size() == b.v.size(), "differs from the explicit one: number of values");
    s.check(a.console == b.console, "differs from the explicit one: terminal", a.console + "\ninstead of\n" + b.console);
    for (auto& f : b.files)
        s.check(a.files.count(f.first), "differs from the explicit one: missing file", f.first);
    for (auto& f : a.files) {
        s.check(b.files.count(f.first), "differs from the explicit one: additional file", f.first);
        s.check(b.files.at(f.first) == f.second, "differs from the explicit one: content of a file", f.first);
    }
}
static void read_dir(Record& r, const std::string& d)
{
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p))
            if (e->d_name[0] != '.') {
                std::ifstream in(d + "/" + e->d_name);
                std::ostringstream o;
                o << in.rdbuf();
                r.files[e->d_name] = o.str();
            }
        closedir(p);
    }
}
template <typename B, typename F, typename R>
Record history(uint64_t seed, const std::string& dir, const R& run, bool full)
{
    return recorded(seed, dir, [&](Record& r) {
        std::string res;
        {
            B bo;
            run(bo, F(), full);
            res = bo.res_dir();
            for (auto& x : bo.samples())
                put(r.v, x);
            for (auto& y : bo.observations())
                put(r.v, y);
            r.v.push_back(bo.current_iteration());
            r.v.push_back(bo.total_iterations());
        }
        if (c.stats)
            read_dir(r, res);
    });
}
// A: with components left out; B: with every component, in the usual order
template <typename A, typename B, typename F, typename R>
void same(Src& s, const std::string& name, const R& run)
{
    s << name << " din " << c.din << " its " << c.its << " samples " << c.samples << (c.stats ? " stats" : "");
    s.label(name);
    uint64_t seed = s.bits();
    Record a = history<A, F>(seed, s.dir() + "/a", run, false);
    Record b = history<B, F>(seed, s.dir() + "/b", run, true);
    compare(s, a, b);
    s.nontrivial(!b.v.empty());
}
static void draw(Src& s)
{
    c = Conf();
    c.din = s.i(1, 3);
    c.its = s.i(0, 4);
    c.samples = s.i(1, 5);
    c.bins = s.i(1, 5);
    c.direct = s.i(1, 40);
    c.rprop = s.i(1, 10);
    c.alpha = s.uni(0, 2);
    c.ratio = s.uni(0.3, 1.2);
    c.stats = s.b();
    c.w = V(2);
    c.p = V(2);
    for (int i = 0; i < 2; i++) {
        c.w(i) = s.uni(0.5, 8);
        c.p(i) = s.uni(0, 6);
    }
}
// with the default arguments, or with the same ones given
static void best(const V& x, const V& y)
{
    stat_log.insert(stat_log.end(), x.data(), x.data() + x.size());
    stat_log.insert(stat_log.end(), y.data(), y.data() + y.size());
}
struct Run {
    int more;
    template <typename B, typename F>
    void operator()(B& bo, const F& f, bool full) const
    {
        for (int i = 0; i <= more; i++) {
            if (i == 1) // goes on
                bo.optimize(f, FirstElem(), false);
            else if (full)
                bo.optimize(f, FirstElem(), true);
            else
                bo.optimize(f);
            if (full)
                best(bo.best_sample(FirstElem()), bo.best_observation(FirstElem()));
            else
                best(bo.best_sample(), bo.best_observation());
        }
    }
};
static const Run run{0}, again{2};
using GPd = model::GP<DP, kernel::MaternFiveHalves<DP>, mean::Data<DP>, model::gp::NoLFOpt<DP>>;
using GPo = model::GP<DP, kernel::SquaredExpARD<DP>, mean::Data<DP>, model::gp::KernelLFOpt<DP, opt::Rprop<DP>>>;
using GPu = model::GP<DP, kernel::Exp<DP>, mean::NullFunction<DP>, model::gp::NoLFOpt<DP>>; // a user's
using Direct = opt::NLOptNoGrad<DP, nlopt::GN_DIRECT_L_RAND>;
using Stats = statsfun<boost::fusion::vector<stat::Samples<DP>, stat::AggregatedObservations<DP>, stat::ConsoleSummary<DP>>>;
using Stop = stopcrit<boost::fusion::vector<stop::MaxIterations<DP>>>;
using Init = initfun<init::RandomSampling<DP>>;
using Grid = acquiopt<opt::GridSearch<DP>>;
// every component named
template <typename M = GPd, typename Ac = acqui::UCB<DP, M>, typename AO = acquiopt<Direct>, typename I = Init, typename S = Stats, typename T = Stop>
using Full = lb::BOptimizer<DP, modelfun<M>, acquifun<Ac>, AO, I, S, T>;

#if PART == 0
PBT_SUITE("optimizer", 4, "every case")
{
    draw(s);
    switch (s.i(0, 5)) {
    case 0:
        return same<lb::BOptimizer<DP>, Full<>, Fn>(s, "nothing given", again);
    case 1:
        return same<lb::BOptimizer<DP, stopcrit<MyStop>>, Full<GPd, acqui::UCB<DP, GPd>, acquiopt<Direct>, Init, Stats, stopcrit<boost::fusion::vector<MyStop>>>, Fn>(s, "stopcrit", run);
    case 2:
        return same<lb::BOptimizer<DP, Grid, initfun<MyInit>>, Full<GPd, acqui::UCB<DP, GPd>, Grid, initfun<MyInit>>, Fn>(s, "acquiopt, initfun", again);
    case 3:
        return same<lb::BOptimizer<DP, statsfun<MyStat>>, Full<GPd, acqui::UCB<DP, GPd>, acquiopt<Direct>, Init, statsfun<boost::fusion::vector<MyStat>>>, Fn>(s, "statsfun", again);
    case 4:
        return same<lb::BOptimizer<DP, acquifun<acqui::EI<DP, GPd>>>, Full<GPd, acqui::EI<DP, GPd>>, Fn>(s, "acquifun", run);
    default:
        return same<lb::BOptimizer<DP, acquifun<acqui::UCB<DP, GPu>>, modelfun<GPu>>, Full<GPu, acqui::UCB<DP, GPu>>, Fn>(s, "acquifun, modelfun", run);
    }
}
#elif PART == 1
PBT_SUITE("optimizer with other orders", 4, "every case")
{
    draw(s);
    using AO = acqui::UCB<DP, GPo>;
    int which = s.i(0, 4);
    if (which == 0 || which == 1 || which == 3)
        c.hp = s.pick(std::vector<int>{-1, 1, 2});
    switch (which) {
    case 0:
        return same<lb::BOptimizerHPOpt<DP>, Full<GPo, AO>, Fn>(s, "BOptimizerHPOpt", run);
    case 1:
        return same<lb::BOptimizerHPOpt<DP, statsfun<MyStat>, stopcrit<MyStop>, Grid, initfun<MyInit>>, Full<GPo, AO, Grid, initfun<MyInit>, statsfun<boost::fusion::vector<MyStat>>, stopcrit<boost::fusion::vector<MyStop>>>, Fn>(s, "BOptimizerHPOpt with everything", run);
    case 2:
        return same<lb::BOptimizer<DP, statsfun<MyStat>, stopcrit<MyStop>, acquifun<acqui::EI<DP, GPu>>, Grid, initfun<MyInit>, modelfun<GPu>>, Full<GPu, acqui::EI<DP, GPu>, Grid, initfun<MyInit>, statsfun<boost::fusion::vector<MyStat>>, stopcrit<boost::fusion::vector<MyStop>>>, Fn>(s, "everything in another order", run);
    case 3:
        return same<lb::BOptimizer<DP, initfun<MyInit>, stopcrit<boost::fusion::vector<MyStop, stop::MaxIterations<DP>>>, modelfun<GPo>, statsfun<MyStat>, Grid, acquifun<AO>>, Full<GPo, AO, Grid, initfun<MyInit>, statsfun<boost::fusion::vector<MyStat>>, stopcrit<boost::fusion::vector<MyStop, stop::MaxIterations<DP>>>>, Fn>(s, "everything in a third order", run);
    default:
        // the criterion uses the optimiser of the acquisition function unless it is given another
        return same<lb::BOptimizer<DP, Grid, stopcrit<boost::fusion::vector<stop::MaxIterations<DP>, stop::MaxPredictedValue<DP>>>>, Full<GPd, acqui::UCB<DP, GPd>, Grid, Init, Stats, stopcrit<boost::fusion::vector<stop::MaxIterations<DP>, stop::MaxPredictedValue<DP, opt::GridSearch<DP>>>>>, Fn>(s, "MaxPredictedValue", run);
    }
}
#elif PART == 2
PBT_SUITE("other optimizers", 4, "every case")
{
    draw(s);
    auto plain = [](auto& bo, const auto& f, bool full) {
        if (full)
            bo.optimize(f, FirstElem(), true);
        else
            bo.optimize(f);
    };
    using CM = model::GP<DP, kernel::Exp<DP>, mean::Constant<DP>, model::gp::NoLFOpt<DP>>;
    using ECI = ex::acqui::ECI<DP, GPd, CM>;
    using UI = acqui::experimental::UCB_IMGPO<DP, GPd>;
    using PG = ex::model::GPParego<DP, GPd>;
    using PU = ex::model::GPParego<DP, GPu>;
    switch (s.i(0, 4)) {
    case 0:
        c.hp = -1;
        return same<ex::bayes_opt::CBOptimizer<DP, acquifun<ECI>>, ex::bayes_opt::CBOptimizer<DP, modelfun<GPd>, acquifun<ECI>, acquiopt<Direct>, Init, Stats, Stop, ex::constraint_modelfun<CM>>, FnC>(s, "CBOptimizer", run);
    case 1: {
        using E = ex::acqui::ECI<DP, GPd, GPu>;
        return same<ex::bayes_opt::CBOptimizer<DP, ex::constraint_modelfun<GPu>, acquifun<E>, statsfun<MyStat>, Grid>, ex::bayes_opt::CBOptimizer<DP, modelfun<GPd>, acquifun<E>, Grid, Init, statsfun<boost::fusion::vector<MyStat>>, Stop, ex::constraint_modelfun<GPu>>, FnC>(s, "CBOptimizer, constraint_modelfun", run);
    }
    case 2:
        c.din = std::min(c.din, 2);
        return same<lb::experimental::IMGPO<DP, acquifun<UI>>, lb::experimental::IMGPO<DP, modelfun<GPd>, acquifun<UI>, Init, Stats, Stop>, Fn>(s, "IMGPO", run);
    case 3:
        c.dout = 2;
        return same<ex::bayes_opt::Parego<DP, acquifun<acqui::UCB<DP, PG>>>, ex::bayes_opt::Parego<DP, ex::bayes_opt::parego_modelfun<GPd>, acquifun<acqui::UCB<DP, PG>>, acquiopt<Direct>, Init, Stats>, Fn>(s, "Parego", plain);
    default:
        c.dout = 2;
        return same<ex::bayes_opt::Parego<DP, statsfun<MyStat>, acquifun<acqui::UCB<DP, PU>>, Grid, ex::bayes_opt::parego_modelfun<GPu>>, ex::bayes_opt::Parego<DP, ex::bayes_opt::parego_modelfun<GPu>, acquifun<acqui::UCB<DP, PU>>, Grid, Init, statsfun<boost::fusion::vector<MyStat>>>, Fn>(s, "Parego, parego_modelfun", plain);
    }
}
#elif PART == 4
PBT_SUITE("multi-objective optimizer", 1, "every case")
{
    draw(s);
    auto run = [](auto& bo, const auto& f, bool full) {
        if (full)
            bo.optimize(f, true);
        else
            bo.optimize(f);
    };
    switch (s.i(0, 1)) {
    case 0:
        c.dout = c.din = 2;
        c.its = std::min(c.its, 2);
        return same<ex::bayes_opt::Ehvi<DP, statsfun<MyStat>>, ex::bayes_opt::Ehvi<DP, acquiopt<Direct>, statsfun<boost::fusion::vector<MyStat>>, Init, modelfun<GPd>, Stop>, Fn2>(s, "Ehvi", run);
    default:
        c.dout = c.din = 2;
        return same<ex::bayes_opt::Ehvi<DP, stopcrit<MyStop>, statsfun<MyStat>, modelfun<GPu>, Grid>, ex::bayes_opt::Ehvi<DP, Grid, statsfun<boost::fusion::vector<MyStat>>, Init, modelfun<GPu>, stopcrit<boost::fusion::vector<MyStop>>>, Fn2>(s, "Ehvi, modelfun", run);
    }
}
#else
// ---- models
template <typename M>
Record model_of(uint64_t seed, const std::string& dir, const std::vector<V>& X, const std::vector<V>& Y, const std::vector<V>& q, bool hp)
{
    return recorded(seed, dir, [&](Record& r) {
        M m(X[0].size(), Y[0].size());
        m.compute(std::vector<V>(X.begin(), X.end() - 1), std::vector<V>(Y.begin(), Y.end() - 1));
        m.add_sample(X.back(), Y.back());
        if (hp)
            m.optimize_hyperparams();
        for (auto& x : q)
            put(r.v, m.mu(x));
    });
}
template <typename A, typename B>
void same_model(Src& s, const std::string& name, bool hp = true, int dout = 0)
{
    int din = s.i(1, 3), n = s.i(2, 8);
    if (!dout)
        dout = s.i(1, 2);
    s << name << " " << din << "->" << dout << " n " << n;
    s.label(name);
    std::vector<V> X, Y, q;
    for (int i = 0; i < n; i++) {
        X.push_back(vec(s, din));
        Y.push_back(vec(s, dout, -2, 2));
    }
    for (int i = 0; i < 4; i++)
        q.push_back(vec(s, din, -1, 2));
    uint64_t seed = s.bits();
    compare(s, model_of<A>(seed, s.dir() + "/a", X, Y, q, hp), model_of<B>(seed, s.dir() + "/b", X, Y, q, hp));
    s.nontrivial();
}
using K = kernel::MaternFiveHalves<DP>;
using MD = mean::Data<DP>;
PBT_SUITE("models", 4, "every case")
{
    using namespace model;
    draw(s);
    using KA = kernel::SquaredExpARD<DP>;
    using MA = mean::FunctionARD<DP, MD>;
    switch (s.i(0, 11)) {
    case 0:
        return same_model<GP<DP>, GPd>(s, "GP", false);
    case 1:
        return same_model<GPBasic<DP>, GPd>(s, "GPBasic", false);
    case 2:
        return same_model<GPOpt<DP>, GPo>(s, "GPOpt");
    case 3:
        return same_model<GP<DP, KA>, GP<DP, KA, MD, gp::NoLFOpt<DP>>>(s, "GP with a kernel", false);
    case 4:
        return same_model<SparsifiedGP<DP>, SparsifiedGP<DP, K, MD, gp::NoLFOpt<DP>>>(s, "SparsifiedGP", false);
    case 5:
        return same_model<GP<DP, KA, MD, gp::KernelLFOpt<DP>>, GPo>(s, "KernelLFOpt");
    case 6:
        return same_model<GP<DP, KA, MA, gp::KernelMeanLFOpt<DP>>, GP<DP, KA, MA, gp::KernelMeanLFOpt<DP, opt::Rprop<DP>>>>(s, "KernelMeanLFOpt");
    case 7:
        return same_model<GP<DP, K, MA, gp::MeanLFOpt<DP>>, GP<DP, K, MA, gp::MeanLFOpt<DP, opt::Rprop<DP>>>>(s, "MeanLFOpt");
    case 8:
        return same_model<GP<DP, KA, MD, gp::KernelLooOpt<DP>>, GP<DP, KA, MD, gp::KernelLooOpt<DP, opt::Rprop<DP>>>>(s, "KernelLooOpt");
    case 9:
        return same_model<MultiGP<DP, GP, K, MD>, MultiGP<DP, GP, K, MD, gp::NoLFOpt<DP>>>(s, "MultiGP", false);
    case 10:
        return same_model<MultiGP<DP, GP, K, MD, multi_gp::ParallelLFOpt<DP>>, MultiGP<DP, GP, K, MD, multi_gp::ParallelLFOpt<DP, gp::NoLFOpt<DP>>>>(s, "ParallelLFOpt", false);
    default:
        return same_model<GP<DP, KA, MD, gp::KernelLFOpt<DP, opt::NLOptGrad<DP>>>, GP<DP, KA, MD, gp::KernelLFOpt<DP, opt::NLOptGrad<DP, nlopt::LD_LBFGS>>>>(s, "NLOptGrad");
    }
}
// ---- optimisers of functions
template <typename A, typename B>
void same_opt(Src& s, const std::string& name)
{
    s << name;
    V x0 = vec(s, c.din);
    auto f = [](const V& x, bool g) -> opt::eval_t {
        double v = 0;
        V d(x.size());
        for (int i = 0; i < x.size(); i++) {
            evaluated.push_back(x(i));
            v += std::cos(c.w(0) * x(i) + c.p(0) + i);
            d(i) = -c.w(0) * std::sin(c.w(0) * x(i) + c.p(0) + i);
        }
        return g ? opt::eval_t{v, d} : opt::no_grad(v);
    };
    uint64_t seed = s.bits();
    Record a = recorded(seed, s.dir() + "/a", [&](Record& r) { put(r.v, A()(f, x0, true)); });
    Record b = recorded(seed, s.dir() + "/b", [&](Record& r) { put(r.v, B()(f, x0, true)); });
    compare(s, a, b);
    s.label(name);
    s.nontrivial();
}
PBT_SUITE("algorithms", 1, "every case")
{
    draw(s);
    if (s.b())
        return same_opt<opt::NLOptNoGrad<DP>, Direct>(s, "NLOptNoGrad");
    return same_opt<opt::NLOptGrad<DP>, opt::NLOptGrad<DP, nlopt::LD_LBFGS>>(s, "NLOptGrad");
}
#endif
} // namespace
