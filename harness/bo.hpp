// A Bayesian optimiser with every extension point recorded: objective, acquisition function, acquisition
// optimiser, hyper-parameter optimiser, statistics and stopping criteria are the harness's own.
#ifndef VERIF_BO_HPP
#define VERIF_BO_HPP
#include "lv.hpp"
#include <boost/fusion/include/vector.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/grid_sampling.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/init/random_sampling_grid.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/stat/stat_base.hpp>

namespace lv {
    struct BoCfg {
        int din = 1, dout = 1;
        bool bounded = true, stats = false;
        int hp_period = -1;
        int iterations = 5;
        int rs_samples = 3, lhs_samples = 3, rg_samples = 3, rg_bins = 4, gs_bins = 2;
        int grid_opt_bins = 4, stat_bins = 3;
        double ratio = 0.9, alpha = 0.5, jitter = 0;
        double hv_ref = 0;
        Src* src = nullptr;
    };
    inline BoCfg& bc()
    {
        static BoCfg c;
        return c;
    }
    // every parameter is read at the time of use
    struct BP : public KP<false, 0> {
        struct bayes_opt_bobase {
            static bool stats_enabled() { return bc().stats; }
            static bool bounded() { return bc().bounded; }
        };
        struct bayes_opt_boptimizer {
            static int hp_period() { return bc().hp_period; }
        };
        struct stop_maxiterations {
            static int iterations() { return bc().iterations; }
        };
        struct stop_maxpredictedvalue {
            static double ratio() { return bc().ratio; }
        };
        struct init_randomsampling {
            static int samples() { return bc().rs_samples; }
        };
        struct init_lhs {
            static int samples() { return bc().lhs_samples; }
        };
        struct init_randomsamplinggrid {
            static int samples() { return bc().rg_samples; }
            static int bins() { return bc().rg_bins; }
        };
        struct init_gridsampling {
            static int bins() { return bc().gs_bins; }
        };
        struct opt_gridsearch {
            static int bins() { return bc().grid_opt_bins; }
        };
        struct acqui_ucb {
            static double alpha() { return bc().alpha; }
        };
        struct acqui_ei {
            static double jitter() { return bc().jitter; }
        };
        struct acqui_gpucb {
            static constexpr double delta() { return 0.1; }
        };
        struct stat_gp {
            static int bins() { return bc().stat_bins; }
        };
    };

    struct EvalThrow {
        int what;
    };
    struct Eval {
        V x, y;
        bool failed = false; // threw, or returned NaN / infinity
    };
    struct OptCall {
        V start, ret;
        bool bounded;
        size_t evals; // evaluations made before
        int nq;
    };
    struct Log {
        std::vector<Eval> evals;
        std::vector<OptCall> opts;
        std::vector<size_t> hp; // number of evaluations made when hyper-parameters were optimised
        std::vector<int> acq_iter; // iteration each acquisition function was created for
        std::vector<V> aq; // points the acquisition function was asked for
        int acq_agg = -1; // last aggregator seen by the acquisition function
        bool acq_grad = false;
        int fail_at = -1; // evaluation (counted from the start of the case) that fails
        int fail_how = 0;
        int hp_seed = 0;
        std::function<V(const V&, size_t)> f;
        std::function<void(const std::vector<V>&, const std::vector<V>&)> on_query; // data of the model the acquisition function looks at
    };
    inline Log& lg()
    {
        static Log l;
        return l;
    }
    inline bool finite(const V& v)
    {
        for (int i = 0; i < v.size(); i++)
            if (!std::isfinite(v(i)))
                return false;
        return true;
    }
    inline bool in_unit(const V& v) { return v.size() == 0 || (finite(v) && v.minCoeff() >= 0 && v.maxCoeff() <= 1); }

    // the objective
    struct Fn {
        static size_t dim_in() { return bc().din; }
        static size_t dim_out() { return bc().dout; }
        V operator()(const V& x) const
        {
            Log& l = lg();
            size_t k = l.evals.size();
            Eval e;
            e.x = x;
            e.y = l.f(x, k);
            int how = (int)k == l.fail_at ? l.fail_how : 0;
            e.failed = how != 0;
            if (how >= 1 && how <= 3) {
                double bad[] = {std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
                e.y(e.y.size() - 1 - (k % e.y.size())) = bad[how - 1];
            }
            l.evals.push_back(e);
            if (how == 4)
                throw EvalThrow{(int)k};
            if (how == 5)
                throw std::runtime_error("evaluation " + std::to_string(k));
            return e.y;
        }
    };
    // aggregators
    struct Agg {
        using result_type = double;
        int id = 0;
        double operator()(const V& y) const
        {
            switch (id) {
            case 0:
                return y(0);
            case 1:
                return y.sum();
            case 2:
                return -y(y.size() - 1);
            default:
                return -y.squaredNorm() * 0.1;
            }
        }
    };

    // an acquisition optimiser that records its calls and returns one of the points it tried
    template <typename Params>
    struct RecOpt {
        template <typename F>
        V operator()(const F& f, const V& init, bool bounded) const
        {
            Log& l = lg();
            Src& s = *bc().src;
            OptCall c;
            c.start = init;
            c.bounded = bounded;
            c.evals = l.evals.size();
            c.nq = s.i(1, 3);
            std::vector<V> P;
            for (int i = 0; i < c.nq; i++) {
                if (i == 0 && s.b())
                    P.push_back(init);
                else if (s.p(0.2) && l.evals.size())
                    P.push_back(l.evals[s.u(l.evals.size())].x); // a point evaluated before
                else
                    P.push_back(bounded ? vec(s, init.size()) : vec(s, init.size(), -5, 5));
            }
            double best = 0;
            int bi = -1;
            for (int i = 0; i < c.nq; i++) {
                size_t before = l.aq.size();
                auto r = f(P[i], false);
                double v = limbo::opt::fun(r);
                s.check(l.aq.size() == before + 1 && l.aq.back() == P[i] && !l.acq_grad, "the function to maximise is not the acquisition function");
                if (bi < 0 || v > best) {
                    best = v;
                    bi = i;
                }
            }
            if (s.p(0.2))
                bi = s.u(c.nq); // optimisers may return any of them
            c.ret = P[bi];
            l.opts.push_back(c);
            return c.ret;
        }
    };
    // which aggregator it is; -1: not the one of the harness
    inline int agg_id(const Agg& a) { return a.id; }
    template <typename A>
    int agg_id(const A&) { return -1; }
    // an acquisition function that records what it is given
    template <typename Params, typename Model>
    struct RecAcq {
        RecAcq(const Model& m, int it = 0) : _m(m), _it(it) { lg().acq_iter.push_back(it); }
        size_t dim_in() const { return _m.dim_in(); }
        size_t dim_out() const { return _m.dim_out(); }
        template <typename A>
        limbo::opt::eval_t operator()(const V& v, const A& a, bool g)
        {
            Log& l = lg();
            l.aq.push_back(v);
            l.acq_grad = g;
            l.acq_agg = agg_id(a);
            if (l.on_query)
                l.on_query(_m.samples(), _m.observations());
            V mu;
            double s2;
            std::tie(mu, s2) = _m.query(v);
            return limbo::opt::no_grad(a(mu) + 0.5 * std::sqrt(s2));
        }
        const Model& _m;
        int _it;
    };
    // records the call and changes the hyper-parameters deterministically
    template <typename Params>
    struct HPRec {
        template <typename GP>
        void operator()(GP& gp)
        {
            lg().hp.push_back(lg().evals.size());
            V p = gp.kernel_function().h_params();
            int k = lg().hp_seed + (int)lg().hp.size();
            for (int i = 0; i < p.size(); i++)
                p(i) = ((k * 7 + i * 3) % 11) * 0.15 - 1.2;
            gp.kernel_function().set_h_params(p);
            gp.recompute(false);
        }
        template <typename Archive>
        void save(const Archive&) const {}
        template <typename Archive>
        void load(const Archive&) {}
    };
    // a model that only stores its data (for long designs)
    template <typename Params>
    struct ListModel {
        ListModel() {}
        ListModel(int din, int dout) : _din(din), _dout(dout) {}
        void compute(const std::vector<V>& X, const std::vector<V>& Y, bool = true)
        {
            _X = X;
            _Y = Y;
            _din = X[0].size();
            _dout = Y[0].size();
        }
        void add_sample(const V& x, const V& y)
        {
            _X.push_back(x);
            _Y.push_back(y);
        }
        void optimize_hyperparams() {}
        void recompute(bool = true, bool = true) {}
        std::tuple<V, double> query(const V&) const { return std::make_tuple(V(V::Zero(_dout)), 1.); }
        V mu(const V&) const { return V::Zero(_dout); }
        double sigma(const V&) const { return 1; }
        int dim_in() const { return _din; }
        int dim_out() const { return _dout; }
        int nb_samples() const { return _X.size(); }
        const std::vector<V>& samples() const { return _X; }
        const std::vector<V>& observations() const { return _Y; }
        std::vector<V> _X, _Y;
        int _din = 1, _dout = 1;
    };

    using BGP = limbo::model::GP<BP, limbo::kernel::MaternFiveHalves<BP>, limbo::mean::Data<BP>, HPRec<BP>>;
    template <typename Init, typename Model, typename Stat = boost::fusion::vector<>, typename Stop = limbo::stop::MaxIterations<BP>, typename Opt = RecOpt<BP>, typename Acq = RecAcq<BP, Model>>
    using BO = limbo::bayes_opt::BOptimizer<BP, limbo::modelfun<Model>, limbo::acquifun<Acq>, limbo::acquiopt<Opt>, limbo::initfun<Init>, limbo::statsfun<Stat>, limbo::stopcrit<Stop>>;

    // a deterministic objective: smooth, tied, constant, or different at every call
    std::function<V(const V&, size_t)> gen_fn(Src& s, int dout);
    void reset_bo(Src& s);

    // index of the first pair whose aggregated observation is the largest
    template <typename A>
    int best_of(const std::vector<V>& Y, const A& a)
    {
        int b = 0;
        for (size_t i = 1; i < Y.size(); i++)
            if (a(Y[i]) > a(Y[b]))
                b = i;
        return b;
    }
    inline std::vector<V> good_x(size_t from = 0)
    {
        std::vector<V> r;
        for (size_t i = from; i < lg().evals.size(); i++)
            if (!lg().evals[i].failed)
                r.push_back(lg().evals[i].x);
        return r;
    }
    inline std::vector<V> good_y(size_t from = 0)
    {
        std::vector<V> r;
        for (size_t i = from; i < lg().evals.size(); i++)
            if (!lg().evals[i].failed)
                r.push_back(lg().evals[i].y);
        return r;
    }
} // namespace lv
#endif
