// C28: ParEGO
#include "bo.hpp"
#include <limbo/kernel/exp.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/model/gp_parego.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
using namespace lv;
namespace ex = limbo::experimental;

static double rho = 0.05;
struct PP : public BP {
    struct model_gp_parego {
        static double rho() { return ::rho; }
    };
};

// The weights of an aggregation, from the observations that have a single non-zero objective (positive);
// false if they cannot be recovered
static bool weights(Src& s, const std::vector<V>& Y, const std::vector<V>& A, V& w)
{
    int d = Y[0].size(), known = 0, miss = -1;
    w = V::Constant(d, -1);
    for (size_t k = 0; k < Y.size(); k++)
        for (int j = 0; j < d; j++)
            if (Y[k](j) > 0 && Y[k].cwiseAbs().sum() == Y[k](j) && w(j) < 0 && A[k].size() == 1)
                w(j) = A[k](0) / ((1 + rho) * Y[k](j));
    for (int j = 0; j < d; j++)
        if (w(j) == -1)
            miss = j;
        else
            known++;
    if (known == d - 1) {
        w(miss) = 0;
        w(miss) = 1 - w.sum();
        known++;
    }
    return known == d;
}
// returns whether the weights were recovered
static bool aggregated(Src& s, const std::vector<V>& Y, const std::vector<V>& A, V& w, const std::string& where)
{
    s.check(A.size() == Y.size(), where + "/number of aggregated observations", std::to_string(A.size()) + " instead of " + std::to_string(Y.size()));
    for (auto& a : A)
        s.check(a.size() == 1, where + "/the model has several outputs");
    if (Y.empty() || !weights(s, Y, A, w))
        return false;
    s.check(w.minCoeff() >= -1e-9 && std::abs(w.sum() - 1) <= 1e-9, where + "/weights are not non-negative with sum one", str(w));
    for (size_t k = 0; k < Y.size(); k++) {
        V p = w.cwiseProduct(Y[k]);
        s.close(A[k](0), p.maxCoeff() + rho * p.sum(), 1e-9 * (1 + Y[k].cwiseAbs().maxCoeff()), where + "/not the augmented Tchebycheff aggregation of the objectives under the common weights", str(Y[k]) + " weights " + str(w));
    }
    return true;
}
static V gen_obs(Src& s, int d, size_t k)
{
    V y = V::Zero(d);
    if ((int)k < d || s.p(0.1))
        y(k % d) = s.pick(std::vector<double>{1., 0.5, 2., 10.});
    else
        for (int j = 0; j < d; j++)
            y(j) = s.pick(std::vector<double>{0., 1., -1., s.uni(-3, 3), s.uni(-3, 3), s.uni(-100, 100), s.uni(-0.01, 0.01)});
    return y;
}
template <typename GP>
void agree(Src& s, const GP& plain, const GP& m, size_t n, double ys, const std::string& where)
{
    double k0 = m.kernel_function()(V::Zero(m.dim_in()), V::Zero(m.dim_in())), nz = m.kernel_function().noise();
    double c = 10 + (n * k0 + nz) / nz;
    for (int k = 0; k < 2; k++) {
        V q = k == 0 && n ? V(m.samples()[n / 2]) : vec(s, m.dim_in());
        V a = m.mu(q), b = plain.mu(q);
        s.check(a.size() == 1, where + "/dimension of the prediction");
        s.close(a(0), b(0), 1e-12 * c * ys * (1 + n), where + "/mean differs from an ordinary model of the aggregated data");
        s.close(m.sigma(q), plain.sigma(q), 1e-12 * c * k0 * (1 + n), where + "/variance differs from an ordinary model of the aggregated data");
        auto r = m.query(q);
        s.check(std::get<0>(r).size() == 1, where + "/query");
        s.close(std::get<0>(r)(0), b(0), 1e-12 * c * ys * (1 + n), where + "/query: mean");
        s.close(std::get<1>(r), plain.sigma(q), 1e-12 * c * k0 * (1 + n), where + "/query: variance");
    }
}
template <typename GP>
void model(Src& s)
{
    int d = s.weighted({1, 5, 4, 2, 1}) + 1, din = s.i(1, 4);
    using M_ = ex::model::GPParego<PP, GP>;
    bool dims = s.b();
    M_ m = dims ? M_(din, d) : M_();
    if (dims) {
        V x0 = vec(s, din);
        s.check(m.nb_samples() == 0 && m.samples().empty() && m.dim_in() == din && m.dim_out() == 1, "empty model/dimensions");
        s.check(m.mu(x0).size() == 1 && m.sigma(x0) > 0, "empty model/prediction");
    }
    std::vector<V> X, Y;
    V last;
    int ops = s.i(1, 10), adds = 0, computes = 0, values = 0;
    s << " objectives=" << d << " rho=" << rho << " ops:";
    for (int o = 0; o < ops; o++) {
        bool update = true;
        if (s.p(0.3)) {
            // everything at once: the same data with more, or other data
            if (s.b()) {
                X.clear();
                Y.clear();
            }
            for (int k = s.i(X.empty() ? 1 : 0, 8); k > 0; k--) {
                X.push_back(vec(s, din));
                Y.push_back(gen_obs(s, d, Y.size()));
            }
            m.compute(X, Y);
            computes++;
            s << " C" << X.size();
        }
        else if (s.p(0.85)) {
            X.push_back(vec(s, din));
            Y.push_back(gen_obs(s, d, Y.size()));
            m.add_sample(X.back(), Y.back());
            adds++;
            s << " +";
        }
        else if (X.size() && s.b()) {
            m.recompute(true);
            update = false;
            s << " R";
        }
        else if (X.size()) {
            // goes on from an archive, in a new or a used model
            std::string dir = s.dir() + "/saved" + std::to_string(o);
            M_ l = s.b() ? M_() : m;
            if (s.p(0.3))
                l.compute({V::Zero(din)}, {V::Zero(d)});
            bool rec = s.b();
            if (s.b()) {
                m.template save<limbo::serialize::TextArchive>(dir);
                l.template load<limbo::serialize::TextArchive>(dir, rec);
                // nearly exact
                s.check(l.samples().size() == X.size(), "model/samples of a loaded model");
                for (size_t k = 0; k < X.size(); k++) {
                    s.check(l.samples()[k].size() == din && (l.samples()[k] - X[k]).cwiseAbs().maxCoeff() <= 1e-13 * (1 + X[k].cwiseAbs().maxCoeff()), "model/samples of a loaded model");
                    X[k] = l.samples()[k];
                }
            }
            else {
                limbo::serialize::BinaryArchive a(dir);
                m.save(a);
                l.load(a, rec);
            }
            m = l;
            update = false;
            s << " L";
        }
        if (X.empty())
            continue;
        s.check(same(m.samples(), X) && m.nb_samples() == (int)X.size(), "model/samples", std::to_string(m.samples().size()) + " instead of " + std::to_string(X.size()));
        s.check(m.dim_out() == 1 && m.dim_in() == din, "model/dimensions");
        V w;
        auto A = m.observations();
        if (aggregated(s, Y, A, w, "model")) {
            values++;
            if (last.size() && d > 1)
                s.check(update == (w != last) || (!update && (w - last).cwiseAbs().maxCoeff() < 1e-9), "model/weights are redrawn at each update (only)", str(w));
            last = w;
        }
        else
            last = V();
        double ys = 1e-12;
        V mean = V::Zero(1);
        for (auto& a : A) {
            ys = std::max(ys, std::abs(a(0)));
            mean += a / A.size();
        }
        s.close(m.mean_observation()(0), mean(0), 1e-12 * ys, "model/mean observation");
        if (s.p(0.5)) {
            GP plain(din, 1);
            plain.compute(X, A);
            agree(s, plain, static_cast<const GP&>(m), X.size(), ys, "model");
        }
    }
    s.nontrivial(d > 1 && values >= 2 && adds >= 1);
    s.label(d == 1 ? "one objective" : computes && adds ? "computations and additions" : computes ? "computations" : "additions");
}
using GA = limbo::model::GP<PP, limbo::kernel::MaternFiveHalves<PP>, limbo::mean::Data<PP>, HPRec<PP>>;
using GB = limbo::model::GP<PP, limbo::kernel::Exp<PP>, limbo::mean::Constant<PP>, HPRec<PP>>;
PBT_SUITE("model", 4, "several objectives, an addition, and the weights recovered at two updates or more")
{
    reset_bo(s);
    rho = s.pick(std::vector<double>{0.05, 0., 0.3, 1.});
    if (s.b())
        model<GA>(s);
    else
        model<GB>(s);
}
PBT_SUITE("weights", 1, "always: 300 draws of the weights")
{
    reset_bo(s);
    rho = s.pick(std::vector<double>{0.05, 0., 0.3});
    int d = s.i(2, 4);
    std::vector<V> X, Y;
    for (int j = 0; j < d; j++) {
        V y = V::Zero(d);
        y(j) = 1;
        Y.push_back(y);
        X.push_back(vec(s, 1));
    }
    ex::model::GPParego<PP, GA> m(1, d);
    V lo = V::Constant(d, 2), hi = V::Constant(d, -2);
    for (int k = 0; k < 300; k++) {
        m.compute(X, Y);
        V w;
        s.check(aggregated(s, Y, m.observations(), w, "weights"), "weights/not recovered");
        lo = lo.cwiseMin(w);
        hi = hi.cwiseMax(w);
    }
    // a given weight is above (below) its bound with a probability of 5 % or more at each draw
    double h = d == 2 ? 0.6 : d == 3 ? 0.5 : 0.4, b = d == 2 ? 0.4 : d == 3 ? 0.2 : 0.15;
    s.check(hi.minCoeff() > h && lo.maxCoeff() < b, "weights/some directions are never drawn", str(lo) + " .. " + str(hi));
    s.nontrivial(true);
}

// ---- the optimiser
static int seen_stats;
struct CStat : public limbo::stat::StatBase<PP> {
    template <typename B, typename A>
    void operator()(const B& bo, const A&)
    {
        seen_stats++;
    }
};
template <typename Init>
struct Types {
    using PM = ex::model::GPParego<PP, GB>;
    using pm = ex::bayes_opt::parego_modelfun<GB>;
    using ac = limbo::acquifun<RecAcq<PP, PM>>;
    using st = limbo::statsfun<boost::fusion::vector<CStat>>;
    using in = limbo::initfun<Init>;
    using sc = limbo::stopcrit<limbo::stop::MaxIterations<PP>>;
    using ao = limbo::acquiopt<RecOpt<PP>>;
    using A = ex::bayes_opt::Parego<PP, pm, ac, st, in, ao>;
    using B = ex::bayes_opt::Parego<PP, ac, pm, ao, in, sc>;
    using C = ex::bayes_opt::Parego<PP, st, ao, ac, in, pm>;
    using D = ex::bayes_opt::Parego<PP, ao, in, pm, st, ac>;
};
template <typename B>
void run(Src& s, int ninit, bool stats)
{
    s.check(std::is_same<typename B::model_t, ex::model::GPParego<PP, GB>>::value && std::is_same<typename B::acqui_optimizer_t, RecOpt<PP>>::value, "run/a named argument is not taken into account");
    B bo;
    auto& l = lg();
    size_t start = 0;
    int total = 0, did = 0, values = 0;
    for (int r = s.i(1, 2), k = 0; k < r; k++) {
        bool reset = k == 0 ? s.p(0.8) : s.b();
        int its = bc().iterations = s.size(0, 8, 40, 0.01);
        s << " " << (reset ? "reset" : "continue") << "x" << its;
        size_t e0 = l.evals.size(), b = reset ? e0 : start;
        int st0 = seen_stats;
        l.on_query = [&](const std::vector<V>& X, const std::vector<V>& A) {
            V w;
            s.check(same(X, good_x(b)), "run/the model does not hold the history");
            values += aggregated(s, good_y(b), A, w, "run");
        };
        bo.optimize(Fn(), Agg(), reset);
        l.on_query = nullptr;
        if (reset) {
            start = e0;
            total = 0;
        }
        int design = total == 0 ? ninit : 0;
        total += its;
        did += its;
        s.check((int)(l.evals.size() - e0) == design + its, "run/number of evaluations");
        s.check(!stats || seen_stats - st0 == its, "run/statistics");
        auto X = good_x(start), Y = good_y(start);
        s.check(same(bo.samples(), X) && same(bo.observations(), Y), "run/history (with all objectives)");
        if (X.empty())
            continue;
        s.check(same(bo.model().samples(), X), "run/the model does not hold the history");
        V w;
        auto A = bo.model().observations();
        values += aggregated(s, Y, A, w, "run");
    }
    s.nontrivial(did >= 2 && values >= 1);
}
PBT_SUITE("run", 2, "two iterations and weights recovered at some iteration")
{
    reset_bo(s);
    rho = 0.05;
    seen_stats = 0;
    bc().dout = s.i(1, 4);
    bc().rs_samples = s.size(0, 5, 40, 0.01);
    bc().hp_period = s.pick(std::vector<int>{-1, 2});
    int d = bc().dout;
    auto f = gen_fn(s, d);
    lg().f = [=](const V& x, size_t k) {
        V y = V::Zero(d);
        if ((int)k % (2 * d) < d) {
            y(k % d) = 1 + 0.5 * (k % 3);
            return y;
        }
        return f(x, k);
    };
    int w = s.i(0, 4);
    s << " objectives=" << d << " init " << bc().rs_samples << " arguments " << w;
    using R = limbo::init::RandomSampling<PP>;
    if (w == 0)
        run<typename Types<R>::A>(s, bc().rs_samples, true);
    else if (w == 1)
        run<typename Types<R>::B>(s, bc().rs_samples, false);
    else if (w == 2)
        run<typename Types<R>::C>(s, bc().rs_samples, true);
    else if (w == 3)
        run<typename Types<R>::D>(s, bc().rs_samples, true);
    else
        run<typename Types<limbo::init::NoInit<PP>>::A>(s, 0, true);
}
