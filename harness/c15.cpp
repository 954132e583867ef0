// C15: acquisition functions against their documented formulas
#include "bo.hpp"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/model/sparsified_gp.hpp>
using namespace lv;

template <int PERMIL>
struct DP : public BP {
    struct acqui_gpucb {
        static constexpr double delta() { return PERMIL / 1000.; }
    };
};

// a model that predicts whatever the case wants (standard deviations down to zero, any magnitude)
struct Mock : public BGP {
    std::vector<V> X, Y;
    int din = 1, dout = 1, mode = 0;
    double a = 1, b = 0, s0 = 1;
    int shift = 0;
    V mu(const V& x) const
    {
        V r(dout);
        for (int j = 0; j < dout; j++)
            r(j) = a * std::sin(3. * x.sum() + j + shift) + b;
        return r;
    }
    double sigma(const V& x) const
    {
        if (mode == 0)
            return s0 * (1.01 + std::cos(5. * x.sum()));
        if (mode == 1)
            return 0;
        return s0 * std::exp(-40. * std::abs(std::sin(7. * x.sum())));
    }
    std::tuple<V, double> query(const V& x) const { return std::make_tuple(mu(x), sigma(x)); }
    const std::vector<V>& samples() const { return X; }
    const std::vector<V>& observations() const { return Y; }
    int nb_samples() const { return X.size(); }
    int dim_in() const { return din; }
    int dim_out() const { return dout; }
    V max_observation() const
    {
        double r = -std::numeric_limits<double>::infinity();
        for (auto& y : Y)
            r = std::max(r, y.maxCoeff());
        return V::Constant(1, r);
    }
    V mean_observation() const
    {
        V r = V::Zero(dout);
        for (auto& y : Y)
            r += y / Y.size();
        return r;
    }
    M observations_matrix() const
    {
        M r(Y.size(), dout);
        for (size_t i = 0; i < Y.size(); i++)
            r.row(i) = Y[i].transpose();
        return r;
    }
    void add(const V& x, const V& y)
    {
        X.push_back(x);
        Y.push_back(y);
        shift++; // predictions change with the data
    }
};

template <typename Mo>
double fmax_of(const Mo& m, const Agg& a)
{
    double r = -std::numeric_limits<double>::infinity();
    for (auto& x : m.samples())
        r = std::max(r, a(m.mu(x)));
    return r;
}
template <typename Mo, typename UA, typename GA, typename EA>
void compare(Src& s, const Mo& m, UA& ucb, GA& gpucb, EA& ei, int it, double delta, const Agg& a, const V& x, const std::string& w)
{
    V mu;
    double var;
    std::tie(mu, var) = m.query(x);
    double am = a(mu), sd = std::sqrt(var);
    // UCB
    auto r = ucb(x, a, false);
    double u = limbo::opt::fun(r);
    s.close(u, am + bc().alpha * sd, 1e-12 * (std::abs(am) + std::abs(bc().alpha) * sd + 1e-300), w + "/UCB");
    s.check(std::get<1>(r).is_initialized() == false, w + "/UCB returns a gradient nobody asked for");
    // GP-UCB
    double g = limbo::opt::fun(gpucb(x, a, false));
    s.check(std::isfinite(g), w + "/GP-UCB is not finite", "iteration " + std::to_string(it) + " dim " + std::to_string(m.dim_in()));
    if (it >= 1) {
        long double beta = sqrtl(2 * ((m.dim_in() / 2.0L + 2) * logl(it) + logl((long double)M_PI * M_PI / (3 * (long double)delta))));
        s.close(g, (double)(am + beta * sd), 1e-11 * (std::abs(am) + (double)beta * sd + 1e-300), w + "/GP-UCB", "iteration " + std::to_string(it) + ":");
    }
    else
        s.check(g >= am - 1e-12 * std::abs(am), w + "/GP-UCB below the mean", "first iteration");
    // expected improvement
    double e = limbo::opt::fun(ei(x, a, false));
    s.check(std::isfinite(e), w + "/EI is not finite");
    if (m.nb_samples() == 0) {
        s.check(e == 0, w + "/EI without samples is not zero");
        return;
    }
    double fm = fmax_of(m, a);
    double sc = std::abs(am) + std::abs(fm) + std::abs(bc().jitter) + sd;
    s.check(e >= -1e-13 * sc, w + "/EI is negative", std::to_string(e));
    if (sd > 1e-9) {
        long double X = (long double)am - fm - bc().jitter, Z = X / sd;
        long double want = X * 0.5L * erfcl(-Z / sqrtl(2)) + sd * expl(-Z * Z / 2) / sqrtl(2 * M_PI);
        s.close(e, (double)want, 1e-12 * sc, w + "/EI", "mu " + std::to_string(am) + " sd " + std::to_string(sd) + " best " + std::to_string(fm) + ":");
        if (Z > -3 && Z < 6)
            s.label("EI in the interesting range");
    }
}
template <typename P, typename Mo>
void go(Src& s, Mo& m, std::function<void()> add, double delta)
{
    Agg a;
    a.id = s.i(0, 3);
    int it = s.weighted({3, 3, 1}) == 0 ? 0 : (s.b() ? s.i(1, 10) : s.i(1, 100000));
    bc().alpha = s.pick(std::vector<double>{0.5, 0, 1, 2, -1, 10});
    bc().jitter = s.pick(std::vector<double>{0., 0.01, 1., -0.5});
    s << " agg=" << a.id << " it=" << it << " alpha=" << bc().alpha << " jitter=" << bc().jitter;
    limbo::acqui::UCB<P, Mo> ucb(m, it);
    limbo::acqui::GP_UCB<P, Mo> gpucb(m, it);
    limbo::acqui::EI<P, Mo> ei(m, it);
    s.check((int)ucb.dim_in() == m.dim_in() && (int)ei.dim_in() == m.dim_in() && (int)gpucb.dim_in() == m.dim_in() && (int)ucb.dim_out() == m.dim_out() && (int)ei.dim_out() == m.dim_out() && (int)gpucb.dim_out() == m.dim_out(), "dimensions");
    int rounds = s.i(1, 3);
    for (int r = 0; r < rounds; r++) {
        for (int q = s.i(1, 3); q > 0; q--) {
            V x = s.p(0.2) && m.nb_samples() ? V(m.samples()[s.u(m.nb_samples())]) : vec(s, m.dim_in());
            compare(s, m, ucb, gpucb, ei, it, delta, a, x, r ? "after adding samples" : "fresh");
        }
        if (r + 1 < rounds) {
            add();
            s.label("samples added after construction");
        }
    }
    s.nontrivial(m.nb_samples() > 0);
}

PBT_SUITE("any prediction", 3, "a model with at least one sample (arbitrary predictions, variances down to zero)")
{
    reset_bo(s);
    Mock m;
    m.din = s.p(0.1) ? s.i(5, 400) : bc().din;
    m.dout = bc().dout;
    m.mode = s.weighted({4, 1, 2});
    m.a = s.logu(1e-6, 1e6);
    m.b = s.real(-10, 10) * (s.b() ? m.a : 1);
    m.s0 = s.logu(1e-8, 1e4);
    for (int n = s.i(0, 6); n > 0; n--)
        m.add(vec(s, m.din), vec(s, m.dout));
    s << " mock D=" << m.din << " n=" << m.X.size() << " a=" << m.a << " b=" << m.b << " s0=" << m.s0 << " mode=" << m.mode;
    auto add = [&] { m.add(vec(s, m.din), vec(s, m.dout)); };
    switch (s.u(3)) {
    case 0:
        return go<DP<100>>(s, m, add, 0.1);
    case 1:
        return go<DP<1>>(s, m, add, 0.001);
    default:
        return go<DP<990>>(s, m, add, 0.99);
    }
}

template <typename GP>
void real_model(Src& s)
{
    int n = s.i(0, 10), D = bc().din, P = bc().dout;
    GP gp(D, P);
    s << " gp n=" << n;
    if (n)
        gp.compute(points(s, n, D), observations(s, n, P));
    auto add = [&] {
        int k = s.i(1, 2);
        while (k--)
            gp.add_sample(vec(s, D), vec(s, P, -3, 3));
        if (s.p(0.3)) {
            // hyper-parameters may change together with the data, as in the optimisation loop
            V p = gp.kernel_function().h_params();
            p(0) += s.uni(-0.5, 0.5);
            gp.kernel_function().set_h_params(p);
            gp.recompute(false);
        }
    };
    go<DP<100>>(s, gp, add, 0.1);
}
PBT_SUITE("Gaussian process", 3, "a model with at least one sample")
{
    reset_bo(s);
    real_model<BGP>(s);
}
PBT_SUITE("sparse Gaussian process", 1, "a model with at least one sample")
{
    reset_bo(s);
    cfg().max_points = 200; // below the limit: additions are always visible
    real_model<limbo::model::SparsifiedGP<BP, limbo::kernel::Exp<BP>, limbo::mean::Constant<BP>>>(s);
}
