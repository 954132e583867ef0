// Mean functions against their documented values and derivatives.
#include "gpzoo.hpp"
using namespace lv;

struct StubGP { // all a mean function may ask of a model: it has two samples with the same observation
    V m;
    int din = 1;
    V mean_observation() const { return m; }
    V max_observation() const { return V::Constant(1, m.maxCoeff()); }
    int nb_samples() const { return 2; }
    int dim_in() const { return din; }
    int dim_out() const { return m.size(); }
    std::vector<V> samples() const { return {V::Zero(din), V::Zero(din)}; }
    std::vector<V> observations() const { return {m, m}; }
    M observations_matrix() const { return m.transpose().replicate(2, 1); }
};
template <typename F>
long double deriv(F f)
{
    const long double h = 1e-2L;
    return (45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h);
}
template <typename MF, typename = void>
struct HasGrad : std::true_type {
};
template <typename P>
struct HasGrad<limbo::mean::NullFunction<P>> : std::false_type {
};
template <typename P>
struct HasGrad<limbo::mean::Data<P>> : std::false_type {
};
template <typename MF, typename G>
typename std::enable_if<HasGrad<MF>::value, M>::type grad_of(const MF& m, const V& x, const G& g) { return m.grad(x, g); }
template <typename MF, typename G>
typename std::enable_if<!HasGrad<MF>::value, M>::type grad_of(const MF&, const V&, const G&) { return M(); }

template <typename MF>
void one(Src& s)
{
    cfg().cst = s.pick(std::vector<double>{1., 0., -3.5, 1e3, 1e-3});
    int P = s.size(1, 4, 9, 0.02), D = s.size(1, 4, 12, 0.02);
    MF m(P);
    V p = MR<MF>::init(P);
    s << MR<MF>::name() << " P=" << P << " D=" << D;
    s.check((int)m.h_params_size() == MR<MF>::size(P), "h_params_size");
    V g0 = m.h_params();
    s.check(same(g0, p), "initial parameters", str(g0) + " vs " + str(p));
    int sets = p.size() ? s.weighted({1, 4, 2}) : 0;
    for (int r = 0; r < sets; r++) {
        double w = s.pick(std::vector<double>{1., 1., 50.});
        for (int i = 0; i < p.size(); i++)
            p(i) = s.real(-2 * w, 2 * w);
        m.set_h_params(p);
        V b = m.h_params();
        if (r + 1 < sets && s.b()) { // used before the parameters change again
            V x = vec(s, D);
            StubGP g{V::Zero(P), D};
            s.check(m(x, g).size() == P && m.grad(x, g).rows() == P, "use between two changes of the parameters");
        }
        s.check(same(b, p), "parameters read back differ from those set", str(b) + " vs " + str(p));
    }
    if (s.b()) { // copies carry the parameters
        MF c(P);
        c = m;
        MF d(c);
        m = d;
        s.check(same(V(m.h_params()), p), "copy loses parameters");
    }
    s << " p=" << str(p);
    s.nontrivial(sets > 0 || p.size() == 0);
    // a stand-in model, or a real one
    limbo::model::GP<P00, limbo::kernel::Exp<P00>, limbo::mean::NullFunction<P00>> gp(D, P);
    LV yb = LV::Zero(P);
    double ymax = 0;
    StubGP stub{V::Zero(P), D};
    bool real = s.b();
    if (real) {
        cfg().noise = 0.1;
        int n = s.size(0, 6, 60);
        std::vector<V> Y = observations(s, n, P);
        bool batch = s.b();
        std::vector<V> X;
        for (int i = 0; i < n; i++) {
            X.push_back(vec(s, D));
            ymax = std::max(ymax, Y[i].cwiseAbs().maxCoeff());
        }
        if (n && batch)
            gp.compute(X, Y);
        else
            for (int i = 0; i < n; i++)
                gp.add_sample(X[i], Y[i]);
        for (auto& y : Y)
            yb += y.template cast<long double>() / (long double)n;
        s << " real model, " << n << " observations " << str(Y);
        s.label(n ? "real model" : "real model without samples");
    }
    else {
        stub.m = vec(s, P, -10, 10);
        yb = stub.m.cast<long double>();
    }
    for (int r = 0; r < 3; r++) {
        V x = vec(s, D, -3, 3);
        LV pl = p.cast<long double>();
        LV e = MR<MF>::eval(pl, x, yb, P);
        V v = real ? V(m(x, gp)) : V(m(x, stub));
        s.check(v.size() == P, "value size");
        double sc = 1e-300 + ymax * (1 + (p.size() ? p.cwiseAbs().maxCoeff() : 0.)) + (1 + p.size() ? p.size() * (p.size() ? p.cwiseAbs().maxCoeff() : 0.) : 0.) * (1 + (double)yb.cwiseAbs().maxCoeff() + (p.size() ? p.cwiseAbs().maxCoeff() : 0.) * (1 + x.cwiseAbs().sum())) + (double)yb.cwiseAbs().maxCoeff();
        for (int j = 0; j < P; j++)
            s.close(v(j), (double)e(j), 1e-13 * sc, "value", "output " + std::to_string(j) + ":");
        if (HasGrad<MF>::value) {
            M g = real ? grad_of(m, x, gp) : grad_of(m, x, stub);
            s.check(g.rows() == P && g.cols() == p.size(), "gradient shape");
            for (int i = 0; i < p.size(); i++)
                for (int j = 0; j < P; j++) {
                    double d = (double)deriv([&](long double h) {
                        LV q = pl;
                        q(i) += h;
                        return MR<MF>::eval(q, x, yb, P)(j);
                    });
                    s.close(g(j, i), d, 1e-12 * (1 + sc), "gradient", "output " + std::to_string(j) + " parameter " + std::to_string(i) + ":");
                }
        }
    }
}
using namespace limbo::mean;
PBT_SUITE("mean", 10, "a mean function with parameters set at least once (or without parameters) evaluated, with gradient, at three points against a real or stand-in model")
{
    switch (s.i(0, 8)) {
    case 0:
        return one<NullFunction<P00>>(s);
    case 1:
        return one<Constant<P00>>(s);
    case 2:
        return one<Data<P00>>(s);
    case 3:
        return one<FunctionARD<P00, Constant<P00>>>(s);
    case 4:
        return one<FunctionARD<P00, Data<P00>>>(s);
    case 5:
        return one<FunctionARD<P00, NullFunction<P00>>>(s);
    case 6:
        return one<FunctionARD<P00, XMean<P00>>>(s);
    case 7:
        return one<FunctionARD<P00, FunctionARD<P00, Constant<P00>>>>(s);
    default:
        return one<FunctionARD<P00, FunctionARD<P00, Data<P00>>>>(s);
    }
}
