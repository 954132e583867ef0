#include "gpzoo.hpp"
using namespace lv;

template <typename Zt>
void posterior(Src& s, Zt)
{
    using GP = typename Zt::GP;
    gen_cfg(s);
    int D = s.size(1, 5, 12), P = s.weighted({3, 1, 1}) + 1, n = s.weighted({1, 6}) ? s.size(1, 22, 110) : s.i(0, 1);
    bool tiny = s.p(0.12); // signal and noise of small (or large) amplitude
    double amp = 1;
    if (tiny) {
        amp = s.logu(1e-10, 1e4);
        cfg().sf2 *= amp;
        cfg().noise *= amp;
        s.label(amp < 1e-5 ? "tiny amplitude" : "scaled amplitude");
    }
    typename Zt::St st;
    st.reset_kernel(D);
    st.reset_mean(P);
    bool pre = s.p(0.6); // dimensions known beforehand, parameters set by the user
    GP gp = pre ? GP(D, P) : GP();
    if (pre && s.p(0.8)) {
        st.kp = KT<typename Zt::KF>::gen(s, D);
        st.kp(KT<typename Zt::KF>::base_size(D) - 1) += 0.5 * std::log(amp);
        if (KT<typename Zt::KF>::on)
            st.kp(st.kp.size() - 1) += 0.5 * std::log(amp);
        gp.kernel_function().set_h_params(st.kp);
    }
    if (pre && st.mp.size() && s.p(0.8)) {
        st.mp = gen_mean_params(s, st.mp.size());
        gp.mean_function().set_h_params(st.mp);
    }
    s << Zt::name() << " D=" << D << " P=" << P << " n=" << n << (pre ? " preset" : " discovered") << " kp=" << str(st.kp) << " mp=" << str(st.mp) << " noise=" << cfg().noise;
    if (n == 0) {
        if (!pre)
            return;
        s.label("no samples");
        Ref r;
        auto Q = queries(s, {}, D, 3);
        s.nontrivial();
        s.check(gp.nb_samples() == 0 && gp.dim_in() == D && gp.dim_out() == P, "empty model dimensions");
        check_predictions(s, gp, st, r, Q, "empty");
        return;
    }
    st.X = points(s, n, D);
    st.Y = observations(s, n, P);
    s << " X=" << str(st.X) << " Y=" << str(st.Y);
    Ref r = st.ref();
    if (!r.ok || r.cond > 1e10)
        s.discard();
    gp.compute(st.X, st.Y);
    if (r.cond > 1e6)
        s.label("ill-conditioned (1e6..1e10)");
    s.label(Zt::name());
    if (n > 22)
        s.label("large");
    s.label(P > 1 ? "several outputs" : "one output");
    s.nontrivial(n >= 2);
    auto Q = queries(s, st.X, D, s.i(1, 6));
    check_data(s, gp, st, "data");
    check_predictions(s, gp, st, r, Q, "posterior");
    // the mean part the model reports
    const M& mv = gp.mean_vector();
    const M& om = gp.obs_mean();
    double ymax = 1e-300;
    for (auto& y : st.Y)
        ymax = std::max(ymax, y.cwiseAbs().maxCoeff());
    s.check(mv.rows() == n && mv.cols() == P && om.rows() == n && om.cols() == P, "mean_vector shape");
    for (int i = 0; i < n; i++) {
        LV m = st.mean(st.X[i]);
        for (int j = 0; j < P; j++) {
            double sc = std::abs((double)m(j)) + ymax + 100 * mscale(st, st.X[i], ymax); // the terms of a mean may cancel
            s.close(mv(i, j), m(j), 1e-11 * sc, "mean_vector");
            s.close(om(i, j), st.Y[i](j) - m(j), 1e-11 * sc, "obs_mean");
        }
    }
}

PBT_SUITE(PARTNAME("posterior"), 8, "a model with >=2 samples (or, in the no-sample class, a model with known dimensions) compared with exact long-double GP algebra at 1..6 query points")
{
    with_zoo(s, [&](auto z) { posterior(s, z); });
}

#if PART == 0
// relations that need no reference: permutation of the data, shift of outputs, decoupling of outputs
PBT_SUITE("metamorphic", 2, "a model with >=3 samples compared with the model of transformed data (data permuted, outputs split)")
{
    gen_cfg(s);
    using GP = Z0::GP;
    int D = s.size(1, 4, 10), P = s.size(1, 3, 8), n = s.size(1, 15, 90);
    auto X = points(s, n, D);
    auto Y = observations(s, n, P);
    State<Z0::KF, Z0::MF> st;
    st.reset_kernel(D);
    st.reset_mean(P);
    st.X = X;
    st.Y = Y;
    Ref r = st.ref();
    if (!r.ok || r.cond > 1e7)
        s.discard();
    GP a;
    a.compute(X, Y);
    auto pm = s.permutation(n);
    std::vector<V> X2, Y2;
    for (int k : pm) {
        X2.push_back(X[k]);
        Y2.push_back(Y[k]);
    }
    GP b;
    b.compute(X2, Y2);
    s << "n=" << n << " D=" << D << " P=" << P << " X=" << str(X);
    s.nontrivial(n >= 3);
    double sc = 0;
    for (auto& y : Y)
        sc = std::max(sc, y.cwiseAbs().maxCoeff());
    sc *= 1e-12 * n * (double)r.cond * 10;
    for (auto& q : queries(s, X, D, 3)) {
        V ma = a.mu(q), mb = b.mu(q);
        double tv = 1e-12 * n * (double)r.cond * 10 * cfg().sf2;
        for (int j = 0; j < P; j++)
            s.close(ma(j), mb(j), sc, "permutation/mu");
        s.close(a.sigma(q), b.sigma(q), tv, "permutation/sigma");
        for (int j = 0; j < P; j++) {
            std::vector<V> Yj;
            for (auto& y : Y)
                Yj.push_back(V::Constant(1, y(j)));
            GP c;
            c.compute(X, Yj);
            s.close(c.mu(q)(0), ma(j), sc, "split outputs/mu");
            s.close(c.sigma(q), a.sigma(q), tv, "split outputs/sigma");
        }
    }
}
#endif
