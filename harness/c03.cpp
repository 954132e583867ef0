// Likelihood, leave-one-out score and their gradients against exact algebra.
#include "gpzoo.hpp"
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>
#include <limbo/opt/optimizer.hpp>
using namespace lv;

// derivative of f at 0 by a 6th-order central stencil in long double
template <typename F>
long double deriv(F f)
{
    const long double h = 2e-3L;
    return (45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h);
}
template <typename St>
St moved(const St& st, int i, long double h, bool mean)
{
    St c = st;
    (mean ? c.mp : c.kp)(i) += (double)h;
    return c;
}
struct Tols {
    double lik, loo, gk, gloo, gm;
};
template <typename St>
Tols tols(const St& st, const Ref& r)
{
    int n = st.X.size();
    double cond = 10 + (double)r.cond, mag = 0, a2 = 0, loo = 0, looa = 0;
    for (int c = 0; c < st.P; c++) {
        mag += (double)(r.R.col(c).cwiseAbs().dot(r.alpha.col(c).cwiseAbs()));
        for (int i = 0; i < n; i++) {
            a2 += (double)(r.alpha(i, c) * r.alpha(i, c));
            loo += 10 + (double)(r.alpha(i, c) * r.alpha(i, c) / r.Kinv(i, i));
        }
    }
    double kt = (double)r.K.trace(), kit = (double)r.Kinv.trace();
    Tols t;
    t.lik = 2e-12 * cond * (mag + 10. * n * st.P);
    t.loo = 1e-11 * cond * (loo + mag);
    t.gk = 1e-10 * cond * (1 + kt * (a2 + kit * st.P)) + 1e-9 * (mag + n);
    t.gloo = 1e-10 * cond * (1 + kt * kit * loo) + 1e-9 * (loo + mag);
    t.gm = 1e-10 * cond * (1 + r.alpha.cwiseAbs().sum()) * (10 + (double)st.ybar().cwiseAbs().maxCoeff());
    return t;
}

template <typename Zt>
void scores(Src& s, Zt)
{
    using GP = typename Zt::GP;
    gen_cfg(s);
    if (cfg().noise < 1e-3)
        cfg().noise = 1e-3;
    int D = s.size(1, 3, 7), P = s.weighted({3, 1, 1}) + 1, n = s.size(1, 8, 90);
    typename Zt::St st;
    st.reset_kernel(D);
    st.reset_mean(P);
    GP gp(D, P);
    st.kp = KT<typename Zt::KF>::gen(s, D);
    gp.kernel_function().set_h_params(st.kp);
    if (st.mp.size()) {
        st.mp = gen_mean_params(s, st.mp.size());
        gp.mean_function().set_h_params(st.mp);
    }
    st.X = points(s, n, D);
    st.Y = observations(s, n, P);
    s << Zt::name() << " D=" << D << " P=" << P << " n=" << n << " kp=" << str(st.kp) << " mp=" << str(st.mp) << " X=" << str(st.X) << " Y=" << str(st.Y);
    Ref r = st.ref();
    if (!r.ok || r.cond > 1e5)
        s.discard();
    s.label(Zt::name());
    if (P > 1)
        s.label("several outputs");
    s.nontrivial(n >= 2);
    if (s.b())
        gp.compute(st.X, st.Y);
    else
        for (int i = 0; i < n; i++)
            gp.add_sample(st.X[i], st.Y[i]);
    // the scores follow the model when it changes
    int stages = s.weighted({4, 2, 1}) + 1;
    for (int stage = 0;; stage++) {
        Tols t = tols(st, r);
        // in any order: the scores may share cached quantities
        auto pm = s.permutation(5);
        for (int what : pm) {
            if (what == 0) {
                double a = gp.compute_log_lik();
                s.close(a, (double)r.loglik(), t.lik, "log-likelihood");
                s.check(gp.get_log_lik() == a, "get_log_lik");
                if (s.p(0.2)) {
                    gp.set_log_lik(-123.5);
                    s.check(gp.get_log_lik() == -123.5, "set_log_lik");
                }
            }
            else if (what == 1) {
                double a = gp.compute_log_loo_cv();
                s.close(a, (double)r.loo(), t.loo, "leave-one-out");
                s.check(gp.get_log_loo_cv() == a, "get_log_loo_cv");
                if (s.p(0.2)) {
                    gp.set_log_loo_cv(-7.25);
                    s.check(gp.get_log_loo_cv() == -7.25, "set_log_loo_cv");
                }
            }
            else if (what == 2) {
                V g = gp.compute_kernel_grad_log_lik();
                s.check(g.size() == st.kp.size(), "kernel gradient size");
                for (int i = 0; i < g.size(); i++)
                    s.close(g(i), (double)deriv([&](long double h) { return moved(st, i, h, false).ref(false).loglik(); }), t.gk, "kernel gradient of the likelihood", "entry " + std::to_string(i) + ":");
            }
            else if (what == 3) {
                V g = gp.compute_kernel_grad_log_loo_cv();
                s.check(g.size() == st.kp.size(), "leave-one-out gradient size");
                for (int i = 0; i < g.size(); i++)
                    s.close(g(i), (double)deriv([&](long double h) { return moved(st, i, h, false).ref(false).loo(); }), t.gloo, "kernel gradient of leave-one-out", "entry " + std::to_string(i) + ":");
            }
            else if (st.mp.size()) {
                V g = gp.compute_mean_grad_log_lik();
                s.check(g.size() == st.mp.size(), "mean gradient size");
                for (int i = 0; i < g.size(); i++)
                    s.close(g(i), (double)deriv([&](long double h) { return moved(st, i, h, true).ref(false).loglik(); }), t.gm * 10 + t.gk, "mean gradient of the likelihood", "entry " + std::to_string(i) + ":");
            }
        }
        if (stage + 1 >= stages)
            break;
        s.label("scores again after a change");
        switch (s.u(4)) {
        case 0: { // one more sample
            V x = points(s, 1, D)[0], y = observations(s, 1, P)[0];
            gp.add_sample(x, y);
            st.X.push_back(x);
            st.Y.push_back(y);
            s << " add" << str(x) << "->" << str(y);
            break;
        }
        case 1: // other parameters
            st.kp = KT<typename Zt::KF>::gen(s, D);
            gp.kernel_function().set_h_params(st.kp);
            if (st.mp.size()) {
                st.mp = gen_mean_params(s, st.mp.size());
                gp.mean_function().set_h_params(st.mp);
            }
            gp.recompute(true, true);
            s << " kp=" << str(st.kp) << " mp=" << str(st.mp);
            break;
        case 2: // other data
            n = s.size(1, 8, 90);
            st.X = points(s, n, D);
            st.Y = observations(s, n, P);
            gp.compute(st.X, st.Y);
            s << " compute X=" << str(st.X) << " Y=" << str(st.Y);
            break;
        default: // other mean only: the kernel stays
            if (st.mp.size()) {
                st.mp = gen_mean_params(s, st.mp.size());
                gp.mean_function().set_h_params(st.mp);
            }
            gp.recompute(true, false);
            s << " mp=" << str(st.mp);
        }
        n = st.X.size();
        r = st.ref();
        if (!r.ok || r.cond > 1e5)
            s.discard();
    }
}
PBT_SUITE(PARTNAME("scores"), 6, "a model with >=2 samples whose scores and gradients are compared with exact algebra and 6th-order long-double differences")
{
    with_zoo(s, [&](auto z) { scores(s, z); });
}

// the objectives handed to the optimiser
struct Capture {
    static std::function<V(const std::function<limbo::opt::eval_t(const V&, bool)>&, const V&, bool)>& hook()
    {
        static thread_local std::function<V(const std::function<limbo::opt::eval_t(const V&, bool)>&, const V&, bool)> h;
        return h;
    }
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        return hook()([&](const V& p, bool g) { return f(p, g); }, init, bounded);
    }
};
template <typename Zt, template <typename, typename> class HP, int what> // what: 0 kernel lik, 1 kernel loo, 2 mean lik, 3 both
void objective(Src& s, Zt)
{
    using GP = limbo::model::GP<typename Zt::Params, typename Zt::KF, typename Zt::MF, HP<typename Zt::Params, Capture>>;
    gen_cfg(s);
    if (cfg().noise < 1e-3)
        cfg().noise = 1e-3;
    int D = s.i(1, 2), P = s.weighted({3, 1}) + 1, n = s.size(1, 6, 25);
    typename Zt::St st;
    st.reset_kernel(D);
    st.reset_mean(P);
    GP gp(D, P);
    st.kp = KT<typename Zt::KF>::gen(s, D);
    gp.kernel_function().set_h_params(st.kp);
    if (st.mp.size()) {
        st.mp = gen_mean_params(s, st.mp.size());
        gp.mean_function().set_h_params(st.mp);
    }
    st.X = points(s, n, D);
    st.Y = observations(s, n, P);
    Ref r = st.ref();
    if (!r.ok || r.cond > 1e5)
        s.discard();
    gp.compute(st.X, st.Y);
    s << Zt::name() << " objective " << what << " D=" << D << " P=" << P << " n=" << n << " kp=" << str(st.kp) << " mp=" << str(st.mp);
    s.nontrivial(n >= 2);
    s.label(what == 0 ? "kernel likelihood" : what == 1 ? "kernel leave-one-out" : what == 2 ? "mean likelihood" : "kernel and mean likelihood");
    auto before = st;
    V chosen;
    auto set = [&](typename Zt::St& c, const V& p) {
        int nk = c.kp.size();
        if (what == 0 || what == 1)
            c.kp = p;
        else if (what == 2)
            c.mp = p;
        else {
            c.kp = p.head(nk);
            c.mp = p.tail(p.size() - nk);
        }
    };
    int calls = 0;
    Capture::hook() = [&](const std::function<limbo::opt::eval_t(const V&, bool)>& f, const V& init, bool bounded) -> V {
        ++calls;
        s.check(!bounded, "hyper-parameter search must be unbounded");
        V want(what == 2 ? st.mp.size() : what == 3 ? st.kp.size() + st.mp.size() : st.kp.size());
        if (what == 2)
            want = st.mp;
        else if (what == 3)
            want << st.kp, st.mp;
        else
            want = st.kp;
        s.check(init.size() == want.size(), "objective start size");
        for (int i = 0; i < want.size(); i++)
            s.close(init(i), want(i), 1e-12 * (1 + std::abs(want(i))), "objective starts at the current parameters");
        int ne = s.i(1, 3);
        for (int e = 0; e < ne; e++) {
            V p = init;
            if (e > 0 || s.b())
                for (int i = 0; i < p.size(); i++)
                    p(i) += s.uni(-0.5, 0.5);
            auto c = st;
            set(c, p);
            Ref rc = c.ref();
            if (!rc.ok || rc.cond > 1e5)
                continue;
            Tols t = tols(c, rc);
            bool wg = s.b();
            auto ev = f(p, wg);
            long double v = what == 1 ? rc.loo() : rc.loglik();
            s.close(std::get<0>(ev), (double)v, what == 1 ? t.loo : t.lik, "objective value");
            if (wg) {
                s.check((bool)std::get<1>(ev), "objective gives no gradient when asked");
                V g = std::get<1>(ev).get();
                s.check(g.size() == p.size(), "objective gradient size");
                for (int i = 0; i < g.size(); i++) {
                    double ex = (double)deriv([&](long double h) {
                        auto c2 = c;
                        V p2 = p;
                        p2(i) += (double)h;
                        set(c2, p2);
                        Ref r2 = c2.ref(false);
                        return what == 1 ? r2.loo() : r2.loglik();
                    });
                    s.close(g(i), ex, what == 1 ? t.gloo : t.gk + 10 * t.gm, "objective gradient", "entry " + std::to_string(i) + ":");
                }
            }
            // the model itself must not have moved
            check_predictions(s, gp, before, r, queries(s, before.X, D, 1), "model during the search", 2.);
            chosen = p;
        }
        if (chosen.size() == 0)
            chosen = init;
        return chosen;
    };
    gp.optimize_hyperparams();
    Capture::hook() = nullptr;
    s.check(calls == 1, "optimiser called once");
    set(st, chosen);
    Ref r2 = st.ref();
    if (!r2.ok || r2.cond > 1e5)
        s.discard();
    check_data(s, gp, st, "after the search/data");
    check_predictions(s, gp, st, r2, queries(s, st.X, D, 2), "after the search", 2.);
    Tols t = tols(st, r2);
    if (what == 1)
        s.close(gp.get_log_loo_cv(), (double)r2.loo(), t.loo, "score after the search");
    else
        s.close(gp.get_log_lik(), (double)r2.loglik(), t.lik, "score after the search");
}
PBT_SUITE(PARTNAME("objective"), 4, "a hyper-parameter search over >=2 samples whose optimiser is replaced by a probe that evaluates the objective at generated parameters, with and without gradient")
{
    using namespace limbo::model::gp;
#if PART == 0
    if (s.b())
        objective<Z0, KernelLFOpt, 0>(s, Z0());
    else
        objective<Z3, KernelMeanLFOpt, 3>(s, Z3());
#elif PART == 1
    if (s.b())
        objective<Z1, KernelLooOpt, 1>(s, Z1());
    else
        objective<Z4, MeanLFOpt, 2>(s, Z4());
#elif PART == 2
    if (s.b())
        objective<Z2, KernelLooOpt, 1>(s, Z2());
    else
        objective<Z5, KernelMeanLFOpt, 3>(s, Z5());
#endif
}
