// Histories of model operations against the exact posterior of the current data and parameters,
// and against a fresh model built in one batch.
#include "gpzoo.hpp"
using namespace lv;

template <typename Zt>
void history(Src& s, Zt)
{
    using GP = typename Zt::GP;
    using St = typename Zt::St;
    gen_cfg(s);
    int D = s.size(1, 4, 10), P = s.weighted({4, 1, 1}) + 1;
    St st;
    bool known = s.b();
    std::unique_ptr<GP> gp;
    if (known) {
        gp.reset(new GP(D, P));
        st.reset_kernel(D);
        st.reset_mean(P);
    }
    else
        gp.reset(new GP());
    int nops = s.size(2, 14, 90);
    s << Zt::name() << " D=" << D << " P=" << P << (known ? "" : " dims unknown") << " ops:";
    size_t cap = 22;
    int adds = 0, fulls = 0, sets = 0, copies = 0;
    bool mult = false;
    for (int o = 0; o < nops; o++) {
        int op = s.weighted({7, 2, 3, 3, 2, 2, 2, 1, 2});
        if (st.X.empty() && (op >= 2 && op != 7))
            op = 0;
        if (op == 7 && st.X.empty() && !known)
            op = 0;
        bool verify = s.p(0.5);
        if (op == 0) { // add one sample
            if (st.X.size() >= cap)
                continue;
            V x = st.X.empty() || s.p(0.8) ? vec(s, D) : V(st.X[s.u(st.X.size())] + (s.b() ? 0. : 1e-2) * vec(s, D, -1, 1));
            V y = observations(s, 1, P)[0];
            if (st.D != D)
                st.reset_kernel(D);
            if (st.P != P)
                st.reset_mean(P);
            gp->add_sample(x, y);
            st.X.push_back(x);
            st.Y.push_back(y);
            adds++;
            s << " add" << str(x) << "->" << str(y);
        }
        else if (op == 1) { // compute from scratch, possibly with other dimensions
            if (s.p(0.2)) {
                D = s.i(1, 4);
                s << " newD=" << D;
            }
            if (s.p(0.15)) {
                P = s.i(1, 3);
                s << " newP=" << P;
            }
            int n = s.size(1, 12, 90);
            cap = std::max(22, n + 12);
            if (n > 12)
                s.label("large");
            auto X = points(s, n, D);
            auto Y = observations(s, n, P);
            if (st.D != D)
                st.reset_kernel(D);
            if (st.P != P)
                st.reset_mean(P);
            bool late = s.p(0.25);
            st.X = X;
            st.Y = Y;
            if (late) {
                gp->compute(X, Y, false);
                gp->recompute(s.b(), true);
                s << " compute-late(" << n << ")";
            }
            else {
                gp->compute(X, Y);
                s << " compute(" << n << ")";
            }
            fulls++;
        }
        else if (op == 2) { // new kernel parameters
            if (st.kp.size() == 0)
                continue;
            st.kp = KT<typename Zt::KF>::gen(s, D);
            gp->kernel_function().set_h_params(st.kp);
            bool m = s.b();
            gp->recompute(m, true);
            s << " kernel" << str(st.kp) << (m ? "" : "(keep mean)");
            sets++;
        }
        else if (op == 3) { // new mean parameters, kernel matrix kept or rebuilt
            bool full = s.b();
            if (st.mp.size() == 0) {
                gp->recompute(true, full);
                s << " recompute";
                continue;
            }
            st.mp = gen_mean_params(s, st.mp.size());
            gp->mean_function().set_h_params(st.mp);
            gp->recompute(true, full);
            s << " mean" << str(st.mp) << (full ? "" : "(keep kernel)");
            sets++;
        }
        else if (op == 4) { // both
            st.kp = KT<typename Zt::KF>::gen(s, D);
            gp->kernel_function().set_h_params(st.kp);
            if (st.mp.size()) {
                st.mp = gen_mean_params(s, st.mp.size());
                gp->mean_function().set_h_params(st.mp);
            }
            if (s.b())
                gp->recompute();
            else
                gp->recompute(true, true);
            s << " both";
            sets++;
        }
        else if (op == 5) { // scores in between (they may cache things)
            int w = s.i(0, 4);
            if (w == 0)
                gp->compute_log_lik();
            else if (w == 1)
                gp->compute_log_loo_cv();
            else if (w == 2)
                gp->compute_kernel_grad_log_lik();
            else if (w == 3)
                gp->compute_kernel_grad_log_loo_cv();
            else
                gp->compute_inv_kernel();
            s << " score" << w;
            verify = false;
        }
        else if (op == 6) { // copy / assign and go on with either
            int how = s.i(0, 2);
            std::unique_ptr<GP> c;
            if (how == 0)
                c.reset(new GP(*gp));
            else if (how == 1) {
                c.reset(new GP());
                *c = *gp;
            }
            else {
                c.reset(new GP(D + 1, P));
                c->add_sample(V::Constant(D + 1, 0.5), V::Constant(P, 3.));
                *c = *gp;
            }
            if (s.b()) { // spoil the object left behind
                V x = vec(s, D), y = observations(s, 1, P)[0];
                if (s.b()) {
                    gp->add_sample(x, y);
                    gp.swap(c);
                    gp.swap(c);
                    std::swap(gp, c);
                }
                else
                    c->add_sample(x, y);
            }
            else
                std::swap(gp, c);
            s << " copy" << how;
            copies++;
        }
        else if (op == 7) { // set parameters before the next data (kept by a later computation of the same dimensions)
            if (st.X.empty()) {
                st.kp = KT<typename Zt::KF>::gen(s, D);
                gp->kernel_function().set_h_params(st.kp);
                s << " preset";
            }
            verify = false;
        }
        else { // same points, new observations, kernel matrix kept
            auto Y = observations(s, st.X.size(), P);
            st.Y = Y;
            gp->compute(st.X, Y, false);
            gp->recompute(s.b(), false);
            s << " new observations";
            sets++;
        }
        if (st.X.empty())
            continue;
        if (!verify && o + 1 < nops)
            continue;
        Ref r = st.ref();
        if (!r.ok || r.cond > 1e8)
            s.discard();
        mult = mult || st.X.size() >= 2;
        auto Q = queries(s, st.X, D, 2);
        check_data(s, *gp, st, "history/data");
        check_predictions(s, *gp, st, r, Q, "history", 4.);
        // scores
        double mag = 0;
        for (int c = 0; c < P; c++)
            mag += (double)(r.R.col(c).cwiseAbs().dot(r.alpha.col(c).cwiseAbs()));
        int n = st.X.size();
        double tol = 2e-12 * (10 + (double)r.cond) * (mag + 10. * n * P);
        GP fresh(D, P);
        fresh.kernel_function().set_h_params(st.kp);
        if (st.mp.size())
            fresh.mean_function().set_h_params(st.mp);
        fresh.compute(st.X, st.Y);
        int which = s.i(0, 3);
        if (which == 0 || which == 3) {
            double a = gp->compute_log_lik();
            s.close(a, fresh.compute_log_lik(), tol, "history/log-likelihood");
            s.check(gp->get_log_lik() == a, "history/get_log_lik");
        }
        if (which == 1 || which == 3) {
            // leave-one-out terms scale with 1/Kinv_ii <= K_ii
            double sc = 0;
            for (int i = 0; i < n; i++)
                for (int c = 0; c < P; c++)
                    sc += 10 + (double)(r.alpha(i, c) * r.alpha(i, c) / r.Kinv(i, i));
            double a = gp->compute_log_loo_cv();
            s.close(a, fresh.compute_log_loo_cv(), 1e-11 * (10 + (double)r.cond) * (sc + mag), "history/leave-one-out");
            s.check(gp->get_log_loo_cv() == a, "history/get_log_loo_cv");
        }
        if (which == 2 && r.cond < 1e5) {
            V g = s.b() ? V(gp->compute_kernel_grad_log_lik() - fresh.compute_kernel_grad_log_lik()) : V(gp->compute_kernel_grad_log_loo_cv() - fresh.compute_kernel_grad_log_loo_cv());
            V sz = fresh.compute_kernel_grad_log_lik();
            double a2 = 0;
            for (int i = 0; i < n; i++)
                for (int c = 0; c < P; c++)
                    a2 += (double)(r.alpha(i, c) * r.alpha(i, c));
            double gs = (a2 + (double)r.Kinv.trace()) * (double)r.K.trace() * n * (1 + (double)r.alpha.cwiseAbs().sum());
            for (int i = 0; i < g.size(); i++)
                s.close(g(i), 0, 1e-11 * (10 + (double)r.cond) * (gs + 1), "history/gradient");
        }
    }
    s.label(Zt::name());
    if (adds)
        s.label("with additions");
    if (adds && fulls)
        s.label("additions and full computations");
    if (sets)
        s.label("with parameter changes");
    if (copies)
        s.label("with copies");
    s.nontrivial(mult && (adds >= 2 || (adds && fulls) || sets));
}
PBT_SUITE(PARTNAME("history"), 10, "a history of 2..14 operations verified with >=2 samples in the model that contains at least two additions, an addition and a full computation, or a parameter change")
{
    with_zoo(s, [&](auto z) { history(s, z); });
}
