#include "multizoo.hpp"
using namespace lv;

template <typename Zt>
void history(Src& s, Zt)
{
    using GP = typename Zt::GP;
    using KTk = KT<typename Zt::KF>;
    gen_cfg(s);
    cfg().rprop_it = s.i(1, 6);
    int D = s.size(1, 3, 8), P = s.size(1, 4, 12, 0.01);
    typename Zt::St st;
    bool known = s.b();
    std::unique_ptr<GP> gp(known ? new GP(D, P) : new GP());
    if (known)
        st.dims(D, P);
    s << Zt::name() << " D=" << D << " P=" << P << (known ? "" : " dims unknown") << " ops:";
    int nops = s.size(1, 12, 30), adds = 0, sets = 0, fulls = 0;
    bool deep = false, opt = false;
    double widen = 4;
    if (known && s.p(0.3)) {
        // no samples: the prior
        if (s.b() && st.mp.size()) {
            st.mp = gen_mean_params(s, st.mp.size());
            gp->mean_function().set_h_params(st.mp);
        }
        if (s.b())
            for (int j = 0; j < P; j++) {
                st.kps[j] = KTk::gen(s, D);
                gp->gp_models()[j].kernel_function().set_h_params(st.kps[j]);
            }
        check_multi(s, *gp, st, {}, queries(s, {}, D, 2), "empty");
    }
    for (int o = 0; o < nops; o++) {
        int op = s.weighted({6, 2, 3, 3, 2, 2, 1, 1});
        if (st.X.empty() && op >= 2)
            op = 0;
        if (op == 0) {
            if (st.X.size() >= 14)
                continue;
            V x = st.X.empty() || s.p(0.8) ? vec(s, D) : V(st.X[s.u(st.X.size())] + (s.b() ? 0. : 1e-2) * vec(s, D, -1, 1));
            V y = observations(s, 1, P)[0];
            if (st.X.empty() && !known)
                st.dims(D, P);
            gp->add_sample(x, y);
            st.X.push_back(x);
            st.Y.push_back(y);
            adds++;
            s << " add" << str(x) << "->" << str(y);
        }
        else if (op == 1) {
            bool same = !st.X.empty() && s.p(0.2); // the same points again, observed differently
            if (!same && s.p(0.25))
                D = s.i(1, 3);
            if (s.p(0.25))
                P = s.i(1, 4);
            int n = same ? st.X.size() : s.size(1, 8, 90);
            if (!same)
                st.X = points(s, n, D);
            st.Y = observations(s, n, P);
            st.dims(D, P);
            if (s.p(0.25)) {
                gp->compute(st.X, st.Y, false);
                gp->recompute(s.b(), true);
                s << " compute-late";
            }
            else {
                gp->compute(st.X, st.Y);
                s << " compute";
            }
            s << "(n=" << n << " D=" << D << " P=" << P << ")";
            fulls++;
        }
        else if (op == 2) {
            for (int j = 0; j < P; j++)
                if (j == 0 || s.b()) {
                    st.kps[j] = KTk::gen(s, D);
                    gp->gp_models()[j].kernel_function().set_h_params(st.kps[j]);
                }
            bool m = s.b();
            gp->recompute(m, true);
            s << " kernels" << (m ? "" : "(keep mean)");
            sets++;
        }
        else if (op == 3) {
            bool full = s.b();
            if (st.mp.size()) {
                st.mp = gen_mean_params(s, st.mp.size());
                gp->mean_function().set_h_params(st.mp);
            }
            gp->recompute(true, full);
            s << " mean" << str(st.mp) << (full ? "" : "(keep kernel)");
            sets++;
        }
        else if (op == 4) {
            GP c(*gp);
            GP d;
            d = c;
            c.add_sample(vec(s, D), observations(s, 1, P)[0]);
            if (s.b())
                gp.reset(new GP(d));
            s << " copy";
        }
        else if (op == 5) { // same points, new observations, kernels kept
            st.Y = observations(s, st.X.size(), P);
            gp->compute(st.X, st.Y, false);
            gp->recompute(s.b(), false);
            s << " new observations";
            sets++;
        }
        else if (op == 6) {
            gp->recompute(s.b(), s.b());
            s << " recompute";
        }
        else {
            if (st.X.size() < 2)
                continue;
            std::vector<double> before(P);
            gp->optimize_hyperparams();
            for (int j = 0; j < P; j++) {
                V p = gp->gp_models()[j].kernel_function().h_params();
                s.check(p.size() == st.kps[j].size(), "optimised parameters size");
                for (int i = 0; i < p.size(); i++)
                    if (!std::isfinite(p(i)))
                        s.fail("optimised parameters not finite");
                st.kps[j] = p;
            }
            opt = true;
            s << " optimise";
        }
        if (st.X.empty() || (!s.p(0.6) && o + 1 < nops))
            continue;
        std::vector<Ref> refs;
        for (int j = 0; j < P; j++) {
            refs.push_back(st.ref(j));
            if (!refs.back().ok || refs.back().cond > 1e8)
                s.discard();
        }
        deep = deep || (st.X.size() >= 2 && P >= 2);
        check_multi(s, *gp, st, refs, queries(s, st.X, D, 2), "history", widen);
        // one explicit single-output GP per output
        if (s.p(0.3)) {
            using G1 = limbo::model::GP<typename Zt::Params, typename Zt::KF, limbo::mean::NullFunction<typename Zt::Params>>;
            V q = vec(s, D);
            V mu = gp->mu(q), sg = gp->sigma(q);
            V mq = gp->mean_function()(q, *gp);
            for (int j = 0; j < P; j++) {
                G1 g(D, 1);
                g.kernel_function().set_h_params(st.kps[j]);
                std::vector<V> y;
                for (size_t i = 0; i < st.X.size(); i++)
                    y.push_back(V::Constant(1, st.Y[i](j) - gp->mean_function()(st.X[i], *gp)(j)));
                g.compute(st.X, y);
                LV kq = st.at(j).kvec(q);
                double mag = (double)refs[j].dot(kq, 0) + std::abs(mq(j)) + std::abs((double)st.ybar()(j));
                s.close(mu(j), g.mu(q)(0) + mq(j), 1e-12 * widen * (10 + (double)refs[j].cond) * mag, "single-output model/mu");
                s.close(sg(j), g.sigma(q), 1e-12 * widen * (10 + (double)refs[j].cond) * (double)st.at(j).k(q, q), "single-output model/sigma");
            }
        }
    }
    s.label(Zt::name());
    if (P > 1)
        s.label("several outputs");
    if (opt)
        s.label("with optimisation");
    s.nontrivial(deep && (adds >= 2 || (adds && fulls) || sets));
}
PBT_SUITE(PARTNAME("history"), 10, "a history verified with >=2 samples and >=2 outputs that contains two additions, an addition and a full computation, or a parameter change")
{
    with_multi(s, [&](auto z) { history(s, z); });
}
