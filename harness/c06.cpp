// Hyper-parameter optimisation with the default optimiser.
#include "multizoo.hpp"
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>
using namespace lv;
using namespace limbo::model::gp;

template <typename Zt, template <typename, typename> class HP, int what>
void optimise(Src& s, Zt)
{
    using P_ = typename Zt::Params;
    using GP = limbo::model::GP<P_, typename Zt::KF, typename Zt::MF, HP<P_, limbo::opt::Rprop<P_>>>;
    gen_cfg(s);
    cfg().rprop_it = s.pick(std::vector<int>{1, 2, 5, 15, 40, 100});
    cfg().rprop_eps = s.pick(std::vector<double>{0., 0., 1e-3, 1.});
    int D = s.i(1, 3), P = s.weighted({4, 1, 1}) + 1, n = s.size(1, 10, 40);
    GP gp(D, P);
    typename Zt::St st;
    st.reset_kernel(D);
    st.reset_mean(P);
    if (s.b()) {
        st.kp = KT<typename Zt::KF>::gen(s, D);
        gp.kernel_function().set_h_params(st.kp);
        if (st.mp.size()) {
            st.mp = gen_mean_params(s, st.mp.size());
            gp.mean_function().set_h_params(st.mp);
        }
    }
    st.X = points(s, n, D);
    st.Y = observations(s, n, P);
    s << Zt::name() << " objective " << what << " D=" << D << " P=" << P << " n=" << n << " iterations " << cfg().rprop_it << " kp=" << str(st.kp) << " mp=" << str(st.mp) << " X=" << str(st.X) << " Y=" << str(st.Y);
    s.label(what == 0 ? "kernel likelihood" : what == 1 ? "kernel leave-one-out" : what == 2 ? "mean likelihood" : "kernel and mean likelihood");
    int rounds = s.weighted({3, 1}) + 1;
    gp.compute(st.X, st.Y);
    for (int r = 0; r < rounds; r++) {
        Ref r0 = st.ref();
        if (!r0.ok || r0.cond > 1e9)
            s.discard();
        double start;
        {
            GP c(gp);
            start = what == 1 ? c.compute_log_loo_cv() : c.compute_log_lik();
        }
        if (!std::isfinite(start))
            s.discard();
        if (s.p(0.2)) { // a stale reported score must not survive
            gp.set_log_lik(1e9);
            gp.set_log_loo_cv(1e9);
        }
        gp.optimize_hyperparams();
        V kp = gp.kernel_function().h_params(), mp = gp.mean_function().h_params();
        s.check(kp.size() == st.kp.size() && mp.size() == st.mp.size(), "parameter sizes changed");
        if (what == 2)
            s.check(same(kp, st.kp) || (kp - st.kp).cwiseAbs().maxCoeff() < 1e-12, "mean optimisation changed the kernel");
        if (what == 0 || what == 1)
            s.check(same(mp, st.mp), "kernel optimisation changed the mean");
        s.check(kp.allFinite() && (mp.size() == 0 || mp.allFinite()), "optimised parameters not finite");
        s.nontrivial((kp - st.kp).norm() > 0 || (mp.size() && (mp - st.mp).norm() > 0));
        st.kp = kp;
        st.mp = mp;
        check_data(s, gp, st, "data after optimisation");
        double got = what == 1 ? gp.get_log_loo_cv() : gp.get_log_lik();
        Ref rf = st.ref();
        double cond = rf.ok ? (double)rf.cond : 1e300;
        // rounding of the score itself near singular matrices
        double slack = 1e-10 * (1 + std::abs(start));
        for (int c = 0; c < P; c++)
            for (int i = 0; i < n; i++)
                slack += 1e-13 * (10 + (double)r0.cond) * (20 + std::abs((double)(r0.R(i, c) * r0.alpha(i, c))) + (what == 1 ? (double)(r0.alpha(i, c) * r0.alpha(i, c) / r0.Kinv(i, i)) : 0.));
        s.check(got >= start - slack, "the score got worse", "from " + std::to_string(start) + " to " + std::to_string(got));
        // a fresh model with the parameters found
        GP f(D, P);
        f.kernel_function().set_h_params(kp);
        if (mp.size())
            f.mean_function().set_h_params(mp);
        f.compute(st.X, st.Y);
        if (!rf.ok || cond > 1e9) {
            s.label("ill-conditioned optimum (predictions not compared)");
            continue;
        }
        double fs = what == 1 ? f.compute_log_loo_cv() : f.compute_log_lik();
        double mag = 0, loo = 0;
        for (int c = 0; c < P; c++)
            for (int i = 0; i < n; i++) {
                mag += std::abs((double)(rf.R(i, c) * rf.alpha(i, c))) + 10;
                loo += (double)(rf.alpha(i, c) * rf.alpha(i, c) / rf.Kinv(i, i)) + 10;
            }
        double t = 1e-11 * (10 + cond) * (what == 1 ? loo + mag : mag);
        s.close(got, fs, t, "reported score against a fresh model");
        s.close(got, what == 1 ? (double)rf.loo() : (double)rf.loglik(), t, "reported score against exact algebra");
        check_predictions(s, gp, st, rf, queries(s, st.X, D, 2), "predictions after optimisation", 4.);
    }
}
#if PART < 3
PBT_SUITE(PARTNAME("optimise"), 10, "an optimisation that changed at least one parameter")
{
#if PART == 0
    switch (s.i(0, 2)) {
    case 0:
        return optimise<Z0, KernelLFOpt, 0>(s, Z0());
    case 1:
        return optimise<Z3, KernelMeanLFOpt, 3>(s, Z3());
    default:
        return optimise<Z3, MeanLFOpt, 2>(s, Z3());
    }
#elif PART == 1
    switch (s.i(0, 2)) {
    case 0:
        return optimise<Z1, KernelLooOpt, 1>(s, Z1());
    case 1:
        return optimise<Z4, MeanLFOpt, 2>(s, Z4());
    default:
        return optimise<Z1, KernelMeanLFOpt, 3>(s, Z1());
    }
#elif PART == 2
    switch (s.i(0, 2)) {
    case 0:
        return optimise<Z2, KernelLooOpt, 1>(s, Z2());
    case 1:
        return optimise<Z2, KernelLFOpt, 0>(s, Z2());
    default:
        return optimise<Z5, KernelMeanLFOpt, 3>(s, Z5());
    }
#endif
}
#endif
#if PART == 3
template <typename Mt, bool LOO>
void multi(Src& s)
{
    using GP = typename Mt::GP;
    gen_cfg(s);
    cfg().rprop_it = s.pick(std::vector<int>{1, 2, 5, 15, 40});
    cfg().rprop_eps = 0;
    int D = s.i(1, 3), P = s.size(1, 4, 8), n = s.size(2, 8, 30);
    GP gp(D, P);
    typename Mt::St st;
    st.dims(D, P);
    if (s.b())
        for (int j = 0; j < P; j++) {
            st.kps[j] = KT<typename Mt::KF>::gen(s, D);
            gp.gp_models()[j].kernel_function().set_h_params(st.kps[j]);
        }
    if (s.b() && st.mp.size()) {
        st.mp = gen_mean_params(s, st.mp.size());
        gp.mean_function().set_h_params(st.mp);
    }
    st.X = points(s, n, D);
    st.Y = observations(s, n, P);
    s << "multi " << Mt::name() << (LOO ? " loo" : " likelihood") << " D=" << D << " P=" << P << " n=" << n << " X=" << str(st.X) << " Y=" << str(st.Y);
    gp.compute(st.X, st.Y);
    std::vector<double> start(P);
    for (int j = 0; j < P; j++) {
        Ref r = st.ref(j);
        if (!r.ok || r.cond > 1e8)
            s.discard();
        start[j] = LOO ? (double)r.loo() : (double)r.loglik();
    }
    gp.optimize_hyperparams();
    int moved = 0;
    s.check((int)gp.gp_models().size() == P, "number of models");
    s.check(same(V(gp.mean_function().h_params()), st.mp), "kernel optimisation changed the mean");
    std::vector<Ref> refs;
    for (int j = 0; j < P; j++) {
        V kp = gp.gp_models()[j].kernel_function().h_params();
        s.check(kp.size() == st.kps[j].size() && kp.allFinite(), "optimised parameters");
        moved += (kp - st.kps[j]).norm() > 0;
        st.kps[j] = kp;
        refs.push_back(st.ref(j));
        if (!refs[j].ok || refs[j].cond > 1e8) {
            s.label("ill-conditioned optimum (not compared)");
            return;
        }
        double end = LOO ? (double)refs[j].loo() : (double)refs[j].loglik();
        double mag = 0;
        for (int i = 0; i < n; i++)
            mag += 10 + std::abs((double)(refs[j].R(i, 0) * refs[j].alpha(i, 0))) + (double)(refs[j].alpha(i, 0) * refs[j].alpha(i, 0) / refs[j].Kinv(i, i));
        s.check(end >= start[j] - 1e-11 * (10 + (double)refs[j].cond) * mag - 1e-9 * std::abs(start[j]), "an output's score got worse", "output " + std::to_string(j) + " from " + std::to_string(start[j]) + " to " + std::to_string(end));
        double rep = LOO ? gp.gp_models()[j].get_log_loo_cv() : gp.gp_models()[j].get_log_lik();
        s.close(rep, end, 1e-11 * (10 + (double)refs[j].cond) * mag, "reported score of an output");
    }
    s.nontrivial(moved > 0);
    s.label(moved == P ? "all outputs moved" : "some outputs did not move");
    check_multi(s, gp, st, refs, queries(s, st.X, D, 2), "multi predictions after optimisation", 4.);
}
using MZ4 = MZ<P10, limbo::kernel::Exp, limbo::mean::Constant<P10>, PLOO<P10>>;
PBT_SUITE("multi", 4, "a multi-output optimisation that changed the parameters of at least one output")
{
    switch (s.i(0, 2)) {
    case 0:
        return multi<MZ0, false>(s);
    case 1:
        return multi<MZ1, false>(s);
    default:
        return multi<MZ4, true>(s);
    }
}
#endif
