// Saving, loading and using the loaded model further, single- and multi-output.
#include "multizoo.hpp"
#include <fstream>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
using namespace lv;
using limbo::serialize::BinaryArchive;
using limbo::serialize::TextArchive;

static void near(Src& s, double got, double want, bool text, const std::string& w)
{
    if (text)
        s.close(got, want, 5.3e-15 * std::abs(want), w);
    else
        s.check(got == want, w, "changed by a binary archive");
}
static void near(Src& s, const V& got, const V& want, bool text, const std::string& w)
{
    s.check(got.size() == want.size(), w + " (size)");
    for (int i = 0; i < got.size(); i++)
        near(s, got(i), want(i), text, w);
}
static void near(Src& s, const std::vector<V>& got, const std::vector<V>& want, bool text, const std::string& w)
{
    s.check(got.size() == want.size(), w + " (number)");
    for (size_t i = 0; i < got.size(); i++)
        near(s, got[i], want[i], text, w);
}
template <typename GP>
void save(const GP& g, bool text, bool direct, const std::string& dir)
{
    if (text) {
        if (direct)
            g.save(TextArchive(dir));
        else
            g.template save<TextArchive>(dir);
    }
    else {
        if (direct)
            g.save(BinaryArchive(dir));
        else
            g.template save<BinaryArchive>(dir);
    }
}
template <typename GP>
void load(GP& g, bool text, bool direct, const std::string& dir, bool recompute, bool deflt)
{
    if (text) {
        if (direct)
            deflt ? g.load(TextArchive(dir)) : g.load(TextArchive(dir), recompute);
        else
            deflt ? g.template load<TextArchive>(dir) : g.template load<TextArchive>(dir, recompute);
    }
    else {
        if (direct)
            deflt ? g.load(BinaryArchive(dir)) : g.load(BinaryArchive(dir), recompute);
        else
            deflt ? g.template load<BinaryArchive>(dir) : g.template load<BinaryArchive>(dir, recompute);
    }
}
template <typename St>
double lik_scale(const St& st, const Ref& r, int P)
{
    int n = st.X.size();
    double mag = 0;
    for (int c = 0; c < P; c++)
        mag += (double)(r.R.col(c).cwiseAbs().dot(r.alpha.col(c).cwiseAbs()));
    return mag + 10. * n * P;
}
template <typename St>
double loo_scale(const St& st, const Ref& r, int P)
{
    double loo = 0;
    for (int c = 0; c < P; c++)
        for (int i = 0; i < (int)st.X.size(); i++)
            loo += 10 + (double)(r.alpha(i, c) * r.alpha(i, c) / r.Kinv(i, i));
    return loo;
}

template <typename Zt>
struct One {
    using GP = typename Zt::GP;
    using KTk = KT<typename Zt::KF>;
    typename Zt::St st;
    int D = 0, P = 0;
    GP gp;
    double widen = 4;
    bool stale_text = false;
    void fresh(Src& s)
    {
        D = s.i(1, 3);
        P = s.weighted({3, 1, 1}) + 1;
        gp = s.b() ? GP(D, P) : GP();
        st = typename Zt::St();
        st.reset_kernel(D);
        st.reset_mean(P);
        st.X = points(s, s.size(1, 7, 60), D);
        st.Y = observations(s, st.X.size(), P);
        if (s.b())
            gp.compute(st.X, st.Y);
        else
            for (size_t i = 0; i < st.X.size(); i++)
                gp.add_sample(st.X[i], st.Y[i]);
        if (s.p(0.7))
            params(s);
        if (s.b())
            gp.compute_log_loo_cv();
    }
    void params(Src& s)
    {
        if (s.p(0.7)) {
            st.kp = KTk::gen(s, D);
            gp.kernel_function().set_h_params(st.kp);
        }
        if (st.mp.size()) {
            st.mp = gen_mean_params(s, st.mp.size());
            gp.mean_function().set_h_params(st.mp);
        }
        gp.recompute(true, true);
    }
    void verify(Src& s, const std::string& w, bool scores)
    {
        Ref r = st.ref();
        if (!r.ok || r.cond > 1e7)
            s.discard();
        s.check(same(gp.kernel_function().h_params(), st.kp), w + "/kernel parameters");
        if (st.mp.size())
            s.check(same(gp.mean_function().h_params(), st.mp), w + "/mean parameters");
        check_data(s, gp, st, w);
        check_predictions(s, gp, st, r, queries(s, st.X, D, 2), w, widen);
        if (scores) {
            double c = 10 + (double)r.cond;
            double extra = 0; // the mean may cancel against the observations
            for (size_t i = 0; i < st.X.size(); i++)
                extra += mscale(st, st.X[i], 1 + st.Y[i].cwiseAbs().maxCoeff()) * r.alpha.row(i).cwiseAbs().sum();
            double tl = 1e-11 * c * (lik_scale(st, r, P) + extra), to = 5e-11 * c * (loo_scale(st, r, P) + lik_scale(st, r, P) + extra);
            if (s.b())
                s.close(gp.compute_log_lik(), (double)r.loglik(), tl, w + "/log-likelihood");
            if (s.b())
                s.close(gp.compute_log_loo_cv(), (double)r.loo(), to, w + "/leave-one-out");
            if (s.p(0.3)) {
                Ref rr = st.ref(false);
                GP fresh(D, P);
                fresh.kernel_function().set_h_params(st.kp);
                if (st.mp.size())
                    fresh.mean_function().set_h_params(st.mp);
                fresh.compute(st.X, st.Y);
                double kt = (double)r.K.trace(), kit = (double)r.Kinv.trace(), a2 = (double)r.alpha.squaredNorm();
                V a = gp.compute_kernel_grad_log_lik(), b = fresh.compute_kernel_grad_log_lik();
                s.check(a.size() == b.size(), w + "/gradient size");
                for (int i = 0; i < a.size(); i++)
                    s.close(a(i), b(i), 1e-9 * c * (1 + kt * (a2 + kit * P) + extra), w + "/likelihood gradient");
                V e = gp.compute_kernel_grad_log_loo_cv(), f = fresh.compute_kernel_grad_log_loo_cv();
                for (int i = 0; i < e.size(); i++)
                    s.close(e(i), f(i), 1e-9 * c * (1 + kt * kit * (loo_scale(st, r, P) + extra)), w + "/leave-one-out gradient");
            }
        }
    }
    void add(Src& s)
    {
        V x = s.p(0.8) ? vec(s, D) : V(st.X[s.u(st.X.size())] + (s.b() ? 0. : 1e-2) * vec(s, D, -1, 1));
        V y = observations(s, 1, P)[0];
        gp.add_sample(x, y);
        st.X.push_back(x);
        st.Y.push_back(y);
    }
};

template <typename Zt>
void single(Src& s, Zt)
{
    gen_cfg(s);
    One<Zt> a;
    a.fresh(s);
    s << Zt::name() << " D=" << a.D << " P=" << a.P << " n=" << a.st.X.size() << " ops:";
    int rounds = s.i(1, 3), cont = 0, loads = 0;
    for (int k = 0; k < rounds; k++) {
        bool text = s.b(), direct = s.b(), deflt = s.p(0.2), rec = deflt || s.b();
        std::string dir = s.dir() + "/" + s.pick(std::vector<std::string>{"m", "deep/er/m"});
        save(a.gp, text, direct, dir);
        One<Zt> b;
        int tgt = s.weighted({3, 2, 3, 1, 2});
        if (tgt == 1)
            b.gp = typename Zt::GP(s.i(1, 3), s.i(1, 3));
        else if (tgt == 2)
            b.fresh(s); // previous content
        else if (tgt == 3)
            b = a; // into the model itself
        else if (tgt == 4) { // a model of the same shape that has been used
            b = a;
            b.params(s);
            if (s.b()) {
                b.st.Y = observations(s, b.st.X.size(), b.P);
                b.gp.compute(b.st.X, b.st.Y);
            }
            b.verify(s, "target", s.b());
        }
        if (s.p(0.2)) // different defaults at loading time: everything must come from the archive
            if (KT<typename Zt::KF>::on) // (the noise of the other kernels is a constant of the program)
            {
                auto keep = asked();
                gen_cfg(s);
                asked() = keep;
            }
        load(b.gp, text, direct, dir, rec, deflt);
        loads++;
        s << " " << (text ? "text" : "binary") << (rec ? "" : "(no recompute)") << " into " << (tgt == 0 ? "new" : tgt == 1 ? "sized" : tgt == 2 ? "used" : tgt == 3 ? "itself" : "changed copy");
        b.st = a.st;
        b.D = a.D;
        b.P = a.P;
        b.widen = a.widen;
        near(s, b.gp.samples(), a.st.X, text, "samples");
        near(s, b.gp.observations(), a.st.Y, text, "observations");
        near(s, V(b.gp.kernel_function().h_params()), a.st.kp, text, "kernel parameters");
        if (a.st.mp.size())
            near(s, V(b.gp.mean_function().h_params()), a.st.mp, text, "mean parameters");
        // from here on the loaded numbers are the data
        b.st.X = b.gp.samples();
        b.st.Y = b.gp.observations();
        b.st.kp = b.gp.kernel_function().h_params();
        if (a.st.mp.size())
            b.st.mp = b.gp.mean_function().h_params();
        if (text)
            b.widen += rec ? 0 : 4;
        b.verify(s, "loaded", true);
        if (s.p(0.3)) { // the original did not change
            a.verify(s, "original", s.b());
        }
        int ops = s.i(0, 4);
        for (int o = 0; o < ops; o++) {
            int op = s.weighted({5, 2, 2, 2, 1});
            cont++;
            if (op == 0) {
                if (b.st.X.size() > 12)
                    continue;
                b.add(s);
                s << " add";
            }
            else if (op == 1) {
                b.params(s);
                s << " params";
            }
            else if (op == 2) { // a new mean, same kernel
                if (b.st.mp.size()) {
                    b.st.mp = gen_mean_params(s, b.st.mp.size());
                    b.gp.mean_function().set_h_params(b.st.mp);
                }
                b.gp.recompute(true, false);
                s << " mean";
            }
            else if (op == 3) {
                b.gp.recompute(s.b(), s.b());
                s << " recompute";
            }
            else {
                b.st.Y = observations(s, b.st.X.size(), b.P);
                b.gp.compute(b.st.X, b.st.Y, false);
                b.gp.recompute(false, false);
                s << " observations";
            }
            b.verify(s, "continued", s.b());
        }
        a = b;
    }
    if (a.P > 1)
        s.label("several outputs");
    s.label(Zt::name());
    s.nontrivial(a.st.X.size() >= 2 && cont >= 1);
}

template <typename Zt>
struct Many {
    using GP = typename Zt::GP;
    using KTk = KT<typename Zt::KF>;
    typename Zt::St st;
    int D = 0, P = 0;
    GP gp;
    double widen = 8;
    void fresh(Src& s)
    {
        D = s.i(1, 3);
        P = s.i(1, 3);
        gp = s.b() ? GP(D, P) : GP();
        st = typename Zt::St();
        st.dims(D, P);
        st.X = points(s, s.size(1, 6, 40), D);
        st.Y = observations(s, st.X.size(), P);
        if (s.b())
            gp.compute(st.X, st.Y);
        else
            for (size_t i = 0; i < st.X.size(); i++)
                gp.add_sample(st.X[i], st.Y[i]);
        if (s.p(0.7))
            params(s);
    }
    void params(Src& s)
    {
        for (int j = 0; j < P; j++)
            if (s.p(0.7)) {
                st.kps[j] = KTk::gen(s, D);
                gp.gp_models()[j].kernel_function().set_h_params(st.kps[j]);
            }
        if (st.mp.size()) {
            st.mp = gen_mean_params(s, st.mp.size());
            gp.mean_function().set_h_params(st.mp);
        }
        gp.recompute(true, true);
    }
    void verify(Src& s, const std::string& w)
    {
        std::vector<Ref> refs;
        for (int j = 0; j < P; j++) {
            refs.push_back(st.ref(j));
            if (!refs.back().ok || refs.back().cond > 1e7)
                s.discard();
        }
        check_multi(s, gp, st, refs, queries(s, st.X, D, 2), w, widen);
        if (s.p(0.5))
            for (int j = 0; j < P; j++) {
                auto& g = gp.gp_models()[j];
                double c = 10 + (double)refs[j].cond;
                double mx = 1;
                for (auto& y : st.Y)
                    mx = std::max(mx, y.cwiseAbs().maxCoeff());
                double extra = 0;
                for (size_t i = 0; i < st.X.size(); i++)
                    extra += (mx + mscale(st, st.X[i], mx)) * (double)std::abs(refs[j].alpha(i, 0));
                s.close(g.compute_log_lik(), (double)refs[j].loglik(), 1e-11 * c * (lik_scale(st, refs[j], 1) + extra), w + "/log-likelihood");
                s.close(g.compute_log_loo_cv(), (double)refs[j].loo(), 5e-11 * c * (loo_scale(st, refs[j], 1) + lik_scale(st, refs[j], 1) + extra), w + "/leave-one-out");
            }
    }
};
template <typename Zt>
void multi(Src& s, Zt)
{
    gen_cfg(s);
    Many<Zt> a;
    a.fresh(s);
    s << Zt::name() << " D=" << a.D << " P=" << a.P << " n=" << a.st.X.size() << " ops:";
    int rounds = s.i(1, 2), cont = 0;
    for (int k = 0; k < rounds; k++) {
        bool text = s.b(), direct = s.b(), deflt = s.p(0.2), rec = deflt || s.b();
        std::string dir = s.dir() + "/" + s.pick(std::vector<std::string>{"m", "deep/er/m"});
        save(a.gp, text, direct, dir);
        Many<Zt> b;
        int tgt = s.weighted({3, 2, 3, 1, 2});
        if (tgt == 1)
            b.gp = typename Zt::GP(s.i(1, 3), s.i(1, 3));
        else if (tgt == 2)
            b.fresh(s);
        else if (tgt == 3)
            b = a;
        else if (tgt == 4) {
            b = a;
            b.params(s);
            b.verify(s, "target");
        }
        load(b.gp, text, direct, dir, rec, deflt);
        s << " " << (text ? "text" : "binary") << (rec ? "" : "(no recompute)") << " into " << (tgt == 0 ? "new" : tgt == 1 ? "sized" : tgt == 2 ? "used" : tgt == 3 ? "itself" : "changed copy");
        b.st = a.st;
        b.D = a.D;
        b.P = a.P;
        b.widen = a.widen;
        s.check(b.gp.dim_out() == a.P && b.gp.dim_in() == a.D, "dimensions");
        s.check((int)b.gp.gp_models().size() == a.P, "number of models");
        near(s, b.gp.samples(), a.st.X, text, "samples");
        near(s, std::vector<V>(b.gp.observations()), a.st.Y, text, "observations");
        for (int j = 0; j < a.P; j++)
            near(s, V(b.gp.gp_models()[j].kernel_function().h_params()), a.st.kps[j], text, "kernel parameters");
        if (a.st.mp.size())
            near(s, V(b.gp.mean_function().h_params()), a.st.mp, text, "mean parameters");
        b.st.X = b.gp.samples();
        b.st.Y = b.gp.observations();
        for (int j = 0; j < a.P; j++)
            b.st.kps[j] = b.gp.gp_models()[j].kernel_function().h_params();
        if (a.st.mp.size())
            b.st.mp = b.gp.mean_function().h_params();
        if (text && !rec)
            b.widen += 8;
        b.verify(s, "loaded");
        int ops = s.i(0, 3);
        for (int o = 0; o < ops; o++) {
            int op = s.weighted({5, 2, 2});
            cont++;
            if (op == 0) {
                V x = s.p(0.8) ? vec(s, b.D) : V(b.st.X[s.u(b.st.X.size())]);
                V y = observations(s, 1, b.P)[0];
                b.gp.add_sample(x, y);
                b.st.X.push_back(x);
                b.st.Y.push_back(y);
                s << " add";
            }
            else if (op == 1) {
                b.params(s);
                s << " params";
            }
            else {
                b.gp.recompute(s.b(), s.b());
                s << " recompute";
            }
            b.verify(s, "continued");
        }
        a = b;
    }
    s.label("multi " + Zt::name());
    s.nontrivial(a.st.X.size() >= 2 && a.P >= 2 && cont >= 1);
}
#if PART < 3
PBT_SUITE(PARTNAME("single"), 10, "a model with at least two samples was saved, loaded and then used further (samples added, parameters changed or recomputed) with every state verified")
{
    with_zoo(s, [&](auto z) { single(s, z); });
}
#else
PBT_SUITE(PARTNAME("multi"), 10, "a model with at least two samples and two outputs was saved, loaded and then used further")
{
#if PART == 3
    if (s.b())
        multi(s, MZ1());
    else
        multi(s, MZ3());
#else
    if (s.b())
        multi(s, MZ0());
    else
        multi(s, MZ2());
#endif
}
#endif
