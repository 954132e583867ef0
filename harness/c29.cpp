// C29: the sparse GP with pseudo-inputs against dense FITC algebra in long double
#include "gpzoo.hpp"
#include <Eigen/Cholesky>
#include <limbo/experimental/model/spgp.hpp>
using namespace lv;

static double g_jit = 1e-2, g_pct = 10, g_sig = 0.01, g_sf = 0.5, g_l = 0.5;
static int g_minm = 1;
struct SP : public KP<false, 0> {
    struct model_spgp {
        static double jitter() { return g_jit; }
        static double samples_percent() { return g_pct; }
        static int min_m() { return g_minm; }
        static double sig() { return g_sig; }
        static double pred_kernel_sigma_sq() { return g_sf; }
        static double pred_kernel_l() { return g_l; }
    };
};

// FITC in long double; w = pseudo-inputs (column-major), log b, log c, log sig
struct Fitc {
    int m, D, n;
    LM Z, Q, Qi, A, Ai;
    LV b, y, al;
    long double c, sig, lik = 0;
    double E = 0; // relative error to expect in double arithmetic
    std::vector<V> X;
    long double k(const LV& p, const LV& q) const
    {
        long double d = 0;
        for (int i = 0; i < D; i++)
            d += b(i) * (p(i) - q(i)) * (p(i) - q(i));
        return c * expl(-d / 2);
    }
    LV kz(const LV& x) const
    {
        LV r(m);
        for (int i = 0; i < m; i++)
            r(i) = k(Z.row(i).transpose(), x);
        return r;
    }
    Fitc(const LV& w, int m_, const std::vector<V>& X_, const LV& y_) : m(m_), D(X_[0].size()), n(X_.size()), y(y_), X(X_)
    {
        Z.resize(m, D);
        b.resize(D);
        for (int d = 0; d < D; d++) {
            for (int i = 0; i < m; i++)
                Z(i, d) = w(d * m + i);
            b(d) = expl(w(m * D + d));
        }
        c = expl(w(m * D + D));
        sig = expl(w(m * D + D + 1));
        Q.resize(m, m);
        for (int i = 0; i < m; i++)
            for (int j = 0; j < m; j++)
                Q(i, j) = k(Z.row(i).transpose(), Z.row(j).transpose()) + (i == j ? (long double)g_jit : 0.L);
        Eigen::LLT<LM> ql(Q);
        Qi = ql.solve(LM::Identity(m, m));
        LM K(m, n);
        long double ext = 0;
        for (int j = 0; j < n; j++) {
            LV x = X[j].cast<long double>();
            K.col(j) = kz(x);
            ext = std::max(ext, b.dot(x.cwiseProduct(x)));
        }
        for (int i = 0; i < m; i++)
            ext = std::max(ext, b.dot(LV(Z.row(i).transpose().cwiseProduct(Z.row(i).transpose()))));
        A = K.transpose() * Qi * K;
        for (int i = 0; i < n; i++)
            A(i, i) = c + sig;
        Eigen::LLT<LM> al_(A);
        Ai = al_.solve(LM::Identity(n, n));
        al = Ai * y;
        LM L = al_.matrixL();
        lik = -0.5L * y.dot(al) - L.diagonal().array().log().sum() - 0.5L * n * logl(2 * acosl(-1.L));
        E = 1e-16 * (double)((20 + m + 4 * ext) * (1 + Q.norm() * Qi.norm()));
    }
    double mean(const V& x, double& mag) const
    {
        LV q = Qi * kz(x.cast<long double>());
        long double r = 0;
        mag = 0;
        for (int i = 0; i < n; i++) {
            long double t = q.dot(kz(X[i].cast<long double>()));
            r += t * al(i);
            mag += std::abs((double)(t * al(i)));
        }
        return r;
    }
    double var(const V& x) const
    {
        LV q = Qi * kz(x.cast<long double>());
        LV t(n);
        for (int i = 0; i < n; i++)
            t(i) = q.dot(kz(X[i].cast<long double>()));
        return c + sig - t.dot(Ai * t);
    }
};

struct Data {
    std::vector<V> X, Y;
    V mp;
    int D = -1;
    int m() const
    {
        int n = X.size(), r = (int)(g_pct * n / 100);
        return std::min(std::max(r, g_minm), n);
    }
};
template <typename MF>
LV centred(const Data& d)
{
    LV yb = LV::Zero(1), r(d.X.size());
    for (auto& y : d.Y)
        yb += y.cast<long double>();
    yb /= (long double)std::max<size_t>(1, d.Y.size());
    for (size_t i = 0; i < d.X.size(); i++)
        r(i) = d.Y[i](0) - MR<MF>::eval(d.mp.cast<long double>(), d.X[i], yb, 1)(0);
    return r;
}

struct Hook {
    Src* s = nullptr;
    Data* d = nullptr;
    LV y;
    bool probe = false, from_start = false;
    int calls = 0;
    V w;
};
static Hook H;
static V gen_w(Src& s, const Data& d, int m)
{
    V w((m + 1) * d.D + 2);
    for (int i = 0; i < m; i++) {
        bool near = s.p(0.5);
        V base = near ? d.X[s.u(d.X.size())] : vec(s, d.D);
        for (int k = 0; k < d.D; k++)
            w(k * m + i) = base(k) + (near ? s.pick(std::vector<double>{0., 0.1, -0.05}) : 0.);
    }
    for (int k = 0; k < d.D; k++)
        w(m * d.D + k) = s.uni(-2., 4.);
    w(m * d.D + d.D) = s.uni(-2., 2.);
    w(m * d.D + d.D + 1) = w(m * d.D + d.D) + s.uni(-4., 1.5);
    return w;
}
struct HookOpt {
    template <typename F>
    V operator()(const F& f, const V& w0, bool bounded) const
    {
        Src& s = *H.s;
        Data& d = *H.d;
        H.calls++;
        s.check(!bounded, "search bounded");
        int m = d.m(), D = d.D, n = d.X.size();
        s.check(w0.size() == (m + 1) * D + 2, "number of pseudo-inputs", "a start of " + std::to_string(w0.size()) + " values: " + std::to_string(m) + " pseudo-inputs of dimension " + std::to_string(D) + " expected for " + std::to_string(n) + " samples");
        std::vector<bool> used(n, false);
        for (int i = 0; i < m; i++) {
            int hit = -1;
            for (int k = 0; k < n; k++) {
                bool eq = !used[k];
                for (int c = 0; c < D; c++)
                    eq = eq && w0(c * m + i) == d.X[k](c);
                if (eq) {
                    hit = k;
                    break;
                }
            }
            s.check(hit >= 0, "the search does not start from distinct training inputs", str(w0));
            used[hit] = true;
        }
        s.check(finite(w0), "the search starts from hyper-parameters that are not finite", str(w0));
        if (H.probe) {
            V w = s.p(0.3) ? w0 : gen_w(s, d, m);
            LV wl = w.cast<long double>();
            Fitc r(wl, m, d.X, H.y);
            double ee = r.E * (double)(1 + r.c / r.sig), sc = n + (double)(r.y.dot(r.y) / r.sig);
            if (std::isfinite(ee) && ee < 1e-6 && std::isfinite(sc)) {
                auto v = f(w, false);
                s.close(limbo::opt::fun(v), r.lik, 100 * ee * (1 + ee) * sc + 1e-12 * sc, "objective", "log likelihood at w=" + str(w) + ":");
                auto g = f(w, true);
                s.close(limbo::opt::fun(g), r.lik, 100 * ee * sc + 1e-12 * sc, "objective with gradient");
                if (ee < 1e-9 && sc < 1e4) {
                    V gr = limbo::opt::grad(g);
                    s.check(gr.size() == w.size(), "gradient size");
                    double gm = gr.cwiseAbs().maxCoeff();
                    int i = s.u(w.size());
                    auto at = [&](long double h) {
                        LV q = wl;
                        q(i) += h;
                        return Fitc(q, m, d.X, H.y).lik;
                    };
                    // step: small against the length scale, and against the distance at which two pseudo-inputs count as one
                    long double h = 1e-3L * sqrtl(std::min(1.L, (long double)g_jit / r.c));
                    if (i < m * D)
                        h /= std::max(1.L, sqrtl(r.b(i / m)));
                    long double d1 = (at(h) - at(-h)) / (2 * h), d2 = (at(2 * h) - at(-2 * h)) / (4 * h);
                    long double num = d1 + (d1 - d2) / 3, err = fabsl(d1 - d2);
                    if (!(err <= 1e-3 * (1 + fabsl(num))))
                        s.label("gradient too irregular for differences");
                    else
                        s.close(gr(i), num, 1e-6 * (sc + gm) + 0.05 * (double)err, "gradient", "component " + std::to_string(i) + " of " + std::to_string(w.size()) + " w=" + str(w) + " d1=" + std::to_string((double)d1) + " d2=" + std::to_string((double)d2));
                    s.label("gradient compared");
                }
                s.label("objective compared");
            }
        }
        H.w = H.from_start ? w0 : gen_w(s, d, m);
        return H.w;
    }
    static bool finite(const V& v)
    {
        for (int i = 0; i < v.size(); i++)
            if (!std::isfinite(v(i)))
                return false;
        return true;
    }
};

static void gen_conf(Src& s)
{
    gen_cfg(s);
    g_jit = s.pick(std::vector<double>{1e-2, 1e-1, 1e-4, 1e-6});
    g_pct = s.pick(std::vector<double>{10, 50, 100, 33.4, 0., 25});
    g_minm = s.pick(std::vector<int>{1, 2, 3, 6});
    g_sig = s.pick(std::vector<double>{0.01, 0.2});
    g_sf = s.pick(std::vector<double>{0.5, 1., 3.});
    g_l = s.pick(std::vector<double>{0.5, 1., 2.});
}

template <typename MF, typename GP>
void check_model(Src& s, const GP& gp, const Data& d, const V& w, const std::string& where)
{
    int n = d.X.size(), D = d.D, m = d.m();
    s.check(gp.nb_samples() == n && same(gp.samples(), d.X), where + "/samples differ from the data given");
    s.check(gp.dim_in() == D && gp.dim_out() == 1, where + "/dimensions");
    double mo = 0, mx = -INFINITY, ym = 1e-300;
    for (auto& y : d.Y) {
        mo += y(0) / n;
        mx = std::max(mx, y(0));
        ym = std::max(ym, std::abs(y(0)));
    }
    s.close(gp.mean_observation()(0), mo, 1e-12 * ym, where + "/mean_observation");
    s.check(gp.max_observation()(0) == mx, where + "/max_observation");
    s.check(gp.nb_pseudo_samples() == m, where + "/number of pseudo-inputs", std::to_string(gp.nb_pseudo_samples()) + " instead of " + std::to_string(m));
    auto ps = gp.pseudo_samples();
    for (int i = 0; i < m; i++)
        for (int k = 0; k < D; k++)
            s.check(ps[i](k) == w(k * m + i), where + "/pseudo-inputs are not those found by the search");
    Fitc r(w.cast<long double>(), m, d.X, centred<MF>(d));
    double ee = r.E * (double)(1 + r.c / r.sig);
    if (!(ee < 1e-7))
        return;
    s.label("predictions compared");
    s.nontrivial(n >= 2);
    LV yb = LV::Constant(1, mo);
    for (auto& q : queries(s, d.X, D, s.i(1, 3))) {
        double mag, add = r.mean(q, mag), mn = (double)MR<MF>::eval(d.mp.cast<long double>(), q, yb, 1)(0), var = r.var(q);
        double ext = (double)r.b.dot(LV(q.cwiseProduct(q).template cast<long double>()));
        double E = ee * (1 + ext / 20);
        double tm = 100 * E * (mag + ym) + 1e-11 * (std::abs(mn) + ym + 100), tv = 100 * E * (double)(r.c + r.sig);
        V mu;
        double sg;
        std::tie(mu, sg) = gp.query(q);
        s.check(mu.size() == 1, where + "/prediction size");
        s.close(mu(0), mn + add, tm, where + "/mu", "mean at " + str(q) + ":");
        s.close(sg, var, tv, where + "/sigma", "variance at " + str(q) + ":");
        s.close(gp.mu(q)(0, 0), mu(0), tm, where + "/mu alone");
        s.close(gp.sigma(q), sg, tv, where + "/sigma alone");
    }
}

template <typename MF>
void history(Src& s)
{
    using KF = limbo::kernel::MaternFiveHalves<SP>;
    using GP = limbo::model::SPGP<SP, KF, MF, HookOpt>;
    gen_conf(s);
    Data d;
    int D = s.size(1, 4, 9);
    H = Hook();
    H.s = &s;
    H.d = &d;
    bool sized = s.p(0.6);
    d.D = D;
    d.mp = MR<MF>::init(1);
    GP gp = sized ? GP(D, 1) : GP();
    s << MR<MF>::name() << " mean, D=" << D << (sized ? " sized" : " unsized") << " jitter=" << g_jit << " percent=" << g_pct << " min_m=" << g_minm;
    if (sized) {
        V q = vec(s, D, -3, 3), mu;
        double sg;
        std::tie(mu, sg) = gp.query(q);
        double pm = (double)MR<MF>::eval(d.mp.cast<long double>(), q, LV::Zero(1), 1)(0);
        s.close(mu(0), pm, 1e-12 * (1 + std::abs(pm)), "empty/mu");
        s.close(sg, cfg().sf2, 1e-12 * cfg().sf2, "empty/sigma");
        s.check(gp.nb_samples() == 0, "empty/nb_samples");
    }
    int ops = s.i(1, 6);
    for (int o = 0; o < ops; o++) {
        int op = d.X.empty() ? s.weighted({2, 2, 0, 0, 0, 1}) : s.weighted({1, 5, 1, 1, 1, 0});
        if (op == 1 && d.X.empty())
            d.mp = MR<MF>::init(1);
        H.probe = s.p(0.5);
        H.from_start = s.p(0.25);
        H.calls = 0;
        if (op == 0 || op == 5) {
            bool same = op == 0 && !d.X.empty() && s.p(0.3); // the same inputs again, observed differently
            if (!same)
                d.X = points(s, s.size(1, 14, 70), D);
            d.Y = observations(s, d.X.size(), 1);
            d.mp = MR<MF>::init(1);
            H.y = centred<MF>(d);
            s << "; " << (op ? "construct" : "compute") << " X=" << str(d.X) << " Y=" << str(d.Y);
            if (op == 5) {
                GP other(d.X, d.Y);
                other.recompute(s.b());
                gp = other;
            }
            else
                gp.compute(d.X, d.Y);
        }
        else if (op == 1) {
            d.X.push_back(vec(s, D));
            d.Y.push_back(V::Constant(1, s.real(-5, 5)));
            H.y = centred<MF>(d);
            s << "; add " << str(d.X.back()) << " -> " << d.Y.back()(0);
            gp.add_sample(d.X.back(), d.Y.back());
        }
        else if (op == 2) {
            if (d.mp.size()) {
                d.mp = gen_mean_params(s, d.mp.size());
                gp.mean_function().set_h_params(d.mp);
            }
            H.y = centred<MF>(d);
            s << "; mean " << str(d.mp) << " and recompute";
            gp.recompute();
        }
        else if (op == 3) {
            H.y = centred<MF>(d);
            s << "; optimize";
            gp.optimize_hyperparams();
        }
        else {
            GP c(gp);
            gp = GP();
            gp = c;
            H.calls = 1;
            s << "; copy";
        }
        s.check(H.calls == 1, "number of hyper-parameter searches");
        check_model<MF>(s, gp, d, H.w, op == 1 ? "add_sample" : op == 0 ? "compute" : op == 2 ? "recompute" : op == 3 ? "optimize" : "other");
        if (s.p(0.2)) { // several points at once
            int k = s.size(1, 4, 20);
            M Q(k, D);
            for (int i = 0; i < k; i++)
                Q.row(i) = vec(s, D).transpose();
            auto pr = gp.predict(Q);
            auto mm = gp.mu_mult(Q);
            V sm = gp.sigma_mult(Q);
            for (int i = 0; i < k; i++) {
                V mu;
                double sg;
                std::tie(mu, sg) = gp.query(Q.row(i).transpose());
                double t = 1e-9 * (1 + std::abs(mu(0)) + sg);
                if (!std::isfinite(mu(0)) || !std::isfinite(sg))
                    continue;
                bool ill = g_jit < 1e-3;
                s.close(pr.first(i, 0), mu(0), ill ? 1e3 * t : t, "predict/mu");
                s.close(pr.second(i, 0), sg, ill ? 1e3 * t : t, "predict/sigma");
                s.close(mm[i](0), mu(0), ill ? 1e3 * t : t, "mu_mult");
                s.close(sm(i), sg, ill ? 1e3 * t : t, "sigma_mult");
            }
        }
    }
}

PBT_SUITE("history", 8, "at least one model with >= 2 samples compared with dense FITC algebra (well enough conditioned to compare)")
{
    switch (s.u(5)) {
    case 0:
        return history<limbo::mean::NullFunction<SP>>(s);
    case 1:
        return history<limbo::mean::Constant<SP>>(s);
    case 2:
        return history<limbo::mean::Data<SP>>(s);
    case 3:
        return history<XMean<SP>>(s);
    default:
        return history<limbo::mean::FunctionARD<SP, limbo::mean::Constant<SP>>>(s);
    }
}

// with the default search: the objective does not get worse, and the model is the approximation for what was found
struct Rec {
    template <typename F>
    V operator()(const F& f, const V& w0, bool bounded) const
    {
        V w = limbo::opt::NLOptGrad<NP, nlopt::LD_LBFGS>()(f, w0, bounded);
        H.w = w;
        H.calls++;
        a() = limbo::opt::eval(f, w0);
        b() = limbo::opt::eval(f, w);
        return w;
    }
    struct NP {
        struct opt_nloptgrad {
            static int iterations() { return 20; }
            static double fun_tolerance() { return -1; }
            static double xrel_tolerance() { return -1; }
        };
    };
    static double& a()
    {
        static double v;
        return v;
    }
    static double& b()
    {
        static double v;
        return v;
    }
};
PBT_SUITE("search", 1, "a model of >= 3 samples optimised with L-BFGS and compared with dense FITC algebra")
{
    using MF = limbo::mean::Data<SP>;
    using GP = limbo::model::SPGP<SP, limbo::kernel::MaternFiveHalves<SP>, MF, Rec>;
    gen_conf(s);
    Data d;
    H = Hook();
    d.D = s.i(1, 3);
    int n = s.size(3, 15, 50);
    d.X = points(s, n, d.D);
    for (auto& x : d.X)
        d.Y.push_back(V::Constant(1, std::sin(3 * x.sum()) + 0.1 * s.normal()));
    d.mp = MR<MF>::init(1);
    s << "X=" << str(d.X) << " Y=" << str(d.Y);
    GP gp(d.D, 1);
    gp.compute(d.X, d.Y);
    s.check(H.calls == 1, "number of hyper-parameter searches");
    check_model<MF>(s, gp, d, H.w, "search");
    if (std::isfinite(Rec::a()))
        s.check(Rec::b() >= Rec::a() - 1e-9 * (1 + std::abs(Rec::a())), "the search made the objective worse", std::to_string(Rec::a()) + " then " + std::to_string(Rec::b()));
}
