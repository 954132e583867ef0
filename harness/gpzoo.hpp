// The Gaussian-process types the model checks run on, and the exact reference model for each of them.
#ifndef VERIF_GPZOO_HPP
#define VERIF_GPZOO_HPP
#include "lv.hpp"
#include <limbo/model/gp.hpp>

namespace lv {
    // a user-defined mean that depends on the point and has two parameters
    template <typename Params>
    struct XMean : public limbo::mean::BaseMean<Params> {
        XMean(size_t dim_out = 1) : _d(dim_out), _a(0.5), _b(-0.25) {}
        template <typename GP>
        V operator()(const V& x, const GP&) const
        {
            V r(_d);
            for (size_t j = 0; j < _d; j++)
                r(j) = _a * x.sum() * (j + 1.) + _b;
            return r;
        }
        template <typename GP>
        M grad(const V& x, const GP&) const
        {
            M g(_d, 2);
            for (size_t j = 0; j < _d; j++) {
                g(j, 0) = x.sum() * (j + 1.);
                g(j, 1) = 1;
            }
            return g;
        }
        size_t h_params_size() const { return 2; }
        V h_params() const
        {
            V p(2);
            p << _a, _b;
            return p;
        }
        void set_h_params(const V& p)
        {
            _a = p(0);
            _b = p(1);
        }
        size_t _d;
        double _a, _b;
    };

    // reference means: value from tracked parameters
    template <typename T>
    struct MR;
    template <typename P>
    struct MR<limbo::mean::NullFunction<P>> {
        static const char* name() { return "null"; }
        static int size(int) { return 0; }
        static V init(int) { return V(); }
        static LV eval(const LV&, const V&, const LV&, int d) { return LV::Zero(d); }
    };
    template <typename P>
    struct MR<limbo::mean::Constant<P>> {
        static const char* name() { return "constant"; }
        static int size(int) { return 1; }
        static V init(int) { return V::Constant(1, P::mean_constant::constant()); }
        static LV eval(const LV& p, const V&, const LV&, int d) { return LV::Constant(d, p(0)); }
    };
    template <typename P>
    struct MR<limbo::mean::Data<P>> {
        static const char* name() { return "data"; }
        static int size(int) { return 0; }
        static V init(int) { return V(); }
        static LV eval(const LV&, const V&, const LV& ybar, int) { return ybar; }
    };
    template <typename P>
    struct MR<XMean<P>> {
        static const char* name() { return "user"; }
        static int size(int) { return 2; }
        static V init(int)
        {
            V v(2);
            v << 0.5, -0.25;
            return v;
        }
        static LV eval(const LV& p, const V& x, const LV&, int d)
        {
            LV r(d);
            long double sx = 0;
            for (int i = 0; i < x.size(); i++)
                sx += x(i);
            for (int j = 0; j < d; j++)
                r(j) = p(0) * sx * (j + 1) + p(1);
            return r;
        }
    };
    template <typename P, typename In>
    struct MR<limbo::mean::FunctionARD<P, In>> {
        static const char* name() { return "affine"; }
        static int size(int d) { return d * (d + 1) + MR<In>::size(d); }
        static V init(int d)
        {
            V h = V::Zero(size(d));
            for (int r = 0; r < d; r++)
                h(r * (d + 1) + r) = 1;
            if (MR<In>::size(d))
                h.tail(MR<In>::size(d)) = MR<In>::init(d);
            return h;
        }
        static LV eval(const LV& p, const V& x, const LV& ybar, int d)
        {
            LV in = MR<In>::eval(p.tail(MR<In>::size(d)), x, ybar, d);
            LV r(d);
            for (int i = 0; i < d; i++) {
                r(i) = p(i * (d + 1) + d);
                for (int j = 0; j < d; j++)
                    r(i) += p(i * (d + 1) + j) * in(j);
            }
            return r;
        }
    };

    template <typename KF>
    struct KT;
    template <template <typename> class KF_, bool ON, int K>
    struct KT<KF_<KP<ON, K>>> {
        static constexpr bool on = ON;
        static constexpr int k = K;
        static Kind kind() { return kind_of(KF_<KP<ON, K>>(1)); }
        static int base_size(int D) { return kind() == ARD ? D + D * K + 1 : 2; }
        static int size(int D) { return base_size(D) + (ON ? 1 : 0); }
        static V init(int D)
        {
            V p = V::Zero(size(D));
            p(base_size(D) - 1) = 0.5 * std::log(cfg().sf2);
            if (kind() != ARD)
                p(0) = std::log(cfg().l);
            if (ON)
                p(size(D) - 1) = 0.5 * std::log(cfg().noise);
            return p;
        }
        static V gen(Src& s, int D)
        {
            V p(size(D));
            for (int i = 0; i < p.size(); i++)
                p(i) = s.uni(-1.5, 1.5);
            if (kind() == ARD) {
                for (int i = 0; i < D; i++)
                    p(i) = s.uni(std::log(0.1), std::log(4.));
            }
            else
                p(0) = s.uni(std::log(0.1), std::log(4.));
            if (ON)
                p(size(D) - 1) = s.uni(-4., 0.5);
            return p;
        }
    };

    // what the test believes about a model
    template <typename KF, typename MF>
    struct State {
        std::vector<V> X, Y;
        V kp, mp; // tracked parameters
        int D = -1, P = -1;
        void reset_kernel(int d)
        {
            D = d;
            kp = KT<KF>::init(d);
        }
        void reset_mean(int p)
        {
            P = p;
            mp = MR<MF>::init(p);
        }
        long double noise() const { return KT<KF>::on ? expl(2 * (long double)kp(kp.size() - 1)) : (long double)cfg().noise; }
        long double k(const V& a, const V& b) const
        {
            LV p = kp.head(KT<KF>::base_size(D)).template cast<long double>();
            return kref(KT<KF>::kind(), KT<KF>::k, p, a, b);
        }
        LV ybar() const
        {
            LV r = LV::Zero(P);
            for (auto& y : Y)
                r += y.template cast<long double>();
            if (Y.size())
                r /= (long double)Y.size();
            return r;
        }
        LV mean(const V& x) const { return MR<MF>::eval(mp.template cast<long double>(), x, ybar(), P); }
        Ref ref(bool eig = true) const
        {
            int n = X.size();
            LM K(n, n), R(n, P);
            for (int i = 0; i < n; i++) {
                for (int j = 0; j < n; j++)
                    K(i, j) = k(X[i], X[j]) + (i == j ? noise() + 1e-8L : 0.L);
                R.row(i) = (Y[i].template cast<long double>() - mean(X[i])).transpose();
            }
            return Ref(K, R, eig);
        }
        LV kvec(const V& v) const
        {
            LV r(X.size());
            for (size_t i = 0; i < X.size(); i++)
                r(i) = k(X[i], v);
            return r;
        }
    };

    template <typename GP, typename KF, typename MF>
    void check_data(Src& s, const GP& gp, const State<KF, MF>& st, const std::string& w)
    {
        s.check(gp.nb_samples() == (int)st.X.size(), w + "/nb_samples");
        s.check(gp.dim_in() == st.D, w + "/dim_in");
        s.check(gp.dim_out() == st.P, w + "/dim_out");
        s.check(same(gp.samples(), st.X), w + "/samples differ from the data given");
        s.check(same(gp.observations(), st.Y), w + "/observations differ from the data given");
        const M& om = gp.observations_matrix();
        s.check(st.Y.empty() || (om.rows() == (int)st.Y.size() && om.cols() == st.P), w + "/observations_matrix shape");
        double mx = -std::numeric_limits<double>::infinity(), sc = 0;
        for (size_t i = 0; i < st.Y.size(); i++)
            for (int j = 0; j < st.P; j++) {
                s.check(om(i, j) == st.Y[i](j), w + "/observations_matrix content");
                mx = std::max(mx, st.Y[i](j));
                sc = std::max(sc, std::abs(st.Y[i](j)));
            }
        LV yb = st.ybar();
        V mo = gp.mean_observation();
        s.check(mo.size() == st.P, w + "/mean_observation size");
        for (int j = 0; j < st.P; j++)
            s.close(mo(j), yb(j), 1e-12 * (sc + 1e-300), w + "/mean_observation");
        if (st.P == 1 && !st.Y.empty())
            s.check(gp.max_observation().size() == 1 && gp.max_observation()(0) == mx, w + "/max_observation");
    }

    // magnitude of the terms a mean function sums up (they may cancel)
    template <typename St>
    double mscale(const St& st, const V& q, double ymax)
    {
        if (st.mp.size() == 0)
            return 0;
        double a = st.mp.cwiseAbs().maxCoeff();
        return 1e-2 * a * (1 + a + ymax + q.cwiseAbs().sum());
    }
    // predictions at the given points against the exact posterior
    template <typename GP, typename KF, typename MF>
    void check_predictions(Src& s, const GP& gp, const State<KF, MF>& st, const Ref& r, const std::vector<V>& Q, const std::string& w, double widen = 1.)
    {
        double eps = 2e-13 * widen;
        double ymax = 1e-300;
        for (auto& y : st.Y)
            ymax = std::max(ymax, y.cwiseAbs().maxCoeff());
        for (auto& q : Q) {
            LV m = st.mean(q);
            V mu = gp.mu(q);
            double sg = gp.sigma(q);
            V mu2;
            double sg2;
            std::tie(mu2, sg2) = gp.query(q);
            s.check(mu.size() == st.P && mu2.size() == st.P, w + "/prediction size");
            long double kvv = st.k(q, q), var = kvv + st.noise();
            LV add = LV::Zero(st.P);
            double cond = 1;
            LV kq;
            if (!st.X.empty()) {
                kq = st.kvec(q);
                add = r.mu(kq);
                var -= r.explained(kq);
                cond = (double)r.cond;
            }
            for (int j = 0; j < st.P; j++) {
                double mag = std::abs((double)m(j)) + ymax * 1e-2 + mscale(st, q, ymax);
                if (!st.X.empty())
                    mag += (double)r.dot(kq, j);
                double tol = eps * (10 + cond) * mag;
                s.close(mu(j), (double)(m(j) + add(j)), tol, w + "/mu", "mean at " + str(q) + ":");
                s.close(mu2(j), mu(j), eps * mag + 1e-15 * std::abs(mu(j)), w + "/query-mu", "query against mu:");
            }
            double tv = eps * ((10 + cond) * (double)kvv + (double)st.noise()) + 3e-16;
            s.close(sg, (double)var, tv, w + "/sigma", "variance at " + str(q) + ":");
            s.close(sg2, sg, eps * (double)(kvv + st.noise()), w + "/query-sigma", "query against sigma:");
            s.check(sg >= 0 && sg2 >= 0, w + "/negative variance");
            s.check(sg <= (double)(kvv + st.noise()) * (1 + 1e-12), w + "/variance above the prior");
        }
    }
    // query points of all interesting kinds
    inline std::vector<V>& asked() // the points asked for earlier in the case
    {
        static std::vector<V> a;
        return a;
    }
    inline std::vector<V> queries(Src& s, const std::vector<V>& X, int D, int n)
    {
        std::vector<V> q;
        for (int i = 0; i < n; i++) {
            int mode = s.weighted({5, 2, 2, 1, 3});
            if (mode == 4 && !asked().empty() && asked().back().size() == D) {
                q.push_back(asked()[asked().size() - 1 - s.u(std::min<size_t>(4, asked().size()))]);
                if (q.back().size() == D)
                    continue;
                q.pop_back();
            }
            if (mode == 1 && !X.empty())
                q.push_back(X[s.u(X.size())]);
            else if (mode == 2 && !X.empty())
                q.push_back(X[s.u(X.size())] + 1e-2 * vec(s, D, -1, 1));
            else if (mode == 3)
                q.push_back(vec(s, D, -30, 30));
            else
                q.push_back(vec(s, D));
        }
        asked().insert(asked().end(), q.begin(), q.end());
        return q;
    }
    inline void gen_cfg(Src& s)
    {
        asked().clear();
        cfg().noise = s.pick(std::vector<double>{0.01, 0.1, 1e-3, 1., 1e-5});
        cfg().sf2 = s.pick(std::vector<double>{1., 0.25, 4., 10.});
        cfg().l = s.pick(std::vector<double>{1., 0.3, 0.1, 2.});
        cfg().cst = s.pick(std::vector<double>{1., 0., -3., 25.});
    }

    template <typename P, template <typename> class K, typename Mn, typename Opt = limbo::model::gp::NoLFOpt<P>>
    struct Z {
        using Params = P;
        using KF = K<P>;
        using MF = Mn;
        using GP = limbo::model::GP<P, KF, MF, Opt>;
        using St = State<KF, MF>;
        static std::string name()
        {
            const char* kn[] = {"exp", "matern3/2", "matern5/2", "se-ard", "user"};
            return std::string(kn[KT<KF>::kind()]) + (KT<KF>::k ? "(k=" + std::to_string(KT<KF>::k) + ")" : "") + (KT<KF>::on ? "+noise" : "") + "/" + MR<MF>::name();
        }
    };
    using P00 = KP<false, 0>;
    using P10 = KP<true, 0>;
    using P11 = KP<true, 1>;
    using P02 = KP<false, 2>;
    using Z0 = Z<P00, limbo::kernel::MaternFiveHalves, limbo::mean::Data<P00>>;
    using Z1 = Z<P00, limbo::kernel::SquaredExpARD, limbo::mean::Constant<P00>>;
    using Z2 = Z<P10, limbo::kernel::Exp, limbo::mean::NullFunction<P10>>;
    using Z3 = Z<P11, limbo::kernel::SquaredExpARD, limbo::mean::FunctionARD<P11, limbo::mean::Constant<P11>>>;
    using Z4 = Z<P00, limbo::kernel::MaternThreeHalves, limbo::mean::FunctionARD<P00, limbo::mean::Data<P00>>>;
    using Z6 = Z<P10, XKernel, limbo::mean::Data<P10>>; // not stationary
    using Z5 = Z<P10, limbo::kernel::MaternFiveHalves, XMean<P10>>;

    // the types are spread over translation units (PART) to keep compilation short
    template <typename F>
    void with_zoo(Src& s, F f)
    {
#if PART == 0
        if (s.b())
            f(Z0());
        else
            f(Z3());
#elif PART == 1
        switch (s.u(3)) {
        case 0:
            return f(Z1());
        case 1:
            return f(Z4());
        default:
            return f(Z6());
        }
#else
        if (s.b())
            f(Z2());
        else
            f(Z5());
#endif
    }
#ifndef PART
#define PART 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
#define PARTNAME(n) n "#" STR(PART)
    inline V gen_mean_params(Src& s, int n)
    {
        V p(n);
        for (int i = 0; i < n; i++)
            p(i) = s.real(-2, 2);
        return p;
    }
} // namespace lv
#endif
