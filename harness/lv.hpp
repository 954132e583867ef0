// Shared pieces: run-time configurable Params, independent closed-form references, generators.
#ifndef VERIF_LV_HPP
#define VERIF_LV_HPP
#include "pbt.hpp"
#include <Eigen/Core>
#include <Eigen/LU>
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/mean/null_function.hpp>

namespace lv {
    using V = Eigen::VectorXd;
    using M = Eigen::MatrixXd;
    using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
    using LV = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
    using pbt::Src;

    struct Cfg {
        double noise = 0.01, sf2 = 1, l = 1, cst = 1;
        int rprop_it = 20;
        double rprop_eps = 0.;
        int max_points = 10;
    };
    inline Cfg& cfg()
    {
        static Cfg c;
        return c;
    }
    template <bool ON, int K>
    struct KP {
        struct kernel {
            static double noise() { return cfg().noise; }
            static constexpr bool optimize_noise() { return ON; }
        };
        struct kernel_exp {
            static double sigma_sq() { return cfg().sf2; }
            static double l() { return cfg().l; }
        };
        struct kernel_maternthreehalves : kernel_exp {
        };
        struct kernel_maternfivehalves : kernel_exp {
        };
        struct kernel_squared_exp_ard {
            static double sigma_sq() { return cfg().sf2; }
            static constexpr int k() { return K; }
        };
        struct mean_constant {
            static double constant() { return cfg().cst; }
        };
        struct opt_rprop {
            static int iterations() { return cfg().rprop_it; }
            static double eps_stop() { return cfg().rprop_eps; }
        };
        struct model_sparse_gp {
            static int max_points() { return cfg().max_points; }
        };
    };

    // a user-defined kernel (derived from nothing) that is not stationary: s(a) s(b) exp(-|a-b|^2 / (2 l^2)) with s(x) = sf (1 + sin(sum x) / 2)
    template <typename Params>
    struct XKernel {
        XKernel(size_t = 1) : _l(cfg().l), _sf(std::sqrt(cfg().sf2)), _noise(Params::kernel::noise())
        {
            _p = V::Zero(h_params_size());
            _p(0) = std::log(_l);
            _p(1) = std::log(_sf);
            if (Params::kernel::optimize_noise())
                _p(2) = 0.5 * std::log(_noise);
        }
        double scale(const V& x) const { return _sf * (1 + 0.5 * std::sin(x.sum())); }
        double operator()(const V& a, const V& b, int i = -1, int j = -2) const
        {
            return scale(a) * scale(b) * std::exp(-0.5 * (a - b).squaredNorm() / (_l * _l)) + (i == j ? _noise + 1e-8 : 0.);
        }
        V grad(const V& a, const V& b, int i = -1, int j = -2) const
        {
            V g = V::Zero(h_params_size());
            double k = (*this)(a, b);
            g(0) = k * (a - b).squaredNorm() / (_l * _l);
            g(1) = 2 * k;
            if (Params::kernel::optimize_noise())
                g(2) = i == j ? 2 * _noise : 0.;
            return g;
        }
        size_t h_params_size() const { return Params::kernel::optimize_noise() ? 3 : 2; }
        V h_params() const { return _p; }
        void set_h_params(const V& p)
        {
            _p = p;
            _l = std::exp(p(0));
            _sf = std::exp(p(1));
            if (Params::kernel::optimize_noise())
                _noise = std::exp(2 * p(2));
        }
        double noise() const { return _noise; }
        double _l, _sf, _noise;
        V _p;
    };

    // ---- documented closed forms, in long double -------------------------------------------------
    enum Kind { EXP,
        M32,
        M52,
        ARD,
        USR };
    template <typename P>
    Kind kind_of(const XKernel<P>&) { return USR; }
    template <typename P>
    Kind kind_of(const limbo::kernel::Exp<P>&) { return EXP; }
    template <typename P>
    Kind kind_of(const limbo::kernel::MaternThreeHalves<P>&) { return M32; }
    template <typename P>
    Kind kind_of(const limbo::kernel::MaternFiveHalves<P>&) { return M52; }
    template <typename P>
    Kind kind_of(const limbo::kernel::SquaredExpARD<P>&) { return ARD; }

    // p: log-space parameters of the kernel without the noise entry
    long double kref(Kind kd, int ardk, const LV& p, const V& a, const V& b);

    // exact GP algebra in long double
    struct Ref {
        LM K; // with noise
        LM R; // residual observations (n x P)
        LM Kinv, alpha;
        long double cond = 1, logdet = 0, noise = 0;
        bool ok = true;
        Ref() {}
        Ref(const LM& k, const LM& r, bool eig = true);
        LV mu(const LV& k) const;
        long double explained(const LV& k) const;
        long double loglik() const; // log density of all outputs, K shared
        long double loo() const; // by actually leaving out each point
        long double dot(const LV& k, int col) const; // sum |k||alpha|
    };

    std::string str(const V& v);
    std::string str(const std::vector<V>& v);
    V vec(Src& s, int d, double lo = 0., double hi = 1.);
    std::vector<V> points(Src& s, int n, int d);
    std::vector<V> observations(Src& s, int n, int p);
    inline LM to_lm(const M& m) { return m.cast<long double>(); }
    inline bool same(const V& a, const V& b)
    {
        return a.size() == b.size() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0 || a == b);
    }
    inline bool same(const std::vector<V>& a, const std::vector<V>& b)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); i++)
            if (!same(a[i], b[i]))
                return false;
        return true;
    }
} // namespace lv
#endif
