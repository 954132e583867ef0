#ifndef VERIF_MULTIZOO_HPP
#define VERIF_MULTIZOO_HPP
#include "gpzoo.hpp"
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
namespace lv {
    // what the test believes about a multi-output model: one kernel parameter vector per output
    template <typename KF, typename MF>
    struct MState : public State<KF, MF> {
        std::vector<V> kps;
        void dims(int d, int p)
        {
            bool nd = d != this->D, np = p != this->P;
            this->D = d;
            if (np) {
                this->reset_mean(p);
                kps.assign(p, KT<KF>::init(d));
            }
            else if (nd)
                kps.assign(p, KT<KF>::init(d));
        }
        // single-output state with the kernel of output j (mean handled here)
        State<KF, MF> at(int j) const
        {
            State<KF, MF> c = *this;
            c.kp = kps[j];
            return c;
        }
        Ref ref(int j, bool eig = true) const
        {
            auto c = at(j);
            int n = this->X.size();
            LM K(n, n), R(n, 1);
            for (int a = 0; a < n; a++) {
                for (int b = 0; b < n; b++)
                    K(a, b) = c.k(this->X[a], this->X[b]) + (a == b ? c.noise() + 1e-8L : 0.L);
                R(a, 0) = (long double)this->Y[a](j) - this->mean(this->X[a])(j);
            }
            return Ref(K, R, eig);
        }
    };
    template <typename MGP, typename KF, typename MF>
    void check_multi(Src& s, const MGP& gp, const MState<KF, MF>& st, const std::vector<Ref>& refs, const std::vector<V>& Q, const std::string& w, double widen = 1.)
    {
        int P = st.P;
        s.check(gp.dim_in() == st.D && gp.dim_out() == P, w + "/dimensions");
        s.check(gp.nb_samples() == (int)st.X.size(), w + "/nb_samples");
        if (!st.X.empty()) {
            s.check(same(gp.samples(), st.X), w + "/samples differ from the data given");
            s.check(same(std::vector<V>(gp.observations()), st.Y), w + "/observations differ from the data given");
            M om = gp.observations_matrix();
            s.check(om.rows() == (int)st.Y.size() && om.cols() == P, w + "/observations_matrix shape");
            for (size_t i = 0; i < st.Y.size(); i++)
                s.check(same(V(om.row(i).transpose()), st.Y[i]), w + "/observations_matrix content");
        }
        double ymax = 1e-300;
        for (auto& y : st.Y)
            ymax = std::max(ymax, y.cwiseAbs().maxCoeff());
        LV yb = st.ybar();
        V mo = gp.mean_observation();
        s.check(mo.size() == P, w + "/mean_observation size");
        for (int j = 0; j < P; j++)
            s.close(mo(j), (double)yb(j), 1e-12 * ymax, w + "/mean_observation");
        double eps = 2e-13 * widen;
        for (auto& q : Q) {
            LV m = st.mean(q);
            V mu = gp.mu(q), sg = gp.sigma(q), mu2, sg2;
            std::tie(mu2, sg2) = gp.query(q);
            s.check(mu.size() == P && sg.size() == P && mu2.size() == P && sg2.size() == P, w + "/prediction size");
            for (int j = 0; j < P; j++) {
                auto c = st.at(j);
                long double kvv = c.k(q, q), var = kvv + c.noise(), add = 0;
                double cond = 1, mag = std::abs((double)m(j)) + ymax * 1e-2 + mscale(st, q, ymax);
                // the mean cancels against the observations
                for (int i = 0; i < P; i++)
                    mag += 1e-2 * std::abs((double)m(i));
                if (!st.X.empty()) {
                    LV kq = c.kvec(q);
                    add = refs[j].mu(kq)(0);
                    var -= refs[j].explained(kq);
                    cond = (double)refs[j].cond;
                    mag += (double)refs[j].dot(kq, 0);
                }
                s.close(mu(j), (double)(m(j) + add), eps * (10 + cond) * mag, w + "/mu", "output " + std::to_string(j) + " at " + str(q) + ":");
                s.close(mu2(j), mu(j), eps * mag, w + "/query-mu");
                s.close(sg(j), (double)var, eps * ((10 + cond) * (double)kvv + (double)c.noise()) + 3e-16, w + "/sigma", "output " + std::to_string(j) + " at " + str(q) + ":");
                s.close(sg2(j), sg(j), eps * (double)(kvv + c.noise()), w + "/query-sigma");
            }
        }
    }
    template <typename P, template <typename> class K, typename Mn, typename Opt = limbo::model::gp::NoLFOpt<P>>
    struct MZ {
        using Params = P;
        using KF = K<P>;
        using MF = Mn;
        using GP = limbo::model::MultiGP<P, limbo::model::GP, KF, MF, Opt>;
        using St = MState<KF, MF>;
        static std::string name()
        {
            return Z<P, K, Mn>::name();
        }
    };
    template <typename P>
    using PLF = limbo::model::multi_gp::ParallelLFOpt<P, limbo::model::gp::KernelLFOpt<P>>;
    template <typename P>
    using PLOO = limbo::model::multi_gp::ParallelLFOpt<P, limbo::model::gp::KernelLooOpt<P>>;
    using MZ0 = MZ<P00, limbo::kernel::MaternFiveHalves, limbo::mean::Data<P00>, PLF<P00>>;
    using MZ1 = MZ<P10, limbo::kernel::SquaredExpARD, limbo::mean::FunctionARD<P10, limbo::mean::Data<P10>>, PLF<P10>>;
    using MZ2 = MZ<P10, limbo::kernel::Exp, XMean<P10>, PLF<P10>>;
    using MZ3 = MZ<P00, limbo::kernel::SquaredExpARD, limbo::mean::Constant<P00>, PLF<P00>>;
    template <typename F>
    void with_multi(Src& s, F f)
    {
#if PART == 0
        f(MZ0());
#elif PART == 1
        f(MZ1());
#elif PART == 2
        f(MZ2());
#else
        f(MZ3());
#endif
    }
} // namespace lv
#endif
