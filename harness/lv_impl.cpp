#define PBT_MAIN
#include <Eigen/Cholesky>
#include <Eigen/Eigenvalues>
#ifndef PBT_NO_SHIM
#include <external/rand_utils.hpp>
#endif
#include "lv.hpp"
namespace lv {
    long double kref(Kind kd, int ardk, const LV& p, const V& a, const V& b)
    {
        int D = a.size();
        long double d2 = 0;
        for (int i = 0; i < D; i++)
            d2 += ((long double)a(i) - b(i)) * ((long double)a(i) - b(i));
        long double d = sqrtl(d2);
        if (kd == ARD) {
            long double z = 0;
            for (int i = 0; i < D; i++) {
                long double t = ((long double)a(i) - b(i)) / expl(p(i));
                z += t * t;
            }
            for (int j = 0; j < ardk; j++) {
                long double t = 0;
                for (int i = 0; i < D; i++)
                    t += ((long double)a(i) - b(i)) * p((j + 1) * D + i);
                z += t * t;
            }
            return expl(2 * p(p.size() - 1)) * expl(-0.5L * z);
        }
        long double l = expl(p(0)), sf2 = expl(2 * p(1));
        if (kd == EXP)
            return sf2 * expl(-0.5L * d2 / (l * l));
        if (kd == USR) {
            long double sa = 0, sb = 0;
            for (int i = 0; i < D; i++) {
                sa += a(i);
                sb += b(i);
            }
            return sf2 * (1 + sinl(sa) / 2) * (1 + sinl(sb) / 2) * expl(-0.5L * d2 / (l * l));
        }
        if (kd == M32) {
            long double t = sqrtl(3.0L) * d / l;
            return sf2 * (1 + t) * expl(-t);
        }
        long double t = sqrtl(5.0L) * d / l;
        return sf2 * (1 + t + t * t / 3) * expl(-t);
    }

    Ref::Ref(const LM& k, const LM& r, bool eig) : K(k), R(r)
        {
            int n = K.rows();
            if (eig) {
            Eigen::SelfAdjointEigenSolver<LM> es(K, Eigen::EigenvaluesOnly);
            long double mx = es.eigenvalues().maxCoeff(), mn = es.eigenvalues().minCoeff();
            if (!(mn > 0)) {
                ok = false;
                return;
            }
            cond = mx / mn;
            }
            Eigen::LLT<LM> llt(K);
            LM L = llt.matrixL();
            for (int i = 0; i < n; i++)
                logdet += 2 * logl(L(i, i));
            Kinv = llt.solve(LM::Identity(n, n));
            alpha = llt.solve(R);
        }
    LV Ref::mu(const LV& k) const { return (k.transpose() * alpha).transpose(); }
    long double Ref::explained(const LV& k) const { return (k.transpose() * (Kinv * k))(0); }
    long double Ref::loglik() const
        {
            long double a = (R.transpose() * alpha).trace();
            int n = K.rows(), P = R.cols();
            return -0.5L * a - 0.5L * P * logdet - 0.5L * P * n * logl(2 * M_PIl);
        }
    long double Ref::loo() const
        {
            int n = K.rows(), P = R.cols();
            long double s = 0;
            for (int o = 0; o < n; o++) {
                LM K2(n - 1, n - 1), R2(n - 1, P);
                LV k2(n - 1);
                for (int i = 0, a = 0; i < n; i++) {
                    if (i == o)
                        continue;
                    for (int j = 0, b = 0; j < n; j++) {
                        if (j == o)
                            continue;
                        K2(a, b++) = K(i, j);
                    }
                    R2.row(a) = R.row(i);
                    k2(a++) = K(i, o);
                }
                long double var = K(o, o);
                LV m = LV::Zero(P);
                if (n > 1) {
                    Eigen::LLT<LM> llt(K2);
                    LM al = llt.solve(R2);
                    LV t = llt.solve(k2);
                    m = (k2.transpose() * al).transpose();
                    var -= k2.dot(t);
                }
                for (int c = 0; c < P; c++) {
                    long double e = R(o, c) - m(c);
                    s += -0.5L * logl(var) - 0.5L * e * e / var - 0.5L * logl(2 * M_PIl);
                }
            }
            return s;
        }
    long double Ref::dot(const LV& k, int col) const { return k.cwiseAbs().dot(alpha.col(col).cwiseAbs()); }
    std::string str(const V& v)
    {
        std::ostringstream o;
        o.precision(6);
        o << "[";
        for (int i = 0; i < v.size() && i < 12; i++)
            o << (i ? " " : "") << v(i);
        if (v.size() > 12)
            o << " ..(" << v.size() << ")";
        o << "]";
        return o.str();
    }
    std::string str(const std::vector<V>& v)
    {
        std::string o = "{";
        for (size_t i = 0; i < v.size() && i < 8; i++)
            o += str(v[i]);
        if (v.size() > 8)
            o += "..(" + std::to_string(v.size()) + ")";
        return o + "}";
    }
    V vec(Src& s, int d, double lo, double hi)
    {
        V v(d);
        for (int i = 0; i < d; i++)
            v(i) = s.real(lo, hi);
        return v;
    }
    // sample sets of several shapes
    std::vector<V> points(Src& s, int n, int d)
    {
        std::vector<V> x;
        int mode = s.weighted({5, 2, 1, 1, 1});
        double lo = 0, hi = 1;
        if (mode == 3) {
            lo = -5;
            hi = 5;
        }
        V c = vec(s, d);
        for (int i = 0; i < n; i++) {
            if (mode == 1 && i > 0 && s.p(0.5)) // near or exact duplicates
                x.push_back(x[s.u(i)] + (s.b() ? 0. : 1e-3) * vec(s, d, -1, 1));
            else if (mode == 2) // a cluster
                x.push_back(c + 0.05 * vec(s, d, -1, 1));
            else if (mode == 4) { // a coarse lattice, ties and duplicates
                V v(d);
                for (int j = 0; j < d; j++)
                    v(j) = s.u(4) / 3.;
                x.push_back(v);
            }
            else
                x.push_back(vec(s, d, lo, hi));
        }
        return x;
    }
    std::vector<V> observations(Src& s, int n, int p)
    {
        double sc = s.pick(std::vector<double>{1., 1., 10., 0.1, 100.});
        double off = s.pick(std::vector<double>{0., 0., 1., -20.});
        int mode = s.weighted({6, 1, 1});
        std::vector<V> y;
        for (int i = 0; i < n; i++) {
            V v(p);
            for (int j = 0; j < p; j++)
                v(j) = mode == 1 ? off : mode == 2 ? off + sc * (double)s.i(-2, 2) : off + sc * s.uni(-1, 1);
            y.push_back(v);
        }
        return y;
    }
} // namespace lv
