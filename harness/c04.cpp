// Kernels against their documented closed forms.
#include "gpzoo.hpp"
#include <Eigen/Eigenvalues>
using namespace lv;

template <typename F>
long double deriv(F f)
{
    const long double h = 2e-3L;
    return (45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h);
}

template <typename KF>
void one(Src& s)
{
    using T = KT<KF>;
    cfg().noise = s.pick(std::vector<double>{0.01, 1e-6, 0.5, 3.});
    cfg().sf2 = s.pick(std::vector<double>{1., 0.2, 7., 100.});
    cfg().l = s.pick(std::vector<double>{1., 0.15, 3.});
    int D = s.size(1, 6, 20, 0.02);
    KF k(D);
    V p = T::init(D);
    int nb = T::base_size(D);
    s << "kind " << (int)T::kind() << " k=" << (int)T::k << (T::on ? " noise optimised" : "") << " D=" << D;
    s.check((int)k.h_params_size() == T::size(D), "h_params_size");
    V got = k.h_params();
    s.check(got.size() == p.size(), "initial h_params size");
    for (int i = 0; i < p.size(); i++)
        s.close(got(i), p(i), 1e-13 * (1 + std::abs(p(i))), "initial h_params");
    s.close(k.noise(), cfg().noise, 1e-15 * cfg().noise, "initial noise");
    int sets = s.weighted({1, 5, 2});
    for (int r = 0; r < sets; r++) {
        p = T::gen(s, D);
        if (s.p(0.3)) // wide ranges
            for (int i = 0; i < p.size(); i++)
                p(i) = (T::kind() == ARD && i >= D && i < D + D * T::k) ? s.uni(-5, 5) : s.uni(-4, 4);
        if (T::kind() == ARD && s.p(0.1))
            p = V::Zero(p.size());
        if (T::on && s.p(0.15)) // hardly any noise
            p(p.size() - 1) = s.uni(-30, -4);
        k.set_h_params(p);
        if (r + 1 < sets && s.b()) { // used before the parameters change again
            V a = vec(s, D), b = vec(s, D);
            s.check(std::isfinite(k(a, b)) && k.grad(a, b).size() == p.size(), "use between two changes of the parameters");
        }
    }
    s << " p=" << str(p);
    if (sets) {
        got = k.h_params();
        s.check(same(got, p), "h_params read back differ from those set", str(got) + " vs " + str(p));
        // parameters fully determine the kernel: a copy, an assigned object and a fresh object agree
        KF other(D);
        if (s.b())
            other.set_h_params(T::gen(s, D)), other.grad(vec(s, D), vec(s, D)), other(vec(s, D), vec(s, D));
        if (s.b())
            other = k;
        else
            other.set_h_params(k.h_params());
        V a = vec(s, D), b = vec(s, D);
        s.check(other(a, b) == k(a, b) && other(a, b, 1, 1) == k(a, b, 1, 1) && other.noise() == k.noise(), "same parameters, different kernel");
        s.check(same(other.grad(a, b), k.grad(a, b)) && same(other.grad(a, b, 2, 2), k.grad(a, b, 2, 2)), "same parameters, different gradient");
    }
    long double noise = T::on ? expl(2 * (long double)p(nb)) : (long double)cfg().noise;
    s.close(k.noise(), (double)noise, 1e-13 * (double)noise, "noise");
    LV pl = p.head(nb).template cast<long double>();
    double sf2 = std::exp(2 * p(nb - 1));
    int n = s.size(2, 7, 25);
    auto X = points(s, n, D);
    if (s.p(0.1))
        X.push_back(vec(s, D, -1000, 1000));
    n = X.size();
    s << " X=" << str(X);
    s.nontrivial(true);
    double biggest = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++) {
            const V &a = X[i], &b = X[j];
            long double r = kref(T::kind(), T::k, pl, a, b);
            double z = (r > 0) ? std::abs((double)logl(r / sf2)) : 800.;
            // cancellation inside x'Kx when Lambda is used
            double zz = z;
            if (T::k > 0)
                zz += (a - b).squaredNorm() * p.head(nb).cwiseAbs().maxCoeff() * p.head(nb).cwiseAbs().maxCoeff() * D + (a - b).squaredNorm() * std::exp(-2 * p.head(D).minCoeff());
            double tol = 2e-14 * (20 + zz) * (double)r + 1e-300 * sf2;
            double kij = k(a, b);
            s.close(kij, (double)r, tol, "kernel value", "k(" + str(a) + "," + str(b) + "):");
            s.close(k(b, a), kij, 1e-13 * kij * (1 + zz * 0.1), "symmetry");
            biggest = std::max(biggest, kij);
            // noise only on a sample paired with itself, whatever the points
            int u = s.i(0, 3), w = s.i(0, 3);
            double kn = k(a, b, u, w);
            if (u == w)
                s.close(kn - kij, (double)noise + 1e-8, 1e-14 * (kn + (double)noise), "noise on the diagonal");
            else
                s.check(kn == kij, "noise off the diagonal");
            s.check(k(a, b, -1, -2) == kij, "explicit default indices");
            if (i == j)
                s.close(kij, sf2, 1e-13 * sf2, "k(x,x)");
            // gradient
            V g = k.grad(a, b, u, w);
            V g0 = k.grad(a, b);
            s.check(g.size() == p.size() && g0.size() == p.size(), "gradient size");
            for (int e = 0; e < nb; e++) {
                long double d = deriv([&](long double h) {
                    LV q = pl;
                    q(e) += h;
                    return kref(T::kind(), T::k, q, a, b);
                });
                double sc = (double)r * (2 + zz * (1 + zz * 1e-3)) * (1 + (a - b).squaredNorm() * (T::k > 0));
                // truncation of the stencil grows with the sharpness of the kernel in that direction
                double trunc = 1e-16 * std::pow(2 + 2 * zz, 7) * (double)r;
                if (trunc > 1e-7 * sf2)
                    continue;
                double tl = 1e-12 * sc * (10 + zz) + trunc + 1e-14 * (double)fabsl(d) * (20 + zz) + 1e-290;
                s.close(g(e), (double)d, tl, "gradient", "entry " + std::to_string(e) + " of grad(" + str(a) + "," + str(b) + "):");
                s.check(g0(e) == g(e), "gradient depends on the indices");
            }
            if (T::on) {
                s.close(g(nb), u == w ? (double)(2 * noise) : 0., 1e-13 * (double)noise, "noise gradient");
                s.check(g0(nb) == 0., "noise gradient off the diagonal");
            }
        }
    // positive semi-definite Gram matrix
    M G(n, n);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            G(i, j) = k(X[i], X[j]);
    Eigen::SelfAdjointEigenSolver<M> es(0.5 * (G + G.transpose()), Eigen::EigenvaluesOnly);
    s.check(es.eigenvalues().minCoeff() >= -1e-11 * n * sf2 * (T::k > 0 ? 100. : 1.), "Gram matrix not positive semi-definite", std::to_string(es.eigenvalues().minCoeff()));
}
template <typename KF>
void ell_accessor(Src& s)
{
    int D = s.size(1, 6, 20, 0.02);
    KF k(D);
    V p = KT<KF>::gen(s, D);
    k.set_h_params(p);
    V e = k.ell();
    s.check(e.size() == D, "ell size");
    for (int i = 0; i < D; i++)
        s.close(e(i), std::exp(p(i)), 1e-13 * e(i), "ell");
}
using P00_ = KP<false, 0>;
using P01 = KP<false, 1>;
using P12 = KP<true, 2>;
using namespace limbo::kernel;
PBT_SUITE(PARTNAME("kernel"), 10, "a set of 2..8 points (random, clustered, duplicated, lattice, far away) on which all pairs are compared with the long-double closed form and its derivatives")
{
#if PART == 0
    switch (s.i(0, 3)) {
    case 0:
        return one<Exp<P00_>>(s);
    case 1:
        return one<Exp<P10>>(s);
    case 2:
        return one<MaternThreeHalves<P00_>>(s);
    default:
        return one<MaternThreeHalves<P10>>(s);
    }
#elif PART == 1
    switch (s.i(0, 3)) {
    case 0:
        return one<MaternFiveHalves<P00_>>(s);
    case 1:
        return one<MaternFiveHalves<P10>>(s);
    case 2:
        return one<SquaredExpARD<P00_>>(s);
    default:
        return one<SquaredExpARD<P10>>(s);
    }
#elif PART == 2
    switch (s.i(0, 4)) {
    case 0:
        return one<SquaredExpARD<P01>>(s);
    case 1:
        return one<SquaredExpARD<P11>>(s);
    case 2:
        return one<SquaredExpARD<P02>>(s);
    case 3:
        return one<SquaredExpARD<P12>>(s);
    default:
        return ell_accessor<SquaredExpARD<P02>>(s);
    }
#endif
}
