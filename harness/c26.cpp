// C26: expected hypervolume improvement
#include "ehviref.hpp"
#include "pbt.hpp"
#include <Eigen/Core>
#include <algorithm>
#include <deque>
#include <limits>
#include <memory>
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/bayes_opt/bo_base.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/model/gp.hpp>
#include <ehvi/ehvi_calculations.h>
#include <ehvi/ehvi_multi.h>
#include <ehvi/ehvi_sliceupdate.h>
#include <limbo/experimental/acqui/ehvi.hpp>
using pbt::Src;
// the same by numerical integration of the improvement itself (2-D), to check the reference against the definition
static double num_ehvi2(const std::vector<P>& f, const P& r, const P& mu, const P& sd, int m)
{
    auto hv = [&](std::vector<P> v) {
        std::sort(v.begin(), v.end(), [](const P& a, const P& b) { return a[0] > b[0]; });
        double sum = 0, y = r[1];
        for (auto& p : v)
            if (p[0] > r[0] && p[1] > y) {
                sum += (p[0] - r[0]) * (p[1] - y);
                y = p[1];
            }
        return sum;
    };
    double base = hv(f), sum = 0;
    for (int a = 0; a < m; a++)
        for (int b = 0; b < m; b++) {
            double u = -7 + 14 * (a + 0.5) / m, v = -7 + 14 * (b + 0.5) / m;
            auto g = f;
            g.push_back(P{mu[0] + sd[0] * u, mu[1] + sd[1] * v});
            sum += (hv(g) - base) * std::exp(-(u * u + v * v) / 2) / (2 * M_PI) * (14. / m) * (14. / m);
        }
    return sum;
}
static bool dom(const P& a, const P& b)
{
    for (size_t i = 0; i < a.size(); i++)
        if (a[i] < b[i])
            return false;
    return a != b;
}
struct Case {
    int d, n;
    std::vector<P> f;
    P r, mu, sd;
    double tol;
    std::vector<individual> own;
    std::deque<individual*> pop(const std::vector<int>& order)
    {
        own.assign(f.size(), individual());
        for (size_t k = 0; k < f.size(); k++)
            for (int i = 0; i < 3; i++)
                own[k].f[i] = i < d ? f[k][i] : 0;
        std::deque<individual*> q;
        for (int k : order)
            q.push_back(&own[k]);
        return q;
    }
};
static void gen_front(Src& s, Case& c, int d, int maxn, bool dup)
{
    c.d = d;
    int n = s.i(0, maxn), kind = s.i(0, 2), range = s.pick(std::vector<int>{2, 4, 8});
    double scale = s.p(0.2) ? s.logu(1e-3, 1e3) : 1;
    c.r.assign(d, 0);
    for (double& x : c.r)
        x = s.pick(std::vector<double>{0., 0., -11., 1.5, -0.25}) * scale;
    for (int k = 0; k < n; k++) {
        P p(d);
        if (kind == 0) { // near a sphere
            double q = 1e-9;
            for (int i = 0; i < d; i++)
                q += (p[i] = s.unit() + 1e-3) * p[i];
            for (int i = 0; i < d; i++)
                p[i] /= std::sqrt(q);
        }
        else // a lattice: many equal coordinates
            for (int i = 0; i < d; i++)
                p[i] = s.i(1, range) * 0.5;
        for (int i = 0; i < d; i++)
            p[i] = c.r[i] + scale * p[i];
        bool ok = true;
        for (auto& q : c.f)
            ok = ok && !dom(q, p) && (dup || q != p);
        if (!ok)
            continue;
        c.f.erase(std::remove_if(c.f.begin(), c.f.end(), [&](const P& q) { return dom(p, q); }), c.f.end());
        c.f.push_back(p);
        if (dup && s.p(0.1))
            c.f.push_back(p);
    }
    c.n = c.f.size();
    s << "front of " << c.n << ": ";
    if (c.n <= 8)
        for (auto& p : c.f) {
            s << "(";
            for (double x : p)
                s << x << " ";
            s << ")";
        }
    c.own.resize(c.n);
}
static void gen_pred(Src& s, Case& c)
{
    c.mu.assign(c.d, 0);
    c.sd.assign(c.d, 0);
    double prod = 1;
    for (int i = 0; i < c.d; i++) {
        double lo = c.r[i], hi = c.r[i] + 1e-3;
        for (auto& p : c.f)
            hi = std::max(hi, p[i]);
        double w = hi - lo;
        int k = s.weighted({3, 1, 1});
        if (k == 1 && c.n) // exactly at a point
            c.mu[i] = c.f[s.i(0, c.n - 1)][i];
        else if (k == 2)
            c.mu[i] = s.b() ? lo : hi;
        else
            c.mu[i] = s.uni(lo - 0.3 * w, hi + 0.7 * w);
        c.sd[i] = w * s.logu(1e-3, 3);
        prod *= c.sd[i] + std::max(std::abs(c.mu[i] - lo), std::abs(c.mu[i] - hi)) + w;
    }
    c.tol = 1e-8 * prod;
    s << " r=(";
    for (double x : c.r)
        s << x << " ";
    s << ") mu=(";
    for (double x : c.mu)
        s << x << " ";
    s << ") sd=(";
    for (double x : c.sd)
        s << x << " ";
    s << ")";
}
PBT_SUITE("2d", 3, "at least two points and an expectation above the tolerance")
{
    Case c;
    gen_front(s, c, 2, s.p(0.1) ? 40 : 8, true);
    gen_pred(s, c);
    double want = ref_ehvi(c.f, c.r, c.mu, c.sd, 2);
    s.nontrivial(c.n >= 2 && want > 100 * c.tol);
    auto q = c.pop(s.permutation(c.n));
    double r[3] = {c.r[0], c.r[1], 0}, mu[3] = {c.mu[0], c.mu[1], 0}, sd[3] = {c.sd[0], c.sd[1], 0};
    double got = ehvi2d(q, r, mu, sd);
    s.check(got >= 0, "2d/negative");
    s.close(got, want, c.tol, "2d/value", "expected improvement");
}
PBT_SUITE("reference", 1, "at least two points")
{
    // the closed form used as reference is the expectation by definition
    Case c;
    gen_front(s, c, 2, 5, true);
    gen_pred(s, c);
    s.nontrivial(c.n >= 2);
    double want = ref_ehvi(c.f, c.r, c.mu, c.sd, 2), num = num_ehvi2(c.f, c.r, c.mu, c.sd, 100);
    s.close(num, want, 2e-2 * want + 1e4 * c.tol, "reference/numerical integration", "expected improvement");
}
static void threed(Src& s, bool dup)
{
    Case c;
    gen_front(s, c, 3, s.p(0.1) ? 12 : 6, dup);
    gen_pred(s, c);
    double want = ref_ehvi(c.f, c.r, c.mu, c.sd, 3);
    s.nontrivial(c.n >= 2 && want > 100 * c.tol);
    double r[3], mu[3], sd[3];
    for (int i = 0; i < 3; i++)
        r[i] = c.r[i], mu[i] = c.mu[i], sd[i] = c.sd[i];
    auto run = [&](const char* name, double got) {
        s.check(got >= 0, (std::string("3d/negative/") + name).c_str());
        s.close(got, want, c.tol, (std::string("3d/value/") + name).c_str(), name);
    };
    run("2term", ehvi3d_2term(c.pop(s.permutation(c.n)), r, mu, sd));
    run("5term", ehvi3d_5term(c.pop(s.permutation(c.n)), r, mu, sd));
    run("8term", ehvi3d_8term(c.pop(s.permutation(c.n)), r, mu, sd));
    run("sliceupdate", ehvi3d_sliceupdate(c.pop(s.permutation(c.n)), r, mu, sd));
    // several predictions at once
    int m = s.i(1, 4), at = s.i(0, m - 1);
    std::vector<mus> all(m);
    std::vector<mus*> ptr;
    std::vector<double> wants;
    for (int k = 0; k < m; k++) {
        Case o = c;
        for (int i = 0; i < 3; i++) {
            o.mu[i] = c.mu[i] + (k - at) * 0.1 * c.sd[i];
            all[k].mu[i] = o.mu[i];
            all[k].s[i] = o.sd[i];
        }
        ptr.push_back(&all[k]);
        wants.push_back(ref_ehvi(o.f, o.r, o.mu, o.sd, 3));
    }
    auto multi = [&](const char* name, const std::vector<double>& got) {
        s.check((int)got.size() == m, "3d/number of results", name);
        for (int k = 0; k < m; k++)
            s.close(got[k], wants[k], 2 * c.tol, (std::string("3d/value/") + name).c_str(), name);
    };
    multi("5term multi", ehvi3d_5term(c.pop(s.permutation(c.n)), r, ptr));
    multi("sliceupdate multi", ehvi3d_sliceupdate(c.pop(s.permutation(c.n)), r, ptr));
}
PBT_SUITE("3d", 4, "at least two points and an expectation above the tolerance") { threed(s, s.p(0.3)); }

// ---- the acquisition function on models
struct Pm {
    struct kernel : public limbo::defaults::kernel {
        BO_PARAM(double, noise, 0.01);
    };
    struct kernel_exp : public limbo::defaults::kernel_exp {};
    struct kernel_squared_exp_ard : public limbo::defaults::kernel_squared_exp_ard {};
};
typedef limbo::model::GP<Pm, limbo::kernel::Exp<Pm>, limbo::mean::Data<Pm>> Gp;
PBT_SUITE("acquisition", 2, "at least two points in the front and an expectation above the tolerance")
{
    int dx = s.i(1, 3), n = s.i(1, 10);
    std::vector<Eigen::VectorXd> x;
    std::vector<std::vector<Eigen::VectorXd>> y(2);
    for (int k = 0; k < n; k++) {
        Eigen::VectorXd v(dx);
        for (int i = 0; i < dx; i++)
            v(i) = s.unit();
        x.push_back(v);
        for (int j = 0; j < 2; j++)
            y[j].push_back(Eigen::VectorXd::Constant(1, s.real(-4, 4)));
    }
    std::vector<Gp> models(2, Gp(dx, 1));
    for (int j = 0; j < 2; j++) {
        models[j].compute(x, y[j]);
        Eigen::VectorXd h = models[j].kernel_function().h_params();
        for (int i = 0; i < h.size(); i++)
            h(i) = s.real(-1.5, 1.);
        models[j].kernel_function().set_h_params(h);
        models[j].recompute(true, true);
    }
    Case c;
    c.d = 2;
    c.r = P{-11, -11};
    for (double& v : c.r)
        v = s.pick(std::vector<double>{-11, -5, -4.5});
    for (int k = 0; k < n; k++) {
        P p{y[0][k](0), y[1][k](0)};
        bool ok = true;
        for (int m = 0; m < n; m++)
            ok = ok && !dom(P{y[0][m](0), y[1][m](0)}, p);
        if (ok)
            c.f.push_back(p);
    }
    c.n = c.f.size();
    auto pop = c.pop(s.permutation(c.n));
    Eigen::Vector3d r(c.r[0], c.r[1], 0);
    limbo::acqui::Ehvi<Pm, Gp> acqui(models, pop, r);
    s.check(acqui.dim() == (size_t)dx, "acquisition/dim");
    double best = 0;
    for (int k = 0; k < 3; k++) {
        Eigen::VectorXd q(dx);
        for (int i = 0; i < dx; i++)
            q(i) = s.uni(-0.2, 1.2);
        if (s.p(0.2))
            q = x[s.i(0, n - 1)];
        c.mu = P{models[0].mu(q)(0), models[1].mu(q)(0)};
        c.sd = P{std::sqrt(models[0].sigma(q)), std::sqrt(models[1].sigma(q))};
        s << " mu=(" << c.mu[0] << "," << c.mu[1] << ") sd=(" << c.sd[0] << "," << c.sd[1] << ")";
        double want = ref_ehvi(c.f, c.r, c.mu, c.sd, 2);
        best = std::max(best, want);
        s.close(acqui(q), want, 1e-6 * (1 + want), "acquisition/value", "expected improvement");
    }
    s.nontrivial(c.n >= 2 && best > 1e-4);
}
