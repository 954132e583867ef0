// C25: hypervolume
#include "pbt.hpp"
#include <Eigen/Core>
#include <algorithm>
#include <fstream>
#include <limits>
#include <sstream>
#include <limbo/bayes_opt/bo_base.hpp>
#include <limbo/experimental/stat/hyper_volume.hpp>
using pbt::Src;
typedef std::vector<double> P;

// volume of the union of the boxes [0, p]: the cells of the grid spanned by all coordinates (small cases) ...
static double vol_grid(const std::vector<P>& v, int d)
{
    std::vector<P> c(d, P{0.});
    for (auto& p : v)
        for (int i = 0; i < d; i++)
            c[i].push_back(p[i]);
    for (auto& x : c) {
        std::sort(x.begin(), x.end());
        x.erase(std::unique(x.begin(), x.end()), x.end());
    }
    std::vector<int> k(d, 1);
    double sum = 0;
    for (int i = 0; i < d; i++)
        if (c[i].size() < 2)
            return 0;
    for (;;) {
        bool in = false;
        for (auto& p : v) {
            bool all = true;
            for (int i = 0; i < d && all; i++)
                all = p[i] >= c[i][k[i]];
            if (all) {
                in = true;
                break;
            }
        }
        if (in) {
            double w = 1;
            for (int i = 0; i < d; i++)
                w *= c[i][k[i]] - c[i][k[i] - 1];
            sum += w;
        }
        int i = 0;
        while (i < d && ++k[i] == (int)c[i].size())
            k[i++] = 1;
        if (i == d)
            return sum;
    }
}
// ... or slices along the last coordinate (larger ones)
static double vol_slice(std::vector<P> v, int d)
{
    if (d == 1) {
        double m = 0;
        for (auto& p : v)
            m = std::max(m, p[0]);
        return m;
    }
    std::sort(v.begin(), v.end(), [d](const P& a, const P& b) { return a[d - 1] > b[d - 1]; });
    double sum = 0;
    for (size_t k = 0; k < v.size(); k++) {
        double h = v[k][d - 1] - (k + 1 < v.size() ? v[k + 1][d - 1] : 0.);
        if (h > 0)
            sum += h * vol_slice(std::vector<P>(v.begin(), v.begin() + k + 1), d - 1);
    }
    return sum;
}
static double ref_vol(const std::vector<P>& v, int d)
{
    double cells = 1;
    for (int i = 0; i < d; i++)
        cells *= v.size();
    return cells * v.size() < 3000 ? vol_grid(v, d) : vol_slice(v, d);
}
static double box(const std::vector<P>& v, int d)
{
    double b = 1;
    for (int i = 0; i < d; i++) {
        double m = 0;
        for (auto& p : v)
            m = std::max(m, p[i]);
        b *= m;
    }
    return b;
}
static std::vector<P> gen(Src& s, int d, int n)
{
    std::vector<P> v;
    int kind = s.i(0, 3), range = s.pick(std::vector<int>{1, 2, 4, 30});
    double scale = s.p(0.2) ? s.logu(1e-6, 1e6) : 1;
    s << n << " points of " << d << " objectives, kind " << kind << " range " << range << " scale " << scale << ": ";
    for (int k = 0; k < n; k++) {
        P p(d);
        if (!v.empty() && s.p(0.12))
            p = v[s.i(0, (int)v.size() - 1)];
        else if (!v.empty() && s.p(0.2)) {
            p = v[s.i(0, (int)v.size() - 1)];
            p[s.i(0, d - 1)] = scale * s.i(0, range);
        }
        else if (kind == 0) { // on a sphere: mostly not dominated
            double q = 1e-9;
            for (int i = 0; i < d; i++)
                q += (p[i] = s.unit() + 1e-6) * p[i];
            for (int i = 0; i < d; i++)
                p[i] *= scale / std::sqrt(q);
        }
        else if (kind == 1)
            for (int i = 0; i < d; i++)
                p[i] = scale * s.uni(0, range);
        else
            for (int i = 0; i < d; i++)
                p[i] = scale * s.i(0, range);
        v.push_back(p);
    }
    if (n <= 8)
        for (auto& p : v) {
            s << "(";
            for (double x : p)
                s << x << " ";
            s << ")";
        }
    return v;
}
// how many points are not dominated by another one
static int nd(const std::vector<P>& v)
{
    int c = 0;
    for (auto& a : v) {
        bool d = false;
        for (auto& b : v) {
            bool ge = true;
            for (size_t i = 0; i < a.size(); i++)
                ge = ge && b[i] >= a[i];
            d = d || (ge && a != b);
        }
        c += !d;
    }
    return c;
}
static void dims(Src& s, int& d, int& n, bool small = false)
{
    d = s.weighted({3, 3, 2, 1}) + 2;
    if (s.p(0.05) && !small)
        d = 6;
    int m = d == 2 ? 40 : d == 3 ? 16 : d == 4 ? 9 : 6;
    n = s.b() ? s.i(1, 4) : s.i(1, small ? std::min(m, 10) : m);
}
// the C interface works on an array of pointers, and may reorder it
struct Arr {
    std::vector<P> own;
    std::vector<double*> p;
    Arr(const std::vector<P>& v, const std::vector<int>& order)
    {
        for (int i : order)
            own.push_back(v[i]);
        for (auto& x : own)
            p.push_back(x.data());
    }
};
PBT_SUITE("volume", 4, "at least two points are not dominated")
{
    int d, n;
    dims(s, d, n);
    auto v = gen(s, d, n);
    s.nontrivial(nd(v) >= 2);
    double want = ref_vol(v, d), tol = 1e-10 * box(v, d) + 1e-300;
    // as given, and with the dominated points removed first
    Arr a(v, s.permutation(n)), b(v, s.permutation(n));
    double all = CalculateHypervolume(a.p.data(), n, d);
    int m = FilterNondominatedSet(b.p.data(), n, d);
    double filtered = CalculateHypervolume(b.p.data(), m, d);
    s.close(all, want, tol, "volume/of all points", "volume");
    s.close(filtered, want, tol, "volume/of the points that are not dominated", "volume");
    s.check(m == nd(v), "filter/number", std::to_string(m) + " instead of " + std::to_string(nd(v)));
    // the points themselves are untouched, and none is lost
    for (auto* x : {&a, &b}) {
        std::vector<P> l, w(v);
        for (double* q : x->p)
            l.push_back(P(q, q + d));
        std::sort(l.begin(), l.end());
        std::sort(w.begin(), w.end());
        s.check(l == w, "points changed");
    }
}
PBT_SUITE("relations", 2, "at least two points are not dominated")
{
    // metamorphic: works for sizes and dimensions that the reference does not reach
    int d = s.i(2, 8), n = s.i(1, d <= 3 ? 80 : d == 4 ? 25 : d == 5 ? 14 : 9);
    auto v = gen(s, d, n);
    s.nontrivial(nd(v) >= 2);
    auto hv = [&](const std::vector<P>& w) {
        Arr a(w, s.permutation(w.size()));
        return CalculateHypervolume(a.p.data(), (int)w.size(), d);
    };
    double h = hv(v), tol = 1e-9 * box(v, d) + 1e-300;
    s.check(h >= 0 && h <= box(v, d) + tol, "relations/bounds");
    // a dominated point changes nothing
    std::vector<P> w = v;
    P q = v[s.i(0, n - 1)];
    for (double& x : q)
        x *= s.pick(std::vector<double>{0., 0.5, 1., 1.});
    w.push_back(q);
    s.close(hv(w), h, tol, "relations/dominated point", "volume");
    // scaling an objective scales the volume; the objectives can be exchanged
    int i = s.i(0, d - 1), j = s.i(0, d - 1);
    w = v;
    for (auto& p : w) {
        p[i] *= 4;
        std::swap(p[i], p[j]);
    }
    s.close(hv(w), 4 * h, 4 * tol, "relations/scaled and exchanged", "volume");
    // a better point adds at most its own box, and at least nothing
    P r(d);
    double own = 1;
    for (int k = 0; k < d; k++)
        own *= (r[k] = v[s.i(0, n - 1)][k] * s.pick(std::vector<double>{0.5, 1., 1.5}));
    w = v;
    w.push_back(r);
    double g = hv(w), tol2 = 1e-9 * box(w, d) + 1e-300;
    s.check(g >= h - tol2 && g <= h + own + tol2 && g >= own - tol2, "relations/added point", std::to_string(g) + " after " + std::to_string(h) + ", own " + std::to_string(own));
}
static double ref_[8];
struct Pm {
    struct stat_hyper_volume {
        static double ref(size_t i) { return ref_[i]; }
    };
};
struct Bo {
    std::vector<Eigen::VectorXd> x, y;
    int it;
    bool on;
    std::string d;
    const std::vector<Eigen::VectorXd>& samples() const { return x; }
    const std::vector<Eigen::VectorXd>& observations() const { return y; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
    bool stats_enabled() const { return on; }
    const std::string& res_dir() const { return d; }
};
PBT_SUITE("stat", 2, "at least two points are not dominated, in at least two iterations")
{
    int d, n;
    dims(s, d, n, true);
    auto v = gen(s, d, n);
    for (int i = 0; i < d; i++)
        ref_[i] = s.pick(std::vector<double>{0., 10., 1., 2.5});
    Bo bo;
    bo.d = s.dir();
    bo.it = 0;
    bo.on = s.p(0.9);
    bool any = bo.on;
    limbo::experimental::stat::HyperVolume<Pm> stat;
    if (s.b())
        stat(bo, limbo::FirstElem()); // no data: nothing to write
    std::vector<std::pair<int, double>> want;
    int first = s.i(1, n); // the initial design
    std::vector<P> sofar;
    for (int k = 0; k < n; k++) {
        Eigen::VectorXd y(d);
        for (int i = 0; i < d; i++)
            y(i) = v[k][i] - ref_[i];
        bo.x.push_back(Eigen::VectorXd::Constant(1, k));
        bo.y.push_back(y);
        P shifted(d);
        for (int i = 0; i < d; i++)
            shifted[i] = std::max(0., y(i) + ref_[i]);
        sofar.push_back(shifted);
        if (k + 1 < first)
            continue;
        bo.it = k + 1 - first;
        auto before = bo.y;
        stat(bo, limbo::FirstElem());
        s.check(before == bo.y && (int)bo.x.size() == k + 1, "stat/changes the data");
        if (bo.on)
            want.emplace_back(bo.it, ref_vol(sofar, d));
    }
    s.nontrivial(nd(v) >= 2 && want.size() >= 2);
    std::ifstream f(bo.d + "/hypervolume.dat");
    s.check((bool)f == any, "stat/file");
    if (!any)
        return;
    std::string line;
    size_t row = 0;
    double b = box(sofar, d);
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#')
            continue;
        std::istringstream l(line);
        int it;
        double h;
        s.check((bool)(l >> it >> h) && row < want.size(), "stat/row", line);
        s.check(it == want[row].first, "stat/iteration", line);
        s.close(h, want[row].second, 1e-5 * want[row].second + 1e-9 * b, "stat/volume", line.c_str());
        row++;
    }
    s.check(row == want.size(), "stat/number of rows", std::to_string(row) + " instead of " + std::to_string(want.size()));
}
