// C22: random sources. Statistical thresholds are set where a correct source fails with probability below 1e-12.
#define PBT_ONCE // thread-local generators must be fresh in each case
#include "pbt.hpp"
#include <Eigen/Core>
#include <Eigen/Dense>
#include <algorithm>
#include <limbo/tools/random_generator.hpp>
using pbt::Src;
using namespace limbo::tools;
using V = Eigen::VectorXd;

// one thread of the harness runs one case: thread_local generators are fresh in each case
template <typename F>
static auto in_thread(F f) -> decltype(f())
{
    decltype(f()) r;
    std::thread t([&] { r = f(); });
    t.join();
    return r;
}
static double ks(std::vector<double> v, std::function<double(double)> cdf)
{
    std::sort(v.begin(), v.end());
    double d = 0, n = v.size();
    for (size_t i = 0; i < v.size(); i++) {
        double c = cdf(v[i]);
        d = std::max(d, std::max(c - i / n, (i + 1) / n - c));
    }
    return d * std::sqrt(n); // P(> x) = 2 exp(-2 x^2)
}
static double corr(const std::vector<double>& a, const std::vector<double>& b)
{
    double n = std::min(a.size(), b.size()), ma = 0, mb = 0, ab = 0, aa = 0, bb = 0;
    for (int i = 0; i < n; i++)
        ma += a[i] / n, mb += b[i] / n;
    for (int i = 0; i < n; i++)
        ab += (a[i] - ma) * (b[i] - mb), aa += (a[i] - ma) * (a[i] - ma), bb += (b[i] - mb) * (b[i] - mb);
    return ab / std::sqrt(aa * bb) * std::sqrt(n);
}
static const double KS = 4.2, CORR = 8.5;

template <typename R, typename T>
void reproducible(Src& s, T a, T b, std::function<bool(T)> in, const char* w)
{
    int seed = s.weighted({1, 3}) ? (s.b() ? s.i(0, 20) : s.i(0, std::numeric_limits<int>::max())) : 0, n = s.i(1, 40);
    s << w << " [" << a << "," << b << "] seed=" << seed << " n=" << n;
    R g(a, b, seed);
    std::vector<T> x;
    for (int i = 0; i < n; i++) {
        x.push_back(g.rand());
        s.check(in(x.back()), std::string(w) + "/out of range", std::to_string(x.back()));
    }
    s.nontrivial(n >= 2 && a != b);
    auto same = [&](R& h, const std::string& how) {
        for (int i = 0; i < n; i++) {
            T y = h.rand();
            s.check(y == x[i], std::string(w) + "/the same seed gives another sequence", how + ", draw " + std::to_string(i));
        }
    };
    R h(a, b, seed);
    same(h, "new generator");
    // re-seeded after any number of draws
    int skip = s.i(0, 7);
    R k(a, b, s.b() ? -1 : seed + 1);
    for (int i = 0; i < skip; i++)
        k.rand();
    k.seed(seed);
    same(k, "re-seeded after " + std::to_string(skip) + " draws");
    for (int i = 0; i < skip; i++)
        k.rand();
    k.seed(seed);
    if (s.b())
        k.reset();
    same(k, "re-seeded again");
    std::vector<T> other = in_thread([&] {
        R t(a, b, seed);
        std::vector<T> r;
        for (int i = 0; i < n; i++)
            r.push_back(t.rand());
        return r;
    });
    s.check(other == x, std::string(w) + "/the same seed gives another sequence", "other thread");
    // another seed, and automatic seeding, give other sequences
    bool wide = !std::is_same<R, rgen_int_t>::value || (double)b - (double)a > 1e6;
    if (n >= 4 && wide) {
        auto seq = [&](R g) {
            std::vector<T> r;
            for (int i = 0; i < n; i++)
                r.push_back(g.rand());
            return r;
        };
        std::vector<std::vector<T>> all = {x, seq(R(a, b, seed == std::numeric_limits<int>::max() ? 0 : seed + 1)), seq(R(a, b)), seq(R(a, b)), seq(R(a, b, -1)), seq(R(a, b, -5))};
        R z(a, b, seed);
        for (int i = 0; i < n; i++)
            z.rand();
        all.push_back(seq(z)); // successive draws
        R y(a, b, seed);
        y.seed();
        all.push_back(seq(y)); // seeded automatically again
        for (size_t i = 0; i < all.size(); i++)
            for (size_t j = 0; j < i; j++)
                s.check(all[i] != all[j], std::string(w) + "/two different sources give the same sequence", "sources " + std::to_string(j) + " and " + std::to_string(i));
    }
}
PBT_SUITE("seeds", 4, "at least two draws from a non-degenerate range")
{
    switch (s.u(3)) {
    case 0: {
        double a = s.real(-10, 10), b = a + s.logu(1e-3, 1e6);
        return reproducible<rgen_double_t, double>(s, a, b, [=](double x) { return x >= a && x <= b; }, "double");
    }
    case 1: {
        double m = s.real(-10, 10), sd = s.logu(1e-3, 1e3);
        return reproducible<rgen_gauss_t, double>(s, m, sd, [=](double x) { return std::abs(x - m) < 9 * sd; }, "gauss");
    }
    default: {
        int a = s.b() ? s.i(-5, 5) : s.pick(std::vector<int>{0, -1000000, std::numeric_limits<int>::min()});
        int b = s.b() ? a + s.i(0, 6) : (s.b() ? std::numeric_limits<int>::max() : a + s.i(0, 2000000000 + std::min(0, a)));
        if (b < a)
            b = a;
        return reproducible<rgen_int_t, int>(s, a, b, [=](int x) { return x >= a && x <= b; }, "int");
    }
    }
}
// vectors drawn from a given generator are its successive draws
PBT_SUITE("vectors of a generator", 1, "at least two coordinates")
{
    int seed = s.i(0, 1000), d = s.size(0, 10, 200, 0.02), n = s.size(1, 5, 60, 0.02);
    rgen_double_t a(-1., 2., seed), b(-1., 2., seed);
    s << "d=" << d << " n=" << n;
    s.nontrivial(d >= 2);
    for (int k = 0; k < n; k++) {
        V v = random_vec(d, a);
        s.check(v.size() == d, "random_vec/size");
        for (int i = 0; i < d; i++)
            s.check(v(i) == b.rand(), "random_vec/not the draws of the generator");
    }
}
static std::vector<std::vector<double>> columns(int d, int n, bool bounded)
{
    std::vector<std::vector<double>> c(d);
    for (int k = 0; k < n; k++) {
        V v = random_vector(d, bounded);
        for (int i = 0; i < d; i++)
            c[i].push_back(v(i));
    }
    return c;
}
static double ncdf(double x) { return 0.5 * std::erfc(-x / 10. / std::sqrt(2.)); }
PBT_SUITE("distribution of vectors", 1, "every case: at least 2000 vectors")
{
    int d = s.i(1, 5), n = s.i(2000, 6000);
    bool bounded = s.b();
    s << (bounded ? "bounded" : "unbounded") << " d=" << d << " n=" << n;
    s.nontrivial();
    auto c = columns(d, n, bounded);
    std::vector<double> all;
    for (int i = 0; i < d; i++) {
        for (double x : c[i])
            s.check(std::isfinite(x) && (!bounded || (x >= 0 && x <= 1)), "vectors/out of the unit hypercube", std::to_string(x));
        double k = ks(c[i], bounded ? std::function<double(double)>([](double x) { return x; }) : ncdf);
        s.check(k < KS, bounded ? "vectors/coordinates are not uniform" : "vectors/coordinates are not Gaussian with mean 0 and standard deviation 10", "statistic " + std::to_string(k));
        for (int j = 0; j < i; j++)
            s.check(std::abs(corr(c[i], c[j])) < CORR, "vectors/coordinates are correlated", "coordinates " + std::to_string(j) + " and " + std::to_string(i));
        for (int lag = 1; lag <= 2; lag++) {
            for (int j = 0; j < d; j++) {
                std::vector<double> t(c[j].begin() + lag, c[j].end()), h(c[i].begin(), c[i].end() - lag);
                s.check(std::abs(corr(h, t)) < CORR, "vectors/successive vectors are correlated");
            }
        }
        if (!bounded) {
            double m = 0, v = 0;
            for (double x : c[i])
                m += x / n;
            for (double x : c[i])
                v += x * x / n;
            s.check(std::abs(m) < 10 * 7.5 / std::sqrt(n), "vectors/mean of unbounded coordinates", std::to_string(m));
            s.check(std::abs(std::sqrt(v) - 10) < 10 * 8 / std::sqrt(2. * n), "vectors/standard deviation of unbounded coordinates", std::to_string(std::sqrt(v)));
        }
        all.insert(all.end(), c[i].begin(), c[i].end());
    }
    std::sort(all.begin(), all.end());
    s.check(std::unique(all.begin(), all.end()) == all.end(), "vectors/a value was drawn twice");
}
PBT_SUITE("integers", 1, "every case: at least 400 draws per value")
{
    int k = s.i(1, 12), a = s.b() ? s.i(-10, 10) : s.i(-1000000, 1000000), n = 400 * k;
    rgen_int_t g(a, a + k - 1, s.b() ? s.i(0, 100000) : -1);
    s << "range of " << k << " from " << a;
    s.nontrivial(k > 1);
    std::vector<int> c(k, 0);
    std::vector<double> seq;
    for (int i = 0; i < n; i++) {
        int x = g.rand();
        s.check(x >= a && x < a + k, "int/out of range", std::to_string(x));
        c[x - a]++;
        seq.push_back(x);
    }
    for (int i = 0; i < k; i++)
        s.check(std::abs(c[i] - 400.) <= 9 * std::sqrt(400.), "int/values are not uniform", "value " + std::to_string(a + i) + " drawn " + std::to_string(c[i]) + " times, expected 400");
    if (k > 1) {
        std::vector<double> t(seq.begin() + 1, seq.end()), h(seq.begin(), seq.end() - 1);
        s.check(std::abs(corr(h, t)) < CORR, "int/successive draws are correlated");
    }
}
PBT_SUITE("integers of a wide range", 1, "every case: 4000 draws")
{
    long long lim = std::numeric_limits<int>::max(), w = s.b() ? 2 * lim + 2 : (long long)s.logu(1e5, 2. * lim); // number of values
    long long a = s.p(0.3) || w > 2 * lim ? -lim - 1 : s.b() ? lim - w + 1 : -w / 2;
    int k = s.pick(std::vector<int>{2, 3, 5, 8, 10}), n = 4000;
    rgen_int_t g((int)a, (int)(a + w - 1), s.b() ? s.i(0, 100000) : -1);
    s << "range of " << w << " from " << a << " buckets " << k;
    s.nontrivial();
    std::vector<int> hi(k, 0), lo(k, 0);
    std::vector<int> all;
    for (int i = 0; i < n; i++) {
        int x = g.rand();
        s.check(x >= a && x <= a + w - 1, "int/out of range", std::to_string(x));
        hi[std::min<long long>(k - 1, (long long)((double)(x - a) / w * k))]++;
        lo[(x - a) % k]++;
        all.push_back(x);
    }
    for (int i = 0; i < k; i++) {
        s.check(std::abs(hi[i] - double(n) / k) <= 9 * std::sqrt(double(n) / k), "wide int/values are not uniform", "part " + std::to_string(i) + ": " + std::to_string(hi[i]) + " of " + std::to_string(n));
        s.check(std::abs(lo[i] - double(n) / k) <= 9 * std::sqrt(double(n) / k), "wide int/values are not uniform", "remainder " + std::to_string(i) + ": " + std::to_string(lo[i]) + " of " + std::to_string(n));
    }
    std::sort(all.begin(), all.end());
    int distinct = std::unique(all.begin(), all.end()) - all.begin();
    double expect = w * (1 - std::exp(-double(n) / w)); // different values among n draws of w
    s.check(distinct >= expect - 9 * std::sqrt(n - expect + 1.) - 2, "wide int/values are drawn too often", std::to_string(distinct) + " different values, expected " + std::to_string(expect));
}
// every thread, and every call, has its own sequence
PBT_SUITE("threads", 1, "at least two threads")
{
    int T = s.i(2, 8), d = s.i(2, 6);
    bool bounded = s.b();
    s << T << " threads";
    s.nontrivial();
    std::vector<std::vector<V>> r(T + 1);
    std::vector<std::thread> th;
    bool together = s.b();
    for (int t = 0; t < T; t++) {
        th.emplace_back([&, t] {
            for (int k = 0; k < 3; k++)
                r[t].push_back(random_vector(d, bounded));
            Eigen::MatrixXd H = random_lhs(d, 5);
            for (int i = 0; i < 5; i++)
                r[t].push_back(H.row(i));
        });
        if (!together)
            th.back().join();
    }
    if (together)
        for (auto& t : th)
            t.join();
    for (int k = 0; k < 3; k++)
        r[T].push_back(random_vector(d, bounded));
    std::vector<V> all;
    for (auto& x : r)
        all.insert(all.end(), x.begin(), x.end());
    for (size_t i = 0; i < all.size(); i++)
        for (size_t j = 0; j < i; j++)
            s.check(all[i] != all[j], "threads/two calls gave the same vector");
}
// Latin hypercubes
static std::vector<int> ranks(Src& s, const V& c)
{
    int n = c.size();
    std::vector<std::pair<double, int>> v;
    for (int i = 0; i < n; i++)
        v.push_back({c(i), i});
    std::sort(v.begin(), v.end());
    std::vector<int> r(n);
    for (int k = 0; k < n; k++) {
        s.check(v[k].first * n >= k - 1e-9 && v[k].first * n <= k + 1 + 1e-9, "lhs/a stratum without exactly one point", "stratum " + std::to_string(k) + " of " + std::to_string(n) + ": " + std::to_string(v[k].first));
        r[v[k].second] = k;
    }
    return r;
}
PBT_SUITE("latin hypercubes", 2, "at least two points")
{
    int d = s.size(1, 6, 20, 0.02), n = s.p(0.2) ? s.i(20, 200) : s.i(1, 20);
    s << "d=" << d << " n=" << n;
    s.nontrivial(n >= 2);
    auto H = random_lhs(d, n);
    s.check(H.rows() == n && H.cols() == d, "lhs/shape");
    s.check(H.minCoeff() >= 0 && H.maxCoeff() <= 1, "lhs/outside the unit hypercube");
    std::set<std::vector<int>> seen;
    for (int i = 0; i < d; i++) {
        auto r = ranks(s, H.col(i));
        s.check(seen.insert(r).second || n < 15, "lhs/two dimensions share their permutation");
    }
    if (n >= 15) {
        auto H2 = random_lhs(d, n);
        for (int i = 0; i < d; i++)
            s.check(seen.count(ranks(s, H2.col(i))) == 0, "lhs/two designs share a permutation");
    }
}
PBT_SUITE("distribution of latin hypercubes", 1, "every case: at least 1200 designs")
{
    int d = s.i(2, 4), n = s.i(2, 4), N = 200 * (n == 2 ? 6 : n == 3 ? 12 : 48);
    s << "d=" << d << " n=" << n << " designs=" << N;
    s.nontrivial();
    // permutations of every dimension, and of every dimension relative to another, are uniform
    std::vector<std::map<std::vector<int>, int>> own(d), rel(d * d);
    std::vector<double> jit;
    std::vector<std::vector<double>> jd(d);
    for (int k = 0; k < N; k++) {
        auto H = random_lhs(d, n);
        std::vector<std::vector<int>> r;
        for (int i = 0; i < d; i++) {
            r.push_back(ranks(s, H.col(i)));
            own[i][r[i]]++;
            for (int p = 0; p < n; p++)
                jd[i].push_back(std::min(1., std::max(0., H(p, i) * n - r[i][p])));
            for (int j = 0; j < i; j++) {
                std::vector<int> q(n);
                for (int p = 0; p < n; p++)
                    q[r[j][p]] = r[i][p];
                rel[i * d + j][q]++;
            }
        }
    }
    double f = n == 2 ? 2 : n == 3 ? 6 : 24, e = N / f;
    auto uni = [&](std::map<std::vector<int>, int>& m, const char* w) {
        s.check(m.size() == (size_t)f, w);
        for (auto& c : m)
            s.check(std::abs(c.second - e) < 9 * std::sqrt(e), w, std::to_string(c.second) + " instead of about " + std::to_string(e));
    };
    for (int i = 0; i < d; i++) {
        uni(own[i], "lhs/permutations of a dimension are not uniform");
        for (int j = 0; j < i; j++)
            uni(rel[i * d + j], "lhs/permutations of two dimensions are not independent");
        double k = ks(jd[i], [](double x) { return x; });
        s.check(k < KS, "lhs/points are not uniform within their stratum", std::to_string(k));
        for (int j = 0; j < i; j++)
            s.check(std::abs(corr(jd[i], jd[j])) < CORR, "lhs/positions within the strata are correlated");
    }
}
