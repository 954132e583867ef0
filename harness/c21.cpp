// C21: parallel helpers
#include "pbt.hpp"
#include <Eigen/Core>
#include <algorithm>
#include <deque>
#include <list>
#include <limits>
#include <limbo/tools/parallel.hpp>
#include <numeric>
using pbt::Src;
namespace par = limbo::tools::par;

// limits the number of threads for the duration of a case
struct Threads {
#ifdef USE_TBB
    oneapi::tbb::global_control c;
    Threads(int n) : c(oneapi::tbb::global_control::max_allowed_parallelism, n) {}
#else
    Threads(int) {}
#endif
};
static int gen_n(Src& s) { return s.p(0.01) ? s.i(3000, 30000) : s.weighted({2, 4, 2}) == 2 ? s.i(100, 3000) : (s.b() ? s.i(0, 3) : s.i(0, 60)); }
// some work, so that calls overlap
static double work(uint64_t seed, int n)
{
    double x = (double)(seed % 97) / 97.;
    for (int i = 0; i < n; i++)
        x = x * 3.7 * (1 - x);
    return x;
}
static int threads(Src& s)
{
    int t = s.weighted({1, 3}) ? s.i(2, 12) : 1;
    s << "threads=" << t;
    if (s.p(0.2))
        par::init(s.pick(std::vector<int>{-1, 1, 2, 4}));
    return t;
}

PBT_SUITE("loop", 3, "a range of at least two indices")
{
    Threads th(threads(s));
    int n = gen_n(s), w = s.i(0, 60);
    size_t base = s.pick(std::vector<size_t>{0, 0, 0, 1, 7, 1000, ((size_t)1 << 33) - 5, std::numeric_limits<size_t>::max() - (n < 5000 ? 5000 : 50000)});
    s << " base=" << base << " n=" << n;
    std::vector<std::atomic<int>> hits(n + 1);
    std::vector<double> slot(n, -1);
    std::vector<std::string> str(n);
    for (auto& h : hits)
        h = 0;
    std::atomic<int> outside{0};
    par::loop(base, base + n, [&](size_t i) {
        if (i < base || i - base >= (size_t)n) {
            outside++;
            return;
        }
        hits[i - base]++;
        slot[i - base] = work(i, w);
        str[i - base] = std::to_string(i);
    });
    s.nontrivial(n >= 2);
    s.check(outside == 0, "loop/called outside its range");
    for (int i = 0; i < n; i++) {
        s.check(hits[i] == 1, "loop/an index was not called exactly once", "index " + std::to_string(i) + " of " + std::to_string(n) + ": " + std::to_string((int)hits[i]) + " times");
        s.check(slot[i] == work(base + i, w) && str[i] == std::to_string(base + i), "loop/result of an index is not visible");
    }
    // an empty range (also a reversed one) does nothing
    int calls = 0;
    par::loop(base, base, [&](size_t) { calls++; });
    if (base > 3)
        par::loop(base, base - 3, [&](size_t) { calls++; });
    s.check(calls == 0, "loop/empty range does something");
}
PBT_SUITE("nested", 1, "at least two outer and two inner indices")
{
    Threads th(threads(s));
    int n = s.i(0, 12), m = s.i(0, 12), k = s.i(1, 3);
    s << " " << n << "x" << m << "x" << k;
    std::vector<std::atomic<int>> hits(n * m * k + 1);
    for (auto& h : hits)
        h = 0;
    std::vector<int> best(n, -1);
    par::loop(0, n, [&](size_t i) {
        par::loop(0, m, [&](size_t j) {
            std::vector<int> ks(k);
            std::iota(ks.begin(), ks.end(), 0);
            par::for_each(ks.begin(), ks.end(), [&](int q) { hits[(i * m + j) * k + q]++; });
        });
        best[i] = par::max(-1, m, [&](int j) { return (int)((j * 7 + i) % 13); }, [](int a, int b) { return a > b; });
    });
    s.nontrivial(n >= 2 && m >= 2);
    for (int i = 0; i < n * m * k; i++)
        s.check(hits[i] == 1, "nested/not called exactly once");
    for (int i = 0; i < n; i++) {
        int w = -1;
        for (int j = 0; j < m; j++)
            w = std::max(w, (j * 7 + i) % 13);
        s.check(best[i] == w, "nested/maximum");
    }
}
template <typename C>
void foreach(Src& s)
{
    int n = gen_n(s), w = s.i(0, 40);
    C c;
    for (int i = 0; i < n; i++)
        c.push_back(i);
    std::vector<std::atomic<int>> hits(n + 1);
    for (auto& h : hits)
        h = 0;
    std::atomic<int> bad{0};
    par::for_each(c.begin(), c.end(), [&](int& x) {
        int i = x;
        if (i < 0 || i >= n) {
            bad++;
            return;
        }
        hits[i]++;
        x = -1 - i - (work(i, w) > 2);
    });
    s << " n=" << n;
    s.nontrivial(n >= 2);
    s.check(bad == 0, "for_each/element visited twice or from outside");
    for (int i = 0; i < n; i++)
        s.check(hits[i] == 1, "for_each/an element was not visited exactly once");
    int i = 0;
    for (auto x : c) {
        s.check(x == -1 - i, "for_each/change of an element is not visible");
        i++;
    }
    // a sub-range
    if (n >= 3) {
        int a = s.i(0, n - 1), b = s.i(a, n - 1);
        auto ia = c.begin(), ib = c.begin();
        std::advance(ia, a);
        std::advance(ib, b);
        std::atomic<long> cnt{0}, sum{0};
        par::for_each(ia, ib, [&](int x) {
            cnt++;
            sum += -1 - x;
        });
        long ws = 0;
        for (int k = a; k < b; k++)
            ws += k;
        s.check(cnt == b - a && sum == ws, "for_each/sub-range");
    }
}
PBT_SUITE("for_each", 2, "at least two elements")
{
    Threads th(threads(s));
    switch (s.u(3)) {
    case 0:
        return foreach<std::vector<int>>(s);
    case 1:
        return foreach<std::deque<int>>(s);
    default:
        return foreach<std::list<int>>(s);
    }
}
PBT_SUITE("replicate", 1, "at least two calls")
{
    Threads th(threads(s));
    size_t n = gen_n(s);
    int w = s.i(0, 40);
    std::atomic<size_t> calls{0}, acc{0};
    par::replicate(n, [&]() {
        calls++;
        acc += work(3, w) > 2 ? 2 : 1;
    });
    s << " n=" << n;
    s.nontrivial(n >= 2);
    s.check(calls == n && acc == n, "replicate/number of calls", std::to_string(calls) + " instead of " + std::to_string(n));
}
PBT_SUITE("max", 3, "at least two values")
{
    Threads th(threads(s));
    int n = gen_n(s), range = s.pick(std::vector<int>{2, 10, 1000000}), w = s.i(0, 30);
    std::vector<double> v(n);
    for (auto& x : v)
        x = s.i(-range, range) * (range == 10 ? 1e300 : 1.);
    int shape = s.u(4); // where the maximum is
    if (n && shape == 1)
        v[n - 1] = range * 2e300 / (range > 10 ? range : 1);
    if (n && shape == 2)
        v[0] = range * 2e300 / (range > 10 ? range : 1);
    double init = s.pick(std::vector<double>{-1e308, 0., -5., 1e308, -std::numeric_limits<double>::infinity()});
    s << " n=" << n << " init=" << init << " range=" << range;
    bool smallest = s.p(0.3); // any order may be given
    using pt = std::pair<int, double>;
    std::vector<std::atomic<int>> calls(n + 1);
    for (auto& c : calls)
        c = 0;
    std::atomic<int> outside{0};
    pt i0(-1, smallest ? -init : init);
    auto comp = [&](const pt& a, const pt& b) { return smallest ? a.second < b.second : a.second > b.second; };
    pt r = par::max(i0, n, [&](int i) -> pt {
            if (i < 0 || i >= n) { outside++; return pt(-2, 0); }
            calls[i]++;
            return pt(i, v[i] + 0 * work(i, w)); }, comp);
    s.nontrivial(n >= 2);
    s.check(outside == 0, "max/called outside its range");
    for (int i = 0; i < n; i++) {
        s.check(calls[i] == 1, "max/function not called exactly once per index");
        s.check(!comp(pt(i, v[i]), r), "max/a value beats the result", "index " + std::to_string(i) + " of " + std::to_string(n));
    }
    s.check(!comp(i0, r), "max/the initial value beats the result");
    s.check(r.first == -1 ? r == i0 : (r.first >= 0 && r.first < n && r.second == v[r.first]), "max/result is not one of the values");
    // other value types
    auto sm = par::max(std::string(), n, [&](int i) { return std::to_string(v[i]); }, [](const std::string& a, const std::string& b) { return a > b; });
    std::string ws;
    for (double x : v)
        ws = std::max(ws, std::to_string(x));
    s.check(sm == ws, "max/strings");
    auto ev = par::max(Eigen::VectorXd(Eigen::VectorXd::Constant(2, init)), n, [&](int i) { return Eigen::VectorXd(Eigen::VectorXd::Constant(2, v[i])); }, [](const Eigen::VectorXd& a, const Eigen::VectorXd& b) { return a(0) > b(0); });
    double we = init;
    for (double x : v)
        we = std::max(we, x);
    s.check(ev.size() == 2 && ev(0) == we && ev(1) == we, "max/vectors");
}
template <typename C>
void sorting(Src& s)
{
    int n = gen_n(s), range = s.pick(std::vector<int>{1, 5, 1000, 1000000});
    if (s.p(0.1))
        n *= 3;
    C c;
    for (int i = 0; i < n; i++)
        c.push_back({s.i(-range, range), i});
    int pre = s.u(4);
    using pt = std::pair<int, int>;
    if (pre == 1)
        std::sort(c.begin(), c.end());
    if (pre == 2)
        std::sort(c.rbegin(), c.rend());
    int a = s.p(0.2) && n ? s.i(0, n) : 0, b = s.p(0.2) && n ? s.i(a, n) : n;
    s << " n=" << n << " [" << a << "," << b << ")";
    C o = c;
    bool desc = s.b();
    auto comp = [&](const pt& x, const pt& y) { return desc ? x.first > y.first : x.first < y.first; };
    par::sort(c.begin() + a, c.begin() + b, comp);
    s.nontrivial(b - a >= 2);
    for (int i = a; i + 1 < b; i++)
        s.check(!comp(c[i + 1], c[i]), "sort/not ordered");
    for (int i = 0; i < n; i++)
        if (i < a || i >= b)
            s.check(c[i] == o[i], "sort/an element outside the range changed");
    C x = c;
    std::sort(x.begin(), x.end());
    std::sort(o.begin(), o.end());
    s.check(x == o, "sort/not a permutation of the input");
}
PBT_SUITE("sort", 3, "at least two elements")
{
    Threads th(threads(s));
    if (s.b())
        sorting<std::vector<std::pair<int, int>>>(s);
    else
        sorting<std::deque<std::pair<int, int>>>(s);
}
// par::vector<X> is a container, or has one as its member ::type
template <typename V, typename = void>
struct ParVector {
    typedef V type;
};
template <typename V>
struct ParVector<V, decltype((void)sizeof(typename V::type))> {
    typedef typename V::type type;
};
PBT_SUITE("vector", 1, "at least two elements pushed from a parallel loop")
{
    Threads th(threads(s));
    int n = gen_n(s);
    ParVector<par::vector<int>>::type v;
    std::vector<int> got;
#ifdef USE_TBB
    par::loop(0, n, [&](size_t i) { v.push_back(i); }); // concurrent growth
#else
    for (int i = 0; i < n; i++)
        v.push_back(i);
#endif
    auto c = par::convert_vector(v);
    s << " n=" << n;
    s.nontrivial(n >= 2);
    s.check((int)c.size() == n && std::equal(v.begin(), v.end(), c.begin()), "convert_vector/content");
    std::vector<int> x(c.begin(), c.end());
    std::sort(x.begin(), x.end());
    for (int i = 0; i < n; i++)
        s.check(x[i] == i, "vector/elements");
}
