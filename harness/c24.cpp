// C24: Pareto sets
#include "pbt.hpp"
#include <Eigen/Core>
#include <algorithm>
#include <fstream>
#include <limits>
#include <set>
#include <sstream>
#include <limbo/bayes_opt/bo_base.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#include <limbo/experimental/tools/pareto.hpp>
using pbt::Src;

// limits the number of threads for the duration of a case
struct Threads {
#ifdef USE_TBB
    oneapi::tbb::global_control c;
    Threads(int n) : c(oneapi::tbb::global_control::max_allowed_parallelism, n) {}
#else
    Threads(int) {}
#endif
};
typedef std::vector<double> P;
static bool dom(const P& a, const P& b)
{
    int worse = 0, better = 0;
    for (size_t i = 0; i < a.size(); i++) {
        worse += a[i] < b[i];
        better += a[i] > b[i];
    }
    return worse == 0 && better > 0;
}
// points with many ties, duplicates, chains and fronts
static std::vector<P> gen_points(Src& s, int d, int n, bool integer = false)
{
    std::vector<P> v;
    int kind = s.i(0, 4), range = s.pick(std::vector<int>{1, 2, 4, 50});
    s << n << " points of " << d << " objectives, kind " << kind << " range " << range << ": ";
    for (int k = 0; k < n; k++) {
        P p(d);
        if (!v.empty() && s.p(0.15)) // a copy
            p = v[s.i(0, (int)v.size() - 1)];
        else if (!v.empty() && s.p(0.2)) { // a neighbor in one objective
            p = v[s.i(0, (int)v.size() - 1)];
            p[s.i(0, d - 1)] += s.b() ? 1 : -1;
        }
        else if (kind == 0) // an antichain
            for (int i = 0; i < d; i++)
                p[i] = i + 1 < d ? s.i(-range, range) : 0;
        else if (kind == 1) // a chain
        {
            double c = s.i(-range, range);
            for (int i = 0; i < d; i++)
                p[i] = c;
        }
        else if (kind == 2 && !integer)
            for (int i = 0; i < d; i++)
                p[i] = s.real(-5, 5);
        else
            for (int i = 0; i < d; i++)
                p[i] = s.i(-range, range);
        if (kind == 0 && *std::max_element(p.begin(), p.end()) < 1e6 && *std::min_element(p.begin(), p.end()) > -1e6) { // constant sum (infinite values stay)
            double c = 0;
            for (int i = 0; i + 1 < d; i++)
                c += p[i];
            p[d - 1] = -c;
        }
        if (!integer && s.p(0.02))
            p[s.i(0, d - 1)] = s.pick(std::vector<double>{0., -0., 1e300, -1e300, 5e-324, HUGE_VAL, -HUGE_VAL});
        v.push_back(p);
    }
    if (n <= 8)
        for (auto& p : v) {
            s << "(";
            for (double x : p)
                s << x << " ";
            s << ")";
        }
    return v;
}
// which points are not dominated by another one
static std::vector<bool> front(const std::vector<P>& v)
{
    std::vector<bool> f(v.size(), true);
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < v.size() && f[i]; j++)
            f[i] = !dom(v[j], v[i]);
    return f;
}
// compares the result (objectives and the label of each point) with the reference
static void compare(Src& s, const std::vector<P>& v, const std::vector<P>& objs, const std::vector<int>& ids)
{
    auto f = front(v);
    std::set<int> want, got(ids.begin(), ids.end());
    for (size_t i = 0; i < v.size(); i++)
        if (f[i])
            want.insert(i);
    s.check(got.size() == ids.size(), "set/a point was returned twice");
    for (int i : got)
        s.check(want.count(i), "set/a dominated point was returned", "point " + std::to_string(i));
    for (int i : want)
        s.check(got.count(i), "set/a point that is not dominated is missing", "point " + std::to_string(i));
    for (size_t k = 0; k < ids.size(); k++)
        s.check(objs[k] == v[ids[k]], "set/objectives and data do not belong together");
    for (size_t k = 1; k < objs.size(); k++)
        s.check(!std::lexicographical_compare(objs[k - 1].begin(), objs[k - 1].end(), objs[k].begin(), objs[k].end()), "set/order");
}
template <typename V>
V conv(const P& p)
{
    V v(p.size());
    for (size_t i = 0; i < p.size(); i++)
        v(i) = p[i];
    return v;
}
template <typename V>
P back(const V& v)
{
    P p(v.size());
    for (size_t i = 0; i < p.size(); i++)
        p[i] = v(i);
    return p;
}
template <int K, typename T, typename F>
void run(Src& s, const std::vector<P>& v, F make)
{
    std::vector<T> in;
    for (size_t i = 0; i < v.size(); i++)
        in.push_back(make(i));
    Threads th(s.i(1, 8));
    auto out = pareto::pareto_set<K>(in);
    s.check(in.size() == v.size(), "input changed");
    std::vector<P> objs;
    std::vector<int> ids;
    for (auto& t : out) {
        objs.push_back(back(std::get<K>(t)));
        ids.push_back(std::get<K == 0 ? 1 : 0>(t));
    }
    compare(s, v, objs, ids);
    // in another order
    auto perm = s.permutation(v.size());
    std::vector<T> in2;
    for (int i : perm)
        in2.push_back(in[i]);
    auto out2 = pareto::pareto_set<K>(in2);
    s.check(out2.size() == out.size(), "order of the input/size");
    std::set<int> ids2;
    for (size_t k = 0; k < out2.size(); k++) {
        s.check(std::get<K>(out2[k]) == std::get<K>(out[k]), "order of the input/objectives");
        ids2.insert(std::get<K == 0 ? 1 : 0>(out2[k]));
    }
    s.check(ids2 == std::set<int>(ids.begin(), ids.end()), "order of the input/data");
    // the Pareto set of a Pareto set is itself
    auto out3 = pareto::pareto_set<K>(out);
    s.check(out3.size() == out.size(), "not idempotent");
}
static int gen_n(Src& s) { return s.weighted({3, 4, 1}) == 2 ? s.size(30, 250, 1500, 0.02) : (s.b() ? s.i(1, 4) : s.i(1, 25)); }
static void nontriv(Src& s, const std::vector<P>& v)
{
    auto f = front(v);
    int c = std::count(f.begin(), f.end(), true);
    s.nontrivial(c >= 2 && c < (int)v.size());
}
PBT_SUITE("set", 4, "at least two points are not dominated, and at least one is")
{
    int d = s.weighted({3, 2, 1}) == 0 ? 2 : s.size(2, 6, 16, 0.02), n = gen_n(s), how = s.i(0, 3);
    auto v = gen_points(s, d, n, how == 3);
    nontriv(s, v);
    typedef Eigen::VectorXd V;
    if (how == 0)
        run<1, std::tuple<int, V>>(s, v, [&](int i) { return std::make_tuple(i, conv<V>(v[i])); });
    else if (how == 1)
        run<0, std::tuple<V, int, std::string>>(s, v, [&](int i) { return std::make_tuple(conv<V>(v[i]), i, std::to_string(i)); });
    else if (how == 2)
        run<2, std::tuple<int, V, V>>(s, v, [&](int i) { return std::make_tuple(i, conv<V>(v[s.i(0, n - 1)]), conv<V>(v[i])); });
    else
        run<1, std::tuple<int, Eigen::VectorXi>>(s, v, [&](int i) { return std::make_tuple(i, conv<Eigen::VectorXi>(v[i])); });
}
PBT_SUITE("dominance", 2, "the two points differ")
{
    // of two points, both are kept exactly if none dominates the other
    int d = s.size(2, 6, 16, 0.02);
    auto v = gen_points(s, d, 2);
    std::vector<std::tuple<Eigen::VectorXd, int>> in{std::make_tuple(conv<Eigen::VectorXd>(v[0]), 0), std::make_tuple(conv<Eigen::VectorXd>(v[1]), 1)};
    s.nontrivial(v[0] != v[1]);
    auto out = pareto::pareto_set<0>(in);
    std::set<int> ids;
    for (auto& t : out)
        ids.insert(std::get<1>(t));
    s.check(out.size() == ids.size() && !ids.empty(), "pair/size");
    s.check(ids.count(0) == !dom(v[1], v[0]), "pair/first");
    s.check(ids.count(1) == !dom(v[0], v[1]), "pair/second");
}
struct Pm {
};
struct Bo {
    std::vector<Eigen::VectorXd> x, y;
    int it;
    bool on;
    std::string d;
    const std::vector<Eigen::VectorXd>& samples() const { return x; }
    const std::vector<Eigen::VectorXd>& observations() const { return y; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
    bool stats_enabled() const { return on; }
    const std::string& res_dir() const { return d; }
};
PBT_SUITE("stat", 1, "at least two points are not dominated, and at least one is")
{
    // a history grows; at every iteration the front of the data so far is written
    int d = s.i(2, 4), n = s.i(1, 12), dx = s.i(1, 3);
    auto v = gen_points(s, d, n, true);
    nontriv(s, v);
    Bo bo;
    bo.d = s.dir();
    bo.on = s.p(0.9);
    bo.it = 0;
    limbo::experimental::stat::ParetoFront<Pm> stat;
    stat(bo, limbo::FirstElem()); // no data yet: nothing to write
    s.check(!std::ifstream(bo.d + "/pareto_front_0.dat"), "stat/file without data");
    std::vector<P> sofar;
    for (int k = 0; k < n; k++) {
        Eigen::VectorXd x(dx);
        for (int i = 0; i < dx; i++)
            x(i) = i == 0 ? k : s.i(-3, 3) * 0.25;
        bo.x.push_back(x);
        bo.y.push_back(conv<Eigen::VectorXd>(v[k]));
        sofar.push_back(v[k]);
        if (k + 1 < n && s.b())
            continue;
        bo.it = k + 1;
        stat(bo, limbo::FirstElem());
        std::ifstream f(bo.d + "/pareto_front_" + std::to_string(bo.it) + ".dat");
        s.check((bool)f == bo.on, "stat/file");
        if (!bo.on)
            continue;
        std::vector<P> objs;
        std::vector<int> ids;
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream l(line);
            P row;
            double y;
            while (l >> y)
                row.push_back(y);
            s.check((int)row.size() == dx + d && row[0] >= 0 && row[0] <= k && row[0] == (int)row[0], "stat/row", line);
            ids.push_back((int)row[0]);
            for (int i = 0; i < dx; i++)
                s.check(row[i] == bo.x[ids.back()](i), "stat/sample", line);
            objs.push_back(P(row.begin() + dx, row.end()));
        }
        compare(s, sofar, objs, ids);
    }
}
