// C23: parameters and elementary tools
#include "pbt.hpp"
#include <thread>
#include <Eigen/Core>
#include <boost/preprocessor.hpp>
#include <cfloat>
#include <limits>
#include <set>
#include <sstream>
#include <limbo/mean/null_function.hpp>
#include <limbo/bayes_opt/bo_base.hpp>
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/init/grid_sampling.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/optimizer.hpp>
#include <limbo/stop/max_iterations.hpp>
#include <limbo/tools/macros.hpp>
#include <limbo/tools/math.hpp>
using pbt::Src;
using namespace limbo;

// ---- static parameters: every number of values from 1 to 62
constexpr int N = 62;
#define IVAL(z, i, data) ((int)(((i) * 37 + 11 * data + 5) % 211) - 100)
#define DVAL(z, i, data) (((i) * 0.37 - 0.013 * data) * 1.25)
template <int K>
struct St;
#define DEF(z, i, d)                                                           \
    template <>                                                                \
    struct St<BOOST_PP_INC(i)> {                                               \
        BO_PARAM_ARRAY(int, ints, BOOST_PP_ENUM(BOOST_PP_INC(i), IVAL, i));    \
        BO_PARAM_ARRAY(double, reals, BOOST_PP_ENUM(BOOST_PP_INC(i), DVAL, i)); \
        BO_PARAM_VECTOR(double, vec, BOOST_PP_ENUM(BOOST_PP_INC(i), DVAL, i)); \
        BO_PARAM_VECTOR(int, ivec, BOOST_PP_ENUM(BOOST_PP_INC(i), IVAL, i));   \
        BO_PARAM(int, one, IVAL(0, i, 7));                                     \
        BO_PARAM(double, real, DVAL(0, i, 7));                                 \
        BO_PARAM(bool, flag, ((i) % 3 == 1));                                  \
        BO_PARAM(size_t, big, ((size_t)1 << (i)) + i);                         \
        BO_PARAM_STRING(str, "name;{ }" BOOST_PP_STRINGIZE(i));                \
    };
BOOST_PP_REPEAT(62, DEF, ~)
static int ival(int i, int d) { return (int)((i * 37 + 11 * d + 5) % 211) - 100; }
static double dval(int i, int d) { return (i * 0.37 - 0.013 * d) * 1.25; }
template <int K>
void st(Src& s, int k)
{
    if (k != K)
        return st<(K < N ? K + 1 : 1)>(s, k);
    typedef St<K> P;
    constexpr int d = K - 1;
    s.check(P::ints_size() == (size_t)K && P::reals_size() == (size_t)K, "array/size", std::to_string(P::ints_size()) + " instead of " + std::to_string(K));
    static_assert(std::is_same<typename P::ints_t, int>::value && std::is_same<typename P::reals_t, double>::value, "type");
    s.check((int)P::vec().size() == K && (int)P::ivec().size() == K, "vector/size");
    for (int i = 0; i < K; i++) {
        s.check(P::ints(i) == ival(i, d) && P::reals(i) == dval(i, d), "array/value", "index " + std::to_string(i));
        s.check(P::vec()(i) == dval(i, d) && P::ivec()(i) == ival(i, d), "vector/value", "index " + std::to_string(i));
    }
    s.check(P::one() == ival(d, 7) && P::real() == dval(d, 7) && P::flag() == (d % 3 == 1) && P::big() == ((size_t)1 << d) + d, "param/value");
    s.check(std::string(P::str()) == "name;{ }" + std::to_string(d), "string/value");
    constexpr int c = P::one(); // usable at compile time
    static_assert(c == ((d * 37 + 11 * 7 + 5) % 211) - 100, "constant");
}
PBT_SUITE("static", 1, "at least two values")
{
    int k = s.i(1, N);
    s << "size " << k;
    s.nontrivial(k > 1);
    st<1>(s, k);
}
// the text of the parameters is written once to the stream, with line breaks added
static std::ostringstream& out()
{
    static std::ostringstream o;
    return o;
}
BO_PARAMS(out(), struct Printed {
    struct a { BO_PARAM(int, x, 3); };
    struct b { BO_PARAM(double, y, -0.5); };
})
PBT_SUITE("stream", 1, "always")
{
    s.nontrivial(true);
    s.i(0, 3);
    std::string t = out().str();
    s.check(Printed::a::x() == 3 && Printed::b::y() == -0.5, "stream/values");
    s.check(t.find("Parameters:") == 0 && t.find("Parameters:", 1) == std::string::npos, "stream/header");
    for (auto w : {"struct", "Printed", "int", "double", "x", "y", "3", "-0.5"})
        s.check(t.find(w) != std::string::npos, "stream/content", w);
}

// ---- dynamic parameters: a model with one last value per (structure, name)
struct D0 {
    BO_DYN_PARAM(int, a);
    BO_DYN_PARAM(double, b);
    BO_DYN_PARAM(std::string, c);
    BO_DYN_PARAM(Eigen::VectorXd, d);
    BO_DYN_PARAM(bool, e);
};
struct D1 {
    struct inner {
        BO_DYN_PARAM(int, a);
        BO_DYN_PARAM(double, b);
        BO_DYN_PARAM(std::string, c);
        BO_DYN_PARAM(Eigen::VectorXd, d);
        BO_DYN_PARAM(bool, e);
    };
    struct other {
        BO_DYN_PARAM(int, a);
        BO_DYN_PARAM(double, b);
        BO_DYN_PARAM(std::string, c);
        BO_DYN_PARAM(Eigen::VectorXd, d);
        BO_DYN_PARAM(bool, e);
    };
};
#define DECL(S)                             \
    BO_DECLARE_DYN_PARAM(int, S, a);         \
    BO_DECLARE_DYN_PARAM(double, S, b);      \
    BO_DECLARE_DYN_PARAM(std::string, S, c); \
    BO_DECLARE_DYN_PARAM(Eigen::VectorXd, S, d); \
    BO_DECLARE_DYN_PARAM(bool, S, e);
DECL(D0)
DECL(D1::inner)
DECL(D1::other)
struct Ref {
    int a;
    double b;
    std::string c;
    Eigen::VectorXd d;
    bool e;
};
template <typename D>
void dset(Src& s, Ref& r, int f)
{
    switch (f) {
    case 0: D::set_a(r.a = s.i(-1000, 1000)); break;
    case 1: D::set_b(r.b = s.pick(std::vector<double>{s.real(-5, 5), 0., -0., 1e-320, 1e300, HUGE_VAL})); break;
    case 2: D::set_c(r.c = std::string(s.i(0, 40), (char)('a' + s.i(0, 25)))); break;
    case 3: {
        Eigen::VectorXd v(s.i(0, 5));
        for (int i = 0; i < v.size(); i++)
            v(i) = s.real(-3, 3);
        r.d = v;
        D::set_d(v);
        v.setConstant(99); // not a reference to the caller's value
        break;
    }
    default: D::set_e(r.e = s.b());
    }
}
static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof(double)) == 0; }
template <typename D>
void dcheck(Src& s, const Ref& r)
{
    s.check(D::a() == r.a && D::e() == r.e, "dyn/last integral value");
    s.check(same(r.b, D::b()), "dyn/last real value");
    s.check(D::c() == r.c, "dyn/last string");
    s.check(D::d().size() == r.d.size() && (r.d.size() == 0 || D::d() == r.d), "dyn/last vector");
}
// another thread sees the values that were set, and sets them for all
template <typename F>
static void maybe_elsewhere(Src& s, const F& f)
{
    if (!s.p(0.15))
        return f();
    std::exception_ptr e;
    std::thread t([&] {
        try {
            f();
        }
        catch (...) {
            e = std::current_exception();
        }
    });
    t.join();
    s.label("another thread");
    if (e)
        std::rethrow_exception(e);
}
PBT_SUITE("dynamic", 2, "at least three changes")
{
    std::vector<Ref> r(3);
    for (int f = 0; f < 5; f++) {
        dset<D0>(s, r[0], f);
        dset<D1::inner>(s, r[1], f);
        dset<D1::other>(s, r[2], f);
    }
    int n = s.i(0, 12);
    s.nontrivial(n >= 3);
    for (int k = 0; k < n; k++) {
        int w = s.i(0, 2), f = s.i(0, 4);
        s << w << char('a' + f) << " ";
        maybe_elsewhere(s, [&] {
            if (w == 0)
                dset<D0>(s, r[0], f);
            else if (w == 1)
                dset<D1::inner>(s, r[1], f);
            else
                dset<D1::other>(s, r[2], f);
        });
        maybe_elsewhere(s, [&] {
            dcheck<D0>(s, r[0]);
            dcheck<D1::inner>(s, r[1]);
            dcheck<D1::other>(s, r[2]);
        });
    }
}

// ---- components read their parameters when they are used
struct PU {
    struct bayes_opt_bobase { BO_PARAM(bool, bounded, true); };
    struct acqui_ucb { BO_DYN_PARAM(double, alpha); };
    struct acqui_ei { BO_DYN_PARAM(double, jitter); };
    struct mean_constant { BO_DYN_PARAM(double, constant); };
    struct stop_maxiterations { BO_DYN_PARAM(int, iterations); };
    struct opt_gridsearch { BO_DYN_PARAM(int, bins); };
    struct init_randomsampling { BO_DYN_PARAM(int, samples); };
    struct init_gridsampling { BO_DYN_PARAM(int, bins); };
};
BO_DECLARE_DYN_PARAM(double, PU::acqui_ucb, alpha);
BO_DECLARE_DYN_PARAM(double, PU::acqui_ei, jitter);
BO_DECLARE_DYN_PARAM(double, PU::mean_constant, constant);
BO_DECLARE_DYN_PARAM(int, PU::stop_maxiterations, iterations);
BO_DECLARE_DYN_PARAM(int, PU::opt_gridsearch, bins);
BO_DECLARE_DYN_PARAM(int, PU::init_randomsampling, samples);
BO_DECLARE_DYN_PARAM(int, PU::init_gridsampling, bins);
struct PK {
    struct kernel : public defaults::kernel {
    };
    struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
    };
};
struct FakeModel : public model::GP<PK, kernel::MaternFiveHalves<PK>, mean::NullFunction<PK>> {
    double m, v;
    FakeModel(double m, double v) : model::GP<PK, kernel::MaternFiveHalves<PK>, mean::NullFunction<PK>>(2, 1), m(m), v(v) {}
    std::tuple<Eigen::VectorXd, double> query(const Eigen::VectorXd&) const { return std::make_tuple(tools::make_vector(m), v); }
    Eigen::VectorXd mu(const Eigen::VectorXd&) const { return tools::make_vector(m); }
    double sigma(const Eigen::VectorXd&) const { return v; }
};
struct FakeBo {
    int it;
    std::vector<Eigen::VectorXd> none;
    const std::vector<Eigen::VectorXd>& samples() const { return none; }
    const std::vector<Eigen::VectorXd>& observations() const { return none; }
    bool stats_enabled() const { return false; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
};
struct FakeOpt {
    mutable std::vector<Eigen::VectorXd> pts;
    template <typename F, typename A>
    void eval_and_add(const F& f, const Eigen::VectorXd& x, const A&) const { pts.push_back(x); }
    template <typename F>
    void eval_and_add(const F& f, const Eigen::VectorXd& x) const { pts.push_back(x); }
    void add_new_sample(const Eigen::VectorXd& x, const Eigen::VectorXd&) const { pts.push_back(x); }
    const std::vector<Eigen::VectorXd>& samples() const { return pts; }
};
struct FakeFn {
    BO_PARAM(size_t, dim_in, 2);
    BO_PARAM(size_t, dim_out, 1);
    Eigen::VectorXd operator()(const Eigen::VectorXd&) const { return tools::make_vector(0); }
};
PBT_SUITE("components", 2, "at least two changes of a parameter that a component already used")
{
    FakeModel m{s.real(-2, 2), s.uni(0.01, 4)};
    Eigen::VectorXd x = Eigen::VectorXd::Zero(2);
    PU::acqui_ucb::set_alpha(s.uni(0, 3));
    PU::mean_constant::set_constant(s.real(-4, 4));
    acqui::UCB<PU, FakeModel> ucb(m, s.i(0, 9));
    stop::MaxIterations<PU> stop;
    opt::GridSearch<PU> grid;
    FirstElem agg;
    int n = s.i(1, 6);
    s.nontrivial(n >= 3);
    for (int k = 0; k < n; k++) {
        switch (s.i(0, 4)) {
        case 0: {
            double a = s.uni(0, 3);
            PU::acqui_ucb::set_alpha(a);
            double w = m.m + a * std::sqrt(m.v), g = opt::fun(ucb(x, agg, false));
            s << "alpha " << a << " ";
            s.close(g, w, 1e-9 * (1 + std::abs(w)), "components/alpha", "upper confidence bound");
            break;
        }
        case 1: {
            int b = s.i(1, 5);
            PU::opt_gridsearch::set_bins(b);
            std::set<std::pair<double, double>> pts;
            grid([&](const Eigen::VectorXd& p, bool) { pts.emplace(p(0), p(1)); return opt::no_grad(-p.sum()); }, x, true);
            s << "bins " << b << " ";
            s.check((int)pts.size() == (b + 1) * (b + 1), "components/bins", std::to_string(pts.size()) + " nodes for " + std::to_string(b));
            break;
        }
        case 2: {
            int it = s.i(-1, 6), at = s.i(0, 7);
            PU::stop_maxiterations::set_iterations(it);
            s << "iterations " << it << " ";
            s.check(stop(FakeBo{at}, agg) == (at >= it), "components/iterations");
            break;
        }
        case 3: {
            int c = s.i(0, 6);
            PU::init_randomsampling::set_samples(c);
            FakeOpt o;
            init::RandomSampling<PU>()(FakeFn(), agg, o);
            s << "samples " << c << " ";
            s.check((int)o.pts.size() == c, "components/samples");
            break;
        }
        default: {
            int b = s.i(1, 4);
            PU::init_gridsampling::set_bins(b);
            FakeOpt o;
            init::GridSampling<PU>()(FakeFn(), agg, o);
            s << "grid " << b << " ";
            s.check((int)o.pts.size() == (b + 1) * (b + 1), "components/grid bins");
        }
        }
    }
}

// ---- elementary functions
template <typename T>
void sgn(Src& s, T v)
{
    int w = v == T(0) ? 0 : (v > T(0) ? 1 : -1);
    s.check(tools::signum(v) == w, "signum", std::to_string(v));
}
template <typename T>
void ints(Src& s)
{
    T v = (T)s.bits();
    int k = s.weighted({3, 2, 1, 1});
    if (k == 1)
        v = (T)s.i(-3, 3);
    if (k == 2)
        v = std::numeric_limits<T>::max();
    if (k == 3)
        v = std::numeric_limits<T>::min();
    s << "int" << 8 * sizeof(T) << " " << (long long)v;
    s.nontrivial(v != 0);
    sgn<T>(s, v);
    s.check(!tools::is_nan_or_inf(v), "nan/integer");
}
template <typename T>
T special(Src& s)
{
    typedef std::numeric_limits<T> L;
    switch (s.weighted({4, 1, 1, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: return (T)s.real(-10, 10);
    case 1: return T(0);
    case 2: return -T(0);
    case 3: return L::max();
    case 4: return L::lowest();
    case 5: return L::denorm_min();
    case 6: return -L::denorm_min();
    case 7: return L::infinity();
    case 8: return -L::infinity();
    default: return s.b() ? L::quiet_NaN() : -L::quiet_NaN();
    }
}
template <typename T>
bool bad(T v) { return v != v || v > std::numeric_limits<T>::max() || v < std::numeric_limits<T>::lowest(); }
template <typename T>
void reals(Src& s)
{
    T v = special<T>(s);
    s << "real" << 8 * sizeof(T) << " " << (double)v;
    s.nontrivial(v != 0);
    if (v == v)
        sgn<T>(s, v);
    s.check(tools::is_nan_or_inf(v) == bad(v), "nan/scalar", std::to_string((double)v));
}
PBT_SUITE("scalars", 2, "the value is not zero")
{
    switch (s.i(0, 9)) {
    case 0: return ints<signed char>(s);
    case 1: return ints<unsigned char>(s);
    case 2: return ints<short>(s);
    case 3: return ints<int>(s);
    case 4: return ints<unsigned>(s);
    case 5: return ints<long>(s);
    case 6: return ints<unsigned long>(s);
    case 7: return reals<float>(s);
    case 8: return reals<long double>(s);
    default: return reals<double>(s);
    }
}
template <typename V>
void vec(Src& s, V v, bool allow_bad)
{
    typedef typename V::Scalar T;
    bool any = false;
    int nb = 0;
    for (int i = 0; i < v.size(); i++) {
        T x = special<T>(s);
        if (bad(x) && !allow_bad)
            x = 1;
        v(i) = x;
        any = any || bad(x);
        nb += bad(x);
        s << (double)x << " ";
    }
    s.nontrivial(v.size() >= 2);
    V before = v;
    s.check(tools::is_nan_or_inf(v) == any, "nan/vector", std::to_string(nb) + " bad entries of " + std::to_string(v.size()));
    s.check(v.size() == 0 || std::memcmp(v.data(), before.data(), sizeof(T) * v.size()) == 0, "nan/vector changed");
}
PBT_SUITE("vectors", 3, "at least two entries")
{
    bool allow = s.b();
    int n = s.b() ? s.i(0, 4) : s.i(0, 40);
    s << "n=" << n << ": ";
    switch (s.i(0, 4)) {
    case 0: return vec(s, Eigen::VectorXf(n), allow);
    case 1: return vec(s, Eigen::Vector3d(), allow);
    case 2: return vec(s, Eigen::RowVectorXd(n), allow);
    case 3: {
        // exactly one bad entry at any position
        if (n == 0)
            return s.discard();
        Eigen::VectorXd v = Eigen::VectorXd::Ones(n);
        int at = s.i(0, n - 1);
        v(at) = s.pick(std::vector<double>{NAN, HUGE_VAL, -HUGE_VAL, 1.});
        s << "one at " << at << ": " << v(at);
        s.nontrivial(n > 1);
        return s.check(tools::is_nan_or_inf(v) == (v(at) != 1.), "nan/one entry");
    }
    default: return vec(s, Eigen::VectorXd(n), allow);
    }
}
PBT_SUITE("values", 2, "a gradient with at least two entries")
{
    double v = special<double>(s);
    s << v;
    Eigen::VectorXd mv = tools::make_vector(v);
    s.check(mv.size() == 1 && same(mv(0), v), "make_vector");
    opt::eval_t e = opt::no_grad(v);
    s.check(same(opt::fun(e), v) && !e.second, "no_grad");
    int n = s.size(0, 6, 80, 0.01);
    Eigen::VectorXd g(n), x(s.i(0, 4));
    for (int i = 0; i < n; i++)
        g(i) = special<double>(s);
    for (int i = 0; i < x.size(); i++)
        x(i) = s.real(-2, 2);
    opt::eval_t f{v, g};
    s.nontrivial(n >= 2);
    s.check(same(opt::fun(f), v) && opt::grad(f).size() == n && (n == 0 || std::memcmp(opt::grad(f).data(), g.data(), n * sizeof(double)) == 0), "grad");
    // the helpers evaluate the function once, at the given point, with the right request
    int calls = 0, with = 0;
    bool same_x = true;
    auto fn = [&](const Eigen::VectorXd& y, bool want) {
        calls++;
        with += want;
        same_x = same_x && y.size() == x.size() && (x.size() == 0 || y == x);
        return want ? f : opt::no_grad(v);
    };
    double r = opt::eval(fn, x);
    s.check(calls == 1 && with == 0 && same(r, v) && same_x, "eval");
    opt::eval_t q = opt::eval_grad(fn, x);
    s.check(calls == 2 && with == 1 && same(opt::fun(q), v) && same_x && q.second && q.second->size() == n, "eval_grad");
}
