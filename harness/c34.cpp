// C34: the calculator of expected hypervolume improvements, and the Monte Carlo estimate
#include <deque>
#include <random>
#include <ehvi/ehvi_consts.h>
#include <ehvi/ehvi_hvol.h>
// the draws of the simulation come from the case
namespace lv34 {
    std::mt19937_64& draws();
    extern long drawn, extreme[4];
}
#if PART == 1
namespace lv34 {
    static std::mt19937_64 draws_(1);
    std::mt19937_64& draws() { return draws_; }
    long drawn = 0, extreme[4] = {-1, -1, -1, -1};
}
namespace std {
    struct lv_twister {
        typedef uint_fast32_t result_type;
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return 0xffffffffu; }
        lv_twister() {}
        explicit lv_twister(result_type) {}
        void seed(result_type = 0) {}
        result_type operator()()
        {
            long k = lv34::drawn++;
            for (int i = 0; i < 4; i++)
                if (k == lv34::extreme[i])
                    return i < 3 ? min() : max();
            return lv34::draws_() >> 32;
        }
    };
}
#define mt19937 lv_twister
#include <ehvi/ehvi_montecarlo.cc>
#undef mt19937
#else
#define main ehvi_calculator
#include <ehvi/main.cc>
#undef main
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <sstream>
#include <vector>
namespace lv34 { // hides whatever the program defines
#include "ehviref.hpp"
using pbt::Src;
struct Pred {
    P mu, sd;
};
struct In {
    std::vector<P> given, front; // as given; what is left
    P r;
    std::vector<Pred> q;
};
static void put(Src& s, const char* n, const P& p)
{
    s << n << "(";
    for (double x : p)
        s << x << " ";
    s << ")";
}
static bool covers(const P& a, const P& b) { return a[0] >= b[0] && a[1] >= b[1] && a[2] >= b[2]; }
// points, in the order in which they are given; one that dominates earlier ones (or is equal to one) replaces them
static void gen(Src& s, In& c, int npred)
{
    int n = s.i(0, 6), kind = s.i(0, 1);
    c.r.resize(3);
    for (double& x : c.r)
        x = s.pick(std::vector<double>{0., 0., -11., 1.5, -0.25});
    for (int k = 0; k < n; k++) {
        P p(3);
        for (int i = 0; i < 3; i++)
            p[i] = c.r[i] + (kind ? s.i(1, 6) * 0.5 : std::round(s.uni(0.01, 3) * 1000) / 1000);
        if (c.given.size() && s.p(0.15)) { // better than one of those before
            P o = c.given[s.u(c.given.size())];
            for (int i = 0; i < 3; i++)
                p[i] = o[i] + (s.b() ? 0.5 : 0.);
        }
        c.given.push_back(p);
        for (size_t i = c.front.size(); i-- > 0;)
            if (covers(p, c.front[i]))
                c.front.erase(c.front.begin() + i);
        c.front.push_back(p);
        put(s, "", p);
    }
    put(s, " r", c.r);
    for (int m = 0; m < npred; m++) {
        Pred q;
        q.mu.resize(3);
        q.sd.resize(3);
        for (int i = 0; i < 3; i++) {
            double hi = c.r[i] + 0.5;
            for (auto& p : c.front)
                hi = std::max(hi, p[i]);
            q.mu[i] = std::round(s.uni(c.r[i] - 0.3, hi + 1) * 1000) / 1000;
            q.sd[i] = s.pick(std::vector<double>{0.1, 0.5, 1., 2., 3.25});
        }
        put(s, " mu", q.mu);
        put(s, "sd", q.sd);
        c.q.push_back(q);
    }
}
static double scale(const In& c, const Pred& q, double k)
{
    double m = 1;
    for (int i = 0; i < 3; i++)
        m *= std::max(0., q.mu[i] + k * q.sd[i] - c.r[i]);
    return m;
}
static double exact(const In& c, const Pred& q) { return ref_ehvi(c.front, c.r, q.mu, q.sd, 3); }
// the variance of one term of the simulation: E[I^2] as a sum over pairs of cells
static double square(const In& c, const Pred& q)
{
    std::vector<double> g[3];
    std::vector<std::vector<ld>> w[3];
    for (int i = 0; i < 3; i++) {
        g[i].push_back(c.r[i]);
        for (auto& p : c.front)
            g[i].push_back(p[i]);
        std::sort(g[i].begin(), g[i].end());
        g[i].erase(std::unique(g[i].begin(), g[i].end()), g[i].end());
        g[i].push_back(HUGE_VAL);
        ld m = q.mu[i], sd = q.sd[i];
        auto sq = [&](ld a) -> ld { // E[max(Y - a, 0)^2]
            if (std::isinf((double)a))
                return 0;
            ld u = (m - a) / sd;
            return ((m - a) * (m - a) + sd * sd) * 0.5L * erfcl(-u / sqrtl(2.0L)) + (m - a) * sd * expl(-u * u / 2) / sqrtl(2 * acosl(-1.0L));
        };
        int n = g[i].size() - 1;
        w[i].assign(n, std::vector<ld>(n));
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++) {
                int lo = std::min(a, b), hi = std::max(a, b);
                ld len = (ld)g[i][lo + 1] - g[i][lo];
                if (lo < hi)
                    w[i][a][b] = len * (above(g[i][hi], m, sd) - above(g[i][hi + 1], m, sd));
                else if (hi + 1 == n)
                    w[i][a][b] = sq(g[i][lo]);
                else
                    w[i][a][b] = sq(g[i][lo]) - sq(g[i][lo + 1]) - 2 * len * above(g[i][lo + 1], m, sd);
            }
    }
    std::vector<std::array<int, 3>> cells;
    for (int a = 0; a + 1 < (int)g[0].size(); a++)
        for (int b = 0; b + 1 < (int)g[1].size(); b++)
            for (int d = 0; d + 1 < (int)g[2].size(); d++) {
                bool below = false;
                for (auto& p : c.front)
                    below = below || (p[0] >= g[0][a + 1] && p[1] >= g[1][b + 1] && p[2] >= g[2][d + 1]);
                if (!below)
                    cells.push_back({a, b, d});
            }
    ld sum = 0;
    for (auto& x : cells)
        for (auto& y : cells)
            sum += w[0][x[0]][y[0]] * w[1][x[1]][y[1]] * w[2][x[2]][y[2]];
    return sum;
}
// a value printed or returned by the simulation (Bernstein's bound at 1e-12)
static void simulated(Src& s, const In& c, const Pred& q, double got, const std::string& w)
{
    double want = exact(c, q), n = MONTECARLOS;
    double tol = 7.5 * std::sqrt(square(c, q) / n) + 19 * scale(c, q, 7) / n + 1e-9 * want;
    s.check(std::isfinite(got) && got >= 0, w + "/not a finite value", std::to_string(got));
    s.close(got, want, tol, w, "expected improvement");
    s.nontrivial(want > 3 * tol);
}
static void seed(Src& s, bool rare)
{
    lv34::draws().seed(s.bits());
    lv34::drawn = 0;
    for (int i = 0; i < 4; i++)
        lv34::extreme[i] = rare ? s.i(0, 100000) : -1;
}
PBT_SUITE("simulation", 3, "an expected improvement that is larger than three times the tolerance")
{
    In c;
    gen(s, c, 1);
    bool rare = s.p(0.3);
    s << (rare ? " rare draws" : "");
    seed(s, rare);
    std::deque<individual> own(c.front.size());
    std::deque<individual*> pop;
    for (int k : s.permutation(c.front.size())) {
        for (int i = 0; i < 3; i++)
            own[k].f[i] = c.front[k][i];
        pop.push_back(&own[k]);
    }
    s.label(rare ? "rare draws" : "ordinary draws");
    simulated(s, c, c.q[0], ehvi3d_montecarlo(pop, c.r.data(), c.q[0].mu.data(), c.q[0].sd.data()), "simulation/value");
}
// runs the program
static std::vector<std::string> calculator(const std::vector<std::string>& args, const std::string& in)
{
    std::vector<std::vector<char>> own;
    std::vector<char*> argv;
    for (auto& a : args)
        own.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
    for (auto& a : own)
        argv.push_back(a.data());
    argv.push_back(nullptr);
    struct Redirect {
        std::ostringstream o, e;
        std::istringstream i;
        std::streambuf *so, *se, *si;
        std::streamsize p;
        Redirect(const std::string& in) : i(in), so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())), si(std::cin.rdbuf(i.rdbuf())), p(std::cout.precision()) { std::cin.clear(); }
        ~Redirect()
        {
            std::cout.rdbuf(so);
            std::cerr.rdbuf(se);
            std::cin.rdbuf(si);
            std::cin.clear();
            std::cout.precision(p);
        }
    } r(in);
    ehvi_calculator(args.size(), argv.data());
    std::vector<std::string> lines;
    std::istringstream o(r.o.str());
    for (std::string l; std::getline(o, l);)
        lines.push_back(l);
    return lines;
}
static double number(Src& s, const std::string& l, const std::string& w)
{
    char* end;
    double v = std::strtod(l.c_str(), &end);
    s.check(!l.empty() && !*end, w + "/not a number", l);
    return v;
}
static void printed(Src& s, const In& c, const Pred& q, const std::string& l, const std::string& w)
{
    double want = exact(c, q);
    s.close(number(s, l, w), want, 1e-8 * (scale(c, q, 1) + want) + 1e-9, w, "expected improvement");
}
static std::string text(Src& s, double v)
{
    std::ostringstream o;
    o.precision(17);
    if (s.p(0.1))
        o << std::scientific;
    o << v;
    return o.str();
}
static std::string space(Src& s)
{
    return s.p(0.9) ? " " : s.pick(std::vector<std::string>{"\n", "\t", "  ", "\n\n ", "\r\n"});
}
static std::string file_of(Src& s, const In& c)
{
    std::string t = std::to_string(c.given.size());
    auto add = [&](const P& p) {
        for (double x : p)
            t += space(s) + text(s, x);
    };
    for (auto& p : c.given)
        add(p);
    add(c.r);
    for (auto& q : c.q) {
        add(q.mu);
        add(q.sd);
    }
    t += s.pick(std::vector<std::string>{"", "\n", " ", "\n\n"});
    return t;
}
PBT_SUITE("file", 4, "two points or more that are not dominated, and an expected improvement")
{
    In c;
    gen(s, c, s.weighted({5, 2, 2, 1}) + 1);
    seed(s, false);
    std::string f = s.dir() + "/case.txt";
    std::ofstream(f) << file_of(s, c);
    std::vector<std::string> args{"EHVI", f}, all{"2term", "5term", "8term", "sliceupdate", "montecarlo", "3term"}, schemes;
    for (int k = s.i(0, 4); k > 0; k--)
        schemes.push_back(all[s.weighted({4, 4, 4, 4, 1, 1})]);
    args.insert(args.end(), schemes.begin(), schemes.end());
    for (auto& a : schemes)
        s << " " << a;
    auto out = calculator(args, "");
    size_t k = 0, m = c.q.size();
    auto next = [&](const std::string& w) {
        s.check(k < out.size(), w + "/no result");
        return out[k++];
    };
    if (schemes.empty()) {
        if (m == 1 && out.size() == 2) // the two-dimensional value
            k++;
        for (auto& q : c.q)
            printed(s, c, q, next("file/default"), "file/default");
    }
    for (auto& a : schemes) {
        std::string w = "file/" + a;
        if (a == "3term" || (m > 1 && a != "5term" && a != "sliceupdate"))
            continue; // no such scheme
        for (auto& q : c.q)
            if (a == "montecarlo")
                simulated(s, c, q, number(s, next(w), w), w);
            else
                printed(s, c, q, next(w), w);
    }
    s.check(k == out.size(), "file/more results than predictions", std::to_string(out.size()) + " instead of " + std::to_string(k));
    double v = exact(c, c.q[0]);
    s.label(m == 1 ? "one prediction" : "several predictions");
    s.nontrivial(c.front.size() >= 2 && v > 1e-4);
}
PBT_SUITE("terminal", 1, "two points or more that are not dominated, and an expected improvement")
{
    In c;
    gen(s, c, 1);
    seed(s, false);
    // the points that another one replaces have to be entered again: the number is that of the remaining ones
    size_t n = s.u(c.front.size() + 1), len = 0;
    c.front.clear();
    for (; c.front.size() < n; len++) {
        const P& p = c.given[len];
        for (size_t i = c.front.size(); i-- > 0;)
            if (covers(p, c.front[i]))
                c.front.erase(c.front.begin() + i);
        c.front.push_back(p);
    }
    c.given.resize(len);
    s << " entered " << len << " left " << n;
    std::string t = std::to_string(c.front.size());
    auto add = [&](const P& p) {
        for (double x : p)
            t += space(s) + text(s, x);
    };
    for (auto& p : c.given)
        add(p);
    add(c.r);
    add(c.q[0].mu);
    add(c.q[0].sd);
    auto out = calculator({"EHVI"}, t + "\n");
    s.check(out.size() == 5, "terminal/number of results", std::to_string(out.size()));
    simulated(s, c, c.q[0], number(s, out[0], "terminal/simulation"), "terminal/simulation");
    const char* names[] = {"", "8term", "5term", "2term", "sliceupdate"};
    for (int k = 1; k < 5; k++)
        printed(s, c, c.q[0], out[k], std::string("terminal/") + names[k]);
    s.nontrivial(c.front.size() >= 2 && exact(c, c.q[0]) > 1e-4);
}
} // namespace lv34
#endif
