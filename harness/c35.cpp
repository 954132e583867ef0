// C35: Bayesian optimisation with the Pareto front of the models (Nsbo on BoMulti); NSGA-II is a stand-in (see sferes/standin.hpp)
#if PART == 1
#define NSBO // as the programs that use Nsbo: the benchmark statistic then leaves the front of the models as it is
#endif
#define USE_SFERES
#include "bo.hpp"
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#include <limbo/experimental/stat/pareto_benchmark.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include <sferes/standin.hpp>
#define LV_CAT2(a, b) a##b
#define LV_CAT(a, b) LV_CAT2(a, b)
#define LV35 LV_CAT(lv35_, PART) // the types of the two parts differ: so does the code of the benchmark
namespace LV35 {
using namespace lv;
using limbo::initfun;
using limbo::modelfun;
using limbo::statsfun;
using limbo::stopcrit;
namespace si = sferes::standin;

struct MP : public BP {
};
template <int D>
struct FnD {
    static constexpr size_t dim_in() { return D; }
    static constexpr size_t dim_out() { return 2; }
    V operator()(const V& x) const { return Fn()(x); }
};
struct State {
    size_t start = 0;
    size_t nstats = 0;
    std::vector<size_t> at; // evaluations made at every update of the statistics
    std::string dir;
    int dominated = 0, fronts = 0; // fronts with a point whose uncertainty is dominated
};
static State& st()
{
    static State x;
    return x;
}
struct InDir {
    char old[4096];
    InDir(const std::string& d)
    {
        if (!getcwd(old, sizeof old) || chdir(d.c_str()))
            throw std::runtime_error("chdir");
    }
    ~InDir()
    {
        if (chdir(old)) {
        }
    }
};
static int entries(const std::string& d)
{
    int r = 0;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p))
            r += std::string(e->d_name) != "." && std::string(e->d_name) != "..";
        closedir(p);
    }
    return r;
}
static std::vector<V> rows(Src& s, const std::string& f)
{
    std::ifstream in(f);
    s.check(in.good(), "missing file", f);
    std::vector<V> r;
    std::string l;
    while (std::getline(in, l)) {
        std::istringstream is(l);
        std::vector<double> v;
        double x;
        while (is >> x)
            v.push_back(x);
        r.push_back(V::Map(v.data(), v.size()));
    }
    return r;
}
static bool near(const V& got, const V& want) // six significant digits are printed
{
    if (got.size() != want.size())
        return false;
    for (int i = 0; i < got.size(); i++)
        if (!(std::abs(got(i) - want(i)) <= 6e-6 * std::abs(want(i)) + 1e-300))
            return false;
    return true;
}

// models of the evaluations [start, n)
template <typename Model>
const std::vector<Model>& models_at(size_t n)
{
    static std::vector<Model> m;
    auto& E = lg().evals;
    std::vector<V> X, Y;
    for (size_t i = st().start; i < n; i++)
        if (!E[i].failed) {
            X.push_back(E[i].x);
            Y.push_back(E[i].y);
        }
    m.clear();
    for (int j = 0; j < Y[0].size(); j++) {
        std::vector<V> y;
        for (auto& v : Y)
            y.push_back(V::Constant(1, v(j)));
        m.push_back(Model(X[0].size(), 1));
        m.back().compute(X, y);
    }
    return m;
}
static V vec_of(const std::vector<float>& x)
{
    V r(x.size());
    for (size_t i = 0; i < x.size(); i++)
        r(i) = x[i];
    return r;
}
template <typename Model>
V variances(const std::vector<Model>& m, const V& x)
{
    V r(m.size());
    for (size_t j = 0; j < m.size(); j++)
        r(j) = m[j].sigma(x);
    return r;
}
// what NSGA-II was given to optimise, and what is kept of the front it found
template <typename Model>
void check_run(Src& s, const si::Run& r)
{
    auto& E = lg().evals;
    auto& m = models_at<Model>(r.evals);
    V top = V::Constant(m.size(), -INFINITY);
    for (size_t i = st().start; i < r.evals; i++)
        if (!E[i].failed)
            top = top.cwiseMax(E[i].y);
    for (auto& i : r.all) {
        s.check(i.objs.size() == m.size(), "number of objectives", std::to_string(i.objs.size()) + " instead of " + std::to_string(m.size()));
        V x = vec_of(i.x);
        for (size_t j = 0; j < m.size(); j++) {
            double want = std::min(m[j].mu(x)(0), top(j));
            s.close(i.objs[j], want, 1e-6 * (1 + std::abs(want)), "objective given to NSGA-II", "objective " + std::to_string(j) + " at " + str(x) + ":");
        }
    }
}
template <typename Model, typename Front>
void check_front(Src& s, const si::Run& r, const Front& got)
{
    auto& m = models_at<Model>(r.evals);
    s.check(got.size() == r.front.size(), "size of the front of the models", std::to_string(got.size()) + " instead of " + std::to_string(r.front.size()));
    auto left = r.front;
    V before;
    for (auto& p : got) {
        const V &x = std::get<0>(p), &y = std::get<1>(p), &sg = std::get<2>(p);
        auto it = std::find_if(left.begin(), left.end(), [&](const si::Ind& i) { return vec_of(i.x) == x && vec_of(i.objs) == y; });
        s.check(it != left.end(), "a point of the front of the models is not one NSGA-II found", str(x) + " -> " + str(y));
        left.erase(it);
        V v = variances(m, x);
        s.check(sg.size() == v.size(), "uncertainties of a point of the front");
        for (int j = 0; j < v.size(); j++)
            s.close(sg(j), v(j), 1e-7, "uncertainty of a point of the front", "objective " + std::to_string(j) + " at " + str(x) + ":");
        if (before.size())
            s.check(!std::lexicographical_compare(before.data(), before.data() + before.size(), y.data(), y.data() + y.size()), "order of the front of the models");
        before = y;
    }
}
template <typename F, typename Model>
struct NStat {
    template <typename B, typename A>
    void operator()(const B& bo, const A&)
    {
        auto& s = *bc().src;
        auto& t = st();
        t.at.push_back(lg().evals.size());
        s.check(same(bo.samples(), good_x(t.start)) && same(bo.observations(), good_y(t.start)), "history seen by the statistics");
        s.check(!si::log().runs.empty(), "no run of NSGA-II");
        auto& r = si::log().runs.back();
        check_front<Model>(s, r, bo.pareto_model());
        if (!bc().stats)
            return;
        // files of the benchmark, which was called before
        std::string end = "_" + std::to_string(bo.current_iteration()) + ".dat";
        auto model = rows(s, t.dir + "/pareto_model" + end), real = rows(s, t.dir + "/pareto_model_real" + end);
        auto& f = bo.pareto_model();
        s.check(model.size() == f.size() && real.size() == f.size(), "number of points written by the Pareto benchmark", std::to_string(model.size()) + ", " + std::to_string(real.size()) + " instead of " + std::to_string(f.size()));
        for (size_t i = 0; i < f.size(); i++) {
            V w(std::get<1>(f[i]).size() + std::get<2>(f[i]).size());
            w << std::get<1>(f[i]), std::get<2>(f[i]);
            s.check(near(model[i], w), "front of the models written by the Pareto benchmark", "line " + std::to_string(i + 1) + ": " + str(model[i]) + " instead of " + str(w));
            s.check(near(real[i], F::value(std::get<0>(f[i]))), "values of the front of the models written by the Pareto benchmark", "line " + std::to_string(i + 1));
        }
    }
};
// the function again, for the benchmark: not counted as an evaluation
template <int D>
struct Real {
    static constexpr size_t dim_in() { return D; }
    static constexpr size_t dim_out() { return 2; }
    static V value(const V& x) { return V::Constant(1, 3.5 + x.sum()); }
    V operator()(const V& x) const { return value(x); }
};
static int g_stop;
struct NStop {
    template <typename B, typename A>
    bool operator()(const B& bo, const A&) { return (int)bo.samples().size() >= g_stop; }
};

template <typename B, typename Model, int D>
void nsbo(Src& s, size_t ninit, bool own_stop)
{
    InDir here(s.dir());
    std::stringbuf printed; // progress
    struct Capture {
        std::streambuf* b;
        Capture(std::streambuf* n) : b(std::cout.rdbuf(n)) {}
        ~Capture() { std::cout.rdbuf(b); }
    } capture(&printed);
    auto& l = lg();
    State& t = st();
    t = State();
    g_stop = 1 << 30;
    int nobj = 2 + s.p(0.25), kind = s.weighted({3, 2, 1, 2});
    double a = s.uni(-2, 2), h = s.uni(0, 1);
    uint64_t h0 = s.u(1 << 20);
    l.f = [=](const V& x, size_t k) -> V {
        V y(nobj);
        for (int j = 0; j < nobj; j++)
            switch (kind) {
            case 0:
                y(j) = -(x.array() - (j == 1 ? h : 1 - h)).square().sum() + 0.3 * a * std::sin(4 * x.sum() + j);
                break;
            case 1:
                y(j) = std::floor(3 * std::sin(7 * x(0) + 3 * j + a)) / 2;
                break;
            case 2:
                y(j) = a + j;
                break;
            default:
                y(j) = (double)(pbt::mix(h0 + 77 * k + j) % 1000) / 100. - 5.;
            }
        return y;
    };
    auto& g = si::log();
    g.runs.clear();
    g.evals = [&] { return l.evals.size(); };
    int most = s.pick(std::vector<int>{1, 4, 12, 40});
    g.population = [&](size_t dim) {
        std::vector<std::vector<float>> p;
        for (int n = s.i(1, most); n > 0; n--) {
            std::vector<float> x;
            if (!p.empty() && s.p(0.1))
                x = p.back();
            else if (s.p(0.2))
                for (size_t j = 0; j < dim; j++)
                    x.push_back(l.evals.back().x(j));
            else
                for (size_t j = 0; j < dim; j++)
                    x.push_back(s.p(0.1) ? (float)s.u(2) : (float)s.unit());
            p.push_back(x);
        }
        return p;
    };
    srand(s.u(1000));
    B bo;
    int runs = s.i(1, 3), total = 0, informative = 0;
    t.dir = bc().stats ? bo.res_dir() : "";
    s << (bc().stats ? " files" : "") << " f" << kind << " objectives=" << nobj << " population<=" << most << " runs:";
    for (int r = 0; r < runs; r++) {
        bool reset = r == 0 ? s.p(0.8) : s.p(0.4);
        int its = bc().iterations = s.size(0, 5, 25, 0.01);
        size_t e0 = l.evals.size(), s0 = t.at.size(), r0 = g.runs.size();
        bool fresh = reset || total == 0;
        if (reset)
            t.start = e0;
        if (fresh)
            total = 0;
        size_t ni = fresh ? ninit : 0, before = good_x(t.start).size();
        if (own_stop)
            g_stop = s.i(0, 8) + before;
        l.fail_at = s.p(0.15) ? (int)(e0 + ni + s.i(0, 4)) : -1;
        l.fail_how = s.i(1, 5);
        s << " " << (reset ? "reset" : "continue") << "x" << its;
        if (own_stop)
            s << "/" << g_stop;
        bool threw = false;
        printed.str("");
        try {
            bo.optimize(FnD<D>(), reset);
        }
        catch (const std::exception&) {
            threw = true;
        }
        catch (const EvalThrow&) {
            threw = true;
        }
        bool failed = l.fail_at >= 0 && (int)l.evals.size() > l.fail_at;
        s.check(threw == failed, "an evaluation that fails reaches the caller, nothing else does");
        size_t made = l.evals.size() - e0 - ni - (failed ? 1 : 0);
        int want = std::min<long>(its, std::max<long>(0, (long)g_stop - (long)(before + ni)));
        if (failed) {
            s.check((int)made < want || want == 0, "evaluations after the limit");
            s.label("an evaluation fails");
        }
        else
            s.check((int)made == want, "number of iterations", std::to_string(made) + " instead of " + std::to_string(want));
        total += made;
        s.check(bo.current_iteration() == (int)made && bo.total_iterations() == total, "iteration counters");
        s.check(same(bo.samples(), good_x(t.start)) && same(bo.observations(), good_y(t.start)), "history is not what was evaluated");
        s.check(t.at.size() - s0 == made, "statistics are not updated once per iteration", std::to_string(t.at.size() - s0) + " instead of " + std::to_string(made));
        size_t per = PART == 0 && bc().stats ? 2 : 1; // without NSBO the benchmark updates the front again
        s.check(g.runs.size() - r0 == made * per + (failed ? 1 : 0), "runs of NSGA-II", std::to_string(g.runs.size() - r0) + " for " + std::to_string(made) + " evaluations");
        std::vector<std::string> lines;
        {
            std::istringstream is(printed.str());
            for (std::string x; std::getline(is, x);)
                if (x.find("expected") != std::string::npos)
                    lines.push_back(x);
        }
        s.check(lines.size() == made, "lines printed", std::to_string(lines.size()) + " for " + std::to_string(made) + " evaluations");
        for (size_t k = 0; k < made + (failed ? 1 : 0); k++) {
            auto& run = g.runs[r0 + k * per];
            size_t n = e0 + ni + k;
            s.check(run.evals == n, "the front of the models is not updated before an evaluation");
            check_run<Model>(s, run);
            auto& m = models_at<Model>(n);
            const V& x = l.evals[n].x;
            bool in = false;
            V v = variances(m, x);
            int dom = 0;
            for (auto& i : run.front) {
                V q = vec_of(i.x), w = variances(m, q);
                in = in || q == x;
                s.check(!((w - v).minCoeff() > 1e-9), "the evaluated point is not one of the most uncertain ones of the front", str(x) + " with " + str(v) + "; " + str(q) + " with " + str(w));
                for (auto& j : run.front)
                    if ((variances(m, vec_of(j.x)) - w).minCoeff() > 1e-9) {
                        dom++;
                        break;
                    }
            }
            s.check(in, "the evaluated point is not on the front of the models", str(x));
            informative += dom > 0;
            if (k < made) { // iteration, point, observation, predictions and variances of the first two objectives
                std::string p = lines[k];
                for (const char* w : {"->", "|", "(", ")", "expected:", "sigma:"})
                    for (size_t at; (at = p.find(w)) != std::string::npos;)
                        p.replace(at, strlen(w), " ");
                std::istringstream is(p);
                std::vector<double> got, want{double(k)};
                for (double d; is >> d;)
                    got.push_back(d);
                want.insert(want.end(), x.data(), x.data() + D);
                const V& y = l.evals[n].y;
                want.insert(want.end(), y.data(), y.data() + y.size());
                size_t exact = want.size();
                for (int j = 0; j < 2; j++)
                    want.push_back(m[j].mu(x)(0));
                for (int j = 0; j < 2; j++)
                    want.push_back(v(j));
                s.check(got.size() == want.size(), "progress printed", lines[k]);
                for (size_t j = 0; j < got.size(); j++)
                    s.close(got[j], want[j], 1e-5 * std::abs(want[j]) + (j < exact ? 1e-300 : 1e-6), "progress printed", lines[k]);
            }
        }
        if (failed)
            continue;
        // on request, from the whole history
        bo.template update_pareto_model<D>();
        check_run<Model>(s, g.runs.back());
        s.check(g.runs.back().evals == l.evals.size(), "no run of NSGA-II on request");
        check_front<Model>(s, g.runs.back(), bo.pareto_model());
        s.check((int)bo.nb_objs() == nobj && (int)bo.models().size() == nobj, "one model per objective");
        bo.update_pareto_data();
        auto& E = l.evals;
        size_t nd = 0;
        for (size_t i = t.start; i < E.size(); i++) {
            bool dom = E[i].failed;
            for (size_t j = t.start; j < E.size() && !dom; j++)
                if (!E[j].failed) {
                    V d = E[j].y - E[i].y;
                    dom = d.minCoeff() >= 0 && d.maxCoeff() > 0;
                }
            if (dom)
                continue;
            nd++;
            s.check(std::any_of(bo.pareto_data().begin(), bo.pareto_data().end(), [&](const auto& p) { return std::get<0>(p) == E[i].x && std::get<1>(p) == E[i].y; }), "a non-dominated evaluation is missing in the Pareto set", str(E[i].x));
        }
        s.check(bo.pareto_data().size() == nd, "size of the Pareto set of the data");
    }
    s.nontrivial(informative >= 1);
}
using MGP = limbo::model::GP<MP, limbo::kernel::MaternFiveHalves<MP>, limbo::mean::Data<MP>, HPRec<MP>>;
using MGP0 = limbo::model::GP<MP, limbo::kernel::SquaredExpARD<MP>, limbo::mean::NullFunction<MP>, HPRec<MP>>;
using StopV = boost::fusion::vector<limbo::stop::MaxIterations<MP>, NStop>;
using RS = limbo::init::RandomSampling<MP>;
using GS = limbo::init::GridSampling<MP>;
template <int D, typename Model>
using StatV = boost::fusion::vector<limbo::experimental::stat::ParetoBenchmark<Real<D>>, NStat<Real<D>, Model>>;
namespace lb = limbo::experimental::bayes_opt;

template <int D>
void any(Src& s)
{
    s << " D=" << D;
    bc().stats = s.p(0.4);
    bc().rs_samples = s.i(1, 6);
    bc().gs_bins = s.i(1, 2);
    size_t rs = bc().rs_samples, gs = std::pow(bc().gs_bins + 1, D);
    switch (s.u(3)) {
    case 0:
        return nsbo<lb::Nsbo<MP, modelfun<MGP>, initfun<RS>, statsfun<StatV<D, MGP>>, stopcrit<StopV>>, MGP, D>(s, rs, true);
    case 1:
        return nsbo<lb::Nsbo<MP, statsfun<StatV<D, MGP0>>, stopcrit<StopV>, initfun<GS>, modelfun<MGP0>>, MGP0, D>(s, gs, true);
    default:
        return nsbo<lb::Nsbo<MP, lb::modelfun<MGP0>, lb::statsfun<StatV<D, MGP0>>, lb::initfun<RS>>, MGP0, D>(s, rs, false);
    }
}
#if PART == 0
#define NAME "nsbo"
#else
#define NAME "nsbo with NSBO"
#endif
PBT_SUITE(NAME, 1, "at least one front with a point that is less certain in every objective than another one")
{
    reset_bo(s);
    bc().dout = 2;
    switch (bc().din = s.i(1, 3)) {
    case 1:
        return any<1>(s);
    case 2:
        return any<2>(s);
    default:
        return any<3>(s);
    }
}
}
