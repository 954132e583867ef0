// C20: statistics files
#include "bo.hpp"
#include <fstream>
#include <limbo/stat/aggregated_observations.hpp>
#include <limbo/stat/best_aggregated_observations.hpp>
#include <limbo/stat/best_observations.hpp>
#include <limbo/stat/best_samples.hpp>
#include <limbo/stat/console_summary.hpp>
#include <limbo/stat/gp.hpp>
#include <limbo/stat/gp_acquisitions.hpp>
#include <limbo/stat/gp_kernel_hparams.hpp>
#include <limbo/stat/gp_likelihood.hpp>
#include <limbo/stat/gp_mean_hparams.hpp>
#include <limbo/stat/gp_prediction_differences.hpp>
#include <limbo/stat/observations.hpp>
#include <limbo/stat/samples.hpp>
using namespace lv;

struct HP2 : public HPRec<BP> {
    template <typename GP>
    void operator()(GP& gp)
    {
        V m = gp.mean_function().h_params();
        for (int i = 0; i < m.size(); i++)
            m(i) = ((lg().hp.size() * 5 + i * 3) % 7) * 0.25 - 0.5;
        gp.mean_function().set_h_params(m);
        HPRec<BP>::operator()(gp);
        gp.recompute(true);
    }
};
using SGP = limbo::model::GP<BP, limbo::kernel::SquaredExpARD<BP>, limbo::mean::FunctionARD<BP, limbo::mean::Constant<BP>>, HP2>;
// an acquisition function that depends on the iteration
template <typename Params, typename Model>
struct ItAcq {
    ItAcq(const Model& m, int it = 0) : _m(m), _it(it) {}
    size_t dim_in() const { return _m.dim_in(); }
    size_t dim_out() const { return _m.dim_out(); }
    template <typename A>
    limbo::opt::eval_t operator()(const V& v, const A& a, bool)
    {
        lg().aq.push_back(v);
        V mu;
        double s2;
        std::tie(mu, s2) = _m.query(v);
        return limbo::opt::no_grad(a(mu) + 0.5 * std::sqrt(s2) + 0.7 * _it);
    }
    const Model& _m;
    int _it;
};
// what the run looked like each time the statistics were refreshed
struct Snap {
    int total, cur;
    SGP model;
};
static std::vector<Snap>& snaps()
{
    static std::vector<Snap> v;
    return v;
}
struct SnapStat : public limbo::stat::StatBase<BP> {
    template <typename B, typename A>
    void operator()(const B& bo, const A&)
    {
        snaps().push_back({bo.total_iterations(), bo.current_iteration(), bo.model()});
    }
};
using Stats = boost::fusion::vector<SnapStat, limbo::stat::Samples<BP>, limbo::stat::Observations<BP>, limbo::stat::AggregatedObservations<BP>, limbo::stat::BestAggregatedObservations<BP>, limbo::stat::BestObservations<BP>, limbo::stat::BestSamples<BP>, limbo::stat::GPKernelHParams<BP>, limbo::stat::GPMeanHParams<BP>, limbo::stat::GPLikelihood<BP>, limbo::stat::GPPredictionDifferences<BP>, limbo::stat::GPAcquisitions<BP>, limbo::stat::GP<BP>, limbo::stat::ConsoleSummary<BP>>;

struct InDir {
    char old[4096];
    InDir(const std::string& d)
    {
        if (!getcwd(old, sizeof old) || chdir(d.c_str()))
            throw std::runtime_error("chdir");
    }
    ~InDir()
    {
        if (chdir(old)) {
        }
    }
};
// what is printed on the terminal
struct Console {
    std::ostringstream out;
    std::streambuf* old;
    Console() : old(std::cout.rdbuf(out.rdbuf())) {}
    ~Console() { std::cout.rdbuf(old); }
};
static std::vector<std::string> list(const std::string& d)
{
    std::vector<std::string> r;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p))
            if (std::string(e->d_name) != "." && std::string(e->d_name) != "..")
                r.push_back(e->d_name);
        closedir(p);
    }
    std::sort(r.begin(), r.end());
    return r;
}
struct Row {
    bool header;
    std::vector<double> v;
    std::string raw;
};
static std::vector<Row> read(Src& s, const std::string& f)
{
    std::ifstream in(f);
    s.check(in.good(), "missing file", f);
    std::vector<Row> r;
    std::string l;
    while (std::getline(in, l)) {
        Row w;
        w.raw = l;
        w.header = !l.empty() && l[0] == '#';
        if (!w.header) {
            std::istringstream is(l);
            std::string t;
            while (is >> t)
                w.v.push_back(strtod(t.c_str(), nullptr));
        }
        r.push_back(w);
    }
    return r;
}
// six significant digits are printed
static void num(Src& s, double got, double want, double scale, const std::string& w, const Row& r)
{
    s.close(got, want, 6e-6 * std::abs(want) + 1e-11 * scale + 1e-300, w, "row '" + r.raw + "'");
}
static V cat(std::initializer_list<V> l)
{
    int n = 0;
    for (auto& v : l)
        n += v.size();
    V r(n);
    n = 0;
    for (auto& v : l) {
        r.segment(n, v.size()) = v;
        n += v.size();
    }
    return r;
}
static V one(double x) { return V::Constant(1, x); }

template <typename Init>
void files(Src& s)
{
    using B = BO<Init, SGP, Stats, limbo::stop::MaxIterations<BP>, RecOpt<BP>, ItAcq<BP, SGP>>;
    InDir here(s.dir());
    snaps().clear();
    bc().din = std::min(bc().din, 3);
    bc().stats = s.p(0.85);
    bc().bounded = s.p(0.8);
    bc().rs_samples = s.size(0, 4, 30, 0.01);
    bc().hp_period = s.pick(std::vector<int>{-1, 1, 2});
    bc().stat_bins = bc().din == 1 ? s.i(1, 20) : bc().din == 2 ? s.i(1, 5) : s.i(1, 2);
    auto& l = lg();
    std::vector<std::string> before = list(".");
    // per section (a run with reset starts one): the rows expected in every file
    using Rows = std::vector<std::vector<double>>;
    std::map<std::string, std::vector<std::pair<bool, V>>> want; // header or row
    std::map<std::string, std::vector<double>> wscale;
    std::string dir;
    std::map<int, std::pair<int, Agg>> last_gp; // total iteration -> snapshot, aggregator
    std::unique_ptr<Console> console(new Console());
    std::vector<V> printed;
    int did = 0;
    {
        B bo;
        dir = bo.res_dir();
        size_t start = 0;
        int total = 0;
        for (int r = 0, runs = s.i(1, 3); r < runs; r++) {
            bool reset = r == 0 || s.p(0.4);
            int its = bc().iterations = s.size(0, 5, 40, 0.01);
            Agg a;
            a.id = s.i(0, 3);
            s << " " << (reset ? "reset" : "continue") << "x" << its << "a" << a.id;
            size_t e0 = l.evals.size(), s0 = snaps().size();
            bo.optimize(Fn(), a, reset);
            if (reset)
                start = e0, total = 0;
            did += its;
            s.check((int)(snaps().size() - s0) == its, "statistics refreshed once per iteration");
            std::vector<V> X = good_x(start), Y = good_y(start);
            for (int k = 0; k < its; k++) {
                int t = total + k, n = X.size() - its + k; // index of the sample of this iteration
                const SGP& m = snaps()[s0 + k].model;
                s.check(snaps()[s0 + k].total == t && m.nb_samples() == n, "iteration of the statistics");
                auto row = [&](const std::string& f, double label, const V& v, double scale) {
                    want[f].push_back({false, cat({one(label), v})});
                    wscale[f].push_back(scale);
                };
                auto head = [&](const std::string& f) {
                    if (t == 0) {
                        want[f].push_back({true, V()});
                        wscale[f].push_back(0);
                    }
                };
                double yscale = 1e-12;
                for (int i = 0; i <= n; i++)
                    yscale = std::max(yscale, Y[i].cwiseAbs().maxCoeff() * (1 + Y[i].cwiseAbs().sum()));
                yscale *= 100;
                head("samples.dat");
                head("observations.dat");
                head("aggregated_observations.dat");
                if (t == 0)
                    for (int i = 0; i < n; i++) {
                        row("samples.dat", -1, X[i], 0);
                        row("observations.dat", -1, Y[i], 0);
                        row("aggregated_observations.dat", -1, one(a(Y[i])), 0);
                    }
                row("samples.dat", t, X[n], 0);
                row("observations.dat", t, Y[n], 0);
                row("aggregated_observations.dat", t, one(a(Y[n])), 0);
                std::vector<V> yy(Y.begin(), Y.begin() + n + 1);
                int b = best_of(yy, a);
                head("best_observations.dat");
                row("best_observations.dat", t, Y[b], 0);
                head("best_samples.dat");
                row("best_samples.dat", t, X[b], 0);
                head("best_aggregated_observations.dat");
                row("best_aggregated_observations.dat", t, one(a(Y[b])), 0);
                head("gp_kernel_hparams.dat");
                row("gp_kernel_hparams.dat", t, m.kernel_function().h_params(), 0);
                head("gp_mean_hparams.dat");
                row("gp_mean_hparams.dat", t, m.mean_function().h_params(), 0);
                printed.push_back(cat({one(t), X[n], one(a(Y[n])), one(a(Y[b]))}));
                SGP c = m;
                double ll = c.compute_log_lik();
                head("gp_likelihood.dat");
                row("gp_likelihood.dat", t, one(ll), 1 + std::abs(ll));
                double pred = a(m.mu(X[n])), ob = a(Y[n]);
                head("gp_prediction_differences.dat");
                row("gp_prediction_differences.dat", t, cat({one(pred), one(ob), one(std::abs(pred - ob))}), yscale + std::abs(pred));
                head("gp_acquisitions.dat");
                V mu;
                double s2;
                std::tie(mu, s2) = m.query(X[n]);
                row("gp_acquisitions.dat", t, cat({one(a(mu)), one(s2), one(a(mu) + 0.5 * std::sqrt(s2) + 0.7 * k)}), yscale + std::abs(pred));
                last_gp[t] = {(int)(s0 + k), a};
            }
            total += its;
        }
    }
    std::istringstream con(console->out.str());
    console.reset();
    s.nontrivial(did >= 1 && bc().stats);
    if (!bc().stats) {
        s.label("disabled");
        s.check(con.str().empty(), "console: printed although statistics are disabled", con.str().substr(0, 80));
        s.check(list(".") == before, "files written although statistics are disabled", list(".").empty() ? "" : list(".")[0]);
        return;
    }
    for (auto& p : printed) {
        Row l;
        l.header = false;
        s.check((bool)std::getline(con, l.raw), "console: a line is missing");
        std::string t = l.raw;
        std::replace(t.begin(), t.end(), ':', ' ');
        std::istringstream is(t);
        while (is >> t) {
            char* end;
            double v = strtod(t.c_str(), &end);
            if (!*end)
                l.v.push_back(v);
        }
        s.check((int)l.v.size() == p.size(), "console: number of values", l.raw + " expected " + str(p));
        for (int i = 0; i < p.size(); i++)
            num(s, l.v[i], p(i), 0, "console", l);
    }
    std::string rest;
    s.check(!std::getline(con, rest), "console: more lines than iterations", rest);
    s.check(!dir.empty() && dir[0] != '/', "result directory", dir);
    std::vector<std::string> expected, got = list(dir);
    for (auto& w : want)
        expected.push_back(w.first);
    for (auto& g : last_gp)
        expected.push_back("gp_" + std::to_string(g.first) + ".dat");
    std::sort(expected.begin(), expected.end());
    for (auto& f : expected)
        s.check(std::find(got.begin(), got.end(), f) != got.end(), "a statistics file is missing", f);
    for (auto& w : want) {
        auto rows = read(s, dir + "/" + w.first);
        s.check(rows.size() == w.second.size(), w.first + ": number of rows", std::to_string(rows.size()) + " instead of " + std::to_string(w.second.size()));
        for (size_t i = 0; i < rows.size(); i++) {
            s.check(rows[i].header == w.second[i].first, w.first + ": header", "line " + std::to_string(i) + " '" + rows[i].raw + "'");
            if (rows[i].header)
                continue;
            const V& e = w.second[i].second;
            s.check((int)rows[i].v.size() == e.size(), w.first + ": number of columns", "row '" + rows[i].raw + "' expected " + str(e));
            s.check(rows[i].v[0] == e(0), w.first + ": label of the row", "row '" + rows[i].raw + "' expected " + str(e));
            for (int j = 1; j < e.size(); j++)
                num(s, rows[i].v[j], e(j), wscale[w.first][i], w.first, rows[i]);
        }
    }
    // model dumps (the last one of each iteration number)
    for (auto& g : last_gp) {
        auto rows = read(s, dir + "/gp_" + std::to_string(g.first) + ".dat");
        const Snap& sn = snaps()[g.second.first];
        const SGP& m = sn.model;
        int D = bc().din, P = bc().dout, bins = bc().stat_bins;
        size_t nodes = 1;
        for (int d = 0; d < D; d++)
            nodes *= bins + 1;
        s.check(rows.size() == nodes + 1 && rows[0].header, "gp dump: number of rows", std::to_string(rows.size()) + " instead of a header and " + std::to_string(nodes));
        std::set<std::vector<int>> seen;
        double ym = 1e-12;
        for (auto& y : m.observations())
            ym = std::max(ym, y.cwiseAbs().maxCoeff() * (1 + y.cwiseAbs().sum()));
        for (size_t i = 1; i < rows.size(); i++) {
            s.check(!rows[i].header && (int)rows[i].v.size() == D + P + 2, "gp dump: columns", rows[i].raw);
            std::vector<int> k;
            V x(D);
            for (int d = 0; d < D; d++) {
                int n = (int)std::floor(rows[i].v[d] * bins + 0.5);
                x(d) = n / (double)bins;
                s.check(n >= 0 && n <= bins && std::abs(rows[i].v[d] - x(d)) < 1e-5, "gp dump: not a node", rows[i].raw);
                k.push_back(n);
            }
            s.check(seen.insert(k).second, "gp dump: node written twice", rows[i].raw);
            V mu;
            double s2;
            std::tie(mu, s2) = m.query(x);
            for (int j = 0; j < P; j++)
                num(s, rows[i].v[D + j], mu(j), 100 * ym, "gp dump: mu", rows[i]);
            num(s, rows[i].v[D + P], s2, 1, "gp dump: sigma", rows[i]);
            num(s, rows[i].v[D + P + 1], g.second.second(mu) + 0.5 * std::sqrt(s2) + 0.7 * sn.cur, 100 * ym + std::abs(g.second.second(mu)), "gp dump: acquisition", rows[i]);
        }
    }
}
// several optimisers of one program, created at the same time: none of them touches the files of another
PBT_SUITE("several optimisers", 1, "at least two optimisers that made an iteration")
{
    reset_bo(s);
    InDir here(s.dir());
    bc().stats = true;
    bc().hp_period = -1;
    using B = BO<limbo::init::RandomSampling<BP>, ListModel<BP>, boost::fusion::vector<limbo::stat::Samples<BP>, limbo::stat::Observations<BP>, limbo::stat::BestSamples<BP>>, limbo::stop::MaxIterations<BP>, RecOpt<BP>, RecAcq<BP, ListModel<BP>>>;
    int n = s.i(2, 4);
    std::vector<std::unique_ptr<B>> bo(n);
    std::vector<std::vector<V>> X(n), Y(n), best(n);
    std::vector<int> ni(n, -1);
    int kept = s.i(0, n); // created at once
    for (int i = 0; i < kept; i++)
        bo[i].reset(new B());
    for (int r = s.i(n, 2 * n); r > 0; r--) {
        int i = s.u(n);
        if (!bo[i])
            bo[i].reset(new B());
        bc().rs_samples = s.i(1, 3);
        bc().iterations = s.i(0, 4);
        if (ni[i] < 0 && bc().iterations == 0)
            continue;
        s << " " << i << ":" << bc().iterations;
        size_t e0 = lg().evals.size();
        if (ni[i] < 0)
            ni[i] = bc().rs_samples;
        bo[i]->optimize(Fn(), Agg(), false);
        for (size_t e = e0; e < lg().evals.size(); e++) {
            X[i].push_back(lg().evals[e].x);
            Y[i].push_back(lg().evals[e].y);
        }
    }
    std::set<std::string> dirs;
    int ran = 0;
    for (int i = 0; i < n; i++) {
        if (!bo[i])
            continue;
        std::string dir = bo[i]->res_dir();
        s.check(dirs.insert(dir).second, "several optimisers/one directory for two optimisers", dir);
        if (ni[i] < 0)
            continue;
        ran++;
        bo[i].reset();
        for (int f = 0; f < 2; f++) {
            auto& want = f ? Y[i] : X[i];
            std::string name = f ? "observations.dat" : "samples.dat";
            auto rows = read(s, dir + "/" + name);
            s.check(rows.size() == want.size() + 1 && rows[0].header, "several optimisers/" + name, std::to_string(rows.size()) + " lines instead of " + std::to_string(want.size() + 1));
            for (size_t k = 0; k < want.size(); k++) {
                auto& row = rows[k + 1];
                s.check(!row.header && (int)row.v.size() == 1 + want[k].size() && row.v[0] == ((int)k < ni[i] ? -1 : (int)k - ni[i]), "several optimisers/" + name, "row '" + row.raw + "'");
                for (int j = 0; j < want[k].size(); j++)
                    num(s, row.v[j + 1], want[k](j), 0, "several optimisers/" + name, row);
            }
        }
    }
    s.nontrivial(ran >= 2);
}
PBT_SUITE("files", 4, "statistics enabled and at least one iteration")
{
    reset_bo(s);
    if (s.b())
        files<limbo::init::RandomSampling<BP>>(s);
    else {
        s << " none";
        files<limbo::init::NoInit<BP>>(s);
    }
}
