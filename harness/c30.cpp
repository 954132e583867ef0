// C30: tree-based optimisation (IMGPO)
#include "bo.hpp"
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
using namespace lv;

static double g_nu;
static bool g_hp;
struct TP : public BP {
    struct bayes_opt_imgpo {
        static bool hp_opt() { return g_hp; }
    };
    struct acqui_ucb_imgpo {
        static double nu() { return g_nu; }
    };
};

template <typename Init, typename Model>
using Tree = limbo::bayes_opt::experimental::IMGPO<TP, limbo::modelfun<Model>, limbo::acquifun<limbo::acqui::experimental::UCB_IMGPO<TP, Model>>, limbo::initfun<Init>>;

// position of a coordinate on the ternary lattice: the smallest e with x = (2a+1)/(2*3^e), or -1
static int level(double x)
{
    double n = 1;
    for (int e = 0; e <= 34; e++, n *= 3) {
        double k = x * 2 * n; // odd integer expected
        double r = 2 * std::floor(k / 2) + 1;
        if (std::abs(x - r / (2 * n)) < 4e-15)
            return e;
    }
    return -1;
}
static double parent_of(double x, int e)
{
    double n = std::pow(3., e - 1);
    return (2 * std::floor(x * n) + 1) / (2 * n);
}
static bool near(const V& a, const V& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-14; }

static bool has(const std::vector<V>& P, const V& x)
{
    for (auto& p : P)
        if (near(p, x))
            return true;
    return false;
}

// the cells: centre of the box first, then only centres of thirds of cells whose centre is known
static void check_cells(Src& s, const std::vector<V>& P)
{
    for (size_t k = 0; k < P.size(); k++) {
        const V& x = P[k];
        s.check(in_unit(x), "a point outside the unit hypercube", str(x));
        if (k == 0) {
            s.check(near(x, V::Constant(x.size(), 0.5)), "the first evaluation of the tree is not the centre of the box", str(x));
            continue;
        }
        std::vector<int> e(x.size());
        int hi = 0, lo = 1000;
        bool lattice = true;
        for (int d = 0; d < x.size(); d++) {
            e[d] = level(x(d));
            lattice = lattice && e[d] >= 0;
            hi = std::max(hi, e[d]);
            lo = std::min(lo, e[d]);
        }
        s.check(lattice, "a point that is not the centre of a cell", str(x));
        std::vector<V> before(P.begin(), P.begin() + k);
        bool twice = false;
        for (auto& p : before)
            twice = twice || p == x;
        s.check(!twice, "a point evaluated twice", str(x));
        bool parent = false;
        for (int d = 0; d < x.size(); d++)
            if (e[d] > 0) {
                V q = x;
                q(d) = parent_of(x(d), e[d]);
                parent = parent || has(before, q);
            }
        s.check(parent, "a cell whose parent was not evaluated", str(x));
    }
}

// Reference of the search (Kawaguchi et al.), fed with the values of the log
struct Cell {
    V c, lo, hi;
    double g;
    bool leaf, samp;
};
template <typename Model>
struct SRef {
    Src& s;
    std::vector<std::vector<Cell>> T;
    size_t M = 1;
    double XI = 1;
    bool soft = false, dead = false; // soft: a choice was a tie (rounding decides); dead: not comparable any more
    std::string why;
    size_t start, pos, end, ninit = 0; // history, next entry of the log, end of the run
    size_t ci = 0;
    std::vector<std::pair<int, int>> script; // choices made at ties: choice, number of choices
    std::string diff;
    Agg a;
    std::shared_ptr<Model> gp;
    size_t gp_n = 0;
    size_t bounds = 0, late = 0, skipped = 0, compared = 0;
    explicit SRef(Src& src) : s(src) {}

    bool close_(double x, double y) const { return std::abs(x - y) <= 1e-7 * (1 + std::abs(x) + std::abs(y)); }
    double ucb(const V& x, size_t m)
    {
        if (!gp || gp_n != pos - start) {
            std::vector<V> X, Y;
            for (size_t k = start; k < pos; k++) {
                X.push_back(lg().evals[k].x);
                Y.push_back(lg().evals[k].y);
            }
            gp = std::make_shared<Model>(bc().din, bc().dout);
            gp->compute(X, Y);
            gp_n = pos - start;
        }
        V mu;
        double var;
        std::tie(mu, var) = gp->query(x);
        bounds++;
        double w = std::sqrt(2 * std::log(M_PI * M_PI * double(m) * double(m) / (12 * g_nu)));
        return a(mu) + (w + 0.2) * std::sqrt(var);
    }
    double best()
    {
        double b = -INFINITY;
        for (size_t k = start; k < pos; k++)
            b = std::max(b, a(lg().evals[k].y));
        return b;
    }
    void amb(const char* w)
    {
        if (!soft)
            why = w;
        soft = true;
    }
    // comparison x > y of two real numbers, at least one of which is a bound
    bool gt(double x, double y)
    {
        if (std::isfinite(x) && std::isfinite(y) && close_(x, y))
            amb("tie of values");
        return x > y;
    }
    // the search evaluates x now
    bool eval(const V& x, double& y)
    {
        auto& E = lg().evals;
        if (dead)
            return false;
        if (pos >= end || !near(E[pos].x, x)) {
            dead = true;
            diff = "evaluation " + std::to_string(pos - start) + " of the history: the reference evaluates " + str(x) + ", the optimiser " + (pos < end ? str(E[pos].x) : std::string("stopped"));
            return false;
        }
        y = a(E[pos].y);
        pos++;
        compared++;
        return true;
    }
    int longest(const Cell& c)
    {
        V side = c.hi - c.lo;
        int d;
        double m = side.maxCoeff(&d);
        if (m < 1e-13)
            amb("resolution of double");
        std::vector<int> tied(1, d);
        for (int i = 0; i < side.size(); i++)
            if (i != d && side(i) > m * (1 - 1e-6))
                tied.push_back(i);
        if (tied.size() == 1)
            return d;
        // rounding decides which one: every choice is tried
        if (ci == script.size())
            script.push_back({0, (int)tied.size()});
        return tied[script[ci++].first];
    }
    static Cell third(const Cell& c, int d, int k)
    {
        Cell r = c;
        double l = c.lo(d), h = c.hi(d);
        if (k != 0)
            r.lo(d) = k == 1 ? (2 * l + h) / 3 : (l + 2 * h) / 3;
        if (k != 2)
            r.hi(d) = k == 0 ? (2 * l + h) / 3 : (l + 2 * h) / 3;
        r.c(d) = k == 1 ? c.c(d) : (k == 0 ? (5 * l + h) / 6 : (l + 5 * h) / 6);
        return r;
    }

    // after the initial design; false: not comparable
    void run(bool root, int its)
    {
        int made = 0;
        if (root) {
            T.assign(1, {});
            M = 1;
            XI = 1;
            Cell c;
            c.c = V::Constant(bc().din, 0.5);
            c.lo = V::Zero(bc().din);
            c.hi = V::Ones(bc().din);
            c.leaf = c.samp = true;
            if (!eval(c.c, c.g))
                return;
            made++;
            T[0].push_back(c);
        }
        double LB = best(), old = LB;
        int guard = 0;
        while (made < its && !dead && guard++ < 3000) {
            size_t D = T.size();
            std::vector<int> im(D, -1);
            std::vector<double> bm(D, 0);
            double vmax = -INFINITY;
            // best leaf of every depth, observed values only exclude deeper cells
            for (size_t h = 0; h < D; h++) {
                while (true) {
                    int bi = -1;
                    double bv = vmax;
                    for (size_t i = 0; i < T[h].size(); i++)
                        if (T[h][i].leaf) {
                            bool bound = !T[h][i].samp || (bi >= 0 && !T[h][bi].samp);
                            bool better = bound ? gt(T[h][i].g, bv) : T[h][i].g > bv;
                            if (better) {
                                bi = i;
                                bv = T[h][i].g;
                            }
                        }
                    im[h] = bi;
                    bm[h] = bv;
                    if (bi < 0)
                        break;
                    if (T[h][bi].samp) {
                        vmax = bv;
                        break;
                    }
                    if (!eval(T[h][bi].c, T[h][bi].g))
                        return;
                    T[h][bi].samp = true;
                    made++;
                    late++;
                }
            }
            // cells that no deeper cell can be beaten by are skipped
            for (size_t h = 0; h < D; h++) {
                if (im[h] < 0)
                    continue;
                int xi = 0;
                for (int k = 1; k <= std::min((int)std::ceil(XI), 4) && h + k < D; k++)
                    if (im[h + k] >= 0) {
                        xi = k;
                        break;
                    }
                if (!xi)
                    continue;
                std::vector<Cell> cur(1, T[h][im[h]]);
                size_t m = M;
                double b = bm[h + xi];
                bool beats = false;
                for (int k = 0; k < xi && !beats; k++) {
                    std::vector<Cell> next;
                    for (auto& c : cur) {
                        int d = longest(c);
                        // both bounds are computed before they are compared
                        double z1 = ucb(third(c, d, 0).c, m), z2 = ucb(third(c, d, 2).c, m + 1);
                        m += 2;
                        if (close_(std::max(z1, z2), b))
                            amb("tie of values");
                        if (std::max(z1, z2) >= b) {
                            beats = true;
                            break;
                        }
                        next.push_back(third(c, d, 0));
                        next.push_back(third(c, d, 2));
                        next.push_back(third(c, d, 1));
                    }
                    cur = next;
                }
                if (!beats) {
                    M = m;
                    im[h] = -1;
                    skipped++;
                }
            }
            // split
            double v2 = -INFINITY;
            for (size_t h = 0; h < D; h++) {
                if (im[h] < 0 || !(bm[h] > v2))
                    continue;
                if (T.size() < h + 2)
                    T.push_back({});
                Cell c = T[h][im[h]];
                T[h][im[h]].leaf = false;
                int d = longest(c);
                for (int k : {0, 2, 1}) {
                    Cell n = third(c, d, k);
                    n.leaf = n.samp = true;
                    n.g = c.g;
                    if (k != 1) {
                        double U = ucb(n.c, M);
                        if (std::abs(U - LB - 1e-6) <= 1e-7 * (1 + std::abs(U)))
                            amb("tie of values");
                        if (U - LB < 1e-6) {
                            M++;
                            n.g = U;
                            n.samp = false;
                        }
                        else {
                            if (!eval(n.c, n.g))
                                return;
                            made++;
                            v2 = std::max(v2, n.g);
                        }
                    }
                    T[h + 1].push_back(n);
                }
                LB = best();
            }
            if (std::abs(old - LB) < 1e-6)
                XI = std::max(XI - 0.5, 1.);
            else
                XI += 4;
            old = LB;
        }
        if (!dead && guard < 3000 && pos != end) {
            diff = std::to_string(end - pos) + " evaluations more than the reference";
            dead = true;
        }
        if (guard >= 3000)
            amb("no end in sight");
    }

    struct Run {
        bool fresh;
        int its;
        Agg a;
        size_t from, end;
    };
    std::vector<Run> runs;
    bool stopped = false;
    // one more run of the optimiser: the reference must reproduce all of them
    void next(const Run& r, bool bad)
    {
        if (r.fresh) {
            runs.clear();
            script.clear();
            stopped = soft = false;
            why.clear();
        }
        runs.push_back(r);
        if (bad)
            stop("other aggregator"); // cells keep the values of the previous one
        for (int attempt = 0; !stopped; attempt++) {
            if (attempt == 40)
                return stop("tie of sides");
            dead = soft = false;
            ci = 0;
            for (auto& q : runs) {
                if (q.fresh) {
                    start = q.from;
                    pos = start + ninit;
                }
                a = q.a;
                end = q.end;
                gp.reset();
                run(q.fresh, q.its);
                if (dead)
                    break;
            }
            if (!dead)
                return;
            if (soft)
                return stop(why);
            script.resize(ci);
            while (!script.empty() && script.back().first + 1 >= script.back().second)
                script.pop_back();
            if (script.empty())
                s.fail("the evaluations are not those of the published search", diff);
            script.back().first++;
        }
    }
    void stop(const std::string& w)
    {
        stopped = true;
        why = w;
    }
};

template <typename Init, typename Model>
void tree(Src& s, int max_d, int budget)
{
    auto& B = bc();
    auto& l = lg();
    B.din = s.i(1, max_d);
    B.dout = s.i(1, 3);
    B.bounded = true;
    B.rs_samples = s.i(0, 5);
    auto f0 = gen_fn(s, B.dout);
    l.f = f0;
    if (s.p(0.3)) {
        double k = s.logu(1e-3, 1e6);
        s << " scale=" << k;
        l.f = [f0, k](const V& x, size_t n) -> V { return k * f0(x, n); };
    }
    g_nu = s.pick(std::vector<double>{0.05, 0.05, 0.01, 0.2, 0.5});
    g_hp = s.p(0.2);
    Tree<Init, Model> bo;
    int runs = s.i(1, 4);
    s << " D=" << B.din << " out=" << B.dout << " init=" << B.rs_samples << " nu=" << g_nu << (g_hp ? " hp" : "") << " runs:";
    std::vector<V> P; // points of the tree
    size_t start = 0;
    SRef<Model> ref(s);
    int last_agg = -1;
    bool cont = false;
    int total = 0;
    size_t ninit_of = 0;
    for (int r = 0; r < runs; r++) {
        bool reset = r == 0 ? s.p(0.8) : s.p(0.3);
        int its = B.iterations = s.i(0, budget / runs);
        Agg a;
        a.id = r == 0 || s.p(0.3) ? s.i(0, 3) : last_agg;
        s << " " << (reset ? "reset" : "continue") << "x" << its << "a" << a.id;
        size_t e0 = l.evals.size();
        bool fresh = reset || r == 0 || total == 0;
        size_t hp0 = l.hp.size();
        bo.optimize(Fn(), a, reset);
        if (reset)
            start = e0;
        size_t ninit = 0;
        if (fresh) {
            ninit = ninit_of = std::is_same<Init, limbo::init::NoInit<TP>>::value ? 0 : B.rs_samples;
            start = e0;
            total = 0;
            P.clear();
        }
        s.check(l.evals.size() - e0 >= ninit, "initial design not evaluated");
        std::vector<V> now;
        for (size_t k = e0 + ninit; k < l.evals.size(); k++)
            now.push_back(l.evals[k].x);
        P.insert(P.end(), now.begin(), now.end());
        total += now.size();
        if (!fresh && !now.empty())
            cont = true;
        check_cells(s, P);
        s.check((int)now.size() >= its, "fewer evaluations than configured", std::to_string(now.size()));
        s.check(bo.current_iteration() == (int)now.size(), "iteration counter", std::to_string(bo.current_iteration()) + " for " + std::to_string(now.size()) + " evaluations");
        s.check(bo.total_iterations() == total, "total iteration counter", std::to_string(bo.total_iterations()) + " for " + std::to_string(total) + " evaluations");
        auto X = good_x(start), Y = good_y(start);
        s.check(same(bo.samples(), X), "samples are not the evaluated points", std::to_string(bo.samples().size()) + " recorded, " + std::to_string(X.size()) + " evaluated");
        s.check(same(bo.observations(), Y), "observations are not the returned ones");
        int b = best_of(Y, a);
        s.check(same(bo.best_observation(a), Y[b]) && same(bo.best_sample(a), X[b]), "best point is not the first largest of the history");
        s.check(same(bo.model().samples(), X) && same(bo.model().observations(), Y), "model after a run");
        s.check(l.hp.size() - hp0 == (g_hp ? 1u : 0u), "hyper-parameters are optimised once per run when asked for");
        ref.ninit = ninit_of;
        ref.next({fresh, its, a, start, l.evals.size()}, !fresh && a.id != last_agg);
        last_agg = a.id;
    }
    s.nontrivial(ref.compared >= 8);
    for (int d : {5, 20, 60})
        if ((int)ref.T.size() > d)
            s.label("tree deeper than " + std::to_string(d));
    if (cont)
        s.label("continued");
    if (ref.late)
        s.label("a cell that had a bound is evaluated");
    if (ref.skipped)
        s.label("a cell is skipped by look-ahead");
    s.label(ref.stopped ? "reference: " + ref.why : std::string("reference compared to the end"));
}
template <typename Model>
void any_init(Src& s, int d, int budget)
{
    if (s.p(0.6)) {
        s << " none";
        return tree<limbo::init::NoInit<TP>, Model>(s, d, budget);
    }
    s << " random";
    return tree<limbo::init::RandomSampling<TP>, Model>(s, d, budget);
}
using TGP = limbo::model::GP<TP, limbo::kernel::SquaredExpARD<TP>, limbo::mean::Data<TP>, HPRec<TP>>;
using TGP0 = limbo::model::GP<TP, limbo::kernel::MaternFiveHalves<TP>, limbo::mean::NullFunction<TP>, HPRec<TP>>;
PBT_SUITE("one dimension", 3, "at least eight evaluations were compared with the reference search")
{
    reset_bo(s);
    if (s.b())
        return any_init<TGP>(s, 1, 30);
    return any_init<TGP0>(s, 1, 30);
}
PBT_SUITE("several dimensions", 2, "at least eight evaluations were compared with the reference search")
{
    reset_bo(s);
    if (s.b())
        return any_init<TGP>(s, 4, 50);
    return any_init<TGP0>(s, 4, 50);
}
