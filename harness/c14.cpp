// C14: initial designs
#include "bo.hpp"
using namespace lv;
using LMod = ListModel<BP>;

template <typename Init>
std::vector<V> design(Src& s, const std::string& w)
{
    using B = BO<Init, LMod>;
    bc().iterations = 0;
    B bo;
    bo.optimize(Fn(), Agg());
    auto& l = lg();
    s.check(bo.samples().size() == l.evals.size() && bo.observations().size() == l.evals.size(), w + "/every evaluation recorded exactly once", std::to_string(l.evals.size()) + " evaluations, " + std::to_string(bo.samples().size()) + " samples, " + std::to_string(bo.observations().size()) + " observations");
    for (size_t i = 0; i < l.evals.size(); i++) {
        s.check(same(bo.samples()[i], l.evals[i].x) && (int)l.evals[i].x.size() == bc().din, w + "/sample recorded");
        s.check(same(bo.observations()[i], l.evals[i].y), w + "/observation recorded");
        if (bc().bounded)
            s.check(in_unit(l.evals[i].x), w + "/outside the unit hypercube", str(l.evals[i].x));
        s.check(finite(l.evals[i].x), w + "/not finite");
    }
    return bo.samples();
}

PBT_SUITE("grid", 3, "a grid of at least 4 nodes")
{
    reset_bo(s);
    bc().bounded = s.p(0.8);
    int D = bc().din, maxb[] = {0, 300, 30, 9, 5};
    int bins = bc().gs_bins = s.p(0.3) ? s.pick(std::vector<int>{10, 3, 7, 6, 5, 9}) % (maxb[D] + 1) : s.i(1, maxb[D]);
    if (bins == 0)
        bins = bc().gs_bins = 1;
    s << " grid bins=" << bins;
    auto X = design<limbo::init::GridSampling<BP>>(s, "grid");
    size_t want = 1;
    for (int i = 0; i < D; i++)
        want *= bins + 1;
    s.nontrivial(want >= 4);
    s.check(X.size() == want, "grid/number of points", std::to_string(X.size()) + " instead of " + std::to_string(want));
    std::set<std::vector<int>> seen;
    for (auto& x : X) {
        std::vector<int> k;
        for (int i = 0; i < D; i++) {
            int n = (int)std::floor(x(i) * bins + 0.5);
            s.check(n >= 0 && n <= bins && std::abs(x(i) - n / (double)bins) < 1e-9, "grid/not a node", str(x));
            k.push_back(n);
        }
        s.check(seen.insert(k).second, "grid/node visited twice", str(x));
    }
}

PBT_SUITE("random", 2, "at least 2 points")
{
    reset_bo(s);
    if (s.p(0.02))
        bc().din = s.i(5, 12);
    bc().bounded = s.b();
    int n = bc().rs_samples = s.weighted({3, 2, 1}) == 2 ? s.i(0, 200) : s.i(0, 20);
    s << " random n=" << n << " bounded=" << bc().bounded;
    auto X = design<limbo::init::RandomSampling<BP>>(s, "random");
    s.nontrivial(n >= 2);
    s.check((int)X.size() == n, "random/number of points", std::to_string(X.size()) + " instead of " + std::to_string(n));
    // every point is a fresh draw, and coordinates are drawn separately
    for (int i = 0; i < n; i++)
        for (int d = 0; d < bc().din; d++) {
            for (int j = 0; j < i; j++)
                s.check(X[i](d) != X[j](d), "random/coordinate repeated between points");
            for (int e = 0; e < d; e++)
                s.check(X[i](d) != X[i](e), "random/coordinate repeated within a point");
        }
    if (n >= 60) {
        // each coordinate reaches both halves of the box (unbounded: both signs, and leaves the box)
        for (int d = 0; d < bc().din; d++) {
            int lo = 0, hi = 0, out = 0;
            for (auto& x : X) {
                lo += x(d) < (bc().bounded ? 0.5 : 0.);
                hi += x(d) > (bc().bounded ? 0.5 : 0.);
                out += std::abs(x(d)) > 1;
            }
            s.check(lo > 0 && hi > 0, "random/one-sided");
            if (!bc().bounded)
                s.check(out > n / 3, "random/unbounded points stay near the box");
        }
    }
}

PBT_SUITE("random grid", 2, "at least 2 points")
{
    reset_bo(s);
    if (s.p(0.02))
        bc().din = s.i(5, 12);
    int bins = bc().rg_bins = s.size(1, 12, 50, 0.02);
    int n = bc().rg_samples = s.p(0.3) ? 60 * (bins + 1) : s.i(0, 20);
    s << " random grid n=" << n << " bins=" << bins;
    auto X = design<limbo::init::RandomSamplingGrid<BP>>(s, "random grid");
    s.nontrivial(n >= 2);
    s.check((int)X.size() == n, "random grid/number of points", std::to_string(X.size()) + " instead of " + std::to_string(n));
    std::vector<std::vector<int>> hit(bc().din, std::vector<int>(bins + 1, 0));
    bool diag = bc().din > 1;
    for (auto& x : X)
        for (int d = 0; d < bc().din; d++) {
            int k = (int)std::floor(x(d) * bins + 0.5);
            s.check(k >= 0 && k <= bins && std::abs(x(d) - k / (double)bins) < 1e-9, "random grid/not a node", str(x));
            hit[d][k]++;
            if (x(d) != x(0))
                diag = false;
        }
    if (n >= 60 * (bins + 1)) {
        s.label("coverage of all node values");
        for (int d = 0; d < bc().din; d++)
            for (int k = 0; k <= bins; k++)
                s.check(hit[d][k] > 0, "random grid/node value never drawn", "value " + std::to_string(k) + "/" + std::to_string(bins));
        s.check(!diag, "random grid/coordinates equal within every point");
    }
}

PBT_SUITE("lhs", 3, "at least 2 points")
{
    reset_bo(s);
    if (s.p(0.02))
        bc().din = s.i(5, 12);
    int n = bc().lhs_samples = s.p(0.2) ? s.i(20, 150) : s.i(1, 20);
    s << " lhs n=" << n;
    auto X = design<limbo::init::LHS<BP>>(s, "lhs");
    s.nontrivial(n >= 2);
    s.check((int)X.size() == n, "lhs/number of points", std::to_string(X.size()) + " instead of " + std::to_string(n));
    std::vector<std::vector<int>> order;
    for (int d = 0; d < bc().din; d++) {
        std::vector<std::pair<double, int>> c;
        for (int i = 0; i < n; i++)
            c.push_back({X[i](d), i});
        std::sort(c.begin(), c.end());
        std::vector<int> o(n);
        bool sorted = true;
        for (int k = 0; k < n; k++) {
            // exactly one point in each of the n equal strata
            s.check(c[k].first * n >= k - 1e-9 && c[k].first * n <= k + 1 + 1e-9, "lhs/stratum without exactly one point", "stratum " + std::to_string(k) + " of dimension " + std::to_string(d) + ": " + std::to_string(c[k].first));
            o[c[k].second] = k;
            sorted = sorted && c[k].second == k;
        }
        if (n >= 14)
            for (auto& p : order)
                s.check(p != o, "lhs/two dimensions use the same permutation");
        order.push_back(o);
    }
}

PBT_SUITE("none", 1, "the model knows its dimensions without any sample")
{
    reset_bo(s);
    using B = BO<limbo::init::NoInit<BP>, LMod>;
    bc().iterations = s.i(0, 2);
    B bo;
    bo.optimize(Fn(), Agg());
    s.nontrivial();
    s.check((int)lg().evals.size() == bc().iterations && (int)bo.samples().size() == bc().iterations, "none/evaluations");
    s.check(bo.model().dim_in() == bc().din && bo.model().dim_out() == bc().dout, "none/dimensions of the model");
}
