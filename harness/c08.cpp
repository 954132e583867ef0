#include "gpzoo.hpp"
#include <fstream>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/serialize/binary_archive.hpp>
using namespace lv;

// all subsets reachable by repeatedly dropping a densest point, followed until one matches
struct Density {
    std::vector<V> X, Y;
    int D, limit;
    std::vector<std::vector<double>> dist;
    std::map<uint64_t, bool> memo;
    const std::vector<V>*wantX, *wantY;
    int ties = 0;
    bool gave_up = false;
    Density(const std::vector<V>& x, const std::vector<V>& y, int lim) : X(x), Y(y), D(x[0].size()), limit(lim)
    {
        size_t n = x.size();
        dist.assign(n, std::vector<double>(n, 0.));
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                dist[i][j] = (x[i] - x[j]).norm();
    }
    bool go(uint64_t mask)
    {
        auto it = memo.find(mask);
        if (it != memo.end())
            return it->second;
        if (memo.size() > 20000) { // too many ties to follow
            gave_up = true;
            return true;
        }
        std::vector<int> idx;
        for (size_t i = 0; i < X.size(); i++)
            if (mask & (1ull << i))
                idx.push_back(i);
        bool r = false;
        if ((int)idx.size() <= limit) {
            r = idx.size() == wantX->size();
            for (size_t k = 0; r && k < idx.size(); k++)
                r = same(X[idx[k]], (*wantX)[k]) && same(Y[idx[k]], (*wantY)[k]);
        }
        else {
            std::vector<double> sums;
            double mn = 1e300;
            for (int i : idx) {
                std::vector<double> d;
                for (int j : idx)
                    if (j != i)
                        d.push_back(dist[i][j]);
                std::sort(d.begin(), d.end());
                double t = 0;
                for (size_t k = 0; k < d.size() && k < (size_t)D; k++)
                    t += d[k];
                sums.push_back(t);
                mn = std::min(mn, t);
            }
            int c = 0;
            for (size_t k = 0; k < idx.size(); k++)
                if (sums[k] <= mn * (1 + 1e-11) + 1e-300) {
                    c++;
                    if (!r && go(mask & ~(1ull << idx[k])))
                        r = true;
                }
            if (c > 1)
                ties++;
        }
        return memo[mask] = r;
    }
    bool reachable(const std::vector<V>& wx, const std::vector<V>& wy)
    {
        wantX = &wx;
        wantY = &wy;
        memo.clear();
        return go((1ull << X.size()) - 1);
    }
};

template <typename Zt>
void sparse(Src& s, Zt)
{
    using GP = limbo::model::SparsifiedGP<typename Zt::Params, typename Zt::KF, typename Zt::MF>;
    gen_cfg(s);
    cfg().max_points = s.pick(std::vector<int>{1, 2, 3, 4, 6, 8, 10});
    if (s.p(0.004))
        cfg().max_points = s.i(20, 50);
    int L = cfg().max_points;
    int D = s.pick(std::vector<int>{1, 1, 2, 2, 3, 5, 8}), P = s.weighted({4, 1}) + 1;
    bool known = s.b();
    std::unique_ptr<GP> gp(known ? new GP(D, P) : new GP());
    typename Zt::St st;
    st.reset_kernel(D);
    st.reset_mean(P);
    if (known && s.b()) {
        st.kp = KT<typename Zt::KF>::gen(s, D);
        gp->kernel_function().set_h_params(st.kp);
    }
    s << Zt::name() << " limit " << L << " D=" << D << " P=" << P << " ops:";
    bool dropped = false;
    int nops = s.i(1, 8);
    auto verify = [&](const std::vector<V>& X, const std::vector<V>& Y, bool changed = true) {
        int L = changed ? cfg().max_points : (int)X.size(); // nothing is dropped until the data change
        std::vector<V> gx = gp->samples(), gy = gp->observations();
        s.check((int)gx.size() <= L, "more points than allowed", std::to_string(gx.size()));
        s.check(gx.size() == std::min(X.size(), (size_t)L), "wrong number of retained points", std::to_string(gx.size()));
        s.check(gx.size() == gy.size(), "samples and observations do not pair up");
        Density d(X, Y, L);
        if ((int)X.size() > L) {
            dropped = true;
            s.label((int)X.size() - 1 < D ? "fewer neighbours than dimensions" : "points dropped");
            bool ok = d.reachable(gx, gy);
            if (d.gave_up)
                s.discard();
            s.check(ok, "retained points", "not obtained by dropping densest points: given " + str(X) + " retained " + str(gx));
        }
        else
            s.check(same(gx, X) && same(gy, Y), "points lost below the limit");
        st.X = std::vector<V>(gx);
        st.Y = std::vector<V>(gy);
        Ref r = st.ref();
        if (!r.ok || r.cond > 1e8)
            s.discard();
        check_data(s, *gp, st, "sparse/data");
        check_predictions(s, *gp, st, r, queries(s, X, D, 2), "sparse", 4.);
    };
    for (int o = 0; o < nops; o++) {
        int op = s.weighted({8, 4, 1, 1, 1});
        if (op >= 2 && st.X.empty())
            continue;
        if (op == 2) { // goes on in a copy, or from an archive
            std::unique_ptr<GP> g(s.b() ? new GP() : new GP(D, P));
            if (s.b()) {
                limbo::serialize::BinaryArchive a(s.dir() + "/saved" + std::to_string(o));
                gp->save(a);
                g->load(a, s.b());
                s << " archive";
            }
            else {
                *g = *gp;
                s << " copy";
            }
            gp = std::move(g);
            verify(st.X, st.Y, false);
        }
        else if (op == 3) { // other hyper-parameters
            st.kp = KT<typename Zt::KF>::gen(s, D);
            gp->kernel_function().set_h_params(st.kp);
            gp->recompute();
            s << " parameters";
            verify(st.X, st.Y, false);
        }
        else if (op == 4) { // another limit, in force at the next change of the data
            L = cfg().max_points = s.i(1, 12);
            s << " limit " << L;
        }
        else if (op == 0) { // additions
            int k = s.size(1, 4, 10);
            for (int a = 0; a < k; a++) {
                V x = st.X.empty() || s.p(0.7) ? vec(s, D) : V(st.X[s.u(st.X.size())] + (s.b() ? 0. : 1e-2) * vec(s, D, -1, 1));
                V y = observations(s, 1, P)[0];
                auto X = st.X, Y = st.Y;
                X.push_back(x);
                Y.push_back(y);
                gp->add_sample(x, y);
                s << " add" << str(x);
                verify(X, Y);
            }
        }
        else {
            int n = L >= 20 ? s.i(L - 3, L + 10) : s.i(1, std::min(L + 6, 15));
            bool same = !st.X.empty() && s.p(0.2); // points it kept, observed differently
            auto X = same ? st.X : points(s, n, D);
            auto Y = observations(s, X.size(), P);
            gp->compute(X, Y);
            s << " compute" << str(X);
            verify(X, Y);
        }
    }
    s.nontrivial(dropped);
}
PBT_SUITE(PARTNAME("sparse"), 10, "a history in which at least one point had to be dropped")
{
    with_zoo(s, [&](auto z) { sparse(s, z); });
}
