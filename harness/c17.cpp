// C17: the optimiser's model and best point reflect the whole history
#include "bo.hpp"
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/opt/rprop.hpp>
using namespace lv;
using DB = limbo::bayes_opt::BOptimizer<BP>;

template <typename GP>
void same_as_fresh(Src& s, const GP& m, const std::vector<V>& X, const std::vector<V>& Y, const std::string& w)
{
    s.check(same(m.samples(), X) && same(m.observations(), Y), w + "/the model holds other data than the history", std::to_string(m.nb_samples()) + " samples in the model, " + std::to_string(X.size()) + " in the history");
    s.check(m.nb_samples() == (int)X.size() && m.dim_in() == bc().din && m.dim_out() == bc().dout, w + "/dimensions of the model");
    GP f(bc().din, bc().dout);
    V p = m.kernel_function().h_params();
    f.kernel_function().set_h_params(p);
    if (m.mean_function().h_params_size())
        f.mean_function().set_h_params(m.mean_function().h_params());
    if (!X.empty())
        f.compute(X, Y);
    double ym = 1e-12;
    for (auto& y : Y)
        ym = std::max(ym, y.cwiseAbs().maxCoeff());
    // relative to the conditioning of the kernel matrix: (n sf2 + noise) / noise
    double k0 = m.kernel_function()(V::Zero(bc().din), V::Zero(bc().din)), nz = m.kernel_function().noise();
    double c = 10 + (X.size() * k0 + nz) / nz;
    for (int k = 0; k < 2; k++) {
        V q = k == 0 && X.size() ? V(X[X.size() / 2]) : vec(s, bc().din);
        V a = m.mu(q), b = f.mu(q);
        for (int j = 0; j < bc().dout; j++)
            s.close(a(j), b(j), 1e-12 * c * ym * (1 + X.size()), w + "/mean differs from a fresh model");
        s.close(m.sigma(q), f.sigma(q), 1e-12 * c * k0 * (1 + X.size()), w + "/variance differs from a fresh model");
    }
}

template <typename Init, typename Model>
void consistent(Src& s, bool rec)
{
    // at each query of the acquisition function
    static thread_local const Model* mod;
    using B = BO<Init, Model>;
    bc().bounded = s.p(0.8);
    bc().hp_period = s.pick(std::vector<int>{-1, 1, 2, 3, 5, 0});
    bc().rs_samples = s.size(0, 5, 40, 0.01);
    B bo;
    size_t start = 0, hp0 = 0;
    int total = 0, runs = s.i(1, 4), did = 0;
    auto& l = lg();
    s << " bounded=" << bc().bounded << " hp=" << bc().hp_period << " runs:";
    V last_p;
    for (int r = 0; r < runs; r++) {
        bool reset = r == 0 ? s.p(0.8) : s.b();
        int its = bc().iterations = s.weighted({1, 6}) ? s.size(1, 9, 50, 0.01) : 0;
        Agg a;
        a.id = s.i(0, 3);
        s << " " << (reset ? "reset" : "continue") << "x" << its << "a" << a.id;
        size_t e0 = l.evals.size();
        size_t b = reset ? e0 : start;
        std::string w = r ? "later run" : "first run";
        int every = s.i(1, 4), cnt = 0;
        bool hp_happened = false;
        l.on_query = [&](const std::vector<V>& X, const std::vector<V>& Y) {
            s.check(same(X, good_x(b)) && same(Y, good_y(b)), w + "/model at an iteration holds other data than the history", std::to_string(X.size()) + " samples in the model, " + std::to_string(l.evals.size() - b) + " in the history");
            if (++cnt % every == 0 && s.p(0.3))
                same_as_fresh(s, bo.model(), good_x(b), good_y(b), w + "/at an iteration");
        };
        bo.optimize(Fn(), a, reset);
        l.on_query = nullptr;
        if (reset)
            start = e0, total = 0;
        bool init = reset || total == 0;
        int ninit = (int)(l.evals.size() - e0) - its;
        did += its;
        total += its;
        same_as_fresh(s, bo.model(), good_x(start), good_y(start), w + "/at the end");
        if (rec) {
            // re-optimised after iterations period, 2*period, ... of this run and at no other time
            std::vector<size_t> got(l.hp.begin() + hp0, l.hp.end()), want;
            for (int k = 1; k <= its; k++)
                if (bc().hp_period > 0 && k % bc().hp_period == 0)
                    want.push_back(e0 + ninit + k);
            s.check(got == want, w + "/hyper-parameters optimised at other iterations than configured", std::to_string(got.size()) + " times instead of " + std::to_string(want.size()) + ", period " + std::to_string(bc().hp_period));
            hp0 = l.hp.size();
            if (want.size())
                s.label("hyper-parameters re-optimised");
        }
        auto X = good_x(start), Y = good_y(start);
        if (!Y.empty()) {
            for (int id = 0; id < 4; id++) {
                Agg q;
                q.id = id;
                int i = best_of(Y, q);
                s.check(same(bo.best_observation(q), Y[i]), w + "/best observation", "aggregator " + std::to_string(id) + " got " + str(bo.best_observation(q)) + " expected " + str(Y[i]));
                s.check(same(bo.best_sample(q), X[i]), w + "/best sample", "aggregator " + std::to_string(id) + " got " + str(bo.best_sample(q)) + " expected " + str(X[i]));
            }
            Agg q0;
            int i0 = best_of(Y, q0);
            s.check(same(bo.best_observation(), Y[i0]) && same(bo.best_sample(), X[i0]), w + "/best with the default aggregator");
            for (size_t i = 0; i < Y.size(); i++)
                if ((int)i != i0 && Y[i](0) == Y[i0](0)) {
                    s.label("tie for the best");
                    break;
                }
        }
        (void)init;
    }
    s.nontrivial(did >= 2);
}
using GPLF = limbo::model::GP<BP, limbo::kernel::SquaredExpARD<BP>, limbo::mean::Data<BP>, limbo::model::gp::KernelLFOpt<BP>>;

PBT_SUITE("recorded hyper-parameter optimiser", 5, "at least two iterations over all runs of a case")
{
    reset_bo(s);
    if (s.b())
        return consistent<limbo::init::RandomSampling<BP>, BGP>(s, true);
    return consistent<limbo::init::NoInit<BP>, BGP>(s, true);
}
PBT_SUITE("likelihood hyper-parameter optimiser", 1, "at least two iterations over all runs of a case")
{
    reset_bo(s);
    cfg().rprop_it = s.i(1, 6);
    consistent<limbo::init::RandomSampling<BP>, GPLF>(s, false);
}
// what best_sample/best_observation return only depends on the history, however it was filled
PBT_SUITE("best point", 2, "at least 3 pairs added by hand")
{
    reset_bo(s);
    BO<limbo::init::NoInit<BP>, ListModel<BP>> bo;
    int n = s.i(1, 30);
    std::vector<V> X, Y;
    int grid = s.i(1, 6);
    for (int i = 0; i < n; i++) {
        X.push_back(vec(s, bc().din));
        V y(bc().dout);
        for (int j = 0; j < y.size(); j++)
            y(j) = s.p(0.7) ? (double)s.i(-grid, grid) : s.uni(-1, 1) * std::pow(10., s.i(-300, 300));
        Y.push_back(y);
        bo.add_new_sample(X.back(), Y.back());
        Agg a;
        a.id = s.i(0, 3);
        int b = best_of(Y, a);
        s.check(same(bo.best_observation(a), Y[b]), "best observation", "got " + str(bo.best_observation(a)) + " of " + str(Y));
        s.check(same(bo.best_sample(a), X[b]), "best sample");
    }
    s << " n=" << n << " Y=" << str(Y);
    s.nontrivial(n >= 3);
}
