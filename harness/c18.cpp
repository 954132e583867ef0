// C18: failed evaluations
#include "bo.hpp"
#include <limbo/acqui/ei.hpp>
using namespace lv;

template <typename Init, typename Model>
void faulty(Src& s)
{
    using B = BO<Init, Model>;
    bc().bounded = true;
    bc().hp_period = s.pick(std::vector<int>{-1, 1, 2});
    bc().rs_samples = s.size(0, 5, 40, 0.01);
    bc().lhs_samples = s.size(1, 5, 40, 0.01);
    B bo;
    auto& l = lg();
    int runs = s.i(1, 5);
    bool failed = false, after = false;
    size_t start = 0;
    s << " hp=" << bc().hp_period << " runs:";
    for (int r = 0; r < runs; r++) {
        bool reset = r == 0 ? s.p(0.8) : s.b();
        int its = bc().iterations = s.size(0, 6, 40, 0.01);
        Agg a;
        a.id = s.i(0, 3);
        size_t e0 = l.evals.size();
        l.fail_at = s.p(0.7) ? (int)e0 + s.i(0, 8) : -1;
        l.fail_how = s.i(1, 5);
        s << " " << (reset ? "reset" : "continue") << "x" << its << "a" << a.id;
        if (l.fail_at >= 0)
            s << "fail" << l.fail_how << "@+" << (l.fail_at - (int)e0);
        l.on_query = [&](const std::vector<V>& X, const std::vector<V>& Y) {
            size_t b = reset ? e0 : start;
            s.check(same(X, good_x(b)) && same(Y, good_y(b)), "model at an iteration holds other data than the recorded history");
        };
        int got = 0; // 0 nothing, 1 EvaluationError, 2 EvalThrow, 3 runtime_error
        std::string info;
        try {
            bo.optimize(Fn(), a, reset);
        }
        catch (const limbo::EvaluationError&) {
            got = 1;
        }
        catch (const EvalThrow& e) {
            got = 2;
            s.check(e.what == l.fail_at, "another exception than the one thrown");
        }
        catch (const std::runtime_error& e) {
            got = 3;
            s.check(e.what() == "evaluation " + std::to_string(l.fail_at), "another exception than the one thrown");
        }
        l.on_query = nullptr;
        if (reset)
            start = e0;
        bool did_fail = l.fail_at >= 0 && (int)l.evals.size() > l.fail_at;
        int want = !did_fail ? 0 : (l.fail_how <= 3 ? 1 : (l.fail_how == 4 ? 2 : 3));
        s.check(got == want, "the failure does not reach the caller", "failure kind " + std::to_string(did_fail ? l.fail_how : 0) + " outcome " + std::to_string(got));
        if (did_fail)
            s.check((int)l.evals.size() == l.fail_at + 1, "evaluations went on after the failure");
        auto X = good_x(start), Y = good_y(start);
        s.check(same(bo.samples(), X), "samples after a failure are not the successful points", std::to_string(bo.samples().size()) + " recorded, " + std::to_string(X.size()) + " successful");
        s.check(same(bo.observations(), Y), "observations after a failure are not the successful ones");
        for (auto& y : bo.observations())
            s.check(finite(y), "a non-finite observation was recorded");
        if (!Y.empty()) {
            int b = best_of(Y, a);
            s.check(same(bo.best_observation(a), Y[b]) && same(bo.best_sample(a), X[b]), "best point after a failure");
        }
        if (!did_fail) {
            s.check((int)(l.evals.size() - e0) >= its, "a later run makes its iterations");
            s.check(same(bo.model().samples(), X) && same(bo.model().observations(), Y), "model after a run");
        }
        if (failed && l.evals.size() > e0)
            after = true;
        if (did_fail) {
            failed = true;
            s.label((int)l.fail_at - (int)e0 < 1 ? "first evaluation of the run fails" : "later evaluation fails");
            s.label(l.fail_how <= 3 ? "non-finite observation" : "exception");
        }
    }
    s.nontrivial(failed);
    if (after)
        s.label("used again after a failure");
}
PBT_SUITE("gp", 3, "at least one evaluation failed")
{
    reset_bo(s);
    switch (s.u(3)) {
    case 0:
        s << " random";
        return faulty<limbo::init::RandomSampling<BP>, BGP>(s);
    case 1:
        s << " lhs";
        return faulty<limbo::init::LHS<BP>, BGP>(s);
    default:
        s << " none";
        return faulty<limbo::init::NoInit<BP>, BGP>(s);
    }
}
PBT_SUITE("stub model", 2, "at least one evaluation failed")
{
    reset_bo(s);
    faulty<limbo::init::RandomSampling<BP>, ListModel<BP>>(s);
}
// the public entry points for adding pairs
PBT_SUITE("adding pairs", 1, "a mixture of finite and non-finite observations")
{
    reset_bo(s);
    BO<limbo::init::NoInit<BP>, ListModel<BP>> bo;
    std::vector<V> X, Y;
    int n = s.i(1, 15), bad = 0;
    for (int i = 0; i < n; i++) {
        V x = vec(s, bc().din), y = vec(s, s.i(1, 5), -1e3, 1e3);
        bool nf = s.p(0.4);
        if (nf) {
            double v[] = {std::nan(""), -std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
            for (int k = s.i(1, 2); k > 0; k--)
                y(s.u(y.size())) = v[s.u(4)];
            bad++;
        }
        else if (s.p(0.3))
            y(s.u(y.size())) = s.pick(std::vector<double>{std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), 5e-324, -0.});
        bool thrown = false;
        try {
            if (s.b())
                bo.add_new_sample(x, y);
            else
                bo.eval_and_add([&](const V&) { return y; }, x);
        }
        catch (const limbo::EvaluationError&) {
            thrown = true;
        }
        s.check(thrown == nf, nf ? "a non-finite observation is accepted" : "a finite observation is refused", str(y));
        if (!nf) {
            X.push_back(x);
            Y.push_back(y);
        }
        s.check(same(bo.samples(), X) && same(bo.observations(), Y), "recorded pairs");
    }
    s << " n=" << n << " bad=" << bad;
    s.nontrivial(bad > 0 && bad < n);
}
