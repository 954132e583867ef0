// What optimisers promise about their result and their number of evaluations.
#include "opts.hpp"
#include <limbo/tools/parallel.hpp>
using namespace lv;
using namespace limbo::opt;

static bool better(double a, double b) { return a > b; } // NaN is never better

PBT_SUITE("grid search", 10, "at least two bins and a non-constant objective")
{
    int D = s.i(1, 3);
    gen_oc(s, D);
    Obj f = gen_obj(s, D, NALL);
    int B = oc().bins;
    V init = gen_init(s, D);
    s << "D=" << D << " bins=" << B << " " << f.name() << " c=" << str(f.c) << " w=" << str(f.w);
    V r = GridSearch<OP>()(f, init, true);
    size_t total = 1;
    for (int i = 0; i < D; i++)
        total *= B + 1;
    std::vector<char> seen(total, 0);
    double best = -std::numeric_limits<double>::infinity(), got = 0;
    bool found = false, any = false;
    for (auto& c : *f.calls) {
        s.check(c.x.size() == D, "dimension of an evaluation");
        size_t idx = 0;
        for (int i = 0; i < D; i++) {
            double k = c.x(i) * B;
            long n = std::lround(k);
            s.check(std::abs(k - n) < 1e-9 * B && n >= 0 && n <= B, "evaluation that is not a node of the grid", str(c.x));
            idx = idx * (B + 1) + n;
        }
        seen[idx] = 1;
        s.check(!c.g, "gradient asked for");
        if (!std::isnan(c.f) && (!any || c.f > best)) {
            best = c.f;
            any = true;
        }
        if (same(c.x, r)) {
            found = true;
            got = c.f;
        }
    }
    for (size_t i = 0; i < total; i++)
        s.check(seen[i], "a node of the grid was not evaluated");
    s.check(found, "the result was not evaluated", str(r));
    // with NaN values anything finite beats them
    if (best > -std::numeric_limits<double>::max())
        s.check(got == best, "the result is not a best node", std::to_string(got) + " < " + std::to_string(best));
    s.label(f.name());
    s.nontrivial(B >= 2 && f.shape != FLAT);
}

PBT_SUITE("rprop", 10, "at least two evaluations with different values")
{
    int D = s.p(0.01) ? s.i(6, 15) : s.pick(std::vector<int>{1, 2, 3, 6});
    gen_oc(s, D);
    bool bounded = s.b();
    Obj f = gen_obj(s, D, NALL);
    V init = gen_init(s, D);
    s << "D=" << D << " it=" << oc().it << " eps=" << oc().eps << (bounded ? " bounded " : " ") << f.name() << " c=" << str(f.c) << " w=" << str(f.w) << " scale=" << f.scale << " init=" << str(init);
    V r = Rprop<OP>()(f, init, bounded);
    V start = bounded ? clampv(init) : init;
    auto& C = *f.calls;
    s.check((int)C.size() <= std::max(oc().it, 0), "more evaluations than iterations", std::to_string(C.size()));
    if (oc().eps == 0)
        s.check((int)C.size() == oc().it, "fewer evaluations than iterations", std::to_string(C.size()));
    if (C.empty()) {
        s.check(same(r, start), "no iteration: the start must be returned", str(r));
        return;
    }
    s.check(same(C[0].x, start), "the first evaluation is not the start", str(C[0].x));
    double best = -std::numeric_limits<double>::infinity();
    bool diff = false;
    for (auto& c : C) {
        best = better(c.f, best) ? c.f : best;
        diff = diff || c.f != C[0].f;
    }
    bool found = false;
    for (auto& c : C)
        if (same(c.x, r) && (c.f == best || (std::isinf(best) && best < 0)))
            found = true;
    s.check(found, "the result is not the best evaluated point", str(r) + " value " + std::to_string(f.value(r)) + " best " + std::to_string(best));
    s.label(f.name());
    s.nontrivial(C.size() >= 2 && diff);
}

// an inner optimiser that records how it was called and answers with a function of its start
struct ProbeLog {
    std::mutex m;
    struct E {
        int id;
        V init, out;
        bool bounded;
    };
    std::vector<E> e;
    int mode = 0;
    V shift;
};
static ProbeLog* plog;
template <int ID>
struct Probe {
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        V out = init;
        switch (plog->mode) {
        case 0:
            break;
        case 1:
            out = init + plog->shift * (ID + 1);
            break;
        case 2:
            out = V(-0.5 * init + plog->shift);
            break;
        }
        if (bounded)
            out = clampv(out);
        f(out, false);
        std::lock_guard<std::mutex> l(plog->m);
        plog->e.push_back({ID, init, out, bounded});
        return out;
    }
};
PBT_SUITE("repeater", 10, "at least two repeats whose results have different values")
{
    int D = s.size(1, 4, 10);
    gen_oc(s, D);
    ProbeLog log;
    plog = &log;
    log.mode = s.u(3);
    log.shift = vec(s, D, -1, 1);
    bool bounded = s.b();
    Obj f = gen_obj(s, D, NALL);
    V init = gen_init(s, D);
    s << "D=" << D << " repeats=" << oc().repeats << " epsilon=" << oc().epsilon << (bounded ? " bounded " : " ") << f.name() << " init=" << str(init);
    V r = ParallelRepeater<OP, Probe<0>>()(f, init, bounded);
    s.check((int)log.e.size() == oc().repeats, "number of repeats", std::to_string(log.e.size()));
    double best = -std::numeric_limits<double>::infinity();
    bool diff = false, found = false;
    for (auto& e : log.e) {
        s.check(e.bounded == bounded, "boundedness not passed on");
        s.check(e.init.size() == D, "dimension of the start");
        V d = e.init - init;
        // the starts may be moved into the box
        V lo = init.array() - oc().epsilon, hi = init.array() + oc().epsilon;
        if (bounded && in_box(e.init, D)) {
            lo = clampv(lo);
            hi = clampv(hi);
        }
        for (int i = 0; i < D; i++)
            s.check(e.init(i) >= lo(i) - 1e-12 * (1 + std::abs(lo(i))) && e.init(i) <= hi(i) + 1e-12 * (1 + std::abs(hi(i))), "start further away than configured", str(d));
        double v = f.value(e.out);
        best = better(v, best) ? v : best;
        diff = diff || v != f.value(log.e[0].out);
    }
    for (auto& e : log.e)
        if (same(e.out, r) && f.value(e.out) == best)
            found = true;
    if (best > -std::numeric_limits<double>::max())
        s.check(found, "not the best result", str(r) + " value " + std::to_string(f.value(r)) + " best " + std::to_string(best));
    // the perturbations are drawn anew for every repeat
    if (oc().repeats > 1 && oc().epsilon > 1e-5 && !bounded) {
        std::set<std::vector<double>> starts;
        for (auto& e : log.e)
            starts.insert(std::vector<double>(e.init.data(), e.init.data() + D));
        s.check((int)starts.size() == oc().repeats, "the starts are not different");
    }
    // both signs and more than half of the range are used
    if (oc().repeats >= 12 && D >= 4 && !bounded) {
        double mn = 1, mxx = -1;
        for (auto& e : log.e) {
            V d = (e.init - init) / oc().epsilon;
            mn = std::min(mn, d.minCoeff());
            mxx = std::max(mxx, d.maxCoeff());
        }
        s.check(mn < -0.2 && mxx > 0.2, "the starts do not spread over the configured range", std::to_string(mn) + " " + std::to_string(mxx));
    }
    s.label(f.name());
    s.nontrivial(oc().repeats >= 2 && diff);
}
PBT_SUITE("chained", 6, "three chained optimisers with changing points")
{
    int D = s.size(1, 4, 10);
    gen_oc(s, D);
    ProbeLog log;
    plog = &log;
    log.mode = s.i(1, 2);
    log.shift = vec(s, D, -1, 1);
    bool bounded = s.b();
    Obj f = gen_obj(s, D, NSHAPES);
    V init = gen_init(s, D);
    int n = s.i(1, 4);
    s << "D=" << D << " n=" << n << (bounded ? " bounded " : " ") << f.name() << " init=" << str(init);
    V r;
    if (n == 1)
        r = Chained<OP, Probe<0>>()(f, init, bounded);
    else if (n == 2)
        r = Chained<OP, Probe<0>, Probe<1>>()(f, init, bounded);
    else if (n == 3)
        r = Chained<OP, Probe<0>, Probe<1>, Probe<2>>()(f, init, bounded);
    else
        r = Chained<OP, Probe<0>, Chained<OP, Probe<1>, Probe<2>>, Probe<3>>()(f, init, bounded);
    s.check((int)log.e.size() == n, "number of optimisers called");
    V cur = init;
    for (int k = 0; k < n; k++) {
        s.check(log.e[k].id == k, "order of the optimisers");
        s.check(same(log.e[k].init, cur), "start of an optimiser is not the previous result", str(log.e[k].init));
        s.check(log.e[k].bounded == bounded, "boundedness not passed on");
        cur = log.e[k].out;
    }
    s.check(same(r, cur), "result of the last optimiser not returned", str(r));
    s.check((int)f.calls->size() == n, "objective not passed on");
    s.nontrivial(n >= 3);
}
PBT_SUITE("random point", 4, "every case draws 50 points")
{
    int D = s.p(0.01) ? s.i(6, 15) : s.pick(std::vector<int>{1, 2, 3, 8});
    gen_oc(s, D);
    Obj f = gen_obj(s, D, NSHAPES);
    V init = gen_init(s, D);
    s << "D=" << D;
    std::set<std::vector<double>> pts;
    V mn = V::Ones(D), mx = V::Zero(D);
    RandomPoint<OP> o;
    for (int i = 0; i < 50; i++) {
        V r = s.b() ? o(f, init, true) : RandomPoint<OP>()(f, init, true);
        s.check(in_box(r, D), "outside the box", str(r));
        mn = mn.cwiseMin(r);
        mx = mx.cwiseMax(r);
        pts.insert(std::vector<double>(r.data(), r.data() + D));
    }
    s.check(pts.size() == 50, "repeated points");
    s.check(mn.maxCoeff() < 0.6 && mx.minCoeff() > 0.4, "points do not spread over the box", str(mn) + " " + str(mx));
    s.check(f.calls->empty(), "random search evaluated the objective");
    s.nontrivial(true);
}
PBT_SUITE("iterations", 6, "at least two iterations")
{
    int D = s.size(1, 3, 15);
    gen_oc(s, D);
    bool bounded = s.b();
    Obj f = gen_obj(s, D, NSHAPES);
    V init = gen_init(s, D);
    int which = s.u(2);
    s << (which ? "adam" : "gradient ascent") << " D=" << D << " it=" << oc().it << " eps=" << oc().eps << " " << f.name();
    V r;
    if (which)
        r = Adam<OP>()(f, init, bounded);
    else
        r = GradientAscent<OP>()(f, init, bounded);
    auto& C = *f.calls;
    s.check(r.size() == D, "dimension of the result");
    s.check((int)C.size() <= oc().it, "more evaluations than iterations", std::to_string(C.size()));
    if (oc().eps == 0)
        s.check((int)C.size() == oc().it, "fewer evaluations than iterations", std::to_string(C.size()));
    if (C.empty())
        s.check(same(r, bounded ? clampv(init) : init), "no iteration: the start must be returned");
    s.nontrivial(C.size() >= 2);
}
PBT_SUITE("nlopt budget", 3, "at least five evaluations")
{
    int D = s.i(2, 3);
    gen_oc(s, D);
    Obj f = gen_obj(s, D, FLAT + 1);
    f.scale = 1;
    V init = vec(s, D);
    bool grad = s.b();
    s << (grad ? "gradient" : "no gradient") << " D=" << D << " evaluations=" << oc().nit;
    V r = grad ? NLOptGrad<OP>()(f, init, true) : NLOptNoGrad<OP, nlopt::LN_COBYLA>()(f, init, true);
    s.check((grad || (int)f.calls->size() <= oc().nit) && f.calls->size() >= 1, "number of evaluations", std::to_string(f.calls->size()));
    for (auto& c : *f.calls)
        s.check(c.g == grad, "gradient asked for without need, or not asked for");
    s.check(in_box(r, D), "result");
    s.nontrivial(f.calls->size() >= 5);
}
