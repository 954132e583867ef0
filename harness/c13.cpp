// Gradient optimisers against their published update rules, NLopt bindings against NLopt itself.
#include "opts.hpp"
using namespace lv;
using namespace limbo::opt;

static double sgn(double x) { return x > 0 ? 1. : x < 0 ? -1. : 0.; }
// one prediction: exact in the reference, a few ulps of slack for the code under test
static void at(Src& s, const V& got, const V& want, double slack, const std::string& w, int step, double scale = 1e-15)
{
    s.check(got.size() == want.size(), w + ": dimension");
    for (int i = 0; i < got.size(); i++)
        s.close(got(i), want(i), slack * (1e-300 + std::abs(want(i))) + slack * scale, w, "step " + std::to_string(step) + " coordinate " + std::to_string(i) + ":");
}
// the stopping decision is only judged when it is not a matter of rounding
static int stops(double norm, double eps)
{
    if (eps == 0)
        return 0;
    if (std::abs(norm - eps) <= 1e-9 * eps)
        return -1;
    return norm < eps;
}
#define RULE "at least three evaluations with a non-zero gradient"
static void describe(Src& s, const char* n, int D, bool bounded, const Obj& f, const V& init)
{
    s << n << " D=" << D << (bounded ? " bounded " : " ") << "it=" << oc().it << " eps=" << oc().eps << " alpha=" << oc().alpha << " b1=" << oc().b1 << " b2=" << oc().b2 << " gamma=" << oc().gamma << (oc().nesterov ? " nesterov " : " ") << f.name() << " scale=" << f.scale << " c=" << str(f.c) << " w=" << str(f.w) << " init=" << str(init);
    s.label(f.name());
    s.label(bounded ? "bounded" : "unbounded");
}
static bool active(const Obj& f)
{
    int n = 0;
    for (auto& c : *f.calls)
        n += c.grad.norm() > 0;
    return n >= 3;
}
PBT_SUITE("rprop", 10, RULE)
{
    int D = s.p(0.01) ? s.i(6, 40) : s.pick(std::vector<int>{1, 2, 4});
    gen_oc(s, D);
    bool bounded = s.b();
    Obj f = gen_obj(s, D, NSHAPES);
    V init = gen_init(s, D);
    describe(s, "rprop", D, bounded, f, init);
    V r = Rprop<OP>()(f, init, bounded);
    auto& C = *f.calls;
    // iRprop-: 0.1 first step, x1.2 on agreement (at most 50), x0.5 on disagreement (at least 1e-6) and no move
    V x = bounded ? clampv(init) : init, delta = V::Constant(D, 0.1), old = V::Zero(D);
    double best = -std::numeric_limits<double>::infinity();
    V bx = x;
    int t = 0;
    bool stopped = false, unsure = false, shrunk = false;
    for (; t < oc().it && !stopped; t++) {
        if (t >= (int)C.size())
            s.fail("stopped too early", std::to_string(C.size()) + " evaluations");
        s.check(C[t].g, "evaluation without gradient");
        at(s, C[t].x, x, 4e-15, "query", t);
        x = C[t].x;
        if (C[t].f > best) {
            best = C[t].f;
            bx = x;
        }
        V g = C[t].grad;
        for (int i = 0; i < D; i++) {
            double a = sgn(old(i)) * sgn(g(i));
            double prod = old(i) * g(i);
            if (a != 0 && prod == 0)
                unsure = true; // underflow of the product
            if (a > 0)
                delta(i) = std::min(delta(i) * 1.2, 50.);
            else if (a < 0) {
                delta(i) = std::max(delta(i) * 0.5, 1e-6);
                g(i) = 0;
                shrunk = true;
            }
            x(i) += sgn(g(i)) * delta(i);
        }
        if (unsure)
            s.discard();
        if (bounded)
            x = clampv(x);
        old = g;
        int st = stops(g.norm(), oc().eps);
        if (st < 0)
            s.discard();
        stopped = st;
    }
    s.check((int)C.size() == t, "number of evaluations", std::to_string(C.size()) + " instead of " + std::to_string(t));
    if (C.empty() || !(best > -std::numeric_limits<double>::infinity()))
        at(s, r, bx, 4e-15, "result", t);
    else { // any of the best points (ties)
        bool found = false;
        for (auto& c : C)
            found = found || (c.f == best && same(c.x, r));
        s.check(found, "result", str(r) + " instead of " + str(bx));
    }
    if (shrunk)
        s.label("sign change");
    if (stopped)
        s.label("tolerance met");
    s.nontrivial(active(f));
}
PBT_SUITE("adam", 10, RULE)
{
    int D = s.p(0.01) ? s.i(6, 40) : s.pick(std::vector<int>{1, 2, 4});
    gen_oc(s, D);
    bool bounded = s.b();
    Obj f = gen_obj(s, D, NSHAPES);
    V init = gen_init(s, D);
    describe(s, "adam", D, bounded, f, init);
    V r = Adam<OP>()(f, init, bounded);
    auto& C = *f.calls;
    V x = bounded ? clampv(init) : init;
    std::vector<long double> m(D, 0), v(D, 0), em(D, 0), ev(D, 0); // moments and what rounding can do to them
    double round = 0;
    int t = 0;
    bool stopped = false;
    double slack = 1e-12, big = std::max(x.cwiseAbs().maxCoeff(), oc().alpha);
    for (; t < oc().it && !stopped; t++) {
        if (t >= (int)C.size())
            s.fail("stopped too early", std::to_string(C.size()) + " evaluations");
        s.check(C[t].g, "evaluation without gradient");
        at(s, C[t].x, x, slack, "query", t, big + round / slack);
        big = std::max(x.cwiseAbs().maxCoeff(), oc().alpha);
        x = C[t].x;
        V prev = x;
        round = 0;
        for (int i = 0; i < D; i++) {
            long double g = C[t].grad(i), b1 = oc().b1, b2 = oc().b2;
            if (std::abs(C[t].grad(i)) > 1e150 || (g != 0 && std::abs(C[t].grad(i)) < 1e-150))
                s.discard(); // the square over- or underflows
            em[i] = b1 * em[i] + 1e-15L * (std::abs(m[i]) + std::abs(g));
            ev[i] = b2 * ev[i] + 1e-15L * (v[i] + g * g);
            m[i] = b1 * m[i] + (1 - b1) * g;
            v[i] = b2 * v[i] + (1 - b2) * g * g;
            long double mh = m[i] / (1 - powl(b1, t + 1)), vh = v[i] / (1 - powl(b2, t + 1));
            // the denominator can be much smaller than the gradients of the past
            long double d = sqrtl(vh) + 1e-8L, evh = ev[i] / (1 - powl(b2, t + 1)), dd = vh > evh ? evh / (2 * sqrtl(vh - evh)) : sqrtl(2 * evh);
            if (dd > 0.1L * d)
                s.discard();
            round = std::max(round, (double)(2 * oc().alpha * (em[i] / (1 - powl(b1, t + 1)) / d + std::abs(mh) / d * dd / d)));
            x(i) = (double)(x(i) + oc().alpha * mh / (sqrtl(vh) + 1e-8L));
        }
        if (bounded)
            x = clampv(x);
        int st = stops((prev - x).norm(), oc().eps);
        // a clamped or rounded step has no more relative precision than the point itself
        if (oc().eps > 0 && std::abs((prev - x).norm() - oc().eps) < 1e-12 * (1 + x.norm()) + D * round)
            st = -1;
        if (st < 0)
            s.discard();
        stopped = st;
    }
    s.check((int)C.size() == t, "number of evaluations", std::to_string(C.size()) + " instead of " + std::to_string(t));
    at(s, r, x, slack, "result", t, big + round / slack);
    if (stopped)
        s.label("tolerance met");
    s.nontrivial(active(f));
}
PBT_SUITE("gradient ascent", 10, RULE)
{
    int D = s.p(0.01) ? s.i(6, 40) : s.pick(std::vector<int>{1, 2, 4});
    gen_oc(s, D);
    bool bounded = s.b();
    Obj f = gen_obj(s, D, NSHAPES);
    V init = gen_init(s, D);
    describe(s, "gradient ascent", D, bounded, f, init);
    V r = GradientAscent<OP>()(f, init, bounded);
    auto& C = *f.calls;
    V x = bounded ? clampv(init) : init;
    V v = V::Zero(D);
    int t = 0;
    bool stopped = false;
    double big = 1;
    for (; t < oc().it && !stopped; t++) {
        if (t >= (int)C.size())
            s.fail("stopped too early", std::to_string(C.size()) + " evaluations");
        s.check(C[t].g, "evaluation without gradient");
        V q = x;
        if (oc().nesterov) {
            q = x + oc().gamma * v;
            if (bounded)
                q = clampv(q);
        }
        big = std::max(big, std::max(x.cwiseAbs().maxCoeff(), v.cwiseAbs().maxCoeff()));
        if (!(big < 1e200))
            s.discard();
        for (int i = 0; i < D; i++)
            s.close(C[t].x(i), q(i), 1e-13 * (t + 1) * (bounded ? 1. + std::abs(q(i)) : big), "query", "step " + std::to_string(t) + " coordinate " + std::to_string(i) + ":");
        V prev = x;
        v = oc().gamma * v + oc().alpha * C[t].grad;
        x = x + v;
        if (bounded)
            x = clampv(x);
        if (oc().eps > 0 && std::abs((prev - x).norm() - oc().eps) < 1e-9 * oc().eps + 1e-12 * (t + 1) * (bounded ? 1. : big))
            s.discard();
        stopped = oc().eps > 0 && (prev - x).norm() < oc().eps;
        if (!oc().nesterov && t + 1 < (int)C.size()) // resynchronise: the query is the point itself
            x = C[t + 1].x.size() == D && (C[t + 1].x - x).cwiseAbs().maxCoeff() < 1e-12 * big ? C[t + 1].x : x;
    }
    s.check((int)C.size() == t, "number of evaluations", std::to_string(C.size()) + " instead of " + std::to_string(t));
    for (int i = 0; i < D; i++)
        s.close(r(i), x(i), 1e-13 * (t + 1) * (bounded ? 1. + std::abs(x(i)) : std::max(big, std::abs(x(i)))), "result");
    if (stopped)
        s.label("tolerance met");
    s.label(oc().nesterov && oc().gamma > 0 ? "nesterov" : oc().gamma > 0 ? "momentum" : "plain");
    s.nontrivial(active(f));
}

// ---- NLopt -------------------------------------------------------------------------------------
struct Raw {
    const Obj* f;
    std::vector<V> xs;
    bool grad;
};
static double raw_f(unsigned n, const double* x, double* g, void* d)
{
    Raw* r = (Raw*)d;
    V v = V::Map(x, n);
    r->xs.push_back(v);
    if (g)
        V::Map(g, n) = r->f->gradient(v);
    return r->f->value(v);
}
struct Con { // a half-space or a ball
    bool ball;
    V a;
    double b;
    limbo::opt::eval_t operator()(const V& x, bool g) const
    {
        double v = ball ? (x - a).squaredNorm() - b * b : a.dot(x) - b;
        if (!g)
            return limbo::opt::no_grad(v);
        return {v, ball ? V(2 * (x - a)) : a};
    }
};
static double raw_c(unsigned n, const double* x, double* g, void* d)
{
    auto r = (*(const Con*)d)(V::Map(x, n), g != nullptr);
    if (g)
        V::Map(g, n) = *r.second;
    return r.first;
}
template <nlopt::algorithm A, typename O>
void nl(Src& s, const char* name, O opt, bool global, bool constraints)
{
    int D = s.p(0.01) ? s.i(6, 40) : s.pick(std::vector<int>{1, 2, 3});
    if (D == 1 && (A == nlopt::LN_BOBYQA || A == nlopt::LN_NEWUOA))
        D = 2;
    gen_oc(s, D);
    Obj f = gen_obj(s, D, FLAT + 1);
    f.scale = s.pick(std::vector<double>{1., 1e-3, 1e3});
    bool bounded = global || s.b();
    V init = gen_init(s, D);
    bool early = s.b();
    if (early)
        opt.initialize(D);
    std::vector<Con> cons;
    std::vector<double> tol;
    int nc = constraints && early ? s.weighted({1, 2, 1}) : 0;
    bool eq = constraints && nc == 1 && s.p(0.3);
    for (int k = 0; k < nc; k++) {
        Con c;
        c.ball = s.b();
        c.a = vec(s, D, -1, 1);
        c.b = s.uni(0.2, 1.5);
        cons.push_back(c);
        tol.push_back(s.pick(std::vector<double>{1e-8, 1e-3}));
    }
    for (int k = 0; k < nc; k++) {
        if (eq)
            opt.add_equality_constraint(cons[k], tol[k]);
        else
            opt.add_inequality_constraint(cons[k], tol[k]);
    }
    describe(s, name, D, bounded, f, init);
    s << " constraints=" << nc << (eq ? "(equality)" : "");
    s.label(name);
    int rounds = s.p(0.25) ? 2 : 1;
    for (int k = 0; k < rounds; k++) {
        if (k) {
            s.label("reused");
            if (!nc && s.p(0.4)) {
                D = 1 + (D + s.u(2)) % 3;
                if (D == 1 && (A == nlopt::LN_BOBYQA || A == nlopt::LN_NEWUOA))
                    D = 2;
                f = gen_obj(s, D, FLAT + 1);
                s.label("other dimension");
                s << " now D=" << D << " " << f.name() << " c=" << str(f.c) << " w=" << str(f.w);
            }
            init = gen_init(s, D);
            if (!global)
                bounded = s.b();
            s << " again " << str(init) << (bounded ? " bounded" : " unbounded");
        }
        f.calls->clear();
        unsigned long seed = 1000 + s.u(1000);
        nlopt_srand(seed);
        V r = opt(f, init, bounded);
        Raw raw{&f, {}, false};
        nlopt_opt o = nlopt_create((nlopt_algorithm)A, D);
        nlopt_set_max_objective(o, raw_f, &raw);
        for (int c = 0; c < nc; c++)
            if (eq)
                nlopt_add_equality_constraint(o, raw_c, &cons[c], tol[c]);
            else
                nlopt_add_inequality_constraint(o, raw_c, &cons[c], tol[c]);
        V x = init;
        if (bounded) {
            nlopt_set_lower_bounds1(o, 0.);
            nlopt_set_upper_bounds1(o, 1.);
            x = clampv(init);
        }
        nlopt_set_maxeval(o, oc().nit);
        nlopt_set_ftol_rel(o, oc().ftol);
        nlopt_set_xtol_rel(o, oc().xtol);
        nlopt_srand(seed);
        double val;
        nlopt_optimize(o, x.data(), &val);
        nlopt_destroy(o);
        for (auto& q : raw.xs)
            if (q.hasNaN())
                s.discard();
        s.check(f.calls->size() == raw.xs.size(), "number of evaluations", std::to_string(f.calls->size()) + " against " + std::to_string(raw.xs.size()) + " of NLopt");
        for (size_t i = 0; i < raw.xs.size(); i++)
            s.check(same(raw.xs[i], (*f.calls)[i].x), "evaluation", std::to_string(i) + " at " + str((*f.calls)[i].x) + " against " + str(raw.xs[i]) + " of NLopt");
        s.check(same(r, x), "result", str(r) + " against " + str(x) + " of NLopt");
        s.nontrivial(raw.xs.size() >= 4);
    }
}
PBT_SUITE("nlopt gradient-free", 6, "at least four evaluations")
{
    switch (s.u(6)) {
    case 0:
        return nl<nlopt::LN_COBYLA>(s, "LN_COBYLA", NLOptNoGrad<OP, nlopt::LN_COBYLA>(), false, true);
    case 1:
        return nl<nlopt::LN_NELDERMEAD>(s, "LN_NELDERMEAD", NLOptNoGrad<OP, nlopt::LN_NELDERMEAD>(), false, false);
    case 2:
        return nl<nlopt::LN_SBPLX>(s, "LN_SBPLX", NLOptNoGrad<OP, nlopt::LN_SBPLX>(), false, false);
    case 3:
        return nl<nlopt::GN_DIRECT_L_RAND>(s, "default", NLOptNoGrad<OP>(), true, false);
    case 4:
        return nl<nlopt::GN_CRS2_LM>(s, "GN_CRS2_LM", NLOptNoGrad<OP, nlopt::GN_CRS2_LM>(), true, false);
    default:
        return nl<nlopt::GN_DIRECT>(s, "GN_DIRECT", NLOptNoGrad<OP, nlopt::GN_DIRECT>(), true, false);
    }
}
PBT_SUITE("nlopt gradient-based", 6, "at least four evaluations")
{
    switch (s.u(4)) {
    case 0:
        return nl<nlopt::LD_LBFGS>(s, "default", NLOptGrad<OP>(), false, false);
    case 1:
        return nl<nlopt::LD_MMA>(s, "LD_MMA", NLOptGrad<OP, nlopt::LD_MMA>(), false, false);
    case 2:
        return nl<nlopt::LD_VAR2>(s, "LD_VAR2", NLOptGrad<OP, nlopt::LD_VAR2>(), false, false);
    default:
        return nl<nlopt::LD_CCSAQ>(s, "LD_CCSAQ", NLOptGrad<OP, nlopt::LD_CCSAQ>(), false, false);
    }
}
