// Every evaluation and every result of a bounded search is in the unit hypercube.
// NLopt's own faults are not limbo's: LN_NEWUOA_BOUND (uninitialised points when stopped early), SLSQP and
// truncated Newton (NaN points on rough objectives) are left out, and the gradient-based algorithms of NLopt get smooth objectives.
#include "opts.hpp"
using namespace lv;
using namespace limbo::opt;

template <typename O>
void box(Src& s, const char* name, O opt, int D, Obj f, const V& init, bool inner = true)
{
    s << name << " D=" << D << " " << f.name() << " init=" << str(init) << " it=" << oc().it << " nit=" << oc().nit << " alpha=" << oc().alpha << " gamma=" << oc().gamma << (oc().nesterov ? " nesterov" : "") << " bins=" << oc().bins << " repeats=" << oc().repeats << "+-" << oc().epsilon;
    s.label(name);
    s.label(f.name());
    nlopt_srand(12345 + (unsigned long)(f.h & 0xffff));
    // the same optimiser object may be used several times
    int reps = s.p(0.2) ? 2 : 1;
    V start = init;
    for (int k = 0; k < reps; k++) {
        f.calls->clear();
        if (k)
            start = gen_init(s, D);
        V r = opt(f, start, true);
        for (size_t i = 0; i < f.calls->size(); i++) {
            // NLopt's own arithmetic may break down (0/0); the binding cannot make a NaN out of numbers
            if (PART > 0 && (*f.calls)[i].x.hasNaN())
                s.discard();
            if (!in_box((*f.calls)[i].x, D))
                s.fail(std::string(name) + ": evaluation outside the box", "call " + std::to_string(i) + " at " + str((*f.calls)[i].x));
        }
        if (PART > 0 && r.hasNaN())
            s.discard();
        s.check(in_box(r, D), std::string(name) + ": result outside the box", str(r));
        if (f.calls->size() >= 3)
            s.nontrivial(true);
    }
    if (!in_box(init, D))
        s.label("start outside");
}
template <nlopt::algorithm A>
using NG = NLOptNoGrad<OP, A>;
template <nlopt::algorithm A>
using GG = NLOptGrad<OP, A>;
#define RUN(...) box(s, #__VA_ARGS__, __VA_ARGS__(), D, f, init)
#define RULE "the objective was evaluated at least three times"

#if PART == 0
PBT_SUITE("native", 20, RULE)
{
    int D = s.p(0.01) ? s.i(6, 15) : s.pick(std::vector<int>{1, 2, 3, 5});
    gen_oc(s, D);
    Obj f = gen_obj(s, D, NALL);
    V init = gen_init(s, D);
    switch (s.u(9)) {
    case 0:
        RUN(Rprop<OP>);
        break;
    case 1:
        RUN(Adam<OP>);
        break;
    case 2:
        RUN(GradientAscent<OP>);
        break;
    case 3: {
        D = std::min(D, 3);
        f = gen_obj(s, D, NALL);
        init = gen_init(s, D);
        if (D == 3)
            oc().bins = std::min(oc().bins, 6);
        if (D == 2)
            oc().bins = std::min(oc().bins, 13);
        RUN(GridSearch<OP>);
        s.nontrivial(oc().bins >= 2);
        break;
    }
    case 4:
        RUN(RandomPoint<OP>);
        s.nontrivial(true);
        break;
    case 5:
        RUN(ParallelRepeater<OP, Rprop<OP>>);
        break;
    case 6:
        RUN(ParallelRepeater<OP, GradientAscent<OP>>);
        break;
    case 7:
        RUN(Chained<OP, RandomPoint<OP>, Adam<OP>, Rprop<OP>>);
        break;
    default:
        RUN(ParallelRepeater<OP, Chained<OP, GradientAscent<OP>, Adam<OP>>>);
    }
}
#elif PART == 1
PBT_SUITE("nlopt without gradient", 10, RULE)
{
    int D = s.p(0.01) ? s.i(6, 15) : s.pick(std::vector<int>{2, 3, 5});
    gen_oc(s, D);
    Obj f = gen_obj(s, D, HASH + 1);
    V init = gen_init(s, D);
    switch (s.u(14)) {
    case 0:
        RUN(NG<nlopt::LN_COBYLA>);
        break;
    case 1:
        RUN(NG<nlopt::LN_BOBYQA>);
        break;
    case 2:
        RUN(NG<nlopt::LN_NELDERMEAD>);
        break;
    case 3:
        RUN(NG<nlopt::LN_SBPLX>);
        break;
    case 4:
        RUN(NG<nlopt::GN_DIRECT>);
        break;
    case 5:
        RUN(NG<nlopt::GN_DIRECT_L>);
        break;
    case 6:
        RUN(NLOptNoGrad<OP>);
        break;
    case 7:
        RUN(NG<nlopt::GN_CRS2_LM>);
        break;
    case 8:
        RUN(NG<nlopt::GN_ISRES>);
        break;
    case 9:
        RUN(NG<nlopt::GN_ESCH>);
        break;
    case 10:
        RUN(NG<nlopt::GN_DIRECT_L_NOSCAL>);
        break;
    case 11:
        RUN(NG<nlopt::GN_ORIG_DIRECT_L>);
        break;
    case 12:
        RUN(ParallelRepeater<OP, NG<nlopt::LN_COBYLA>>);
        break;
    default:
        RUN(Chained<OP, GradientAscent<OP>, NG<nlopt::LN_SBPLX>>);
    }
}
#else
PBT_SUITE("nlopt with gradient", 10, RULE)
{
    int D = s.p(0.01) ? s.i(6, 15) : s.pick(std::vector<int>{1, 2, 3, 5});
    gen_oc(s, D);
    Obj f = gen_obj(s, D, FLAT + 1);
    f.scale = s.pick(std::vector<double>{1., 1e-3, 1e3});
    V init = gen_init(s, D);
    switch (s.u(9)) {
    case 0:
        RUN(NLOptGrad<OP>);
        break;
    case 1:
        RUN(GG<nlopt::LD_MMA>);
        break;
    case 2:
        RUN(GG<nlopt::LD_VAR1>);
        break;
    case 3:
        RUN(GG<nlopt::LD_CCSAQ>);
        break;
    case 4:
        RUN(GG<nlopt::LD_VAR2>);
        break;
    case 5:
        RUN(GG<nlopt::LD_CCSAQ>);
        break;
    case 6:
        RUN(ParallelRepeater<OP, NLOptGrad<OP>>);
        break;
    case 7:
        RUN(ParallelRepeater<OP, Chained<OP, Rprop<OP>, NLOptGrad<OP>>>);
        break;
    default:
        RUN(Chained<OP, NLOptNoGrad<OP>, NLOptGrad<OP>>);
    }
}
#endif
