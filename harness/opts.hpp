// Run-time configurable optimiser parameters and recorded objectives.
#ifndef VERIF_OPTS_HPP
#define VERIF_OPTS_HPP
#include "lv.hpp"
#include <limbo/opt/adam.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
#include <mutex>
#include <nlopt.h>

namespace lv {
    struct OCfg {
        int it = 20;
        double eps = 0, alpha = 0.1, b1 = 0.9, b2 = 0.999, gamma = 0;
        bool nesterov = false;
        int bins = 5, repeats = 3;
        double epsilon = 0.1;
        int nit = 50;
        double ftol = -1, xtol = -1;
    };
    inline OCfg& oc()
    {
        static OCfg c;
        return c;
    }
    struct OP {
        struct opt_rprop {
            static int iterations() { return oc().it; }
            static double eps_stop() { return oc().eps; }
        };
        struct opt_adam {
            static int iterations() { return oc().it; }
            static double alpha() { return oc().alpha; }
            static double b1() { return oc().b1; }
            static double b2() { return oc().b2; }
            static double eps_stop() { return oc().eps; }
        };
        struct opt_gradient_ascent {
            static int iterations() { return oc().it; }
            static double alpha() { return oc().alpha; }
            static double gamma() { return oc().gamma; }
            static bool nesterov() { return oc().nesterov; }
            static double eps_stop() { return oc().eps; }
        };
        struct opt_gridsearch {
            static int bins() { return oc().bins; }
        };
        struct opt_parallelrepeater {
            static int repeats() { return oc().repeats; }
            static double epsilon() { return oc().epsilon; }
        };
        struct opt_nloptgrad {
            static int iterations() { return oc().nit; }
            static double fun_tolerance() { return oc().ftol; }
            static double xrel_tolerance() { return oc().xtol; }
        };
        struct opt_nloptnograd : opt_nloptgrad {
        };
    };
    inline void gen_oc(Src& s, int D)
    {
        oc() = OCfg();
        oc().it = s.weighted({1, 8, 2}) == 0 ? s.i(0, 1) : s.p(0.2) ? s.i(50, 300) : s.i(2, 40);
        oc().eps = s.weighted({6, 2, 2}) == 0 ? 0. : s.logu(1e-8, 1.);
        oc().alpha = s.pick(std::vector<double>{0.1, 0.001, 0.5, 1., 3., 0.});
        oc().b1 = s.pick(std::vector<double>{0.9, 0., 0.5, 0.99});
        oc().b2 = s.pick(std::vector<double>{0.999, 0., 0.5, 0.9});
        oc().gamma = s.pick(std::vector<double>{0., 0.9, 0.5, 0.99});
        oc().nesterov = s.b();
        oc().bins = s.pick(D == 1 ? std::vector<int>{5, 1, 2, 3, 6, 7, 10, 11, 13, 20, 49, 93} : D == 2 ? std::vector<int>{5, 1, 2, 3, 6, 7, 10, 11, 13} : std::vector<int>{2, 1, 3, 5, 6});
        oc().repeats = s.size(1, 12, 60);
        oc().epsilon = s.pick(std::vector<double>{0.1, 1e-2, 0.5, 2., 1e-6, 30.});
        oc().nit = s.pick(std::vector<int>{20, 1, 5, 60, 120});
        oc().ftol = s.pick(std::vector<double>{-1., 1e-3, 0.1, 1e-8});
        oc().xtol = s.pick(std::vector<double>{-1., 1e-3, 0.1, 1e-8});
    }
    struct Call {
        V x;
        bool g;
        double f;
        V grad;
    };
    // shapes of objectives
    enum Shape { QUAD,
        LIN,
        SIN,
        FLAT,
        KINK,
        STEP,
        HASH, // a gradient that has nothing to do with the values
        HUGE_,
        NSHAPES,
        NEGINF = NSHAPES,
        NOTNUM,
        NALL };
    struct Obj {
        int shape = QUAD;
        V c, w;
        double scale = 1;
        uint64_t h = 0;
        std::shared_ptr<std::vector<Call>> calls = std::make_shared<std::vector<Call>>();
        std::shared_ptr<std::mutex> mx = std::make_shared<std::mutex>();
        std::string name() const
        {
            const char* n[] = {"quadratic", "linear", "sines", "flat", "kinks", "steps", "adversarial gradient", "huge", "mostly -inf", "mostly nan"};
            return n[shape];
        }
        double value(const V& x) const
        {
            double r = 0;
            switch (shape) {
            case QUAD:
                for (int i = 0; i < x.size(); i++)
                    r -= w(i) * w(i) * (x(i) - c(i)) * (x(i) - c(i));
                return scale * r;
            case LIN:
            case HUGE_:
                return scale * w.dot(x);
            case SIN:
                for (int i = 0; i < x.size(); i++)
                    r += std::sin(9. * w(i) * x(i) + c(i)) + 0.1 * x(i);
                return scale * r;
            case FLAT:
                return scale;
            case KINK:
                for (int i = 0; i < x.size(); i++)
                    r -= std::abs(w(i) * (x(i) - c(i)));
                return scale * r;
            case STEP:
                for (int i = 0; i < x.size(); i++)
                    r += std::floor(4 * w(i) * x(i));
                return scale * r;
            case HASH:
                return scale * std::sin(1e3 * w.dot(x));
            case NEGINF:
            case NOTNUM:
                if ((x - c).cwiseAbs().maxCoeff() < 0.25)
                    return w.dot(x);
                return shape == NEGINF ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
            }
            return 0;
        }
        V gradient(const V& x) const
        {
            V g(x.size());
            for (int i = 0; i < x.size(); i++)
                switch (shape) {
                case QUAD:
                    g(i) = -2 * scale * w(i) * w(i) * (x(i) - c(i));
                    break;
                case LIN:
                case HUGE_:
                    g(i) = scale * w(i);
                    break;
                case SIN:
                    g(i) = scale * (9. * w(i) * std::cos(9. * w(i) * x(i) + c(i)) + 0.1);
                    break;
                case KINK:
                    g(i) = x(i) == c(i) ? 0. : scale * (x(i) < c(i) ? 1. : -1.) * std::abs(w(i));
                    break;
                case FLAT:
                case STEP:
                    g(i) = 0;
                    break;
                case HASH: {
                    uint64_t b;
                    double xi = x(i);
                    std::memcpy(&b, &xi, 8);
                    b = pbt::mix(b ^ h ^ (uint64_t)i);
                    int e = (int)(b % 5);
                    g(i) = e == 0 ? 0. : (b & 256 ? 1. : -1.) * std::pow(10., (double)((b >> 10) % 80) / 10. - 4.);
                    break;
                }
                default:
                    g(i) = w(i);
                }
            return g;
        }
        limbo::opt::eval_t operator()(const V& x, bool g) const
        {
            Call k;
            k.x = x;
            k.g = g;
            k.f = value(x);
            if (g)
                k.grad = gradient(x);
            {
                std::lock_guard<std::mutex> l(*mx);
                calls->push_back(k);
            }
            if (!g)
                return limbo::opt::no_grad(k.f);
            return {k.f, k.grad};
        }
    };
    inline Obj gen_obj(Src& s, int D, int nshapes)
    {
        Obj o;
        o.shape = s.u(nshapes);
        o.c = vec(s, D, -0.7, 1.7);
        o.w = V(D);
        for (int i = 0; i < D; i++)
            o.w(i) = s.real(-2, 2);
        o.scale = s.pick(std::vector<double>{1., 1e-3, 1e3, 1e-9, 1e9});
        if (o.shape == HUGE_)
            o.scale = s.pick(std::vector<double>{1e30, 1e60, 1e-60, 1e90});
        o.h = s.bits();
        return o;
    }
    // a start inside, on the border of, or outside the box
    inline V gen_init(Src& s, int D)
    {
        V x(D);
        int m = s.weighted({4, 2, 3});
        for (int i = 0; i < D; i++)
            x(i) = m == 0 ? s.unit() : m == 1 ? s.pick(std::vector<double>{0., 1., 0.5, 1e-300}) : s.real(-3, 4);
        return x;
    }
    inline bool in_box(const V& x, int D)
    {
        if (x.size() != D)
            return false;
        for (int i = 0; i < D; i++)
            if (!(x(i) >= 0. && x(i) <= 1.))
                return false;
        return true;
    }
    inline V clampv(const V& x)
    {
        V y = x;
        for (int i = 0; i < y.size(); i++)
            y(i) = y(i) < 0 ? 0 : y(i) > 1 ? 1 : y(i);
        return y;
    }
} // namespace lv
#endif
