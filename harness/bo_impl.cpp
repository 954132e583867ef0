#include "bo.hpp"
namespace lv {
    std::function<V(const V&, size_t)> gen_fn(Src& s, int dout)
    {
        int kind = s.weighted({3, 2, 1, 2, 1, 1});
        uint64_t h0 = s.u(1 << 20);
        double a = s.uni(-3, 3), b = s.uni(-3, 3);
        if (kind == 5)
            a = b = 1e4 * s.uni(-1, 1);
        s << " f" << kind;
        return [=](const V& x, size_t k) -> V {
            V y(dout);
            for (int j = 0; j < dout; j++) {
                uint64_t h = h0 * 31 + j;
                for (int i = 0; i < x.size(); i++) {
                    double v = x(i);
                    uint64_t w;
                    std::memcpy(&w, &v, 8);
                    h = pbt::mix(h ^ w);
                }
                switch (kind) {
                case 0: // smooth
                    y(j) = a * x.sum() - (x.array() - 0.3 - 0.1 * j).square().sum() + b;
                    break;
                case 1: // ties
                    y(j) = (double)(h % 4) - 2.;
                    break;
                case 2: // constant
                    y(j) = a + j;
                    break;
                case 3: // different every time it is called
                    y(j) = (double)(pbt::mix(h0 + 77 * k + j) % 1000) / 100. - 5.;
                    break;
                case 4: // all negative and decreasing
                    y(j) = -1. - (double)k;
                    break;
                default:
                    y(j) = a * std::sin(3 * x.sum() + j) + b;
                }
            }
            return y;
        };
    }
    void reset_bo(Src& s)
    {
        bc() = BoCfg();
        lg() = Log();
        cfg() = Cfg();
        bc().src = &s;
        bc().din = s.i(1, 4);
        bc().dout = s.weighted({4, 1, 1}) + 1;
        cfg().noise = s.pick(std::vector<double>{0.01, 0.1, 0.001});
        cfg().l = s.pick(std::vector<double>{1., 0.3, 0.1});
        lg().f = gen_fn(s, bc().dout);
        lg().hp_seed = s.i(0, 20);
        s << " din=" << bc().din << " dout=" << bc().dout;
    }
}
