// The expected hypervolume improvement, from its definition.
#ifndef VERIF_EHVIREF_HPP
#define VERIF_EHVIREF_HPP
#include <algorithm>
#include <cmath>
#include <vector>

typedef std::vector<double> P;
typedef long double ld;

// E[max(Y - a, 0)] of Y ~ N(m, s^2)
static ld above(ld a, ld m, ld s)
{
    if (std::isinf((double)a))
        return 0;
    ld u = (m - a) / s;
    return s * expl(-u * u / 2) / sqrtl(2 * acosl(-1.0L)) + (m - a) * 0.5L * erfcl(-u / sqrtl(2.0L));
}
// The improvement by y is the volume of the points z above r that are below y and not below a point of the front, so its
// expectation is the integral of P(Y >= z) over all z above r that are not below the front: a sum over the cells of the grid.
static double ref_ehvi(const std::vector<P>& f, const P& r, const P& mu, const P& sd, int d)
{
    std::vector<P> c(d);
    for (int i = 0; i < d; i++) {
        c[i].push_back(r[i]);
        for (auto& p : f)
            c[i].push_back(p[i]);
        std::sort(c[i].begin(), c[i].end());
        c[i].erase(std::unique(c[i].begin(), c[i].end()), c[i].end());
        c[i].push_back(HUGE_VAL);
    }
    std::vector<std::vector<ld>> w(d);
    for (int i = 0; i < d; i++)
        for (size_t k = 0; k + 1 < c[i].size(); k++)
            w[i].push_back(above(c[i][k], mu[i], sd[i]) - above(c[i][k + 1], mu[i], sd[i]));
    std::vector<size_t> k(d, 0);
    ld sum = 0;
    for (;;) {
        bool below = false;
        for (auto& p : f) {
            bool all = true;
            for (int i = 0; i < d; i++)
                all = all && p[i] >= c[i][k[i] + 1];
            below = below || all;
        }
        if (!below) {
            ld v = 1;
            for (int i = 0; i < d; i++)
                v *= w[i][k[i]];
            sum += v;
        }
        int i = 0;
        while (i < d && ++k[i] == w[i].size())
            k[i++] = 0;
        if (i == d)
            return sum;
    }
}
#endif
