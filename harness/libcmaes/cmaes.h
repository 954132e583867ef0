// A stand-in for the part of libcmaes that limbo uses (libcmaes is not installed here): the candidates
// are chosen by the harness, everything it is told and every evaluation is recorded. As in libcmaes, the
// start and the candidates are genotypes, the function is called with phenotypes.
#ifndef LV_LIBCMAES_STANDIN_H
#define LV_LIBCMAES_STANDIN_H
#include <Eigen/Core>
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>

#define CMAES_DEFAULT 0
#define IPOP_CMAES 1
#define BIPOP_CMAES 2
#define aCMAES 3
#define aIPOP_CMAES 4
#define aBIPOP_CMAES 5
#define sepCMAES 6
#define sepIPOP_CMAES 7
#define sepBIPOP_CMAES 8
#define sepaCMAES 9
#define sepaIPOP_CMAES 10
#define sepaBIPOP_CMAES 11
#define VD_CMAES 12
#define VD_IPOP_CMAES 13
#define VD_BIPOP_CMAES 14

namespace libcmaes {
    using dVec = Eigen::VectorXd;
    using FitFunc = std::function<double(const double*, const int& n)>;
    enum CMAStopCritType { CONT = 0, AUTOMAXITER = 7, TOLHISTFUN = 1, EQUALFUNVALS = 5, TOLX = 2, TOLUPSIGMA = -13, STAGNATION = 6, CONDITIONCOV = -15, NOEFFECTAXIS = 3, NOEFFECTCOOR = 4, MAXFEVALS = 8, MAXITER = 9, FTARGET = 10 };

    namespace standin {
        struct Run {
            bool bounded = false;
            dVec lb, ub, x0; // bounds; start (phenotype)
            double sigma = 0;
            int lambda = 0;
            std::map<std::string, double> set;
            std::map<int, int> crit;
            std::vector<dVec> x; // phenotypes evaluated
            std::vector<double> v; // what the function returned
            dVec mean; // phenotype
            int dflt = 0, progress = 0; // calls of the default progress function; calls of any
        };
        struct Log {
            std::vector<Run> runs;
            // genotypes of a generation (start, step size, generation); none: stop
            std::function<std::vector<dVec>(const dVec&, double, int)> candidates;
            std::function<dVec(const dVec&)> mean; // mean of the last distribution
        };
        inline Log& log()
        {
            static Log l;
            return l;
        }
    }

    struct NoBoundStrategy {
        static constexpr bool bounded = false;
        dVec pheno(const dVec& x) const { return x; }
        dVec geno(const dVec& x) const { return x; }
        dVec _lb, _ub;
    };
    // identity in the middle, quadratic near a bound, periodic outside
    struct pwqBoundStrategy {
        static constexpr bool bounded = true;
        dVec _lb, _ub, _al, _au;
        void init(const double* l, const double* u, int n)
        {
            _lb = Eigen::Map<const dVec>(l, n);
            _ub = Eigen::Map<const dVec>(u, n);
            _al = dVec(n);
            _au = dVec(n);
            for (int i = 0; i < n; i++) {
                _al(i) = std::min((_ub(i) - _lb(i)) / 2., (1. + std::abs(_lb(i))) / 20.);
                _au(i) = std::min((_ub(i) - _lb(i)) / 2., (1. + std::abs(_ub(i))) / 20.);
            }
        }
        dVec pheno(const dVec& g) const
        {
            dVec x = g;
            for (int i = 0; i < x.size(); i++) {
                double lo = _lb(i) - _al(i), hi = _ub(i) + _au(i), w = hi - lo, y = x(i);
                y = std::fmod(y - lo, 2 * w);
                if (y < 0)
                    y += 2 * w;
                y = lo + (y > w ? 2 * w - y : y);
                if (y < _lb(i) + _al(i))
                    y = _lb(i) + (y - lo) * (y - lo) / 4. / _al(i);
                else if (y > _ub(i) - _au(i))
                    y = _ub(i) - (y - hi) * (y - hi) / 4. / _au(i);
                x(i) = std::min(std::max(y, _lb(i)), _ub(i));
            }
            return x;
        }
        dVec geno(const dVec& p) const
        {
            dVec x = p;
            for (int i = 0; i < x.size(); i++)
                if (x(i) < _lb(i) + _al(i))
                    x(i) = _lb(i) - _al(i) + 2 * std::sqrt(std::abs(_al(i) * (x(i) - _lb(i))));
                else if (x(i) > _ub(i) - _au(i))
                    x(i) = _ub(i) + _au(i) - 2 * std::sqrt(std::abs(_au(i) * (_ub(i) - x(i))));
            return x;
        }
    };
    template <class TBound = NoBoundStrategy>
    class GenoPheno {
    public:
        GenoPheno() {}
        GenoPheno(const double* l, const double* u, const int& n) { _b.init(l, u, n); }
        dVec pheno(const dVec& x) const { return _b.pheno(x); }
        dVec geno(const dVec& x) const { return _b.geno(x); }
        const TBound& get_boundstrategy() const { return _b; }
        static constexpr bool bounded = TBound::bounded;

    private:
        TBound _b;
    };
    template <class TGP = GenoPheno<NoBoundStrategy>>
    class CMAParameters {
    public:
        CMAParameters(const std::vector<double>& x0, const double& sigma, const int& lambda = -1, const uint64_t& seed = 0, const TGP& gp = TGP()) : CMAParameters(x0.size(), x0.data(), sigma, lambda, seed, gp) {}
        CMAParameters(const int& dim, const double* x0, const double& sigma, const int& lambda = -1, const uint64_t& seed = 0, const TGP& gp = TGP()) : _gp(gp), _x0(Eigen::Map<const dVec>(x0, dim))
        {
            _r.bounded = TGP::bounded;
            _r.lb = gp.get_boundstrategy()._lb;
            _r.ub = gp.get_boundstrategy()._ub;
            _r.x0 = gp.pheno(_x0);
            _r.sigma = sigma;
            _r.lambda = lambda;
        }
        void set_mt_feval(const bool& b) { _r.set["mt_feval"] = b; }
        void set_algo(const int& a) { _r.set["algo"] = a; }
        void set_restarts(const int& a) { _r.set["restarts"] = a; }
        void set_elitism(const int& a) { _r.set["elitism"] = a; }
        void set_max_fevals(const int& a) { _r.set["max_fevals"] = a; }
        void set_max_iter(const int& a) { _r.set["max_iter"] = a; }
        void set_ftolerance(const double& a) { _r.set["ftolerance"] = a; }
        void set_xtolerance(const double& a) { _r.set["xtolerance"] = a; }
        void set_ftarget(const double& a) { _r.set["ftarget"] = a; }
        void set_initial_fvalue(const bool& a) { _r.set["initial_fvalue"] = a; }
        void set_uh(const bool& a) { _r.set["uh"] = a; }
        void set_quiet(const bool& a) { _r.set["quiet"] = a; }
        void set_stopping_criteria(const int& c, const bool& on) { _r.crit[c] = on; }
        void set_seed(const uint64_t&) {}
        const TGP& get_gp() const { return _gp; }
        int dim() const { return _x0.size(); }

        TGP _gp;
        dVec _x0;
        standin::Run _r;
    };
    class Candidate {
    public:
        Candidate() {}
        Candidate(double f, const dVec& x) : _f(f), _x(x) {}
        double get_fvalue() const { return _f; }
        dVec get_x_dvec() const { return _x; }
        const dVec& get_x_dvec_ref() const { return _x; }
        const double* get_x_ptr() const { return _x.data(); }
        std::vector<double> get_x() const { return std::vector<double>(_x.data(), _x.data() + _x.size()); }
        unsigned int get_x_size() const { return _x.size(); }

    private:
        double _f = HUGE_VAL;
        dVec _x;
    };
    class CMASolutions {
    public:
        dVec xmean() const { return _mean; }
        Candidate best_candidate() const { return _last; }
        Candidate get_best_seen_candidate() const { return _best; }
        int dim() const { return _mean.size(); }
        int run_status() const { return 0; }
        int niter() const { return _n; }
        int fevals() const { return _fe; }

        dVec _mean;
        Candidate _best, _last; // best ever; best of the last generation
        int _n = 0, _fe = 0;
    };
    class CovarianceUpdate {
    };
    template <class P, class S>
    using ProgressFunc = std::function<int(const P&, const S&)>;
    template <class TCov, class TGP>
    struct CMAStrategy {
        static ProgressFunc<CMAParameters<TGP>, CMASolutions> _defaultPFunc;
    };
    template <class TCov, class TGP>
    ProgressFunc<CMAParameters<TGP>, CMASolutions> CMAStrategy<TCov, TGP>::_defaultPFunc = [](const CMAParameters<TGP>&, const CMASolutions&) {
        standin::log().runs.back().dflt++;
        return 0;
    };
    template <class TGP = GenoPheno<NoBoundStrategy>>
    CMASolutions cmaes(FitFunc& f, CMAParameters<TGP>& p, ProgressFunc<CMAParameters<TGP>, CMASolutions>& progress = CMAStrategy<CovarianceUpdate, TGP>::_defaultPFunc)
    {
        auto& l = standin::log();
        l.runs.push_back(p._r);
        size_t me = l.runs.size() - 1;
        CMASolutions s;
        s._best = Candidate(HUGE_VAL, p._x0);
        for (;; s._n++) {
            auto c = l.candidates(p._x0, p._r.sigma, s._n);
            if (c.empty())
                break;
            s._last = Candidate();
            for (auto& g : c) {
                dVec x = p._gp.pheno(g);
                l.runs[me].x.push_back(x);
                double v = f(x.data(), x.size());
                l.runs[me].v.push_back(v);
                s._fe++;
                if (v < s._best.get_fvalue())
                    s._best = Candidate(v, g);
                if (v < s._last.get_fvalue())
                    s._last = Candidate(v, g);
            }
            l.runs[me].progress++;
            if (progress(p, s))
                break;
        }
        s._mean = l.mean(p._x0);
        l.runs[me].mean = p._gp.pheno(s._mean);
        return s;
    }
}
#endif
