// A stand-in for the part of sferes2 that limbo uses (sferes2 is not installed here): the
// populations are chosen by the harness, everything submitted for evaluation is recorded.
#ifndef LV_SFERES_STANDIN_HPP
#define LV_SFERES_STANDIN_HPP
#include <algorithm>
#include <functional>
#include <memory>
#include <vector>

#define SFERES_CONST static constexpr
#define SFERES_FITNESS(Class, Parent) \
    template <typename Exact = void>  \
    class Class : public Parent<Exact>

namespace sferes {
    namespace standin {
        struct Ind {
            std::vector<float> x, objs;
        };
        struct Run {
            size_t evals = 0; // evaluations of the real function made before this run
            std::vector<Ind> all, front;
        };
        struct Log {
            std::function<std::vector<std::vector<float>>(size_t)> population;
            std::function<size_t()> evals;
            std::vector<Run> runs;
        };
        inline Log& log()
        {
            static Log l;
            return l;
        }
    }
    namespace gen {
        namespace evo_float {
            enum mutation_t { polynomial = 0, gaussian, uniform };
            enum cross_over_t { recombination = 0, sbx, no_cross_over };
        }
        template <int Size, typename Params>
        struct EvoFloat {
            std::vector<float> x = std::vector<float>(Size, 0.f);
            size_t size() const { return Size; }
            float data(size_t i) const { return x[i]; }
        };
    }
    namespace fit {
        template <typename Exact = void>
        class Fitness {
        public:
            float value() const { return _value; }
            const std::vector<float>& objs() const { return _objs; }
            float obj(size_t i) const { return _objs[i]; }

        protected:
            float _value = 0;
            std::vector<float> _objs;
        };
        struct compare_objs_lex {
            template <typename I>
            bool operator()(const I& i1, const I& i2) const
            {
                for (size_t i = 0; i < i1->fit().objs().size(); ++i)
                    if (i1->fit().objs()[i] != i2->fit().objs()[i])
                        return i1->fit().objs()[i] > i2->fit().objs()[i];
                return false;
            }
        };
    }
    namespace phen {
        template <typename Gen, typename Fit, typename Params>
        class Parameters {
        public:
            size_t size() const { return _gen.size(); }
            float data(size_t i) const { return Params::parameters::min + _gen.data(i) * (Params::parameters::max - Params::parameters::min); }
            Fit& fit() { return _fit; }
            const Fit& fit() const { return _fit; }
            Gen& gen() { return _gen; }

        protected:
            Gen _gen;
            Fit _fit;
        };
    }
    namespace eval {
        template <typename Params>
        struct Parallel {
        };
    }
    namespace modif {
        template <typename = void>
        struct Dummy {
        };
    }
    namespace ea {
        template <typename Phen, typename Eval, typename Stat, typename Modifier, typename Params>
        class Nsga2 {
        public:
            using indiv_t = std::shared_ptr<Phen>;
            template <typename Fit>
            void set_fit_proto(const Fit& f)
            {
                _proto = [f](Phen& p) { p.fit() = f; };
            }
            void run()
            {
                auto& l = standin::log();
                standin::Run r;
                r.evals = l.evals();
                std::vector<indiv_t> pop;
                auto g = Phen().gen();
                for (auto& x : l.population(g.size())) {
                    auto p = std::make_shared<Phen>();
                    p->gen().x = x;
                    if (_proto)
                        _proto(*p);
                    p->fit().eval(*p);
                    standin::Ind i;
                    for (size_t k = 0; k < p->size(); k++)
                        i.x.push_back(p->data(k));
                    i.objs = p->fit().objs();
                    r.all.push_back(i);
                    pop.push_back(p);
                }
                _front.clear();
                for (size_t i = 0; i < pop.size(); i++) {
                    bool dom = false;
                    for (size_t j = 0; j < pop.size() && !dom; j++) {
                        bool ge = true, gt = false;
                        for (size_t k = 0; k < r.all[i].objs.size(); k++) {
                            ge = ge && r.all[j].objs[k] >= r.all[i].objs[k];
                            gt = gt || r.all[j].objs[k] > r.all[i].objs[k];
                        }
                        dom = ge && gt;
                    }
                    if (!dom) {
                        _front.push_back(pop[i]);
                        r.front.push_back(r.all[i]);
                    }
                }
                l.runs.push_back(r);
            }
            const std::vector<indiv_t>& pareto_front() const { return _front; }

        protected:
            std::function<void(Phen&)> _proto;
            std::vector<indiv_t> _front;
        };
    }
}
#endif
