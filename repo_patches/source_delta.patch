From ac4527432160f8601f713d81de8011572004d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:35 +0000
Subject: [PATCH 01/46] fix: the log-likelihood of a multi-output GP counts the
 normalization terms of every output

---
 src/limbo/model/gp.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..adab526 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -276,7 +276,8 @@ namespace limbo {
                 double a = (_obs_mean.transpose() * _alpha)
                                .trace(); // generalization for multi dimensional observation
 
-                _log_lik = -0.5 * a - 0.5 * logdet - 0.5 * n * std::log(2 * M_PI);
+                // the outputs share the kernel: each of them contributes its own normalization terms
+                _log_lik = -0.5 * a - 0.5 * _dim_out * logdet - 0.5 * _dim_out * n * std::log(2 * M_PI);
 
                 return _log_lik;
             }
@@ -292,8 +293,8 @@ namespace limbo {
                 }
                 Eigen::MatrixXd w = _inv_kernel;
 
-                // alpha * alpha.transpose() - K^{-1}
-                w = _alpha * _alpha.transpose() - w;
+                // alpha * alpha.transpose() - dim_out * K^{-1}
+                w = _alpha * _alpha.transpose() - _dim_out * w;
 
                 // only compute half of the matrix (symmetrical matrix)
                 Eigen::VectorXd grad = Eigen::VectorXd::Zero(_kernel_function.h_params_size());
-- 
2.43.0


From bfefbdc198cad016e7db410858a22a8e2a867818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:41 +0000
Subject: [PATCH 02/46] fix: MultiGP::recompute(true, false) takes the new
 prior mean into account

---
 src/limbo/model/multi_gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 22bf26e..e44a501 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -258,8 +258,10 @@ namespace limbo {
                     return;
 
                 if (update_obs_mean) // if the mean is updated, we need to fully re-compute
-                    return compute(_gp_models[0].samples(), _observations, update_full_kernel);
-                else
+                    compute(_gp_models[0].samples(), _observations, update_full_kernel);
+
+                // compute() without the kernel does not update the predictions
+                if (!update_obs_mean || !update_full_kernel)
                     limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                         _gp_models[i].recompute(false, update_full_kernel);
                     });
-- 
2.43.0


From abcc2250b94800d6ec8cd5758e5bab4a6ba67fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:41 +0000
Subject: [PATCH 03/46] fix: MultiGP::add_sample updates the prior mean of the
 previous samples

---
 src/limbo/model/multi_gp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index e44a501..c86555c 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -172,6 +172,10 @@ namespace limbo {
                 limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                     _gp_models[i].add_sample(sample, limbo::tools::make_vector(observation[i] - mean_vector[i]));
                 });
+
+                // the mean function may depend on all the observations (e.g. mean::Data):
+                // the observations of the previous samples need to be centered again
+                this->recompute(true, false);
             }
 
             /**
-- 
2.43.0


From ac62ad764284580f295d526093f40c77250eb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:32 +0000
Subject: [PATCH 04/46] fix: SparsifiedGP does not read more neighbors than
 there are other samples

---
 src/limbo/model/sparsified_gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 7538fcc..a86bb48 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -127,6 +127,8 @@ namespace limbo {
             {
                 std::mutex update_mutex;
                 double min_dist = std::numeric_limits<double>::max();
+                /// there are only N-1 neighbors
+                const int nb_neighbors = std::min(D, N - 1);
                 int denser = -1;
 
                 tools::par::loop(0u, N, [&](size_t i) {
@@ -136,9 +138,9 @@ namespace limbo {
                     /// remove self distance
                     neighbors.erase(neighbors.begin() + i);
 
-                    std::partial_sort(neighbors.begin(), neighbors.begin() + D, neighbors.end());
+                    std::partial_sort(neighbors.begin(), neighbors.begin() + nb_neighbors, neighbors.end());
 
-                    for (int j = 0; j < D; j++) {
+                    for (int j = 0; j < nb_neighbors; j++) {
                         dist += neighbors[j];
                     }
 
-- 
2.43.0


From d8e7ba2575b0c11b1f383de799ed2511b44c24d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:37 +0000
Subject: [PATCH 05/46] fix: TextArchive loads subnormal numbers instead of
 throwing out_of_range

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..7be7cc4 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -47,6 +47,7 @@
 #define LIMBO_SERIALIZE_TEXT_ARCHIVE_HPP
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -142,7 +143,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr));
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From 6ce4bcb0bc9548a7b3778c6b436d919d7a7ed471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:29 +0000
Subject: [PATCH 06/46] fix: a GP loaded without recomputing has consistent
 scores

load(archive, false) left the centred observations and the cached inverse
kernel of the previous content behind, so the likelihood and the
leave-one-out score of the loaded model were those of other data
---
 src/limbo/model/gp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index adab526..0ac9e91 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -508,6 +508,10 @@ namespace limbo {
                 else {
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+
+                    // the likelihoods need the data minus the mean, and the inverse of the loaded kernel
+                    this->_compute_obs_mean();
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From 182983399cec1a77c94b5e39f07b647a3e168f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 07/46] fix: GridSearch stays in the unit hypercube and always
 returns a node of its grid

Accumulating the step size in floating point gave an additional node beyond 1
for some numbers of bins (e.g. 10), and the result was uninitialised when no
value was larger than the lowest finite number.
---
 src/limbo/opt/grid_search.hpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..8c878fd 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -84,28 +84,22 @@ namespace limbo {
             Eigen::VectorXd _inner_search(const F& f, size_t depth, const Eigen::VectorXd& current) const
             {
                 size_t dim = current.size();
-                double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
+                int bins = Params::opt_gridsearch::bins();
                 double best_fit = -std::numeric_limits<double>::max();
                 Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                // count the nodes: accumulating the step size can go past 1
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
-                    double val;
-                    if (depth == dim - 1) {
-                        val = eval(f, new_point);
-                        if (val > best_fit) {
-                            best_fit = val;
-                            current_result = new_point;
-                        }
-                    }
-                    else {
-                        Eigen::VectorXd temp_result = _inner_search(f, depth + 1, new_point);
-                        val = eval(f, temp_result);
-                        if (val > best_fit) {
-                            best_fit = val;
-                            current_result = temp_result;
-                        }
+                    new_point[depth] = i / (double)bins;
+                    if (depth != dim - 1)
+                        new_point = _inner_search(f, depth + 1, new_point);
+                    double val = eval(f, new_point);
+                    // always return a node of the grid, even if no value is finite
+                    if (i == 0)
+                        current_result = new_point;
+                    if (val > best_fit) {
+                        best_fit = val;
+                        current_result = new_point;
                     }
                 }
                 return current_result;
-- 
2.43.0


From 4412947ef63d81ab5ce32fdea9d295e2d355c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 08/46] fix: GridSampling visits the last node of every
 dimension for every number of bins

---
 src/limbo/init/grid_sampling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..4248fcd 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,9 +80,11 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                // count the nodes: accumulating the step size can miss the last one
+                const int bins = Params::init_gridsampling::bins();
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         opt.eval_and_add(seval, point);
                     }
-- 
2.43.0


From e84b2ccd7f81212362a69edad738068d1f6f80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 09/46] fix: stat::GP writes the last node of every dimension
 for every number of bins

---
 src/limbo/stat/gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index b952dab..e4aa1a1 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -76,9 +76,11 @@ namespace limbo {
                 const BO& bo, const AggregatorFunction& afun,
                 const Eigen::VectorXd& current) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::stat_gp::bins()) {
+                // count the nodes: accumulating the step size can miss the last one
+                const int bins = Params::stat_gp::bins();
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         auto q = bo.model().query(point);
                         double acqui = opt::fun(typename BO::acquisition_function_t(bo.model(), bo.current_iteration())(point, afun, false));
-- 
2.43.0


From d9f4b41c24983755b646c3b515b3c7cbec94e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 10/46] fix: the NLOpt optimizers respect the bounds when
 started from outside of them

NLOpt rejects such a start with an exception, which was swallowed and the
starting point returned: the result of a bounded search was out of bounds.
---
 src/limbo/opt/nlopt_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..dcbe5e9 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,7 @@
 #else
 #include <Eigen/Core>
 
+#include <algorithm>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -88,6 +89,10 @@ namespace limbo {
                 if (bounded) {
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
+
+                    // NLOpt refuses to start from outside of the bounds
+                    for (int i = 0; i < dim; i++)
+                        x[i] = std::max(0., std::min(1., x[i]));
                 }
 
                 double max;
-- 
2.43.0


From 740822ee21ac1e0c0f5660cce2fd02412d36962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 11/46] fix: an unbounded NLOpt search is not limited by the
 bounds of a previous search

---
 src/limbo/opt/nlopt_base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index dcbe5e9..39db349 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -52,6 +52,7 @@
 #include <Eigen/Core>
 
 #include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -94,6 +95,11 @@ namespace limbo {
                     for (int i = 0; i < dim; i++)
                         x[i] = std::max(0., std::min(1., x[i]));
                 }
+                else {
+                    // the optimizer may have been used with bounds before
+                    _opt.set_lower_bounds(-HUGE_VAL);
+                    _opt.set_upper_bounds(HUGE_VAL);
+                }
 
                 double max;
 
-- 
2.43.0


From 752ad5af2868d8e1b81347009fad3cb7a88a3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 12/46] fix: ParallelRepeater returns the best result of its
 replicates, in bounds, for any objective value

Results below -FLT_MAX were ignored in favor of the initial point, which does
not have to be in bounds.
---
 src/limbo/opt/parallel_repeater.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index a3eebf8..d7b43c9 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -99,7 +99,11 @@ namespace limbo {
                     // clang-format on
                 };
 
-                pair_t init_v = std::make_pair(init, -std::numeric_limits<float>::max());
+                // what we return if no replicate finds anything
+                Eigen::VectorXd start = init;
+                if (bounded)
+                    start = start.array().max(0.).min(1.);
+                pair_t init_v = std::make_pair(start, -std::numeric_limits<double>::max());
                 auto m = tools::par::max(init_v, Params::opt_parallelrepeater::repeats(), body, comp);
 
                 return m.first;
-- 
2.43.0


From 3ead745c44a39536351d1c0bf34fe306e2fa6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 13/46] fix: GP_UCB is finite at the first iteration and in
 high dimension

---
 src/limbo/acqui/gp_ucb.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/limbo/acqui/gp_ucb.hpp b/src/limbo/acqui/gp_ucb.hpp
index 2c10f50..d000849 100644
--- a/src/limbo/acqui/gp_ucb.hpp
+++ b/src/limbo/acqui/gp_ucb.hpp
@@ -48,6 +48,9 @@
 
 #include <Eigen/Core>
 
+#include <algorithm>
+#include <cmath>
+
 #include <limbo/opt/optimizer.hpp>
 #include <limbo/tools/macros.hpp>
 
@@ -82,10 +85,11 @@ namespace limbo {
         public:
             GP_UCB(const Model& model, int iteration) : _model(model)
             {
-                double nt = std::pow(iteration, dim_in() / 2.0 + 2.0);
+                // the first iteration is 0; n^(D/2+2) can overflow, but not its logarithm
+                double log_nt = (dim_in() / 2.0 + 2.0) * std::log(std::max(iteration, 1));
                 static constexpr double delta3 = Params::acqui_gpucb::delta() * 3;
                 static constexpr double pi2 = M_PI * M_PI;
-                _beta = std::sqrt(2.0 * std::log(nt * pi2 / delta3));
+                _beta = std::sqrt(2.0 * (log_nt + std::log(pi2 / delta3)));
             }
 
             size_t dim_in() const { return _model.dim_in(); }
-- 
2.43.0


From 7fc2630cf6e5c3edf216e0470934cbdcc65e112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:21 +0000
Subject: [PATCH 14/46] fix: BoBase takes all its named arguments into account
 when an acquisition optimizer is given too

---
 src/limbo/bayes_opt/bo_base.hpp    | 6 +++++-
 src/limbo/bayes_opt/boptimizer.hpp | 2 --
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..e4afa4b 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -115,14 +115,18 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
+    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
     namespace bayes_opt {
 
+        // there must be as many entries as there are arguments, including those of the derived
+        // optimizers (acquiopt): Boost.Parameter silently ignores any additional argument
         using bobase_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
-            boost::parameter::optional<tag::modelfun>>;
+            boost::parameter::optional<tag::modelfun>,
+            boost::parameter::optional<tag::acquiopt>>;
 
         // clang-format off
         template <class Params,
diff --git a/src/limbo/bayes_opt/boptimizer.hpp b/src/limbo/bayes_opt/boptimizer.hpp
index 4860d02..3733fd1 100644
--- a/src/limbo/bayes_opt/boptimizer.hpp
+++ b/src/limbo/bayes_opt/boptimizer.hpp
@@ -72,8 +72,6 @@ namespace limbo {
         };
     }
 
-    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
     namespace bayes_opt {
 
         using boptimizer_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
-- 
2.43.0


From 8d985adf55f9b62deff84e57ea14f818fee93b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:42 +0000
Subject: [PATCH 15/46] fix: stat::GPLikelihood compiles and writes the
 likelihood of the model

---
 src/limbo/stat/gp_likelihood.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index c60dcd2..0457a25 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,9 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_lik() << std::endl;
+                // the model only stores the likelihood when it is asked to compute it
+                auto model = bo.model();
+                (*this->_log_file) << bo.total_iterations() << " " << model.compute_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From edbe6850b9130d2242391bae6bf9e7412f8b6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:27 +0000
Subject: [PATCH 16/46] fix: a re-seeded RandomGenerator does not return a
 value kept from the previous seed

---
 src/limbo/tools/random_generator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/tools/random_generator.hpp b/src/limbo/tools/random_generator.hpp
index e44edbd..cf14cbe 100644
--- a/src/limbo/tools/random_generator.hpp
+++ b/src/limbo/tools/random_generator.hpp
@@ -77,6 +77,8 @@ namespace limbo {
 
             void seed(int seed = -1)
             {
+                // drop the values kept by the distribution (normal distributions produce them in pairs)
+                _dist.reset();
                 if (seed >= 0)
                     _rgen.seed(seed);
                 else
-- 
2.43.0


From 25ea55276384a3892d34e095dc96d6c8d92c9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 17/46] fix: the hypervolume tree of the 3-D EHVI does not use
 a node after deleting it

---
 src/ehvi/ehvi_hvol.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ehvi/ehvi_hvol.cc b/src/ehvi/ehvi_hvol.cc
index ffe94cd..0365741 100644
--- a/src/ehvi/ehvi_hvol.cc
+++ b/src/ehvi/ehvi_hvol.cc
@@ -307,8 +307,9 @@ avlnode* bitree::attemptcandidate(double x, double y)
     // We have inserted the point and must now update totalS and remove dominated
     // points.
     calculateS(temp);
+    point* inserted = temp->data;
     removedominated(temp);
-    return temp;
+    return inserted->xnode;
 }
 
 void bitree::removedominated(avlnode* node)
@@ -318,8 +319,11 @@ void bitree::removedominated(avlnode* node)
     // or reaches the end. First nondominated point's horizontal S strip is
     // recalculated.
     // Dominated points are deleted.
+    // NOTE: removenode can move the data of this node to another one and delete
+    // this node, so that only its data can be used from there.
+    point* inserted = node->data;
     avlnode* previous = getprevious(node);
-    while (previous != NULL && previous->data->y <= node->data->y) {
+    while (previous != NULL && previous->data->y <= inserted->y) {
         avlnode* goner = previous;
         previous = getprevious(previous);
         point* magic;
-- 
2.43.0


From afd1bf72d8fd74b1e6907b7d9713437b6562bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 18/46] fix: acqui::Ehvi gives standard deviations (not
 variances) to ehvi2d

---
 src/limbo/experimental/acqui/ehvi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index fe73f82..59a54d5 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -46,6 +46,8 @@
 #ifndef LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 #define LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 
+#include <cmath>
+#include <deque>
 #include <vector>
 
 #include <Eigen/Core>
@@ -73,7 +75,7 @@ namespace limbo {
                 assert(_models.size() == 2);
                 double r[3] = {_ref_point(0), _ref_point(1), _ref_point(2)};
                 double mu[3] = {afun(_models[0].mu(v)), afun(_models[1].mu(v)), 0};
-                double s[3] = {_models[0].sigma(v), _models[1].sigma(v), 0};
+                double s[3] = {std::sqrt(_models[0].sigma(v)), std::sqrt(_models[1].sigma(v)), 0}; // ehvi2d takes standard deviations
                 double ehvi = ehvi2d(_pop, r, mu, s);
                 return ehvi;
             }
-- 
2.43.0


From a9cf08cc1cd0a138f8a0b4c176592d1cff029dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 19/46] fix: acqui::Ehvi::dim compiles

---
 src/limbo/experimental/acqui/ehvi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index 59a54d5..8818697 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -67,7 +67,7 @@ namespace limbo {
                 assert(_models.size() == 2);
             }
 
-            size_t dim() const { return _models[0].dim(); }
+            size_t dim() const { return _models[0].dim_in(); }
 
             template <typename AggregatorFunction = FirstElem>
             double operator()(const Eigen::VectorXd& v, const AggregatorFunction& afun = AggregatorFunction()) const
-- 
2.43.0


From d0ff610c21200fcd71553f26a05499ac252f1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 20/46] fix: CBOptimizer takes its seven named arguments into
 account in any order

---
 src/limbo/bayes_opt/bo_base.hpp                  | 16 ++++++++++++----
 src/limbo/experimental/bayes_opt/cboptimizer.hpp |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index e4afa4b..4db641d 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -117,16 +117,23 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
+    namespace experimental {
+        namespace tag {
+            struct constraint_modelfun; // defined in experimental/bayes_opt/cboptimizer.hpp
+        }
+    }
+
     namespace bayes_opt {
 
         // there must be as many entries as there are arguments, including those of the derived
-        // optimizers (acquiopt): Boost.Parameter silently ignores any additional argument
+        // optimizers (acquiopt, constraint_modelfun): Boost.Parameter silently ignores any additional argument
         using bobase_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
             boost::parameter::optional<tag::modelfun>,
-            boost::parameter::optional<tag::acquiopt>>;
+            boost::parameter::optional<tag::acquiopt>,
+            boost::parameter::optional<experimental::tag::constraint_modelfun>>;
 
         // clang-format off
         template <class Params,
@@ -135,7 +142,8 @@ namespace limbo {
           class A3 = boost::parameter::void_,
           class A4 = boost::parameter::void_,
           class A5 = boost::parameter::void_,
-          class A6 = boost::parameter::void_>
+          class A6 = boost::parameter::void_,
+          class A7 = boost::parameter::void_>
         // clang-format on
         /**
         \rst
@@ -195,7 +203,7 @@ namespace limbo {
             };
 
             // extract the types
-            using args = typename bobase_signature::bind<A1, A2, A3, A4, A5, A6>::type;
+            using args = typename bobase_signature::bind<A1, A2, A3, A4, A5, A6, A7>::type;
             using init_function_t = typename boost::parameter::binding<args, tag::initfun, typename defaults::init_t>::type;
             using acquisition_function_t = typename boost::parameter::binding<args, tag::acquifun, typename defaults::acqui_t>::type;
             using model_t = typename boost::parameter::binding<args, tag::modelfun, typename defaults::model_t>::type;
diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..e21a4bb 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -117,7 +117,7 @@ namespace limbo {
           class A6 = boost::parameter::void_,
           class A7 = boost::parameter::void_>
             // clang-format on
-            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6> {
+            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6, A7> {
             public:
                 // defaults
                 struct defaults {
@@ -134,7 +134,7 @@ namespace limbo {
                     using constraint_model_t = limbo::model::GP<Params, kf_t, mean_t>;
                 };
                 /// link to the corresponding BoBase (useful for typedefs)
-                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6>;
+                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6, A7>;
                 using model_t = typename base_t::model_t;
 
                 using acquisition_function_t = typename base_t::acquisition_function_t;
-- 
2.43.0


From 0d50918aa3f1cc145e6d0b3ebb548ab29f900b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 21/46] fix: CBOptimizer gives every observation to its models,
 and best_sample() is where the best feasible value was observed

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 49 ++++++++++---------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index e21a4bb..0e213ef 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -49,6 +49,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iterator>
+#include <numeric>
 
 #include <boost/parameter/aux_/void.hpp>
 
@@ -175,6 +176,7 @@ namespace limbo {
                         Eigen::VectorXd starting_point = tools::random_vector(StateFunction::dim_in(), Params::bayes_opt_cboptimizer::bounded());
                         Eigen::VectorXd new_sample = acqui_optimizer(acqui_optimization, starting_point, Params::bayes_opt_cboptimizer::bounded());
                         this->eval_and_add(sfun, new_sample);
+                        _split_observations();
 
                         this->_update_stats(*this, afun);
 
@@ -196,36 +198,22 @@ namespace limbo {
 
                 /// return the best observation so far (i.e. max(f(x)))
                 template <typename AggregatorFunction = FirstElem>
-                const Eigen::VectorXd& best_observation(const AggregatorFunction& afun = AggregatorFunction()) const
+                Eigen::VectorXd best_observation(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return _obs[0][std::distance(rewards.begin(), max_e)];
+                    return _obs[0][_best_index(afun)];
                 }
 
                 /// return the best sample so far (i.e. the argmax(f(x)))
                 template <typename AggregatorFunction = FirstElem>
-                const Eigen::VectorXd& best_sample(const AggregatorFunction& afun = AggregatorFunction()) const
+                Eigen::VectorXd best_sample(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    return this->_samples[_best_index(afun)];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -237,17 +225,34 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                // indices of the feasible observations
+                std::vector<size_t> _feasible_observations() const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
+                    std::vector<size_t> feasible_obs;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
+                        if (_nb_constraints == 0 || _obs[1][i].prod() > 0)
+                            feasible_obs.push_back(i);
                     }
 
                     return feasible_obs;
                 }
 
+                // index of the best feasible observation (of the best observation if none is feasible)
+                template <typename AggregatorFunction>
+                size_t _best_index(const AggregatorFunction& afun) const
+                {
+                    std::vector<size_t> candidates = _feasible_observations();
+                    if (candidates.empty()) {
+                        candidates.resize(_obs[0].size());
+                        std::iota(candidates.begin(), candidates.end(), 0);
+                    }
+
+                    auto rewards = std::vector<double>(candidates.size());
+                    std::transform(candidates.begin(), candidates.end(), rewards.begin(), [&](size_t i) { return afun(_obs[0][i]); });
+                    auto max_e = std::max_element(rewards.begin(), rewards.end());
+                    return candidates[std::distance(rewards.begin(), max_e)];
+                }
+
                 void _split_observations() const
                 {
                     _obs.clear();
-- 
2.43.0


From c96709a908f33fd0a5485ce3f1f059e01c3052d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 22/46] fix: Parego finds its parego_modelfun argument in any
 position

---
 src/limbo/experimental/bayes_opt/parego.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/bayes_opt/parego.hpp b/src/limbo/experimental/bayes_opt/parego.hpp
index 7b0ec27..84f5504 100644
--- a/src/limbo/experimental/bayes_opt/parego.hpp
+++ b/src/limbo/experimental/bayes_opt/parego.hpp
@@ -59,7 +59,13 @@ namespace limbo {
 
             BOOST_PARAMETER_TEMPLATE_KEYWORD(parego_modelfun)
 
-            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>>;
+            // there must be as many entries as there are arguments: Boost.Parameter silently ignores any additional argument
+            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>>;
 
             // clang-format off
             template <class Params,
-- 
2.43.0


From 2f477834b7b6317ad1ba3864aad08118f166f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 23/46] fix: the likelihood of SPGP does not round (n - m) / 2
 to an integer

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 7c30585..76c8edd 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -488,7 +488,7 @@ namespace limbo {
                 Eigen::MatrixXd bet = invLmV * y;
 
                 // Calculate likelihood
-                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - _m) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
+                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + 0.5 * (n - double(_m)) * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
 
                 if (!eval_grad) {
                     if (inverse)
-- 
2.43.0


From d944b44bbe5a67088cf3df2a1e020a8dfaac6291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 24/46] fix: SPGP starts its search from pseudo-inputs that are
 training inputs

---
 src/limbo/experimental/model/spgp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 76c8edd..02324d4 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -418,7 +418,8 @@ namespace limbo {
                     Eigen::VectorXd positions = Eigen::VectorXd::LinSpaced(_samples.rows(), 0, _samples.rows() - 1);
                     std::random_shuffle(positions.data(), positions.data() + positions.size());
                     for (size_t i = 0; i < _m; ++i)
-                        _w_init.segment(i * _dim_in, _dim_in) = _samples.row(positions[i]);
+                        for (size_t d = 0; d < _dim_in; ++d) // HyperParams reads the pseudo-inputs column by column
+                            _w_init[d * _m + i] = _samples(positions[i], d);
 
                     // Initialize hyperparameters sensibly in log space
                     _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-- 
2.43.0


From 241db5e19b1af97e4fd4ce311a31b00a4b7fc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 25/46] fix: SPGP does not use more pseudo-inputs than samples

---
 src/limbo/experimental/model/spgp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 02324d4..84bfe9a 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -384,6 +384,9 @@ namespace limbo {
                 _m = Params::model_spgp::samples_percent() * _samples.rows() / 100;
                 if (_m < Params::model_spgp::min_m())
                     _m = Params::model_spgp::min_m();
+                // the pseudo-inputs are initialized to a subset of the training inputs
+                if (_m > (size_t)_samples.rows())
+                    _m = _samples.rows();
             }
 
             void _compute(bool optimize = true)
-- 
2.43.0


From 20fa1017a8b094f7dad49c81aa5b0f830992fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 26/46] fix: the jitter of SPGP is set when the first data come
 from add_sample

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 84bfe9a..808fe51 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -320,7 +320,7 @@ namespace limbo {
             size_t _m;
             size_t _dim_in = -1;
             size_t _dim_out = -1;
-            double _del;
+            double _del = Params::model_spgp::jitter();
             Eigen::MatrixXd _samples;
             Eigen::MatrixXd _observations;
             Eigen::MatrixXd _observations_zm;
-- 
2.43.0


From 327d32f7c96979cbf12938efe40b8f435977df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 27/46] fix: SPGP::optimize_hyperparams updates the predictions

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 808fe51..a817b7b 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -125,7 +125,7 @@ namespace limbo {
             void optimize_hyperparams()
             {
                 _optimize_init = true;
-                _optimize_hyperparams();
+                _compute();
             }
 
             /// Compute the SPGP from samples and observations. This call needs to be explicit!
-- 
2.43.0


From 67643774a20f95883aba116572e806a3985bc2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 28/46] fix: SPGP::recompute takes a changed mean function into
 account

---
 src/limbo/experimental/model/spgp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index a817b7b..e63dae7 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -282,6 +282,8 @@ namespace limbo {
             ///  recomputes the SPGP
             void recompute(bool update_obs_mean = true)
             {
+                if (update_obs_mean)
+                    _compute_observations_zm();
                 _optimize_init = true;
                 _compute();
             }
-- 
2.43.0


From 1c2034874b9db47be0f0a5f734c9c4907b0710f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 29/46] fix: SPGP starts from finite hyper-parameters when the
 data have no extent

---
 src/limbo/experimental/model/spgp.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index e63dae7..27cceaa 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -431,6 +431,15 @@ namespace limbo {
                     _w_init[(_m + 1) * _dim_in] = std::log(_observations_zm.array().pow(2).mean());
                     _w_init[(_m + 1) * _dim_in + 1] = std::log((_observations_zm.array().pow(2) / 4).mean());
 
+                    // there is no scale to take from data without extent (e.g. a single sample): use the default values
+                    for (size_t d = 0; d < _dim_in; ++d)
+                        if (!std::isfinite(_w_init[_m * _dim_in + d]))
+                            _w_init[_m * _dim_in + d] = std::log(Params::model_spgp::pred_kernel_l());
+                    if (!std::isfinite(_w_init[(_m + 1) * _dim_in]))
+                        _w_init[(_m + 1) * _dim_in] = std::log(Params::model_spgp::pred_kernel_sigma_sq());
+                    if (!std::isfinite(_w_init[(_m + 1) * _dim_in + 1]))
+                        _w_init[(_m + 1) * _dim_in + 1] = std::log(Params::model_spgp::sig());
+
                     _optimize_init = false;
                 }
 
-- 
2.43.0


From 7347348c9b180318dcc9a2f31cc05ab61524e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 30/46] fix: SPGP::mu and SPGP::sigma accept a point of several
 dimensions

---
 src/limbo/experimental/model/spgp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 27cceaa..398de55 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -213,6 +213,9 @@ namespace limbo {
 	  		*/
             Eigen::MatrixXd mu(const Eigen::MatrixXd& v) const
             {
+                // a point (column vector), like in the other models
+                if (v.cols() == 1 && _dim_in != 1)
+                    return _predict(v.transpose(), true, false).first;
                 return _predict(v, true, false).first;
             }
             std::vector<Eigen::VectorXd> mu_mult(const Eigen::MatrixXd& v) const
@@ -227,7 +230,7 @@ namespace limbo {
 	  		*/
             double sigma(const Eigen::VectorXd& v) const
             {
-                return (_predict(v, false, true).second)(0, 0);
+                return (_predict(v.transpose(), false, true).second)(0, 0);
             }
             // TODO: Deberia machear la interfaz de la GP
             Eigen::VectorXd sigma_mult(const Eigen::MatrixXd& v) const
-- 
2.43.0


From 8d234816a9d06a01ad8353795b932ba7c25539e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 31/46] fix: SPGP starts its search from pseudo-inputs that are
 training inputs (integer positions)

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 398de55..7769638 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -427,7 +427,7 @@ namespace limbo {
                     std::random_shuffle(positions.data(), positions.data() + positions.size());
                     for (size_t i = 0; i < _m; ++i)
                         for (size_t d = 0; d < _dim_in; ++d) // HyperParams reads the pseudo-inputs column by column
-                            _w_init[d * _m + i] = _samples(positions[i], d);
+                            _w_init[d * _m + i] = _samples(Eigen::Index(positions[i]), d);
 
                     // Initialize hyperparameters sensibly in log space
                     _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-- 
2.43.0


From 3f47a6d1428901ce6c2d4106369a7570d2b3a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 32/46] fix: IMGPO goes on with its tree when it is not reset

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 44 +++++++++++++---------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 048257b..3bbadaf 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -94,34 +94,36 @@ namespace limbo {
                 {
                     this->_init(sfun, afun, reset);
                     size_t h_upper = 1000;
-                    // Init tree
-                    if (this->_total_iterations == 0)
-                        _init_tree(h_upper);
-
                     // Init model
                     _model = model_t(StateFunction::dim_in(), StateFunction::dim_out());
 
-                    // Init root
-                    _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
-                    _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
-                    _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
-                    _tree[0].f.push_back(sfun(_tree[0].x[0]));
-                    _tree[0].leaf.push_back(true);
-                    _tree[0].samp.push_back(true);
+                    // a run that is not reset goes on with the tree of the previous one
+                    if (this->_total_iterations == 0) {
+                        // Init tree
+                        _init_tree(h_upper);
 
-                    this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
-                    double LB = afun(_tree[0].f[0]);
+                        // Init root
+                        _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
+                        _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
+                        _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
+                        _tree[0].f.push_back(sfun(_tree[0].x[0]));
+                        _tree[0].leaf.push_back(true);
+                        _tree[0].samp.push_back(true);
+
+                        this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
+                        // N = N+1
+                        this->_current_iteration++;
+                        this->_total_iterations++;
+                    }
+                    double LB = afun(this->best_observation());
                     double inf = std::numeric_limits<double>::infinity();
 
-                    size_t depth_T = 0, M = 1;
+                    size_t &depth_T = _depth_T, &M = _M;
                     double rho_avg = 0, rho_bar = 0;
                     size_t t = 0, XI_max = 4, split_n = 1;
                     int xi_max = 0;
-                    double XI = 1;
+                    double& XI = _XI;
                     double LB_old = LB;
-                    // N = N+1
-                    this->_current_iteration++;
-                    this->_total_iterations++;
 
                     while (this->_samples.size() == 0 || !this->_stop(*this, afun)) {
                         std::vector<int> i_max(depth_T + 1, -1);
@@ -405,10 +407,16 @@ namespace limbo {
                 {
                     _tree.clear();
                     _tree = std::vector<TreeNode>(h_max);
+                    _depth_T = 0;
+                    _M = 1;
+                    _XI = 1;
                 }
 
                 model_t _model;
                 std::vector<TreeNode> _tree;
+                // state of the search: depth of the tree, number of confidence bounds used, depth of the look-ahead
+                size_t _depth_T = 0, _M = 1;
+                double _XI = 1;
             };
         }
     }
-- 
2.43.0


From 3a23b8f0c596194eef7779f429692c817ad33c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 33/46] fix: IMGPO gives an evaluated cell its observed value

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 3bbadaf..29a891b 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -138,11 +138,12 @@ namespace limbo {
                                 break;
 
                             while (true) {
+                                i_max[h] = -1;
+                                b_max[h] = b_hi_max;
                                 for (size_t i = 0; i < _tree[h].x.size(); i++) {
                                     if (_tree[h].leaf[i] == true) {
                                         double b_hi = afun(_tree[h].f[i]);
-                                        if (b_hi > b_hi_max) {
-                                            b_hi_max = b_hi;
+                                        if (b_hi > b_max[h]) {
                                             i_max[h] = i;
                                             b_max[h] = b_hi;
                                         }
@@ -152,6 +153,8 @@ namespace limbo {
                                     break;
 
                                 if (_tree[h].samp[i_max[h]] == true) {
+                                    // only values that were observed exclude deeper cells
+                                    b_hi_max = b_max[h];
                                     break;
                                 }
                                 else {
@@ -159,6 +162,8 @@ namespace limbo {
 
                                     auto tmp_sample = sfun(xxx);
                                     _tree[h].samp[i_max[h]] = true;
+                                    // from now on, the cell is ranked by its observation instead of its bound
+                                    _tree[h].f[i_max[h]] = tmp_sample;
                                     this->add_new_sample(xxx, tmp_sample);
 
                                     // N = N+1
-- 
2.43.0


From ea8b0942831fae40bce8759b3fe8b8c30c04a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 34/46] fix: IMGPO ranks its cells by the aggregator and its
 acquisition function

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 49 ++++++++++------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 29a891b..b38b01a 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -69,7 +69,9 @@ namespace limbo {
     namespace bayes_opt {
         namespace experimental {
             struct TreeNode {
-                std::vector<Eigen::VectorXd> x_max, x_min, x, f;
+                std::vector<Eigen::VectorXd> x_max, x_min, x;
+                // value of the cell: aggregated observation, or upper confidence bound as long as it is not evaluated
+                std::vector<double> f;
                 std::vector<bool> leaf, samp;
             };
             // clang-format off
@@ -106,16 +108,17 @@ namespace limbo {
                         _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
                         _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
                         _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
-                        _tree[0].f.push_back(sfun(_tree[0].x[0]));
+                        Eigen::VectorXd fsample = sfun(_tree[0].x[0]);
+                        _tree[0].f.push_back(afun(fsample));
                         _tree[0].leaf.push_back(true);
                         _tree[0].samp.push_back(true);
 
-                        this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
+                        this->add_new_sample(_tree[0].x[0], fsample);
                         // N = N+1
                         this->_current_iteration++;
                         this->_total_iterations++;
                     }
-                    double LB = afun(this->best_observation());
+                    double LB = afun(this->best_observation(afun));
                     double inf = std::numeric_limits<double>::infinity();
 
                     size_t &depth_T = _depth_T, &M = _M;
@@ -142,7 +145,7 @@ namespace limbo {
                                 b_max[h] = b_hi_max;
                                 for (size_t i = 0; i < _tree[h].x.size(); i++) {
                                     if (_tree[h].leaf[i] == true) {
-                                        double b_hi = afun(_tree[h].f[i]);
+                                        double b_hi = _tree[h].f[i];
                                         if (b_hi > b_max[h]) {
                                             i_max[h] = i;
                                             b_max[h] = b_hi;
@@ -163,7 +166,7 @@ namespace limbo {
                                     auto tmp_sample = sfun(xxx);
                                     _tree[h].samp[i_max[h]] = true;
                                     // from now on, the cell is ranked by its observation instead of its bound
-                                    _tree[h].f[i_max[h]] = tmp_sample;
+                                    _tree[h].f[i_max[h]] = afun(tmp_sample);
                                     this->add_new_sample(xxx, tmp_sample);
 
                                     // N = N+1
@@ -281,31 +284,27 @@ namespace limbo {
                                 _model.compute(this->_samples, this->_observations);
                                 acquisition_function_t acqui_g(_model, M);
                                 double UCB = acqui_g(x_g, afun);
-                                Eigen::VectorXd fsample_g;
+                                double value_g;
                                 if ((UCB - LB) < 1e-6) {
-                                    Eigen::VectorXd mu;
-                                    double sigma;
-                                    std::tie(mu, sigma) = _model.query(x_g);
-                                    // TO-DO: we should fix this somehow for general acquis
-                                    double var = (std::sqrt(2.0 * std::log(std::pow(M_PI, 2.0) * std::pow(M, 2.0) / (12.0 * 0.05))) + 0.2) * std::sqrt(sigma);
                                     M++;
-                                    fsample_g = mu.array() + var;
+                                    value_g = UCB;
                                     _tree[h + 1].samp.push_back(false);
                                 }
                                 else {
-                                    fsample_g = sfun(x_g);
+                                    Eigen::VectorXd fsample_g = sfun(x_g);
+                                    value_g = afun(fsample_g);
                                     _tree[h + 1].samp.push_back(true);
 
                                     this->add_new_sample(x_g, fsample_g);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_g(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, value_g);
 
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
                                 }
 
-                                _tree[h + 1].f.push_back(fsample_g);
+                                _tree[h + 1].f.push_back(value_g);
 
                                 Eigen::VectorXd newmin = _tree[h].x_min[i_max[h]];
                                 _tree[h + 1].x_min.push_back(newmin);
@@ -320,31 +319,27 @@ namespace limbo {
                                 _model.compute(this->_samples, this->_observations);
                                 acquisition_function_t acqui_d(_model, M);
                                 double UCB2 = acqui_d(x_d, afun);
-                                Eigen::VectorXd fsample_d;
+                                double value_d;
                                 if ((UCB2 - LB) < 1e-6) {
-                                    Eigen::VectorXd mu;
-                                    double sigma;
-                                    std::tie(mu, sigma) = _model.query(x_d);
-                                    // TO-DO: we should fix this somehow for general acquis
-                                    double var = (std::sqrt(2.0 * std::log(std::pow(M_PI, 2.0) * std::pow(M, 2.0) / (12.0 * 0.05))) + 0.2) * std::sqrt(sigma);
                                     M++;
-                                    fsample_d = mu.array() + var;
+                                    value_d = UCB2;
                                     _tree[h + 1].samp.push_back(false);
                                 }
                                 else {
-                                    fsample_d = sfun(x_d);
+                                    Eigen::VectorXd fsample_d = sfun(x_d);
+                                    value_d = afun(fsample_d);
                                     _tree[h + 1].samp.push_back(true);
 
                                     this->add_new_sample(x_d, fsample_d);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_d(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, value_d);
 
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
                                 }
 
-                                _tree[h + 1].f.push_back(fsample_d);
+                                _tree[h + 1].f.push_back(value_d);
 
                                 Eigen::VectorXd newmax2 = _tree[h].x_max[i_max[h]];
                                 _tree[h + 1].x_max.push_back(newmax2);
@@ -366,7 +361,7 @@ namespace limbo {
                                 _tree[h + 1].leaf.push_back(true);
 
                                 // update LB
-                                LB = afun(this->best_observation());
+                                LB = afun(this->best_observation(afun));
 
                                 // std::cout << t << " N= " << this->_current_iteration << " n= " << split_n << " fmax_hat= " << LB << " rho= " << rho_bar << " xi= " << xi_max << " h= " << depth_T << std::endl;
                             }
-- 
2.43.0


From 8d0b744a5a4b3fc5ef9a6d91e17419d5111b6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 35/46] fix: IMGPO looks ahead at all the descendants of a cell

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index b38b01a..a6a0bb4 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -200,9 +200,9 @@ namespace limbo {
                                     M2 = M;
                                     for (size_t h2 = h; h2 <= h + xi - 1; h2++) {
                                         for (size_t ii = 0; ii < std::pow(3, h2 - h); ii++) {
-                                            if (ii >= tmp_tree[h].x.size())
+                                            if (ii >= tmp_tree[h2].x.size())
                                                 break;
-                                            Eigen::VectorXd xx = tmp_tree[h].x[ii];
+                                            Eigen::VectorXd xx = tmp_tree[h2].x[ii];
                                             Eigen::VectorXd to_split = tmp_tree[h2].x_max[ii].array() - tmp_tree[h2].x_min[ii].array();
                                             size_t tmp, splitd;
                                             to_split.maxCoeff(&splitd, &tmp);
-- 
2.43.0


From 5ea9ae1dc39a29c48552ed6c2ee0bd93407c34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 36/46] fix: the model of IMGPO holds all the history at the
 end of a run

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index a6a0bb4..d7c2751 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -378,6 +378,7 @@ namespace limbo {
                         LB_old = LB;
                     }
 
+                    _model.compute(this->_samples, this->_observations);
                     if (Params::bayes_opt_imgpo::hp_opt())
                         _model.optimize_hyperparams();
                 }
-- 
2.43.0


From 33f4f4bf079d5ffe55324a5f00b9ad2bf0c9145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 37/46] fix: IMGPO does not split cells beyond double precision

A cell was split (and its children evaluated) even when the centres of its
children were the same points in double precision: points were evaluated
again, and the depth of the tree was not bounded.
---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index d7c2751..dba9efd 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -265,15 +265,20 @@ namespace limbo {
                             if (h >= h_max)
                                 break;
                             if (i_max[h] != -1 && b_max[h] > b_hi_max_2) {
-                                rho_t += 1.0;
-                                depth_T = std::max(depth_T, h + 1);
-                                split_n++;
                                 _tree[h].leaf[i_max[h]] = 0;
 
                                 Eigen::VectorXd xx = _tree[h].x[i_max[h]];
                                 Eigen::VectorXd to_split = _tree[h].x_max[i_max[h]].array() - _tree[h].x_min[i_max[h]].array();
                                 size_t tmp, splitd;
-                                to_split.maxCoeff(&splitd, &tmp);
+                                double side = to_split.maxCoeff(&splitd, &tmp);
+
+                                // a cell that is too small to be split (in double precision) is exhausted
+                                if (side < 16 * std::numeric_limits<double>::epsilon() || h + 1 >= _tree.size())
+                                    continue;
+
+                                rho_t += 1.0;
+                                depth_T = std::max(depth_T, h + 1);
+                                split_n++;
                                 auto x_g = xx, x_d = xx;
                                 x_g(splitd) = (5 * _tree[h].x_min[i_max[h]](splitd) + _tree[h].x_max[i_max[h]](splitd)) / 6.0;
                                 x_d(splitd) = (_tree[h].x_min[i_max[h]](splitd) + 5 * _tree[h].x_max[i_max[h]](splitd)) / 6.0;
-- 
2.43.0


From dfaa8bcd8af2ce38302c4a5bef7d6fdf587ba2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 38/46] fix: Ehvi and BoMulti honour their template arguments
 in any position

Ehvi and BoMulti declared keywords of their own, which BoBase does not know
(and limbo::acquiopt was not the one of Ehvi), and their signatures had fewer
entries than arguments, so that arguments were silently ignored.
---
 src/limbo/experimental/bayes_opt/bo_multi.hpp | 25 ++++++++++---------
 src/limbo/experimental/bayes_opt/ehvi.hpp     | 12 ++++++---
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/bo_multi.hpp b/src/limbo/experimental/bayes_opt/bo_multi.hpp
index 446fbde..347bcfc 100644
--- a/src/limbo/experimental/bayes_opt/bo_multi.hpp
+++ b/src/limbo/experimental/bayes_opt/bo_multi.hpp
@@ -130,18 +130,19 @@ namespace limbo {
 #endif
             }
 
-            // to be removed once moved out of experimental?
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(initfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquifun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
-
-            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
-                boost::parameter::optional<tag::initfun>,
-                boost::parameter::optional<tag::acquifun>,
-                boost::parameter::optional<tag::stopcrit>,
-                boost::parameter::optional<tag::modelfun>>;
+            // the arguments are those of BoBase
+            using limbo::initfun;
+            using limbo::acquifun;
+            using limbo::modelfun;
+            using limbo::statsfun;
+            using limbo::stopcrit;
+
+            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index d9e4edb..0e63c63 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -67,9 +67,15 @@ namespace limbo {
     namespace experimental {
         namespace bayes_opt {
 
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
+            using limbo::acquiopt;
 
-            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>>;
+            // there must be as many entries as there are arguments: Boost.Parameter silently ignores any additional argument
+            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
@@ -93,7 +99,7 @@ namespace limbo {
                 };
 
                 using args = typename ehvi_signature::bind<A1, A2, A3, A4, A5, A6>::type;
-                using acqui_optimizer_t = typename boost::parameter::binding<args, tag::acquiopt, typename defaults::acquiopt_t>::type;
+                using acqui_optimizer_t = typename boost::parameter::binding<args, limbo::tag::acquiopt, typename defaults::acquiopt_t>::type;
 
                 using pareto_point_t = std::tuple<Eigen::VectorXd, Eigen::VectorXd, Eigen::VectorXd>;
                 using base_t = limbo::experimental::bayes_opt::BoMulti<Params, A1, A2, A3, A4, A5, A6>;
-- 
2.43.0


From 211a017b076456e8e341ab0c8041292f22fa5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 39/46] fix: the models and the Pareto set of Ehvi hold all the
 history at the end of a run (BoMulti says they are updated at the end)

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 0e63c63..ebf3044 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -165,6 +165,10 @@ namespace limbo {
                         this->_current_iteration++;
                         this->_total_iterations++;
                     }
+
+                    // the models and the Pareto sets hold all the history
+                    this->template update_pareto_model<EvalFunction::dim_in()>();
+                    this->update_pareto_data();
                 }
             };
         }
-- 
2.43.0


From 69012335b572d3f9d53676c1b56d4117fd13978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 40/46] fix: EI and ECI can be evaluated by several threads, as
 parallel optimizers do

---
 src/limbo/acqui/ei.hpp               | 39 ++++++++++++++++++++--------
 src/limbo/experimental/acqui/eci.hpp | 39 ++++++++++++++++++++--------
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/limbo/acqui/ei.hpp b/src/limbo/acqui/ei.hpp
index c868d6d..277c83a 100644
--- a/src/limbo/acqui/ei.hpp
+++ b/src/limbo/acqui/ei.hpp
@@ -46,6 +46,9 @@
 #ifndef LIMBO_ACQUI_EI_HPP
 #define LIMBO_ACQUI_EI_HPP
 
+#include <memory>
+#include <mutex>
+
 #include <Eigen/Core>
 #include <cmath>
 #include <vector>
@@ -75,7 +78,7 @@ namespace limbo {
         template <typename Params, typename Model>
         class EI {
         public:
-            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1) {}
+            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1), _mutex(std::make_shared<std::mutex>()) {}
 
             size_t dim_in() const { return _model.dim_in(); }
 
@@ -97,17 +100,9 @@ namespace limbo {
 
                 // Compute EI(x)
                 // First find the best so far (predicted) observation -- if needed
-                if (_nb_samples != _model.nb_samples()) {
-                    std::vector<double> rewards;
-                    for (auto s : _model.samples()) {
-                        rewards.push_back(afun(_model.mu(s)));
-                    }
-
-                    _nb_samples = _model.nb_samples();
-                    _f_max = *std::max_element(rewards.begin(), rewards.end());
-                }
+                double f_max = _best(afun);
                 // Calculate Z and \Phi(Z) and \phi(Z)
-                double X = afun(mu) - _f_max - Params::acqui_ei::jitter();
+                double X = afun(mu) - f_max - Params::acqui_ei::jitter();
                 double Z = X / sigma;
                 double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                 double Phi = 0.5 * std::erfc(-Z / std::sqrt(2)); //0.5 * (1.0 + std::erf(Z / std::sqrt(2)));
@@ -119,6 +114,28 @@ namespace limbo {
             const Model& _model;
             int _nb_samples;
             double _f_max;
+            std::shared_ptr<std::mutex> _mutex;
+
+            // optimizers evaluate the same acquisition function from several threads
+            template <typename AggregatorFunction>
+            double _best(const AggregatorFunction& afun)
+            {
+                {
+                    std::lock_guard<std::mutex> lock(*_mutex);
+                    if (_nb_samples == _model.nb_samples())
+                        return _f_max;
+                }
+
+                std::vector<double> rewards;
+                for (auto s : _model.samples()) {
+                    rewards.push_back(afun(_model.mu(s)));
+                }
+
+                std::lock_guard<std::mutex> lock(*_mutex);
+                _nb_samples = _model.nb_samples();
+                _f_max = *std::max_element(rewards.begin(), rewards.end());
+                return _f_max;
+            }
         };
     }
 }
diff --git a/src/limbo/experimental/acqui/eci.hpp b/src/limbo/experimental/acqui/eci.hpp
index 14cb123..19eaa00 100644
--- a/src/limbo/experimental/acqui/eci.hpp
+++ b/src/limbo/experimental/acqui/eci.hpp
@@ -46,6 +46,9 @@
 #ifndef LIMBO_ACQUI_ECI_HPP
 #define LIMBO_ACQUI_ECI_HPP
 
+#include <memory>
+#include <mutex>
+
 #include <Eigen/Core>
 #include <cmath>
 #include <vector>
@@ -66,7 +69,7 @@ namespace limbo {
             class ECI {
             public:
                 ECI(const Model& model, const ConstraintModel& constraint_model, int iteration = 0)
-                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1) {}
+                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1), _mutex(std::make_shared<std::mutex>()) {}
 
                 size_t dim_in() const { return _model.dim_in(); }
 
@@ -88,17 +91,9 @@ namespace limbo {
 
                     // Compute expected constrained improvement
                     // First find the best (predicted) observation so far -- if needed
-                    if (_nb_samples != _model.nb_samples()) {
-                        std::vector<double> rewards;
-                        for (auto s : _model.samples()) {
-                            rewards.push_back(afun(_model.mu(s)));
-                        }
-
-                        _nb_samples = _model.nb_samples();
-                        _f_max = *std::max_element(rewards.begin(), rewards.end());
-                    }
+                    double f_max = _best(afun);
                     // Calculate Z and \Phi(Z) and \phi(Z)
-                    double X = afun(mu) - _f_max - Params::acqui_eci::jitter();
+                    double X = afun(mu) - f_max - Params::acqui_eci::jitter();
                     double Z = X / sigma;
                     double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                     double Phi = 0.5 * std::erfc(-Z / std::sqrt(2));
@@ -111,6 +106,28 @@ namespace limbo {
                 const ConstraintModel& _constraint_model;
                 int _nb_samples;
                 double _f_max;
+                std::shared_ptr<std::mutex> _mutex;
+
+                // optimizers evaluate the same acquisition function from several threads
+                template <typename AggregatorFunction>
+                double _best(const AggregatorFunction& afun)
+                {
+                    {
+                        std::lock_guard<std::mutex> lock(*_mutex);
+                        if (_nb_samples == _model.nb_samples())
+                            return _f_max;
+                    }
+
+                    std::vector<double> rewards;
+                    for (auto s : _model.samples()) {
+                        rewards.push_back(afun(_model.mu(s)));
+                    }
+
+                    std::lock_guard<std::mutex> lock(*_mutex);
+                    _nb_samples = _model.nb_samples();
+                    _f_max = *std::max_element(rewards.begin(), rewards.end());
+                    return _f_max;
+                }
 
                 template <typename AggregatorFunction>
                 double _pf(const Eigen::VectorXd& v, const AggregatorFunction& afun) const
-- 
2.43.0


From e172cae626353aa14c35b0da6529140499bc9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:25 +0000
Subject: [PATCH 41/46] fix: an NLopt optimizer can be used again with another
 dimension

---
 src/limbo/opt/nlopt_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 39db349..5dbcf7d 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -79,7 +79,8 @@ namespace limbo {
             Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded)
             {
                 int dim = init.size();
-                if (!_initialized)
+                // the optimizer may have been used with another dimension before
+                if (!_initialized || _opt.get_dimension() != static_cast<unsigned>(dim))
                     initialize(dim);
 
                 _opt.set_max_objective(nlopt_func<F>, (void*)&f);
-- 
2.43.0


From ee73d6a0bf3de07eb13b8ca2e725ccad944597df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:34 +0000
Subject: [PATCH 42/46] fix: ParetoBenchmark writes nothing when statistics are
 disabled

---
 src/limbo/experimental/stat/pareto_benchmark.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/stat/pareto_benchmark.hpp b/src/limbo/experimental/stat/pareto_benchmark.hpp
index a2b9315..8a50abc 100644
--- a/src/limbo/experimental/stat/pareto_benchmark.hpp
+++ b/src/limbo/experimental/stat/pareto_benchmark.hpp
@@ -56,6 +56,8 @@ namespace limbo {
                 template <typename BO, typename AggregatorFunction>
                 void operator()(BO& opt, const AggregatorFunction& afun)
                 {
+                    if (!opt.stats_enabled() || opt.observations().empty())
+                        return;
                     opt.update_pareto_data();
 #ifndef NSBO // this is already done is NSBO
                     opt.template update_pareto_model<F::dim_in()>();
-- 
2.43.0


From 96392cdd09c782d62c253880912aaa191d6e0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:07 +0000
Subject: [PATCH 43/46] fix: optimizers created by one process in the same
 second get their own results directory

---
 src/limbo/bayes_opt/bo_base.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index 4db641d..cf25d84 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -289,9 +289,11 @@ namespace limbo {
             {
                 if (!Params::bayes_opt_bobase::stats_enabled())
                     return;
-                _res_dir = tools::hostname() + "_" + tools::date() + "_" + tools::getpid();
-                boost::filesystem::path my_path(_res_dir);
-                boost::filesystem::create_directory(my_path);
+                std::string name = tools::hostname() + "_" + tools::date() + "_" + tools::getpid();
+                _res_dir = name;
+                // the name is taken if this process created another optimizer in the same second
+                for (int i = 1; !boost::filesystem::create_directory(_res_dir); ++i)
+                    _res_dir = name + "_" + std::to_string(i);
             }
 
             std::string _res_dir;
-- 
2.43.0


From d01acd2b333ad16e71fc4a31f762f3289cfcf7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:07 +0000
Subject: [PATCH 44/46] fix: date() is thread-safe

---
 src/limbo/tools/sys.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/limbo/tools/sys.hpp b/src/limbo/tools/sys.hpp
index af56361..544197b 100644
--- a/src/limbo/tools/sys.hpp
+++ b/src/limbo/tools/sys.hpp
@@ -65,7 +65,14 @@ namespace limbo {
             char date[30];
             time_t date_time;
             time(&date_time);
-            strftime(date, 30, "%Y-%m-%d_%H_%M_%S", localtime(&date_time));
+            struct tm local_time;
+            // localtime() is not thread-safe
+#if defined(__MINGW32__) || defined(_MSC_VER)
+            localtime_s(&local_time, &date_time);
+#else
+            localtime_r(&date_time, &local_time);
+#endif
+            strftime(date, 30, "%Y-%m-%d_%H_%M_%S", &local_time);
             return std::string(date);
         }
 
-- 
2.43.0


From 8a58d29c9c6e106fa06caef9238761894de9fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:07 +0000
Subject: [PATCH 45/46] fix: a loaded ParEGO model has the original
 observations, and samples can be added to it

---
 src/limbo/experimental/model/gp_parego.hpp | 35 ++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/limbo/experimental/model/gp_parego.hpp b/src/limbo/experimental/model/gp_parego.hpp
index f84a840..8f1b421 100644
--- a/src/limbo/experimental/model/gp_parego.hpp
+++ b/src/limbo/experimental/model/gp_parego.hpp
@@ -97,6 +97,41 @@ namespace limbo {
                     this->compute(this->_samples, _raw_observations);
                 }
 
+                /// save the parameters and the data for the model to the archive (text or binary)
+                template <typename A>
+                void save(const std::string& directory) const
+                {
+                    A archive(directory);
+                    save(archive);
+                }
+
+                /// save the parameters and the data for the model to the archive (text or binary)
+                template <typename A>
+                void save(const A& archive) const
+                {
+                    Model::save(archive);
+                    archive.save(_raw_observations, "raw_observations");
+                }
+
+                /// load the parameters and the data for the model from the archive (text or binary)
+                template <typename A>
+                void load(const std::string& directory, bool recompute = true)
+                {
+                    A archive(directory);
+                    load(archive, recompute);
+                }
+
+                /// load the parameters and the data for the model from the archive (text or binary)
+                template <typename A>
+                void load(const A& archive, bool recompute = true)
+                {
+                    Model::load(archive, recompute);
+                    // needed to add samples
+                    _raw_observations.clear();
+                    archive.load(_raw_observations, "raw_observations");
+                    _nb_objs = _raw_observations[0].size();
+                }
+
             protected:
                 size_t _nb_objs;
                 std::vector<Eigen::VectorXd> _raw_observations;
-- 
2.43.0


From c131daa01530606c8da66d112d531ef23d5bf763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:56 +0000
Subject: [PATCH 46/46] fix: the Monte Carlo estimate of the hypervolume
 improvement is finite for every random draw

---
 src/ehvi/ehvi_montecarlo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ehvi/ehvi_montecarlo.cc b/src/ehvi/ehvi_montecarlo.cc
index 863eb1d..4a6c009 100644
--- a/src/ehvi/ehvi_montecarlo.cc
+++ b/src/ehvi/ehvi_montecarlo.cc
@@ -26,7 +26,8 @@ public:
             saved = false;
             return (s * savednumber) + mu;
         }
-        double U1 = (double)twister() / twister.max();
+        // never 0, which has no logarithm
+        double U1 = ((double)twister() + 1) / ((double)twister.max() + 1);
         double U2 = (double)twister() / twister.max();
         double R = sqrt(-2 * log(U1));
         double theta = TWOPI * U2;
-- 
2.43.0

