#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSONL is hard to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L = "src/limbo/"
X = "src/limbo/experimental/"
p("C01", "A Gaussian process predicts the exact posterior of its data",
  "After a model has been computed from samples and observations, the predicted mean at any point is the prior mean plus the kernel-weighted correction of the exact GP posterior, and the predicted variance is the prior variance minus the explained variance plus the observation noise, never negative and never above prior variance plus noise. The combined query and the separate mean and variance queries agree, and the model reports back exactly the data it was given (samples, observations, their mean and maximum, dimensions). A model without samples predicts the prior.",
  ["inputs", "configurations"],
  "every data set (sizes, input and output dimensions, duplicate and far-apart points, observation scales), every built-in kernel and mean function with any hyper-parameters and noise, every query point including training points",
  "test_gp checks a handful of hand-picked 1-D and 2-D data sets at fixed hyper-parameters, mostly through the same code path; it has no independent posterior for arbitrary data, dimensions or kernels.",
  [L+"model/gp.hpp", L+"kernel/kernel.hpp", L+"mean/data.hpp"],
  [("posterior mean and variance", L+"model/gp.hpp: query/mu/sigma, _mu/_sigma"), ("Cholesky factorisation and weights", L+"model/gp.hpp: _compute_full_kernel/_compute_alpha")],
  observe=["query(), mu(), sigma() of the model", "samples(), observations(), mean_observation(), max_observation()"])
p("C02", "Incremental model updates equal recomputation from scratch",
  "Whatever sequence of full computations, one-by-one sample additions, hyper-parameter changes followed by a recomputation and copies of the model led to the current data and hyper-parameters, predictions, likelihood and leave-one-out score are those of a fresh model computed in one batch from that data with those hyper-parameters. This includes prior means that depend on the data, and models whose dimensions are only discovered from the first sample. A recomputation that keeps the kernel still takes changed prior means into account.",
  ["histories", "inputs"],
  "every sequence of compute / add sample / set hyper-parameters + recompute / copy operations and every data stream",
  "the tests run one fixed sequence (N additions versus one compute) for one kernel and the data mean; interleavings with recomputation, hyper-parameter changes, copies and size changes are not sampled.",
  [L+"model/gp.hpp"],
  [("incremental Cholesky update", L+"model/gp.hpp: add_sample/_compute_incremental_kernel"), ("recomputation", L+"model/gp.hpp: recompute/_compute_obs_mean"), ("cached inverse kernel", L+"model/gp.hpp: compute_inv_kernel, _inv_kernel_updated")],
  state=[("cached inverse", "valid only for the current kernel matrix"), ("centred observations", "observations minus the prior mean of the whole current data set")],
  observe=["query() after every operation", "compute_log_lik(), compute_log_loo_cv()"])
p("C03", "Likelihood and leave-one-out scores and their gradients are exact",
  "The model's log marginal likelihood is the Gaussian log density of the observations under the prior (with a shared kernel for several outputs), and its leave-one-out score is the sum of the log predictive densities obtained by actually leaving each sample out. The gradients returned for kernel hyper-parameters (noise included when it is optimised) and for mean-function parameters are the derivatives of those values with respect to the log-space parameters. The objectives that hyper-parameter optimisation hands to its optimiser are these values and gradients, evaluated without changing the model being optimised.",
  ["inputs", "configurations"],
  "every data set, output dimension, kernel, mean function and hyper-parameter vector",
  "tests compare gradients with finite differences of the same code at random points of one data set, so a wrong value with a matching gradient passes, and leave-one-out is never compared with leaving a sample out.",
  [L+"model/gp.hpp", L+"model/gp/kernel_lf_opt.hpp", L+"model/gp/kernel_loo_opt.hpp", L+"model/gp/kernel_mean_lf_opt.hpp", L+"model/gp/mean_lf_opt.hpp"],
  [("log likelihood and gradient", L+"model/gp.hpp: compute_log_lik, compute_kernel_grad_log_lik, compute_mean_grad_log_lik"), ("leave-one-out", L+"model/gp.hpp: compute_log_loo_cv, compute_kernel_grad_log_loo_cv")],
  observe=["returned scalars and gradients, get_log_lik()/get_log_loo_cv()", "objective passed to a user-supplied hyper-parameter optimiser"])
p("C04", "Kernels are the documented covariances with matching gradients",
  "Every built-in kernel returns its documented closed form of the two points and the current log-space hyper-parameters, adds the noise term only for a sample paired with itself, is symmetric and yields positive semi-definite Gram matrices. Setting hyper-parameters and reading them back is lossless and fully determines the kernel, and the initial hyper-parameters encode the configured defaults. Gradients are the derivatives of the kernel value with respect to each log-space hyper-parameter, the noise entry included when it is optimised.",
  ["inputs", "configurations"],
  "every pair of points, dimension, hyper-parameter vector and kernel (exponential, Matern 3/2, Matern 5/2, squared exponential ARD with any number of factor columns, with and without noise optimisation)",
  "tests evaluate a few fixed point pairs and check gradients against finite differences of the same code; the closed forms, positive semi-definiteness, and the factor-matrix ARD variant are barely sampled.",
  [L+"kernel/kernel.hpp", L+"kernel/exp.hpp", L+"kernel/matern_three_halves.hpp", L+"kernel/matern_five_halves.hpp", L+"kernel/squared_exp_ard.hpp"],
  [("noise handling and hyper-parameter packing", L+"kernel/kernel.hpp: operator(), grad, set_h_params"), ("closed forms and gradients", L+"kernel/*.hpp: kernel(), gradient()")])
p("C05", "Mean functions return the documented prior and matching gradients",
  "The null mean is zero, the constant mean is the configured or last set constant in every output, the data mean is the average of the observations in the model, and the parametrised mean is the affine transform given by its parameters of the wrapped mean. Parameters can be set and read back without loss and start at the identity transform. The gradient is the derivative of every output with respect to every parameter, including those of the wrapped mean.",
  ["inputs", "configurations"],
  "every output dimension, parameter vector, model content and query point",
  "tests cover finite-difference gradients of one wrapped mean for a fixed output dimension.",
  [L+"mean/constant.hpp", L+"mean/data.hpp", L+"mean/null_function.hpp", L+"mean/function_ard.hpp"],
  [("affine mean transform", L+"mean/function_ard.hpp: operator(), grad, set_h_params")])
p("C06", "Hyper-parameter optimisation never worsens the model and leaves it consistent",
  "Optimising hyper-parameters by likelihood or leave-one-out, for kernel, mean or both, with the default optimiser never ends with a lower objective value than the initial hyper-parameters had. It only changes the parameters it is meant to change, keeps the data, and leaves predictions and reported score equal to those of a fresh model built from the same data with the hyper-parameters found. With several outputs optimised in parallel, each output's model individually satisfies this.",
  ["inputs", "configurations", "schedules"],
  "every data set, initial hyper-parameters, kernel/mean combination and optimisation objective",
  "tests run the optimiser on one toy data set and check that a likelihood got better or that files match; they do not rebuild a reference model at the optimum.",
  [L+"model/gp/kernel_lf_opt.hpp", L+"model/gp/kernel_loo_opt.hpp", L+"model/gp/kernel_mean_lf_opt.hpp", L+"model/gp/mean_lf_opt.hpp", L+"model/multi_gp/parallel_lf_opt.hpp", L+"opt/rprop.hpp"],
  [("optimise then recompute", L+"model/gp/*_opt.hpp: operator()"), ("per-output optimisation", L+"model/multi_gp/parallel_lf_opt.hpp")])
p("C07", "A multi-output model equals independent single-output models",
  "A multi-output model predicts, for each output, what a single-output GP on the observations of that output minus the shared prior mean, plus that prior mean, predicts; variances come per output with each output's own hyper-parameters. This holds after any history of computations, sample additions, mean or kernel hyper-parameter changes followed by recomputation, optimisation and copies, whether or not outputs are processed in parallel. The model reports back exactly the data it was given.",
  ["histories", "inputs", "schedules"],
  "every sequence of model operations, output dimension, prior mean (null, constant, data, parametrised) and data stream; with and without TBB",
  "tests compare one multi-output model with one GP after a compute and after fixed additions, only with a null mean or a single mean, never after recomputation or with data-dependent means.",
  [L+"model/multi_gp.hpp", L+"model/multi_gp/parallel_lf_opt.hpp"],
  [("splitting of observations and mean handling", L+"model/multi_gp.hpp: compute/add_sample/recompute"), ("combined prediction", L+"model/multi_gp.hpp: query/mu/sigma")])
p("C08", "A sparsified model keeps a bounded subset chosen by density",
  "A sparsified model never holds more than its configured number of points; below that limit it holds all of them and predicts like an ordinary GP. Above it, it holds an order-preserving subset of the given sample/observation pairs, obtained by repeatedly dropping a point whose nearest neighbours (as many as there are input dimensions, or fewer when there are fewer points) are closest in total, and its predictions are those of an ordinary GP on exactly the retained pairs. Adding samples one by one keeps these guarantees after each addition.",
  ["inputs", "histories", "configurations"],
  "every data set around and beyond the limit, every limit (also smaller than the input dimension), input dimension, and interleaving of batch computation and additions; with and without TBB",
  "tests use one random data set in one dimension and check the point count and a rough prediction error.",
  [L+"model/sparsified_gp.hpp"],
  [("greedy sparsification", L+"model/sparsified_gp.hpp: _sparsify, _get_most_dense_point"), ("re-sparsify on insertion", L+"model/sparsified_gp.hpp: add_sample")])
p("C09", "A saved and reloaded model behaves like the original",
  "A model saved to a text or binary archive and loaded, with or without recomputation, into a model with any previous content or default parameters, has the same data, hyper-parameters, predictions and scores as the original. The loaded model stays equivalent to the original under further use: adding samples, recomputing, changing hyper-parameters, scoring and saving again. This holds for single- and multi-output models.",
  ["inputs", "histories", "configurations"],
  "every model content (data scale, dimensions, kernel, mean, hyper-parameters, history) and every continuation after loading",
  "test_serialize compares predictions for random well-scaled data right after loading, never the scores or what happens when the loaded model is used further, and is not part of the reliable suite.",
  [L+"model/gp.hpp", L+"model/multi_gp.hpp", L+"serialize/text_archive.hpp", L+"serialize/binary_archive.hpp"],
  [("model save and load", L+"model/gp.hpp: save/load"), ("multi-output save and load", L+"model/multi_gp.hpp: save/load")],
  state=[("derived state", "centred observations, kernel factor, cached inverse must match the loaded data")])
p("C10", "Archives return the numbers that were stored",
  "Any matrix, vector or list of vectors stored in a binary archive is read back bit for bit, and one stored in a text archive is read back with the same shape and every finite value within 15 significant digits, tiny, huge and signed-zero values included. Storing again under the same name replaces the old content, and objects under different names or in different archive directories do not affect each other, nested directories being created as needed.",
  ["inputs", "histories"],
  "every shape and every finite double (subnormal, extreme, negative zero), every sequence of saves and loads over several names and directories",
  "tests only store well-scaled model data once per name.",
  [L+"serialize/text_archive.hpp", L+"serialize/binary_archive.hpp"],
  [("text format", L+"serialize/text_archive.hpp: save/_load"), ("binary format", L+"serialize/binary_archive.hpp: _write_binary/_read_binary")])
p("C11", "Bounded optimisation never leaves the unit hypercube",
  "When asked for a bounded search, every optimiser calls the objective only at points of the unit hypercube and returns a point of it, whatever the objective, its (finite) gradient and the starting point (inside, on the border of, or outside the box); for the NLopt bindings this concerns the algorithms that support bounds. This also holds for optimisers composed by chaining or by parallel repetition with perturbed starts.",
  ["inputs", "configurations", "schedules"],
  "every objective (steep, flat, multi-modal, huge gradients), starting point, dimension, optimiser and parameterisation; with and without TBB",
  "tests maximise a few smooth functions from the centre of the box and only look at the returned point with a loose tolerance.",
  [L+"opt/rprop.hpp", L+"opt/adam.hpp", L+"opt/gradient_ascent.hpp", L+"opt/grid_search.hpp", L+"opt/random_point.hpp", L+"opt/nlopt_base.hpp", L+"opt/parallel_repeater.hpp", L+"opt/chained.hpp"],
  [("clamping", L+"opt/{rprop,adam,gradient_ascent}.hpp: bounded branches"), ("grid enumeration", L+"opt/grid_search.hpp: _inner_search"), ("NLopt bounds", L+"opt/nlopt_base.hpp: operator()"), ("perturbed restarts", L+"opt/parallel_repeater.hpp: body")],
  observe=["argument of every objective call", "returned point"])
p("C12", "Optimisers deliver what they promise about the result",
  "Grid search evaluates all points of the regular grid and returns a best one; Rprop returns the best point it evaluated, never worse than the (clamped) start; parallel repetition runs the inner optimiser the configured number of times from starts within the configured distance of the given one and returns the best result; chaining feeds each optimiser the previous one's result and returns the last one's. Random search draws a fresh point of the box each time. Iterative optimisers evaluate the objective at most once per configured iteration and exactly that often unless the stopping tolerance is met.",
  ["inputs", "configurations", "schedules"],
  "every objective, start, dimension, iteration budget, number of bins and repeats; with and without TBB",
  "tests check evaluation counts and the optimum on a couple of fixed objectives with one parameterisation each.",
  [L+"opt/grid_search.hpp", L+"opt/rprop.hpp", L+"opt/parallel_repeater.hpp", L+"opt/chained.hpp", L+"opt/random_point.hpp"],
  [("best-point tracking", L+"opt/rprop.hpp: operator()"), ("grid maximum", L+"opt/grid_search.hpp: _inner_search"), ("best of repeats", L+"opt/parallel_repeater.hpp"), ("composition", L+"opt/chained.hpp")])
p("C13", "Gradient optimisers follow their published update rules",
  "The sequence of points at which resilient propagation, Adam, and gradient ascent (plain, momentum, Nesterov) query the objective and the point they return are those of the published update rule for maximisation with the configured step sizes, decay rates, clamping and stopping tolerance. The NLopt bindings perform the same evaluations and return the same point as NLopt itself when asked to maximise the same function with the same algorithm, start, bounds and stopping parameters, also when an optimizer object is used again with other bounds or another dimension.",
  ["inputs", "configurations"],
  "every smooth or piecewise objective, start, dimension and parameterisation, bounded and unbounded",
  "tests only check that the optimum of a parabola is approached, which many wrong update rules do as well.",
  [L+"opt/rprop.hpp", L+"opt/adam.hpp", L+"opt/gradient_ascent.hpp", L+"opt/nlopt_base.hpp", L+"opt/nlopt_grad.hpp", L+"opt/nlopt_no_grad.hpp"],
  [("update rules", L+"opt/{rprop,adam,gradient_ascent}.hpp: operator()"), ("NLopt binding", L+"opt/nlopt_base.hpp: operator(), nlopt_func")])
p("C14", "Initial designs have the promised number, place and structure of points",
  "Random, grid, random-grid and Latin hypercube initialisation evaluate the objective exactly once at each point they add, add exactly the configured number of points, record each with its observation in order, and (when bounded) stay in the unit hypercube. Grid sampling visits every node of the regular grid with the configured number of bins exactly once, random-grid points are grid nodes with every coordinate able to take every node value, and Latin hypercube sampling puts exactly one point in each of the equal strata of every dimension. No initialisation evaluates nothing.",
  ["inputs", "configurations"],
  "every number of samples, bins, dimension and random seed",
  "tests check counts and ranges for one configuration each and no stratification or grid completeness over bin counts.",
  [L+"init/grid_sampling.hpp", L+"init/lhs.hpp", L+"init/random_sampling.hpp", L+"init/random_sampling_grid.hpp", L+"init/no_init.hpp", L+"tools/random_generator.hpp"],
  [("grid enumeration", L+"init/grid_sampling.hpp: _explore"), ("stratified design", L+"tools/random_generator.hpp: random_lhs")])
p("C15", "Acquisition functions equal their documented formulas",
  "UCB, GP-UCB and expected improvement evaluate to their documented formulas of the model's current prediction, the aggregator, their parameters and (for GP-UCB) the iteration, expected improvement relative to the best predicted value over the samples in the model. They are finite for every model and iteration; at the very first iteration GP-UCB is finite and not below the predicted mean. Expected improvement is never negative beyond rounding and is zero without samples. The values follow the model when samples are added after the acquisition function was created.",
  ["inputs", "histories", "configurations"],
  "every model content (also without samples), query point, aggregator, iteration, parameters, and every interleaving of evaluations with model updates",
  "acquisition functions have no value tests of their own; they are only exercised through optimisation runs.",
  [L+"acqui/ucb.hpp", L+"acqui/gp_ucb.hpp", L+"acqui/ei.hpp"],
  [("formulas", L+"acqui/*.hpp: operator()"), ("incumbent cache", L+"acqui/ei.hpp: _f_max/_nb_samples"), ("confidence factor", L+"acqui/gp_ucb.hpp: constructor")])
p("C16", "The optimisation history is exactly what was evaluated, in order",
  "Every evaluation the optimiser makes is recorded once, in order, with the point that was evaluated and the observation that was returned, and nothing else is recorded; when bounded, every evaluated point lies in the unit hypercube. Each iteration makes exactly one evaluation, at the point the acquisition optimiser returned for the acquisition function of the current model, iteration and aggregator, and the iteration counters count the iterations of the current and of all runs since the last reset. A run with reset starts from an empty history with a new initial design, a run without reset appends to the existing history and makes a new design only if no iteration has been made yet.",
  ["histories", "inputs", "configurations"],
  "every sequence of optimise calls with and without reset, objective, initial design, acquisition function, acquisition optimiser, aggregator and iteration budget",
  "tests look at the best value found on toy problems and a few sizes, with one optimise call.",
  [L+"bayes_opt/bo_base.hpp", L+"bayes_opt/boptimizer.hpp"],
  [("main loop", L+"bayes_opt/boptimizer.hpp: optimize"), ("database and counters", L+"bayes_opt/bo_base.hpp: eval_and_add, add_new_sample, _init")],
  state=[("database", "samples and observations, parallel lists"), ("counters", "current and total iterations")],
  observe=["objective calls", "samples(), observations(), current_iteration(), total_iterations()", "arguments seen by user-supplied acquisition functions and optimisers"])
p("C17", "The optimiser's model and best point reflect its whole history",
  "At every iteration and at the end of a run, the optimiser's model holds exactly the recorded samples and observations and predicts like a fresh model built from them with the current hyper-parameters, which are re-optimised exactly every configured number of iterations and never otherwise. The best observation and best sample are the first recorded pair whose aggregated observation is the largest. Continuing without reset uses all earlier data.",
  ["histories", "inputs", "configurations"],
  "every run and continuation, aggregator, hyper-parameter period (including disabled), initial design (including none) and objective",
  "tests check that best values are close to known optima; the model is never compared with the database.",
  [L+"bayes_opt/boptimizer.hpp", L+"bayes_opt/bo_base.hpp"],
  [("model update", L+"bayes_opt/boptimizer.hpp: optimize"), ("best point", L+"bayes_opt/boptimizer.hpp: best_observation/best_sample")])
p("C18", "A failed evaluation never corrupts the history",
  "When an evaluation returns an observation containing NaN or infinity, or throws, during the initial design or at any iteration, the error reaches the caller and the failed point is not recorded. All earlier pairs stay recorded in order and unchanged, the best point is still correct, and a later run with or without reset works and only ever records finite observations.",
  ["fault_sequences", "histories"],
  "every position and kind of failure (NaN, +/- infinity in any component, user exception), repeated failures, and every continuation",
  "one test checks that a NaN at a fixed place throws; none looks at the state left behind or continues.",
  [L+"bayes_opt/bo_base.hpp", L+"bayes_opt/boptimizer.hpp", L+"tools/math.hpp"],
  [("rejection of invalid observations", L+"bayes_opt/bo_base.hpp: add_new_sample"), ("NaN/inf test", L+"tools/math.hpp: is_nan_or_inf")])
p("C19", "Stopping criteria stop exactly when they should",
  "An optimisation with an iteration limit performs exactly that many iterations per run (none for a limit of zero or less). The predicted-value criterion stops a run exactly when the best aggregated observation exceeds the configured ratio of the maximum of the model's aggregated predicted mean found by its optimiser, and never before there is an observation. Several criteria stop the run as soon as any one of them asks for it.",
  ["histories", "configurations", "inputs"],
  "every combination and order of criteria, limit, ratio, objective and sequence of runs",
  "tests use one criterion with one limit; combinations and the predicted-value criterion are not tested.",
  [L+"stop/max_iterations.hpp", L+"stop/max_predicted_value.hpp", L+"stop/chain_criteria.hpp", L+"bayes_opt/bo_base.hpp"],
  [("criteria", L+"stop/*.hpp: operator()"), ("combination", L+"stop/chain_criteria.hpp, bayes_opt/bo_base.hpp: _stop")])
p("C20", "Statistics files reproduce the run",
  "With statistics enabled, each statistics file written for a run contains one row per iteration labelled with the iteration number, preceded by a header and, for samples, observations and aggregated observations, by one row labelled -1 per initial point; the numbers are those of the run at that iteration (sample, observation, aggregate, best so far, model hyper-parameters, score, predictions, acquisition) up to the printed precision. The model dump covers the full regular grid. The console summary prints one line per iteration with its number, sample, aggregated observation and the best one so far. Every optimiser writes to a results directory of its own, also when one program creates several of them at the same moment. With statistics disabled nothing is written.",
  ["histories", "configurations", "inputs"],
  "every run length, initial design size, continuation without reset, dimension, aggregator and statistics selection",
  "tests disable statistics or do not read the files back.",
  [L+"stat/samples.hpp", L+"stat/observations.hpp", L+"stat/aggregated_observations.hpp", L+"stat/best_observations.hpp", L+"stat/best_samples.hpp", L+"stat/best_aggregated_observations.hpp", L+"stat/gp.hpp", L+"stat/gp_acquisitions.hpp", L+"stat/gp_likelihood.hpp", L+"stat/gp_kernel_hparams.hpp", L+"stat/gp_mean_hparams.hpp", L+"stat/gp_prediction_differences.hpp", L+"stat/console_summary.hpp", L+"bayes_opt/bo_base.hpp"],
  [("writers", L+"stat/*.hpp: operator()"), ("results directory", L+"bayes_opt/bo_base.hpp: _make_res_dir"), ("log file creation", L+"stat/stat_base.hpp: _create_log_file")],
  observe=["files in the result directory", "standard output"])
p("C21", "Parallel helpers do the same work as a sequential loop",
  "The parallel loop and for-each call their function exactly once per index or element, replicate calls it exactly the given number of times, the parallel maximum returns a value that no other value and not the initial one beats, and the parallel sort yields an ordered permutation of its input; empty ranges do nothing. This holds with and without TBB, for any thread count and when calls are nested, and results written to distinct slots are all visible afterwards.",
  ["schedules", "inputs"],
  "every range, function, comparison, nesting and thread interleaving",
  "the helpers have no tests of their own, and the tests never check a schedule.",
  [L+"tools/parallel.hpp"],
  [("wrappers", L+"tools/parallel.hpp: loop, for_each, max, sort, replicate")])
p("C22", "Random sources are in range, reproducible when seeded, and distinct otherwise",
  "A generator with a given seed yields the same sequence every time, also after being re-seeded, and unseeded generators, different threads and successive calls yield different sequences. Bounded random vectors lie in the unit hypercube with independent, uniformly distributed coordinates, unbounded ones are centred Gaussian with standard deviation 10, integers cover their closed range uniformly, and Latin hypercube designs stratify every dimension with independent permutations per dimension.",
  ["inputs", "histories", "schedules"],
  "every seed, range, dimension, number of draws, thread and interleaving of draws",
  "tests only check that random points are in range.",
  [L+"tools/random_generator.hpp", "src/external/rand_utils.hpp"],
  [("generator", L+"tools/random_generator.hpp: RandomGenerator"), ("vectors and designs", L+"tools/random_generator.hpp: random_vector*, random_lhs"), ("auto-seeding", "src/external/rand_utils.hpp: auto_seed_128")])
p("C23", "Parameters and elementary tools mean what they say",
  "Static parameters, arrays (of up to 62 values), vectors and strings return the declared values with the declared size, dynamic parameters return the last value set, by whatever thread, independently of each other, and components read them at the time of use. The sign function returns -1, 0 or 1 by the sign of its argument for signed, unsigned and floating types, the NaN/infinity test is true exactly if some entry is NaN or infinite, and scalar-to-vector conversion and objective-value helpers return exactly what they were given.",
  ["inputs", "histories"],
  "every value, size, special floating point value, and sequence of parameter changes",
  "tests check a few declared constants.",
  [L+"tools/macros.hpp", L+"tools/math.hpp", L+"opt/optimizer.hpp"],
  [("parameter macros", L+"tools/macros.hpp"), ("math helpers", L+"tools/math.hpp")])
p("C24", "The Pareto set is exactly the set of non-dominated points",
  "The Pareto set of any collection of objective vectors consists of exactly those members that no other member dominates (at least as good everywhere and better somewhere, for maximisation), each with its associated data and multiplicity, in decreasing lexicographic order of objectives. Dominance is irreflexive and antisymmetric. The result does not depend on input order or on parallel execution.",
  ["inputs", "schedules"],
  "every collection of points (duplicates, ties, equal coordinates, chains) with two or more objectives; with and without TBB",
  "there is no test for it at all.",
  [X+"tools/pareto.hpp", X+"stat/pareto_front.hpp"],
  [("dominance", X+"tools/pareto.hpp: dominate_flag"), ("non-dominated filter", X+"tools/pareto.hpp: pareto_set_std")])
p("C25", "The hypervolume equals the volume dominated above the reference point",
  "The hypervolume computed for a set of points with non-negative coordinates is the volume of the union of the boxes between the origin and the points, for any number of objectives, whether or not dominated or duplicate points are included. The hypervolume statistic reports this value for all observations shifted by the configured reference, per iteration, ignoring neither the initial design nor later points. The order of points is irrelevant and the observations are left unchanged.",
  ["inputs", "histories"],
  "every set of points (ties, duplicates, dominated points, zeros), dimension from 2 up, and run history",
  "there is no test for it at all.",
  ["src/hv/hypervol.c", X+"stat/hyper_volume.hpp"],
  [("recursive slicing", "src/hv/hypervol.c: CalculateHypervolume, FilterNondominatedSet, ReduceNondominatedSet"), ("statistic", X+"stat/hyper_volume.hpp")])
p("C26", "Expected hypervolume improvement is the true expectation",
  "For any set of mutually non-dominated points above the reference point and any Gaussian prediction (independent mean and standard deviation per objective), the expected hypervolume improvement in two dimensions, and in three dimensions by each of the exact schemes, equals the integral of the hypervolume improvement over the prediction. It is never negative and does not depend on the order of the points. The acquisition function for two objectives evaluates it at the models' predicted means and standard deviations.",
  ["inputs", "configurations"],
  "every front size including the empty front, reference point, mean and standard deviation, and model pair",
  "there is no test for it at all; the authors' comparison program needs manual reading.",
  ["src/ehvi/ehvi_calculations.cc", "src/ehvi/ehvi_sliceupdate.cc", "src/ehvi/ehvi_hvol.cc", "src/ehvi/helper.cc", X+"acqui/ehvi.hpp"],
  [("2-D cell integration", "src/ehvi/ehvi_calculations.cc: ehvi2d"), ("3-D schemes", "src/ehvi/ehvi_calculations.cc: ehvi3d_*, ehvi_sliceupdate.cc"), ("acquisition", X+"acqui/ehvi.hpp: operator()")])
p("C27", "Constrained optimisation models both parts and reports feasible optima",
  "In constrained optimisation every evaluation is recorded with objective and constraint values, and at each iteration and at the end the objective model holds all objective values and the constraint model all constraint values of the history, wherever it started and however it is continued. The best observation is the largest objective value among the feasible points (all points if none is feasible or there are no constraints) and the best sample is the point where it was observed. For non-negative objective values the constrained acquisition is expected improvement times the probability that the aggregated prediction of the constraint model reaches one (no constraint data: one).",
  ["histories", "inputs", "configurations"],
  "every run and continuation, objective, constraint outcome pattern, number of constraints (including none), initial design (including none)",
  "there is one example program and no test.",
  [X+"bayes_opt/cboptimizer.hpp", X+"acqui/eci.hpp"],
  [("constrained loop", X+"bayes_opt/cboptimizer.hpp: optimize, _split_observations"), ("feasible best", X+"bayes_opt/cboptimizer.hpp: best_observation/best_sample/_feasible_observations"), ("acquisition", X+"acqui/eci.hpp")])
p("C28", "ParEGO models a random augmented Tchebycheff scalarisation of all data",
  "After every computation or sample addition, the ParEGO model is a single-output model over all samples given so far in which every observation is the augmented Tchebycheff aggregation of the original objectives under one common non-negative weight vector summing to one. Weights are redrawn at each update. Predictions are those of an ordinary model on the aggregated data. A model that was saved and loaded has the same data and goes on like the original.",
  ["histories", "inputs"],
  "every data stream, number of objectives, and interleaving of computation, additions, storing and loading",
  "there is only an example program.",
  [X+"model/gp_parego.hpp", X+"bayes_opt/parego.hpp"],
  [("scalarisation", X+"model/gp_parego.hpp: _scalarize_obs"), ("archives", X+"model/gp_parego.hpp: save/load"), ("recompute on addition", X+"model/gp_parego.hpp: compute/add_sample")])
p("C29", "The pseudo-input sparse GP is the FITC approximation of its data",
  "For the pseudo-inputs and hyper-parameters its optimiser returned, the sparse pseudo-input GP predicts the mean and variance of the FITC (Snelson-Ghahramani) approximation, and the objective handed to the optimiser is the corresponding approximate log marginal likelihood with its exact gradient. The number of pseudo-inputs is the configured percentage of the samples but at least the configured minimum. A model built by additions equals one computed in one go for the same pseudo-inputs and hyper-parameters, and without samples it predicts the prior. The search over pseudo-inputs starts from distinct training inputs and finite hyper-parameters, also for data without extent such as a single sample, and there are never more pseudo-inputs than samples. Recomputing takes a changed mean function into account.",
  ["inputs", "histories", "configurations"],
  "every single-output data set, dimension, pseudo-input set, hyper-parameters, and sequence of computation and additions",
  "there is no test; the class's self-test needs external reference files that are not in the repository.",
  [X+"model/spgp.hpp"],
  [("FITC prediction", X+"model/spgp.hpp: _compute/_predict"), ("objective and gradient", X+"model/spgp.hpp: _likelihood_wp")])
p("C30", "Tree-based optimisation evaluates each cell centre once, inside the box",
  "After its initial design, the tree-search optimiser evaluates the centre of the unit hypercube first and after that only centres of cells obtained by repeatedly splitting an evaluated cell in three along its longest side, never evaluates a point twice, and records each evaluation once with its observation. The order is that of the published algorithm (IMGPO): best leaf of each depth by aggregated observation or upper confidence bound, cells skipped when the bounds of their descendants cannot beat a deeper cell, new cells evaluated only if their bound exceeds the best observation. A run that is not reset goes on with the same tree. It performs at least the configured number of evaluations and its iteration counters equal the number of tree evaluations made. The best observation and sample are the largest aggregated pair of the history, and the model holds the whole history at the end.",
  ["histories", "inputs", "configurations"],
  "every objective, dimension, iteration budget and initial history",
  "there is only an example program.",
  [X+"bayes_opt/imgpo.hpp", X+"acqui/ucb_imgpo.hpp"],
  [("tree expansion", X+"bayes_opt/imgpo.hpp: optimize"), ("upper bound", X+"acqui/ucb_imgpo.hpp")])
p("C31", "Multi-objective optimisation keeps one exact model per objective",
  "With a non-empty initial design and a reference point below all observations, the multi-objective optimiser (two objectives) records every evaluation once and in order, proposes points of the unit hypercube that maximise the expected hypervolume improvement over the current Pareto set found by its acquisition optimiser started from every point of that set, honours its stopping criteria, and uses the components it is given whatever the order of its template arguments. At the end of a run its Pareto set of the data is exactly the non-dominated part of the history and its models are one single-output GP per objective on the whole history. The Pareto benchmark statistic writes, for each iteration, that Pareto set and the whole history (nothing when statistics are disabled). A failed evaluation reaches the caller and leaves the history intact.",
  ["histories", "inputs", "configurations"],
  "every objective function, initial design, iteration budget, reference point and continuation",
  "there is only an example program.",
  [X+"bayes_opt/bo_multi.hpp", X+"bayes_opt/ehvi.hpp", X+"stat/pareto_benchmark.hpp"],
  [("per-objective models", X+"bayes_opt/bo_multi.hpp: _update_models"), ("data Pareto set", X+"bayes_opt/bo_multi.hpp: update_pareto_data"), ("main loop", X+"bayes_opt/ehvi.hpp: optimize")])
p("C32", "Use from several threads gives what use from one thread gives",
  "Predictions of a model, evaluations of its kernel, copies of it, the objectives of hyper-parameter optimisation and the values of an acquisition function can be asked for by any number of threads at the same time, as parallel optimisers do: there is no data race and every thread gets the values that a single thread would get. An optimiser object whose call operator is const can be used by several threads at once. Optimisers, models, archives in different directories, Pareto-set and hypervolume computations and whole optimisation runs that share no object do not influence each other when they run at the same time in different threads.",
  ["schedules", "inputs", "configurations"],
  "every model, acquisition function, optimiser, data set, number of threads and interleaving",
  "tests compare no results between threads, and a race shows only in some schedules.",
  ["src/limbo/model/gp.hpp", "src/limbo/model/multi_gp.hpp", "src/limbo/model/sparsified_gp.hpp", X+"model/spgp.hpp", "src/limbo/acqui/ei.hpp", "src/limbo/acqui/ucb.hpp", "src/limbo/acqui/gp_ucb.hpp", X+"acqui/eci.hpp", "src/limbo/opt/parallel_repeater.hpp", "src/limbo/tools/random_generator.hpp"],
  [("best predicted value kept between calls", "src/limbo/acqui/ei.hpp: _best"), ("const predictions", "src/limbo/model/gp.hpp: query/mu/sigma"), ("objectives work on copies", "src/limbo/model/gp/*.hpp: operator()")])
p("C33", "Components left out are the declared defaults; the order of others is free",
  "An optimiser whose template arguments leave components out behaves exactly like one that names the declared default for each of them, and the order in which components are named makes no difference: for the same parameters, objective and random numbers both evaluate the same points, keep the same history, report the same best sample and write the same statistics. A single statistic or stopping criterion stands for a list of one. An optimiser named after a component (such as the one with hyper-parameter optimisation) is the general one with that component. The same holds for the optional template arguments of models, of their hyper-parameter optimisers and of function optimisers, and for the optional arguments of optimize and of the best-sample queries (the first element of the observation, a fresh start).",
  ["configurations", "inputs"],
  "every optimiser and model template, every set of components named and their order, parameters and objectives",
  "tests name few combinations of components, and compare none with another; a component that is silently replaced by a default still gives a plausible run.",
  ["src/limbo/bayes_opt/bo_base.hpp", "src/limbo/bayes_opt/boptimizer.hpp", "src/limbo/model/gp.hpp", "src/limbo/model/gp/kernel_lf_opt.hpp", "src/limbo/model/gp/kernel_mean_lf_opt.hpp", "src/limbo/model/gp/mean_lf_opt.hpp", "src/limbo/model/gp/kernel_loo_opt.hpp", "src/limbo/model/multi_gp.hpp", "src/limbo/model/sparsified_gp.hpp", "src/limbo/opt/nlopt_grad.hpp", "src/limbo/opt/nlopt_no_grad.hpp", X+"bayes_opt/cboptimizer.hpp", X+"bayes_opt/imgpo.hpp", X+"bayes_opt/parego.hpp", X+"bayes_opt/bo_multi.hpp", X+"bayes_opt/ehvi.hpp"],
  [("named components and defaults", "src/limbo/bayes_opt/bo_base.hpp: BoBase, defaults"), ("acquisition optimiser", "src/limbo/bayes_opt/boptimizer.hpp: BOptimizer, BOptimizerHPOpt"), ("model defaults", "src/limbo/model/gp.hpp: GP, GPBasic, GPOpt"), ("constraint model", X+"bayes_opt/cboptimizer.hpp: CBOptimizer"), ("scalarised model", X+"bayes_opt/parego.hpp: Parego")])
p("C34", "The calculator of expected hypervolume improvements prints them",
  "For a test-case file (points, reference point below all of them, one or more predictions, any white space between the numbers) the calculator prints, for every scheme asked for and every prediction in the order of the file, the expected hypervolume improvement over the points of the file; without a scheme it prints that of the slice-update scheme. A point that a later one dominates or equals is dropped. Only the 5-term and slice-update schemes take several predictions; an unknown scheme prints no result. Entered in the terminal, the same data, with dropped points entered again, give the values of all schemes. The Monte Carlo scheme gives a finite, non-negative estimate whose error is that of the stated number of independent normal draws.",
  ["inputs", "configurations"],
  "every test case, list of schemes, form of the file, and sequence of random draws",
  "there is no test of the program; the estimate is random and a wrong one looks plausible.",
  ["src/ehvi/main.cc", "src/ehvi/ehvi_montecarlo.cc", "src/ehvi/ehvi_multi.cc", "src/ehvi/README.txt"],
  [("reading of test cases", "src/ehvi/main.cc: loadtestcase, checkdominance, main"), ("schemes", "src/ehvi/main.cc: doscheme"), ("simulation", "src/ehvi/ehvi_montecarlo.cc: ehvi3d_montecarlo, RNG")])
p("C35", "Nsbo evaluates the most uncertain points of the Pareto front of its models",
  "With a non-empty initial design, the optimiser Nsbo hands to NSGA-II, as objectives of a point, the smaller of the predicted mean and the largest observation of each objective, by models of the whole history; the front of the models is what NSGA-II found, best first objective first, each point with its objectives and the models' variances. Each evaluated point is one of that front whose variances no other point of the front exceeds in every objective. History, Pareto set of the data, iteration counters, stopping criteria, statistics and failed evaluations are those of the other multi-objective optimiser, with any number of objectives from two. The Pareto benchmark statistic writes the front of the models with its variances and the value of the real function at its points; it updates the front first, unless NSBO is defined. A line per iteration prints its number, point, observation and what the first two models predicted there.",
  ["histories", "inputs", "configurations"],
  "every objective function, initial design, number of objectives, population, iteration budget and continuation",
  "sferes2 is needed to compile it, and no test does.",
  [X+"bayes_opt/nsbo.hpp", X+"bayes_opt/bo_multi.hpp", X+"stat/pareto_benchmark.hpp"],
  [("objectives for NSGA-II", X+"bayes_opt/bo_multi.hpp: SferesFit::eval"), ("front of the models", X+"bayes_opt/bo_multi.hpp: update_pareto_model"), ("choice of the next point", X+"bayes_opt/nsbo.hpp: optimize")])
p("C36", "The CMA-ES binding maximises the given function within the given bounds",
  "With libcmaes, the optimiser Cmaes has the library minimise the opposite of the function, from the given start, with an initial step size of 0.5 (half the width of the bounds in a bounded search), asks for no gradient, and hands over every documented parameter and stopping criterion; the function is called only at the library's candidates, in a bounded search only within the configured bounds. It returns the best candidate ever seen (the mean of the last distribution if stochastic or with uncertainty handling) as a point of the search space. A progress function for the kind of search replaces the general one, which replaces the library's. An object can be used again with another dimension or kind of search. The Bayesian optimisers use it for the acquisition function where NLopt is not used: BOptimizer and CBOptimizer once per iteration and bounded as configured, Ehvi once from each point of the Pareto set and bounded; without either library they use the grid search.",
  ["inputs", "configurations"],
  "every function, start, dimension, set of parameters and sequence of candidates",
  "libcmaes is needed to compile it; where it is installed a test samples a few functions and no setting.",
  ["src/limbo/opt/cmaes.hpp", "src/limbo/bayes_opt/boptimizer.hpp", "src/limbo/experimental/bayes_opt/cboptimizer.hpp", "src/limbo/experimental/bayes_opt/ehvi.hpp"],
  [("searches", "src/limbo/opt/cmaes.hpp: _opt_bounded, _opt_unbounded"), ("settings", "src/limbo/opt/cmaes.hpp: _set_common_params"), ("default acquisition optimiser", "src/limbo/bayes_opt/boptimizer.hpp: defaults")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print("valid", len(P))
except ImportError: print("written", len(P))
