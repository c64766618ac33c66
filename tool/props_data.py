M = "src/limbo/model/"
P("P06", "A fitted GP depends on its data and hyper-parameters, not on the call history",
  "Whatever sequence of fitting, incremental additions, recomputations and parameter changes led to it, a Gaussian process brought up to date has the same data, mean, Cholesky factor, weights, predictions, likelihoods and gradients as a fresh one fitted in one go on the same data with the same hyper-parameters. In particular adding points one at a time equals fitting all of them at once, and nothing cached from before survives a refit.",
  ["histories", "inputs"], "for every data set, every kernel and mean of the library, every hyper-parameter vector and every history of the listed calls",
  "tests compare a few fixed data sets and call orders with a numeric tolerance; the identity must hold for all lengths, data and orders",
  [M + "gp.hpp"], [("incremental Cholesky update", M + "gp.hpp _compute_incremental_kernel"), ("full refit", M + "gp.hpp compute / recompute")],
  REL, RELNOTE)
P("P07", "GP predictions are the posterior of the current data, from every entry point",
  "The predicted mean and variance at any point are those of Gaussian-process regression with the model's kernel (noise on the diagonal included), mean function, data and hyper-parameters, and before any data they are the prior. The joint query and the separate mean and variance queries agree, and the log-likelihood and leave-one-out score are those of the same model.",
  ["inputs", "configurations"], "for every data set, query point, kernel, mean and hyper-parameter vector",
  "tests check a few points against tolerances; formulas must hold everywhere",
  [M + "gp.hpp"], [("prediction", M + "gp.hpp query/mu/sigma"), ("scores", M + "gp.hpp compute_log_lik/compute_log_loo_cv")],
  REL + " against a regression-formula oracle", RELNOTE)
P("P08", "Kernels are the documented covariance functions, with noise on the diagonal",
  "Each kernel returns the covariance it documents for every pair of points and every hyper-parameter vector: symmetric in its two points, with the observation noise added exactly when the two arguments are the same training sample and not for query points.",
  ["inputs", "configurations"], "for every pair of points, hyper-parameters and kernel configuration",
  "tests sample a few random points with tolerances",
  ["src/limbo/kernel/"], [("base kernel adds the noise", "src/limbo/kernel/kernel.hpp"), ("kernel formulas", "src/limbo/kernel/*.hpp")],
  REL + " against formula oracles", RELNOTE)
P("P09", "Hyper-parameters set are the ones read back and used, one per slot",
  "For kernels and mean functions, reading the hyper-parameters back returns the vector that was set, its length is the advertised size in every configuration (noise optimised or not, every ARD rank), each entry governs its own quantity, and evaluation after setting uses the new values only.",
  ["inputs", "configurations"], "for every parameter vector and configuration",
  "tests set a few vectors in the default configuration",
  ["src/limbo/kernel/", "src/limbo/mean/"], [("parameter vector layout", "src/limbo/kernel/kernel.hpp, src/limbo/mean/function_ard.hpp")],
  REL, RELNOTE)
P("P10", "Analytic gradients are the derivatives of what they claim to differentiate",
  "The gradients of kernels and mean functions with respect to their hyper-parameters, and the gradients of the model's log-likelihood and leave-one-out score, are the exact derivatives of the corresponding values, entry by entry and in the order of the hyper-parameter vector.",
  ["inputs", "configurations"], "for every point, data set, hyper-parameter vector and configuration",
  "tests compare to finite differences at a few random points with loose tolerances",
  ["src/limbo/kernel/", "src/limbo/mean/", M + "gp.hpp"], [("kernel gradients", "src/limbo/kernel/*.hpp gradient"), ("model gradients", M + "gp.hpp compute_*_grad_*")],
  REL + "; derivative oracle by differentiating the value term", RELNOTE)
P("P11", "A saved model loads back as the same model, whatever the loader held before",
  "Loading what a model saved, with or without recomputation, into a fresh or a previously used model of the same type yields a model equal to the saved one in its data, dimensions, hyper-parameters, predictions and scores, and equal in its further evolution when samples are added. Everything that is read was written under the same name, and no two parts of a model share a name.",
  ["inputs", "histories", "configurations"], "for every model content, archive kind, loading mode and prior state of the loader",
  "tests round-trip one model into fresh objects",
  [M + "gp.hpp", M + "multi_gp.hpp", "src/limbo/serialize/"], [("save/load", M + "gp.hpp save/load"), ("save/load of multi-output models", M + "multi_gp.hpp save/load")],
  REL + " over an abstract archive", RELNOTE)
P("P23", "Hyper-parameter optimisation maximises the model's own score and refits it",
  "Each hyper-parameter optimisation strategy hands its optimizer the score it is named after, with its exact gradient and evaluated on a separate copy of the model; starting from the current hyper-parameters, it installs the vector the optimizer returned in the right slots and leaves the model recomputed with it, data untouched.",
  ["inputs", "configurations"], "for every data set, hyper-parameter vector and optimizer result",
  "tests run a few optimisations and compare likelihoods",
  [M + "gp/", M + "multi_gp/"], [("strategies", M + "gp/*.hpp")],
  REL + " with the optimizer's answer as a free symbol", RELNOTE)
P("P04", "Optimisation loop: stop checks, evaluation, record, model and counters in step",
  "In every Bayesian optimizer each evaluation of the user's function in the loop is preceded by a consultation of every stop criterion, all of them negative; one iteration evaluates exactly the point the acquisition optimizer returned for the current model within the configured bounds, records exactly that point with that value, gives the model the same pair (or the whole record; in the constrained optimizer each of the two models its own part of the observation), tunes hyper-parameters exactly every hp_period iterations, updates every statistic once and advances the counters by one. Resetting empties record and counters, not resetting keeps them, initialisation runs exactly when nothing was done before, and nothing is evaluated once a criterion answered positively.",
  ["histories", "configurations"], "for every iteration from every reachable state, every behaviour of the components and every configuration",
  "tests look at the outcome of a few runs; the protocol has to hold in every iteration of every run for all component combinations",
  ["src/limbo/bayes_opt/", "src/limbo/experimental/bayes_opt/"], [("loop", "src/limbo/bayes_opt/boptimizer.hpp optimize"), ("stop/statistics/record", "src/limbo/bayes_opt/bo_base.hpp")],
  "effect/typestate analysis on a ghost trace in the value graph, one-iteration relation of the loop from an arbitrary state", RELNOTE)
P("P01", "Only finite observations enter the record, in lockstep with their samples",
  "Whatever the user's function returns or throws, samples and observations stay the same length and index-aligned: an observation with a NaN or infinite entry is refused with EvaluationError and leaves both as they were, a finite one is appended exactly once together with the very point that was evaluated, and a function that throws leaves nothing half-recorded. This holds for add_new_sample, eval_and_add, every initialisation strategy and every optimizer loop.",
  ["inputs", "histories", "crash points"], "for every returned vector, every throw and every record before it",
  "tests feed a single NaN; every entry position, every way in and every moment of failure must be covered",
  ["src/limbo/bayes_opt/bo_base.hpp", "src/limbo/init/", "src/limbo/tools/math.hpp"], [("intake", "src/limbo/bayes_opt/bo_base.hpp eval_and_add/add_new_sample")],
  "value-graph analysis with poisoned interpretations; exits and record state at each evaluation enumerated", RELNOTE)
P("P17", "best_observation and best_sample are the maximum of the record and go together",
  "For every non-empty record and every aggregator, best_observation returns an observation whose aggregated value is maximal, best_sample the sample of that same evaluation, whatever the order, signs or ties; in the constrained optimizer the maximum is taken over the feasible evaluations when there are any. Neither modifies the record.",
  ["inputs", "histories"], "for every record and aggregator",
  "tests look at the end of a few runs, with positive values and no ties",
  ["src/limbo/bayes_opt/boptimizer.hpp", "src/limbo/experimental/bayes_opt/"], [("best_*", "src/limbo/bayes_opt/boptimizer.hpp best_observation/best_sample")],
  REL + " against the definition of the maximum", RELNOTE)
P("P18", "Stop criteria answer their documented condition and any one of them stops",
  "MaxIterations is true exactly when the iterations of the current call have reached the configured number; MaxPredictedValue is false without observations and otherwise true exactly when the best aggregated observation is above ratio times the aggregated mean the current model predicts at the point its bounded inner search returned. The optimizer stops exactly when one of its criteria is true, and asking changes neither record, model nor counters.",
  ["inputs", "histories", "configurations"], "for every counter, record, model and list of criteria",
  "tests only see runs end",
  ["src/limbo/stop/", "src/limbo/bayes_opt/bo_base.hpp"], [("criteria", "src/limbo/stop/*.hpp"), ("combination", "src/limbo/stop/chain_criteria.hpp")],
  REL + " against the documented conditions", RELNOTE)
P("P05", "Bounded inner optimizers evaluate and return only points of the unit box",
  "When a search is bounded, every inner optimizer of the library (random point, grid search, Rprop, Adam, gradient ascent, NLOpt with and without gradient, chained and repeated optimizers) evaluates the objective only at points of [0, 1]^d and returns a point of [0, 1]^d with the dimension of its start, whatever the start, the gradients and the configuration.",
  ["inputs", "configurations"], "for every start, objective, gradient, step size and number of iterations or bins",
  "tests start inside the box on smooth functions with the default parameters",
  ["src/limbo/opt/"], [("clamping", "src/limbo/opt/*.hpp operator()"), ("bounds given to NLOpt", "src/limbo/opt/nlopt_base.hpp")],
  "value-graph analysis of evaluated and returned points under random interpretation, starts on, in and out of the box", RELNOTE)
P("P24", "Inner optimizers maximise by their documented rule and return the point due",
  "Rprop, Adam and gradient ascent follow their documented update, uphill, for the configured number of iterations; grid search visits the whole grid; Rprop and grid search return the best point evaluated, the others their last iterate; ParallelRepeater returns a best result of the configured number of perturbed repeats; Chained passes each result on as the next start and returns the last; NLOpt is told to maximise the given function from the given start with the configured stopping rules, and what it found is returned.",
  ["inputs", "configurations"], "for every objective, start and configuration",
  "tests check convergence on one quadratic, which a wrong step or sign in some regime survives",
  ["src/limbo/opt/"], [("update rules", "src/limbo/opt/{rprop,adam,gradient_ascent}.hpp"), ("meta-optimizers", "src/limbo/opt/{chained,parallel_repeater}.hpp"), ("NLOpt", "src/limbo/opt/nlopt_*.hpp")],
  REL + " of the evaluation trace against the documented rule", RELNOTE)
P("P16", "Acquisition functions are their documented formula on the current model",
  "UCB, GP-UCB, EI and the experimental acquisition functions return their documented value for every model, point, aggregator, parameter and iteration, on first and on later calls: the incumbent of EI follows the model when it receives samples, and a zero variance gives the documented limit. Evaluating does not change the model, and no gradient is claimed.",
  ["inputs", "histories", "configurations"], "for every model state, point, aggregator and sequence of calls",
  "tests compare a few values on one model with tolerances",
  ["src/limbo/acqui/", "src/limbo/experimental/acqui/"], [("formulas", "src/limbo/acqui/*.hpp operator()"), ("cached incumbent", "src/limbo/acqui/ei.hpp")],
  REL + " against formula oracles, with the model's answers as free symbols", RELNOTE)
P("P25", "Initialisation evaluates the documented points, with the given function",
  "Each initialisation strategy evaluates exactly the documented points: nothing for NoInit, the configured number of random points in the box (or of rows of one Latin hypercube, or of random points of the grid), every point of the full grid once including both ends; each has the dimension of the function and is evaluated with the function given to it, and points evaluated before it are kept.",
  ["inputs", "configurations"], "for every dimension, count, grid size and draw",
  "tests look at one configuration of each strategy",
  ["src/limbo/init/"], [("strategies", "src/limbo/init/*.hpp operator()")],
  REL + " of the sequence of evaluated points against the documented one", RELNOTE)
P("P15", "Seeded generators reproduce their stream and draws follow the documented law",
  "What a generator draws after seed(s) is determined by s and its distribution's parameters alone, not by earlier draws; two generators given different seeds or the automatic seed do not share a stream. random_vector draws one independent number in [0, 1] per coordinate (normal numbers of mean 0 and standard deviation 10 when unbounded) and random_lhs one point per stratum and column.",
  ["histories", "inputs"], "for every seed, history of draws, dimension and number of points",
  "tests seed fresh generators and look at a few draws",
  ["src/limbo/tools/random_generator.hpp"], [("seeding", "src/limbo/tools/random_generator.hpp RandomGenerator"), ("vectors and hypercubes", "src/limbo/tools/random_generator.hpp random_vector/random_lhs")],
  "value-graph identity of draws over histories of a generator's state; random interpretation of vectors and hypercubes", RELNOTE)
P("P02", "Disabled statistics leave no trace, and statistics never steer the optimisation",
  "With stats_enabled false, constructing an optimizer and running any statistic creates no directory, opens no file and prints nothing, and no other operation outside the statistics and the archives writes to the file system. A statistic does not change the record, the counters, the model or the result directory of the optimizer it looks at.",
  ["inputs", "histories", "configurations"], "for every statistic, optimizer state and record",
  "tests run with statistics disabled and never look for files",
  ["src/limbo/stat/", "src/limbo/experimental/stat/", "src/limbo/bayes_opt/bo_base.hpp"], [("guards", "src/limbo/stat/*.hpp operator()"), ("result directory", "src/limbo/bayes_opt/bo_base.hpp _make_res_dir")],
  "effect analysis: ghost trace of directories, files and outputs in the value graph, interpreted with statistics disabled; backward reachability from file system writes", RELNOTE)
P("P03", "Every statistic writes its own documented file in the optimizer's directory",
  "With statistics enabled the constructor creates exactly the directory res_dir() returns, named after host, date and process. Each statistic opens only its documented file name inside that directory, different statistics different files, a per-iteration statistic a different file at each iteration, and a statistic that keeps one file opens it once, so that nothing written is lost.",
  ["inputs", "histories", "configurations"], "for every statistic, optimizer state and iteration",
  "tests never look at the files",
  ["src/limbo/stat/", "src/limbo/experimental/stat/", "src/limbo/bayes_opt/bo_base.hpp"], [("file names", "src/limbo/stat/*.hpp operator()"), ("opening", "src/limbo/stat/stat_base.hpp _create_log_file")],
  "typestate and string-term analysis of the ghost trace of opened files", RELNOTE)
P("P32", "The aggregator given is the only view an optimizer has on observations",
  "An optimizer, acquisition function, stopping criterion or statistic that is given an aggregator turns observations and predictions into numbers with that aggregator object only: never with the default one (first element), with a fresh object of its type, by reading an entry of the vector or by reducing it in any other way. This holds for every comparison, incumbent, bound, threshold and reported value, whatever the number of outputs and the state the aggregator carries. (The constrained optimizer reads the constraint entries itself.)",
  ["inputs", "configurations"], "for every aggregator, stateless or not, every number of outputs and every function",
  "tests use one output or the default aggregator, where every wrong view gives the same number",
  ["src/limbo/bayes_opt/", "src/limbo/acqui/", "src/limbo/stop/", "src/limbo/stat/", "src/limbo/experimental/bayes_opt/imgpo.hpp"], [("optimizers", "src/limbo/bayes_opt/boptimizer.hpp, src/limbo/experimental/bayes_opt/imgpo.hpp optimize/best_*"), ("acquisition functions", "src/limbo/acqui/*.hpp operator()")],
  "type-based rule and interprocedural taint analysis over the type-checked program instantiated with a user's aggregator", "flow-insensitive; vectors handed to models, kernels, inner optimizers and tools are not followed there; std and Eigen functions propagate taint from arguments to non-scalar results")
P("P31", "Declared parameters and small numeric tools mean what they say",
  "A parameter declared with a macro of tools/macros.hpp is exactly the declared value, with the declared type, usable in constant expressions for BO_PARAM and BO_PARAM_STRING; BO_PARAM_ARRAY and BO_PARAM_VECTOR have the length of their list, for every length from 1 to 63, and its elements in order; a dynamic parameter is the value last set for it, whatever other parameters were set; an undefined required parameter does not compile. make_vector(x) is the vector holding x, signum(x) is -1, 0 or 1, and is_nan_or_inf is true exactly when the number, or an element of the vector, is NaN or infinite.",
  ["inputs", "configurations"], "for every type, value, list length up to 63, order of settings, and number",
  "tests use a few short parameter lists; every component reads its configuration through these macros, and every acquisition guards its values with these functions",
  ["src/limbo/tools/macros.hpp", "src/limbo/tools/math.hpp"], [("macros", "src/limbo/tools/macros.hpp"), ("numeric tools", "src/limbo/tools/math.hpp")],
  "static_assert and compile-fail witnesses decided by the type checker, and " + REL + " against the declaration", RELNOTE)
P("P30", "Sparse pseudo-input GP: the FITC posterior and likelihood of its data",
  "For one output, after compute, add_sample, recompute or optimize_hyperparams the sparse GP predicts (mu, sigma, query and predict, one point or a batch) the FITC posterior (Snelson and Ghahramani 2005) of its samples and of its observations minus the mean function, at the pseudo-inputs, length-scales, amplitude and noise its optimiser returned last; without data it predicts the mean function and the prior variance. The objective it hands to the optimiser is the FITC log marginal likelihood, its gradient is the derivative of that value, and the search is unbounded and starts from pseudo-inputs that are training samples. The number of pseudo-inputs is the documented percentage of the samples, at least min_m; samples, counts, dimensions, mean and maximum observation are those of the data given.",
  ["inputs", "histories", "configurations"], "for every data set, input dimension, parameter vector, percentage and result of the optimiser",
  "no test uses this model; its likelihood and gradient are analytic expressions in every parameter",
  ["src/limbo/experimental/model/spgp.hpp"], [("likelihood and gradient", "src/limbo/experimental/model/spgp.hpp _likelihood_wp"), ("prediction", "src/limbo/experimental/model/spgp.hpp _compute/_predict"), ("data", "src/limbo/experimental/model/spgp.hpp compute/add_sample")],
  REL + " against the dense FITC covariance", RELNOTE)
P("P29", "Statistics write one line per iteration with the documented quantities",
  "A statistic writes its header at iteration 0 followed by one line per evaluation already made (numbered -1) where it lists evaluations, then one line per iteration, starting with the iteration number, holding the quantity it is named after: the last sample or observation, the best one under the aggregator, the model's prediction, likelihood or hyper-parameters, the acquisition value, or the whole grid of predictions for stat::GP.",
  ["inputs", "histories", "configurations"], "for every record, aggregator, model and iteration",
  "tests never read what the statistics wrote",
  ["src/limbo/stat/", "src/limbo/experimental/stat/"], [("lines", "src/limbo/stat/*.hpp operator()")],
  REL + " of the lines written against the documented ones", RELNOTE)
P("P28", "MultiGP is one independent GP per output on the residuals of the shared mean",
  "After fitting, refitting, recomputing, adding points or loading, a MultiGP holds one single-output model per output; model i holds every sample and the i-th component of every observation minus the mean function evaluated on the model's current data, and is brought up to date with its own hyper-parameters. Predictions are model i's plus the i-th component of the mean, the joint query agrees with the separate ones, sizes, samples and observations are those given, and hyper-parameter optimization optimizes every output's model exactly once.",
  ["histories", "inputs"], "for every data set, dimensions, mean function and history of the listed calls",
  "tests compare one two-output example with two GPs",
  [M + "multi_gp.hpp", M + "multi_gp/parallel_lf_opt.hpp"], [("fit and increment", M + "multi_gp.hpp compute/add_sample/recompute"), ("prediction", M + "multi_gp.hpp query/mu/sigma"), ("per-output optimization", M + "multi_gp/parallel_lf_opt.hpp"), ("archives", M + "multi_gp.hpp save/load")],
  REL + " over abstract single-output models", RELNOTE)
P("P21", "Header-only: usable from any number of translation units, each umbrella alone",
  "Any number of translation units of one program may include any headers of the library and the program links: no header defines a function or variable with strong external linkage, and everything declared and used is defined. Each umbrella header (limbo/limbo.hpp, limbo/model.hpp, limbo/stat.hpp, ...) can be the only one included, and no header's include guard empties another.",
  ["configurations"], "for every set of translation units and choice of headers",
  "each test is a single translation unit that includes nearly everything",
  ["src/limbo/"], [("headers", "src/limbo/**/*.hpp")],
  "linkage classification of every definition in the type-checked headers; stand-alone type-checking of umbrella headers; include-guard comparison", "Complete for strong definitions in the headers parsed; undefined uses are decided for what the witness programs instantiate.")
P("P22", "SparsifiedGP keeps at most max_points real samples, thinning the densest first",
  "Whether fitted at once or point by point, a SparsifiedGP holds given (sample, observation) pairs in their order: all of them while there are no more than the bound, and otherwise what is left after repeatedly dropping a point whose nearest neighbours are closest until exactly the bound remains. Everything it reports and predicts is that of a plain GP fitted on the pairs it kept, and no data set, dimension or bound makes it read outside its data.",
  ["histories", "inputs", "configurations"], "for every data set (ties and duplicates included), dimension, bound and history of fits and additions",
  "tests check sizes and a tolerance on one data set",
  [M + "sparsified_gp.hpp"], [("thinning", M + "sparsified_gp.hpp _sparsify/_get_most_dense_point/_remove_row/_remove_column"), ("fit and increment", M + "sparsified_gp.hpp compute/add_sample")],
  REL + " against the greedy thinning definition", RELNOTE)
P("P12", "Archives give back bit for bit what was saved, into any object",
  "For both archives, loading an object returns exactly what was last saved under its name (same shape, same doubles bit for bit over the whole finite range, any list length), whatever the target object held and whatever was saved before under this or other names; saving creates the archive's directory first, touches only the object's own file, and different names are different files of that directory.",
  ["inputs", "histories"], "for every finite matrix, vector and non-empty list of vectors, prior file content and prior target content",
  "tests round-trip a few ordinary values",
  ["src/limbo/serialize/"], [("archives", "src/limbo/serialize/text_archive.hpp and binary_archive.hpp save/load")],
  REL + " over an abstract file system", RELNOTE)
P("P14", "Parallel helpers compute the sequential result under every schedule",
  "With and without TBB, the helpers of tools/parallel.hpp do what the sequential loop does: loop and for_each run the body once per index of the half-open range, max returns an element that no other beats under the comparator (or the start value), sort leaves an ordered permutation, replicate runs the functor the given number of times and convert_vector keeps the elements. How the scheduler splits and joins the range does not change the result, ties of max apart.",
  ["schedules", "inputs"], "for every range, functor, comparator and splitting or interleaving of the parallel reduction",
  "tests run one schedule of a few small ranges",
  ["src/limbo/tools/parallel.hpp"], [("helpers", "src/limbo/tools/parallel.hpp loop/for_each/max/sort/replicate/convert_vector")],
  "random interpretation of the value graphs of both builds under arbitrary reduction schedules, against sequential definitions", RELNOTE)
P("P13", "Concurrent iterations of the library's parallel regions never conflict",
  "In the TBB build, no two iterations of a parallel loop, reduction or sort of the library (model fits, prediction of MultiGP, thinning, hyper-parameter optimization, the parallel optimizer running the library's own objectives and acquisition functions, Pareto tools) access the same object with one of them writing it, unless both hold a common mutex: results do not depend on the schedule.",
  ["schedules", "inputs"], "for every schedule, data set and size",
  "a race shows up under rare interleavings only",
  ["src/limbo/tools/parallel.hpp", "src/limbo/opt/parallel_repeater.hpp", M + "multi_gp.hpp", M + "sparsified_gp.hpp", "src/limbo/acqui/", "src/limbo/tools/random_generator.hpp", "src/limbo/experimental/"], [("regions", "every call of tools::par in src/limbo"), ("parallel optimizer", "src/limbo/opt/parallel_repeater.hpp"), ("acquisition cache", "src/limbo/acqui/ei.hpp")],
  "interprocedural lockset and index-disjointness analysis of the accesses of every parallel region", "Lockset analysis in the style of RacerD on the interpreted bodies; library containers are modelled; user functors are assumed safe to call concurrently.")
P("P26", "Multi-objective tools keep exactly the non-dominated points",
  "pareto_set returns every given point that no other point dominates (at least as good in every objective, better in one; larger is better), unchanged, as often as it was given, in decreasing lexicographic order of the objectives, with and without TBB. The Pareto data of a multi-objective optimizer are the non-dominated pairs of its record, and its models are one per objective, each fitted on every sample and that component of every observation.",
  ["inputs", "schedules"], "for every non-empty list of points with two or more objectives, ties and duplicates included",
  "no test covers the multi-objective tools",
  ["src/limbo/experimental/tools/pareto.hpp", "src/limbo/experimental/bayes_opt/bo_multi.hpp"], [("non-dominated set", "src/limbo/experimental/tools/pareto.hpp pareto_set"), ("record and models", "src/limbo/experimental/bayes_opt/bo_multi.hpp update_pareto_data/_update_models")],
  REL + " against the definition of the non-dominated set", RELNOTE)
P("P27", "ParEGO's model is a GP on a random normalised Tchebycheff scalarisation",
  "After fitting, refitting or adding a point, a GPParego model holds every given sample in order, each observation replaced by max_k(w_k y_k) + rho sum_k(w_k y_k) for one common weight vector w drawn at random, with no negative entry and summing to one; everything it reports and predicts is that of the wrapped model on those data.",
  ["histories", "inputs"], "for every data set, number of objectives, draw of the weights and history of fits and additions",
  "no test covers the ParEGO model",
  ["src/limbo/experimental/model/gp_parego.hpp"], [("scalarisation", "src/limbo/experimental/model/gp_parego.hpp _scalarize_obs"), ("fit", "src/limbo/experimental/model/gp_parego.hpp compute/add_sample")],
  REL + " with draws as unknowns", RELNOTE)
P("P19", "Policies combine freely: every documented combination type-checks",
  "Every class template of the library can be instantiated with all its members, and kernels, mean functions, hyper-parameter policies, models, acquisition functions, inner optimizers, initializers, stopping criteria and statistics can be combined with each other as documented, with and without NLOpt and TBB; the shipped examples and tutorials are such programs.",
  ["configurations"], "for every documented combination of policies and build configuration",
  "the tests instantiate a handful of combinations, and members of a template that nobody calls are never compiled",
  ["src/limbo/", "src/examples/", "src/tutorials/"], [("policies", "src/limbo/**/*.hpp class templates"), ("programs", "src/examples, src/tutorials")],
  "type-level witness programs (explicit instantiation of every template, cross-product of policies) decided by the compiler front end", "Decided for the combinations enumerated in drivers/combos.cpp and combos_exp.cpp and the shipped programs; opt::Cmaes is not (libcmaes is not installed).")
P("P20", "No operation reads a member that nothing has given a value",
  "Whichever public constructor built an object of the library (models, kernels, means, acquisition functions, optimizers, statistics, archives, hyper-parameter optimizers), no public operation called on it reads a scalar member of the object, or of an object inside it, that neither the constructor nor the operation itself has set before: such a read yields whatever the memory held, differently from run to run.",
  ["inputs", "histories"], "for every constructor, operation, argument and branch",
  "an indeterminate value is often the expected one in a test process",
  [M, "src/limbo/kernel/", "src/limbo/mean/", "src/limbo/acqui/", "src/limbo/bayes_opt/", "src/limbo/opt/", "src/limbo/experimental/"], [("state", "every class of src/limbo constructible from the drivers, each public constructor followed by each public operation")],
  "interprocedural definite-initialisation analysis of members, with the path condition of each suspicious read decided by random interpretation", "Reads through third-party callbacks (NLOpt) and of uninitialised vector contents are not followed.")

P("P40", "The numerical optimisers converge to a maximiser",
  "For a smooth objective with a single maximiser, every inner optimiser returns a point close to it within its configured budget, and Bayesian optimisation approaches the maximum of the user's function.",
  ["inputs"], "for every objective of the class", "a test samples a few objectives", ["src/limbo/opt/"], [("optimisers", "src/limbo/opt/*.hpp")],
  na="Convergence quantifies over the runtime values of an arbitrary objective along an iterative numerical search (mostly inside NLOpt, a binary library); no sound static argument in reach bounds how close the result is. What the code must do for it (update rules, budgets, bounds, best-so-far returned) is claimed by P05, P18 and P24.")
P("P41", "GP computations stay finite and well conditioned",
  "For finite data the covariance matrix with its noise is numerically positive definite, its Cholesky factorisation succeeds, and predictions, scores and gradients are finite and accurate to a stated tolerance.",
  ["inputs"], "for every finite data set and hyper-parameter vector", "conditioning depends on the data", [M + "gp.hpp"], [("factorisation", M + "gp.hpp _compute_full_kernel")],
  na="A floating-point property: whether a rounded Cholesky factorisation succeeds depends on the spacing of the user's data against length-scale and noise. It is false for some inputs (duplicated points with zero noise) and no static error analysis in reach bounds it for the others; the checks decide the same computations over the reals.")
P("P42", "Hypervolume and expected hypervolume improvement equal their definitions",
  "CalculateHypervolume and ehvi2d/ehvi3d return the measure of the dominated region and the expected improvement of it.",
  ["inputs"], "for every front, reference point and Gaussian prediction", "closed forms over orderings of points", ["src/ehvi/", "src/limbo/experimental/stat/hyper_volume.hpp"], [("indicators", "src/ehvi/*.cc")],
  na="Third-party geometric C++ code whose results depend on sorting and slicing a front of unbounded size, with in-place permutations of arrays of pointers: the value-graph domain has no normal form for it, and bounding the size would be testing. What the library tells these routines and does with their result is claimed by P16 and P29.")
P("P43", "The random generators have the statistical quality of their distributions",
  "Draws of the uniform, integer and normal generators are independent and distributed as documented.",
  ["histories"], "for every seed", "a statistical property", ["src/limbo/tools/random_generator.hpp"], [("generators", "src/limbo/tools/random_generator.hpp")],
  na="The distribution of the draws is that of the standard library's engines; a statement about frequencies over runs, not about the code of limbo. Ranges, seeding and independence of state are claimed by P15.")
P("P44", "IMGPO splits its partition tree by the published rule",
  "The experimental IMGPO optimizer divides, at every depth, the leaf with the best upper bound, trisecting its longest side, and uses the GP bound to skip evaluations as published.",
  ["histories"], "for every function and number of iterations", "depends on the tree built so far", ["src/limbo/experimental/bayes_opt/imgpo.hpp"], [("tree", "src/limbo/experimental/bayes_opt/imgpo.hpp")],
  na="The policy is a property of a tree grown over an unbounded history through nested, data-dependent while loops over vectors of vectors; the fixpoint terms the analysis builds for them are opaque, so every obligation would be undecided. (Its acquisition function and its record are covered by P16 and P01.)")
