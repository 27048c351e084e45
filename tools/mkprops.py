"""Regenerates properties.jsonl (the one place where the property texts are written)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every suggested point is a legal point of the search space",
  "Every point an optimizer suggests - random, designed, model-based or part of a parallel batch, for every surrogate, acquisition function and acquisition optimizer - has exactly one value per dimension, lies within that dimension's bounds or categories, has that dimension's declared kind (integer, float, an original category) and is accepted when told back. Asking never fails for a valid configuration.",
  ["configurations", "histories"], "all search spaces x surrogates x acquisition functions x initial designs x ask/tell histories x seeds",
  "The tests drive a handful of small spaces with 1-2 surrogates; the guarantee is over the product of dimension kinds, priors, bases, dtypes, surrogates and histories.",
  ["skopt/optimizer/optimizer.py", "skopt/space/space.py"],
  [("suggestion is mapped back from the warped space and clipped", "skopt/optimizer/optimizer.py Optimizer._tell"), ("initial suggestions", "skopt/optimizer/optimizer.py Optimizer._ask")],
  ["Optimizer.ask", "Optimizer.tell", "gp_minimize/forest_minimize/gbrt_minimize/dummy_minimize: the points handed to the objective"])
p("C02", "Warping a point and unwarping it gives the point back",
  "For every dimension kind, prior, base, value type and transformation, mapping points of the space to the warped space and back returns the same points (exactly for integers and categories, to floating-point accuracy for reals), one output row per input row. Warped values lie within the advertised warped bounds and the warped array has the advertised number of columns.",
  ["inputs", "configurations"], "all dimensions (bounds over many magnitudes, priors, bases, dtypes, category types) x transforms x points incl. endpoints",
  "Tests use a few fixed bounds and values; errors appear at extreme magnitudes, non-default bases, unusual category types and endpoints.",
  ["skopt/space/space.py", "skopt/space/transformers.py"],
  [("per-dimension transform pipelines", "skopt/space/transformers.py"), ("column packing and unpacking", "skopt/space/space.py Space.transform / inverse_transform")],
  ["Space.transform", "Space.inverse_transform", "Space.transformed_bounds", "Space.transformed_n_dims", "Dimension.transform / inverse_transform"])
p("C03", "The warped bounds describe exactly the whole space",
  "The advertised warped bounds of a numeric dimension are the images of its lower and upper bound under its own warping. Every point inside the warped bounds maps back to a point of the space, and every point of the space is reachable from inside them.",
  ["inputs", "configurations"], "all dimensions x transforms x points of the warped box incl. corners and points just outside by rounding",
  "Tests check membership on default dimensions only; clipping to wrong warped bounds silently removes part of the search space, which no assertion on suggestions notices.",
  ["skopt/space/space.py"],
  [("warped bounds per dimension", "skopt/space/space.py transformed_bounds"), ("clipping in unwarp", "skopt/space/space.py inverse_transform")],
  ["Dimension.transformed_bounds", "Space.transformed_bounds", "Space.inverse_transform", "Optimizer.ask"])
p("C04", "Random sampling is legal, reproducible and follows the prior",
  "Drawing n random points yields exactly n points of the space, each with values of the declared kind. The same seed gives the same points without touching the process-wide random state, and the distribution over each dimension is the declared prior (uniform, log-uniform, or the given category probabilities), with both bounds reachable.",
  ["inputs", "configurations"], "all dimensions x priors x transforms x n x seeds",
  "A unit test checks a few samples; the law of the samples is a statement about the whole distribution for each configuration.",
  ["skopt/space/space.py"],
  [("per-dimension sampler", "skopt/space/space.py rvs / set_transformer"), ("column transposition", "skopt/space/space.py Space.rvs")],
  ["Space.rvs", "Dimension.rvs", "numpy global random state"])
p("C05", "Membership, distance, equality and inference of dimensions are coherent",
  "A point is in a space exactly when it has a legal value in every dimension; distance is a non-negative symmetric metric that is zero only between equal points and is the sum of per-dimension distances; asking the distance to an outside point is refused, and so is warping an outside value in a normalised numeric dimension. Two spaces compare equal only if they have the same dimensions, and shorthand bounds (tuples, lists) are turned into the documented kind of dimension with the given bounds, prior and base.",
  ["inputs", "configurations"], "all dimensions, shorthand descriptions, points inside, on and outside the boundary, pairs and triples of points",
  "Tests enumerate a few tuples and points; metric axioms and equality are universally quantified.",
  ["skopt/space/space.py"],
  [("shorthand inference", "skopt/space/space.py check_dimension"), ("membership", "skopt/space/space.py __contains__"), ("distance", "skopt/space/space.py distance"), ("equality", "skopt/space/space.py __eq__")],
  ["Space.__contains__", "Space.distance", "Space.__eq__", "check_dimension"])
p("C06", "Initial designs deliver the requested points and leave the space alone",
  "Every initial-point generator returns exactly the requested number of points, all legal members of the space, for every space and size it supports; the result depends only on its inputs and seed. Generating leaves the caller's dimensions and the process-wide random state as they were, whether it succeeds or raises.",
  ["inputs", "configurations"], "all generators and their options x spaces x n_samples x seeds",
  "Tests call each generator with one or two sizes in 2-3 dimensions and compare with stored values.",
  ["skopt/sampler/lhs.py", "skopt/sampler/sobol.py", "skopt/sampler/halton.py", "skopt/sampler/hammersly.py", "skopt/sampler/grid.py"],
  [("point generation", "skopt/sampler/*.py generate"), ("temporary change of the transformer", "skopt/sampler/*.py set_transformer in generate")],
  ["generate() of every InitialPointGenerator", "Space.get_transformer before and after"])
p("C07", "Initial designs have the structure their names promise",
  "A Latin hypercube puts exactly one point in each of the n equal strata of every dimension; Sobol points form the digital net (each aligned block of 2^k points is stratified in every dimension; each dimension's direction numbers obey the recurrence of a primitive polynomial of its own), a random shift preserving differences; Halton and Hammersly coordinates are the radical inverses in their bases (plus a regular grid); a grid design lies on the regular lattice it names, its points chosen at random where the lattice has more than needed.",
  ["inputs", "configurations"], "all generator options x dimensions x n_samples x seeds x repeated use of one generator",
  "Tests compare a few stored values; structural laws hold over all n, dimensions and permutations.",
  ["skopt/sampler/lhs.py", "skopt/sampler/sobol.py", "skopt/sampler/halton.py", "skopt/sampler/hammersly.py", "skopt/sampler/grid.py"],
  [("stratification and permutation", "skopt/sampler/lhs.py"), ("direction numbers and gray code", "skopt/sampler/sobol.py"), ("radical inverse", "skopt/sampler/halton.py"), ("lattice", "skopt/sampler/grid.py")],
  ["generate() on unit-cube and arbitrary real dimensions"])
p("C08", "Results are a faithful, stable ledger of what was told",
  "After any sequence of observations a result lists exactly the told points and values in order, its best value is the minimum of the told values and its best point is the first told point attaining it; times are kept alongside for timed objectives. A result handed out earlier is a snapshot: later observations do not change its points or values.",
  ["histories", "inputs"], "all sequences of tell (single, batch, fit or not), run, ask and get_result over all spaces, with ties, huge, negative, values of any magnitude",
  "Tests check lengths and one minimum at the end of short runs; they never re-read an earlier result.",
  ["skopt/optimizer/optimizer.py", "skopt/utils.py"],
  [("history append", "skopt/optimizer/optimizer.py _tell"), ("result construction", "skopt/utils.py create_result")],
  ["OptimizeResult returned by tell/run/get_result and the minimize functions"], state=[("Optimizer.Xi, Optimizer.yi", "the told points and values")])
p("C09", "A rejected observation leaves the optimizer untouched",
  "Telling an observation that cannot be accepted (point outside the space, wrong number of values, non-scalar value, batch of mismatched length, missing or malformed time) is refused with an error. After the refusal the optimizer's history, phase counters, next suggestion and later behaviour are the same as if the call had not been made.",
  ["histories", "fault_sequences"], "all malformed tells injected at any point of any ask/tell history",
  "Tests check that an error is raised for two shapes, never what is left behind.",
  ["skopt/optimizer/optimizer.py", "skopt/utils.py"],
  [("input checks", "skopt/optimizer/optimizer.py _check_y_is_valid, skopt/utils.py check_x_in_space")],
  ["Optimizer.tell raising", "get_result before and after", "a twin optimizer that never saw the bad call"])
p("C10", "Asking is repeatable and the initial phase is counted exactly",
  "Between observations, repeated single asks in the model phase return the same point. Exactly the configured number of initial observations is consumed (initial design points in design order) before any surrogate is trained, then every fitting tell call (single or batch) yields exactly one more model, of which at most the configured maximum are kept, newest last.",
  ["histories", "configurations"], "all interleavings of ask, tell single/batch/no-fit x n_initial_points x design x queue size",
  "Tests use two fixed sequences; batches that straddle the end of the initial phase, no-fit tells and queue caps are histories.",
  ["skopt/optimizer/optimizer.py"],
  [("phase counter", "skopt/optimizer/optimizer.py _tell/_ask"), ("model queue", "skopt/optimizer/optimizer.py _tell")],
  ["Optimizer.ask", "Optimizer.models", "OptimizeResult.models", "calls of the surrogate's fit"], state=[("Optimizer._n_initial_points", "initial observations still owed")])
p("C11", "Parallel batches are complete, cached and leak no fantasies",
  "Asking for a batch returns that many legal points, and the same batch again until the next observation. The fantasised observations used to build the batch are the minimum, mean or maximum of the observed values as requested and never appear in the optimizer's history, models or results. Copies of an optimizer evolve independently of the original.",
  ["histories", "configurations"], "all batch sizes and strategies at any point of any history, all surrogates and timed objectives, copies made at any point",
  "Tests check one or two batch sizes for distinctness.",
  ["skopt/optimizer/optimizer.py"],
  [("constant liar", "skopt/optimizer/optimizer.py ask"), ("cache", "skopt/optimizer/optimizer.py cache_"), ("copy", "skopt/optimizer/optimizer.py copy")],
  ["Optimizer.ask(n_points)", "data passed to the surrogate's fit", "Optimizer.copy"])
p("C12", "A fixed seed reproduces the whole optimization",
  "With the same integer seed and the same observations, two runs produce identical suggestions and results, in the same or another process and whatever the number of parallel workers. No run reads or changes the process-wide random state.",
  ["configurations", "schedules"], "all optimizers, surrogates, acquisitions, designs, n_jobs, processes and global random states",
  "Tests compare two runs in one process for a few configurations and never perturb or watch the global random state.",
  ["skopt/optimizer/optimizer.py", "skopt/optimizer/base.py", "skopt/optimizer/gp.py", "skopt/optimizer/gbrt.py", "skopt/learning/gbrt.py", "skopt/utils.py"],
  [("seed threading", "skopt/optimizer/*.py random_state, skopt/utils.py cook_estimator")],
  ["suggestions and results of twin runs", "np.random.get_state before and after"])
p("C13", "Model suggestions come from the full history and optimise the acquisition",
  "Each surrogate is trained on every observation told so far in warped coordinates and only on those. The suggested point is, up to the configured search effort, the best acquisition value over the space: it is at least as good as nearly all fresh random points under the current model, with the configured exploration parameters and the best observed value as reference, through the optimizer and through the minimize functions alike.",
  ["histories", "configurations"], "all surrogates x acquisition functions x acquisition optimizers x parameters x histories",
  "Tests check convergence on toy functions with loose bounds, which a wrong reference value or an inverted argmin survives.",
  ["skopt/optimizer/optimizer.py", "skopt/acquisition.py"],
  [("surrogate training", "skopt/optimizer/optimizer.py _tell"), ("acquisition minimisation", "skopt/optimizer/optimizer.py _tell")],
  ["arguments of the surrogate's fit", "Optimizer.ask versus acquisition over fresh samples"])
p("C14", "Portfolio choice follows the accumulated gains",
  "With the hedged portfolio each candidate acquisition proposes a point, every proposal's gain grows by the negative prediction of the newly trained model at that proposal, and the suggested point is one of the current proposals. Proposals are chosen with softmax probabilities of the gains, so a proposer that is hopelessly behind is not chosen.",
  ["histories", "configurations"], "all histories of a hedged optimizer, all etas, spaces, surrogates",
  "Tests only check that the option runs.",
  ["skopt/optimizer/optimizer.py"],
  [("gains update", "skopt/optimizer/optimizer.py _tell gains_"), ("softmax choice", "skopt/optimizer/optimizer.py _tell probs")],
  ["Optimizer.gains_", "Optimizer.next_xs_", "Optimizer.ask"], state=[("gains_", "cumulative reward of each acquisition")])
p("C15", "Minimizers spend exactly the budget and honour the provided points",
  "Every minimize function calls the objective exactly the requested number of times minus early stop: first at the provided points in order when their values are not given, then at suggestions, with provided values used without re-evaluation. After each evaluation every callback is called once, in order, with the result so far, and the run ends as soon as one asks to stop. Impossible budgets and provided points that are mismatched or outside the space are refused before evaluating anything. The progress report of a verbose run names each evaluation's phase and value.",
  ["configurations", "histories"], "all minimize functions x n_calls x n_initial_points x x0/y0 forms x callbacks and stop times",
  "Tests cover several fixed combinations; the ledger of objective and callback calls is a trace property over all combinations.",
  ["skopt/optimizer/base.py", "skopt/optimizer/dummy.py", "skopt/optimizer/gp.py", "skopt/optimizer/forest.py", "skopt/optimizer/gbrt.py", "skopt/utils.py"],
  [("main loop", "skopt/optimizer/base.py base_minimize"), ("callback OR-ing", "skopt/utils.py eval_callbacks")],
  ["the event log of objective and callback calls", "the returned result"])
p("C16", "Stopping and timing callbacks decide by their documented rule",
  "Each stopping callback asks to stop at exactly the iterations at which its documented criterion holds of the history so far (distance of the last two points, spread of the best values, stagnation, threshold, remaining time against the longest iteration). Timing callbacks record the elapsed time of each iteration.",
  ["histories", "inputs"], "all histories of points, values and times, all parameters",
  "Tests give each stopper one or two short histories.",
  ["skopt/callbacks.py"],
  [("criteria", "skopt/callbacks.py *Stopper._criterion"), ("timer", "skopt/callbacks.py TimerCallback")],
  ["return value of each callback call against a reference model on the same history, on a virtual clock"])
p("C17", "User inputs and other runs are never affected",
  "No entry point modifies what the caller passed in: dimensions, lists of points and values, callback lists, estimator and option dictionaries keep their values, and reusing the same dimension objects for another run gives the same outcome as fresh ones. What the caller later adds to, removes from or replaces in the lists it passed does not reach a run's space, history or result.",
  ["histories", "configurations"], "all entry points x reuse of dimensions, spaces, callbacks, estimators and options across several runs in one process",
  "Tests build fresh objects for every run.",
  ["skopt/utils.py", "skopt/optimizer/base.py", "skopt/optimizer/optimizer.py", "skopt/callbacks.py", "skopt/searchcv.py", "skopt/learning/gaussian_process/gpr.py"],
  [("normalisation of dimensions", "skopt/utils.py normalize_dimensions"), ("callback list", "skopt/callbacks.py check_callback"), ("estimator cloning", "skopt/optimizer/optimizer.py _tell")],
  ["deep comparison of every argument before and after", "second run with reused objects against fresh ones"])
p("C18", "Saving and loading a result loses nothing",
  "A result written to a file and read back has the same points, values, best point, space, random state and models, and its models predict the same, for every supported compression and with or without storing the objective. Saving does not change the in-memory result, and dropping the objective removes only the objective.",
  ["inputs", "configurations"], "all results (spaces, surrogates, timed or not) x file extensions x options",
  "Tests round-trip one or two results and compare x and fun.",
  ["skopt/utils.py"],
  [("dump/load", "skopt/utils.py dump, load")],
  ["skopt.dump followed by skopt.load, compared field by field"])
p("C19", "A crash never costs more than the last checkpoint",
  "With checkpointing on, after every completed iteration the checkpoint file holds the complete result so far. If the process dies or writing fails at any moment, including during the write, the file still loads and holds the last or the previous completed result.",
  ["crash_points", "fault_sequences"], "every write, flush and rename boundary of the save, all compressions, crash during first and later saves",
  "Tests load the file once after a clean run.",
  ["skopt/callbacks.py", "skopt/utils.py"],
  [("checkpoint write", "skopt/callbacks.py CheckpointSaver.__call__, skopt/utils.py dump")],
  ["the checkpoint file after each callback and after each injected crash or write error"])
p("C20", "Gaussian-process predictions equal the exact posterior",
  "For any data, kernel and noise setting, the predicted mean, standard deviation and covariance are those of the Gaussian-process posterior with the learned hyperparameters, in the original units of the target; estimated observation noise is used for training but not added to predictions. Standard deviations are never negative and are consistent with the covariance, and refitting gives the same model as a fresh fit.",
  ["inputs", "configurations"], "all training sets (size, duplicates, scale, offset), kernels, noise settings, normalisation, query points, refits",
  "Tests check two functions with loose decimals.",
  ["skopt/learning/gaussian_process/gpr.py"],
  [("posterior", "skopt/learning/gaussian_process/gpr.py predict"), ("noise handling", "skopt/learning/gaussian_process/gpr.py fit")],
  ["GaussianProcessRegressor.predict against an independent dense computation from the fitted kernel"])
p("C21", "Reported gradients are the derivatives of the reported values",
  "The gradient each kernel reports for its value with respect to the query point, and the gradients of the predicted mean and standard deviation, agree with numerical differentiation wherever the function is smooth. Hyperparameter gradients of the Hamming kernel do likewise.",
  ["inputs", "configurations"], "all kernels and compositions, hyperparameters, dimensions, training sets, query points incl. ones coinciding with training points",
  "Tests compare at a few points of one data set.",
  ["skopt/learning/gaussian_process/kernels.py", "skopt/learning/gaussian_process/gpr.py"],
  [("kernel gradients", "skopt/learning/gaussian_process/kernels.py gradient_x"), ("posterior gradients", "skopt/learning/gaussian_process/gpr.py predict")],
  ["gradient_x and predict(return_mean_grad, return_std_grad) against central differences"])
p("C22", "Tree-ensemble uncertainty is what the ensemble implies",
  "For random forests and extra trees the predicted mean is the average over trees and the standard deviation follows the law of total variance over trees with the configured minimum leaf variance; for quantile boosting the mean is the median model and the deviation half the 16-84% spread. Both are finite, deviations are non-negative for forests, and fitting is reproducible from the seed and independent of the number of workers.",
  ["inputs", "configurations"], "all data sets, ensemble parameters, min_variance, quantile lists, n_jobs, seeds",
  "Tests check one data set and a sum of deviations.",
  ["skopt/learning/forest.py", "skopt/learning/gbrt.py"],
  [("total variance", "skopt/learning/forest.py _return_std"), ("quantile models", "skopt/learning/gbrt.py")],
  ["predict(return_std) against recomputation from the public fitted trees / per-quantile models"])
p("C23", "Acquisition values and gradients match their definitions",
  "Expected improvement, probability of improvement, lower confidence bound and their per-second variants equal their closed forms for the model's predicted mean and deviation (times the expected inverse of the log-normal time for per-second ones), including zero deviation, infinite exploration weight and extreme values. Their gradients are the derivatives of their values.",
  ["inputs", "configurations"], "all means, deviations, reference values, parameters, models and points",
  "Tests check a few constant models.",
  ["skopt/acquisition.py"],
  [("closed forms", "skopt/acquisition.py gaussian_ei, gaussian_pi, gaussian_lcb"), ("per-second scaling", "skopt/acquisition.py _gaussian_acquisition")],
  ["gaussian_ei, gaussian_pi, gaussian_lcb and the 1-D wrapper against reference formulas and finite differences"])
p("C24", "Hyperparameter search evaluates, records and selects exactly once each",
  "A Bayesian search over estimator parameters evaluates exactly the configured number of candidates per search space, every candidate legal for its own space, in batches no larger than configured; the negated mean score of each is what the optimizer of that space is told. The reported best candidate has the highest recorded mean score, results are ordered by evaluation, and the advertised total number of iterations is the number performed unless a callback stops a space early.",
  ["configurations", "histories"], "all search-space forms (dict, list, tuples with counts), n_iter, n_points, callbacks, seeds, refit modes",
  "Tests run a few fixed searches and look at the final score.",
  ["skopt/searchcv.py"],
  [("search loop", "skopt/searchcv.py _run_search"), ("step", "skopt/searchcv.py _step")],
  ["cv_results_, optimizer_results_, best_*, total_iterations, and an estimator that logs its parameters"])
p("C25", "Named arguments, dicts and config files keep names and values paired",
  "An objective with named arguments receives for each name the value of the dimension with that name, in every order of declaration, and returns its value unchanged; the wrong number of values or unnamed dimensions is refused. Converting points between dictionary and list form is lossless, spaces read from configuration files have the dimensions the file describes, and looking a dimension up by name or index returns that dimension.",
  ["inputs", "configurations"], "all name sets, orders, values, dictionaries and configuration files",
  "Tests use one three-name example.",
  ["skopt/utils.py", "skopt/space/space.py"],
  [("named arguments", "skopt/utils.py use_named_args"), ("dict/list conversion", "skopt/utils.py point_asdict, point_aslist"), ("yaml", "skopt/space/space.py Space.from_yaml"), ("lookup", "skopt/space/space.py Space.__getitem__")],
  ["keyword arguments seen by the objective", "round trips", "Space.from_yaml against the file's data"])
p("C26", "The expected minimum is a legal point with its true predicted value",
  "The expected minimum of a result is a point of the search space, its reported value is what the last surrogate predicts there, and that value is no worse than the prediction at the best observed point nor than nearly all random points; with a fixed seed it is reproducible.",
  ["inputs", "configurations"], "all results over real, integer, log and categorical spaces, surrogates, numbers of starts, seeds",
  "Tests check one result.",
  ["skopt/utils.py"],
  [("surrogate minimisation", "skopt/utils.py expected_minimum"), ("random sampling", "skopt/utils.py expected_minimum_random_sampling")],
  ["expected_minimum and expected_minimum_random_sampling against models[-1].predict"])
p("C27", "Diagnostic plots show the data of the result",
  "Partial-dependence values are the averages of the surrogate's predictions with the plotted dimensions fixed at each grid value and the others drawn from the given samples, over a grid that spans the dimension. Convergence and regret curves show the running best (averaged over runs, cumulative regret against the true or best known minimum), and evaluation plots count each evaluated point once.",
  ["inputs", "configurations"], "all results, spaces, dimension pairs, sample points, numbers of runs, true minima incl. zero",
  "Tests only check that plots are drawn without error.",
  ["skopt/plots.py"],
  [("partial dependence", "skopt/plots.py partial_dependence_1D/2D"), ("convergence and regret", "skopt/plots.py plot_convergence, plot_regret"), ("histograms", "skopt/plots.py plot_evaluations")],
  ["returned grids and averages; the line, patch and collection data of the produced axes"])
p("C28", "Named options select what they name; invalid ones are refused up front",
  "A surrogate, initial design, acquisition function or acquisition optimizer named in any letter case is the one used, with the parameters given for it; options of the minimize functions (noise, numbers of restarts and points, queue sizes, n_jobs, seeds) reach the part they are documented for, and deprecated aliases mean what they stand for. An invalid option is refused with an error before the objective is evaluated once.",
  ["inputs", "configurations"], "all entry points, names, letter cases, option values valid and invalid, option combinations",
  "Tests try a few names; that an option silently has no effect, or is refused only after expensive evaluations, does not show in any final value.",
  ["skopt/optimizer/optimizer.py", "skopt/optimizer/base.py", "skopt/optimizer/gp.py", "skopt/optimizer/forest.py", "skopt/optimizer/gbrt.py", "skopt/utils.py", "skopt/sampler"],
  [("names to surrogates", "skopt/utils.py cook_estimator"), ("names to designs", "skopt/utils.py cook_initial_point_generator"), ("options of the loop", "skopt/optimizer/base.py base_minimize"), ("checks of options", "skopt/optimizer/optimizer.py Optimizer.__init__")],
  ["classes and parameters of the models and designs of a run", "errors of invalid calls and a count of the objective's evaluations"])
p("C29", "A space's summary describes its dimensions and only named parts change",
  "The number of dimensions, bounds, warped size and bounds, names, kinds and constant dimensions a space reports are those of the dimensions it was declared with, in their order, before and after transformers are changed by list, by name or by type; such a change affects exactly the dimensions it names, and the points and dimensions of the caller keep their meaning. The printed form of a dimension can be produced and evaluates back to an equal dimension.",
  ["inputs", "configurations"], "all mixes and orders of dimensions up to 50, constants, names, priors, transforms, sequences of transformer changes",
  "Tests look at two or three spaces of a few dimensions.",
  ["skopt/space/space.py", "skopt/utils.py"],
  [("summary", "skopt/space/space.py Space properties"), ("transformer changes", "skopt/space/space.py Space.set_transformer, set_transformer_by_type"), ("printed form", "skopt/space/space.py __repr__")],
  ["public properties of Space and dimensions against the declaration", "eval(repr(dimension)) == dimension"])
p("C30", "The shipped benchmark problems are the published functions",
  "Each benchmark function has the published value at every point of its domain and its documented minimum at its documented minimisers, which no other point undercuts; it leaves its argument alone and gives the same value each time.",
  ["inputs"], "all points of the domains, argument containers, parameters",
  "Tests evaluate the minimisers only.",
  ["skopt/benchmarks.py"],
  [("formulas", "skopt/benchmarks.py")],
  ["values at generated points against the formulas in plain Python"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P:
    q["statement"] = q["statement"].strip()
    assert len(q["title"]) <= 80, q["id"]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
