"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

p("C01", "A crash or I/O error during a save never destroys the last saved result",
  "Whenever saving a result to a file (directly, or by the checkpoint callback during a run) is cut short - by the process dying at any system call, by an I/O error or full disk, by an exception while serialising, or by power loss - the file afterwards loads completely as either a result that had been saved there in full before or the new one, and is still absent only if nothing had been saved there before. A save that could not write everything raises, and never returns as if it had succeeded. Once the fault is gone the next save succeeds and what it saved is what is loaded.",
  ["crash_points", "fault_sequences", "configurations"],
  "Every system call of a save as crash point (before, half way through, after it), every error at every call, every file type, compression, link and path form, any earlier content.",
  "The tests save once into a healthy file system and load it; none stops a save half way or makes a write fail.",
  ["skopt/utils.py", "skopt/callbacks.py"],
  [("dump writes a temporary file, syncs it and renames it over the target", "skopt/utils.py:dump"), ("the checkpoint callback saves through dump", "skopt/callbacks.py:CheckpointSaver.__call__")],
  ["skopt.dump / skopt.load", "skopt.callbacks.CheckpointSaver", "the files in the directory"],
  [("checkpoint file", "the last saved OptimizeResult", "file system")])

p("C02", "What is loaded is what was saved",
  "A result loaded from a file equals the saved one in every part a user reads - points, values, optimum, search space, models and their predictions, random state, call specification - for every minimiser, file type, compression option and objective option, however the transfers are interrupted or the writes split. Leaving out the objective removes exactly the objective, from the file only; saving never changes the result in memory. The checkpoint callback leaves, after every iteration, exactly the result it was called with, saved with the options it was given; a file that cannot be read completely is reported by an exception, never returned as a different result.",
  ["inputs", "fault_sequences", "configurations"],
  "All kinds of results x all saving options x all splittings of the I/O into short or interrupted transfers.",
  "The tests compare two fields of one result; short transfers, interrupted calls and truncated files never happen in them.",
  ["skopt/utils.py", "skopt/callbacks.py"],
  [("dump/load delegate to joblib, objective is removed from a copy", "skopt/utils.py:dump"), ("CheckpointSaver forwards its options", "skopt/callbacks.py:CheckpointSaver")],
  ["skopt.dump / skopt.load", "skopt.callbacks.CheckpointSaver", "the result object in memory"])

p("C03", "Resuming from a checkpoint loses, repeats and alters no completed evaluation",
  "When a run that saves checkpoints dies at any moment - inside the objective, between evaluation and callback, in the middle of a save - the last checkpoint contains every evaluation whose iteration had finished, in order, with the values the objective returned. Restarting with the checkpoint's points and values as starting data evaluates none of them again, keeps them unchanged and in order at the head of the new result, and evaluates exactly the requested number of new points. This holds over any number of crashes and restarts and for every minimiser.",
  ["crash_points", "histories", "configurations"],
  "Any crash moment, repeated crashes, all minimisers, all sizes of initial designs and remaining budgets.",
  "The one resume example is documentation; no test kills a run or restarts it from a file.",
  ["skopt/optimizer/base.py", "skopt/optimizer/dummy.py", "skopt/callbacks.py", "skopt/utils.py"],
  [("x0/y0 are told before the loop and not evaluated", "skopt/optimizer/base.py:base_minimize"), ("checkpoint after each iteration", "skopt/callbacks.py:CheckpointSaver")],
  ["calls of the objective", "checkpoint files", "results of the minimisers"],
  [("x0, y0", "evaluations done before", "arguments of *_minimize")])

p("C04", "Minimisers spend exactly the requested evaluations and record each of them",
  "Every minimiser evaluates the given starting points first (only if their values are not given) and then suggested points, exactly n_calls evaluations in total, and its result lists starting points and evaluated points in that order, each with the value the objective returned for it, with the optimum being the first smallest value. After the starting points and after every further evaluation all callbacks are called once, in order, with the result so far; the run ends right after the first iteration in which any of them returns true and otherwise uses the whole budget. An exception of the objective or of a callback reaches the caller with no further evaluation or callback, and impossible budgets or mismatched starting data are refused before anything is evaluated.",
  ["histories", "fault_sequences", "configurations"],
  "All forms of starting points and values, all budgets, stop decisions and exceptions at every iteration, all minimisers.",
  "Tests use fixed budgets and a single well-behaved callback; failures of objective or callback and most combinations of starting data and early stop are never tried.",
  ["skopt/optimizer/base.py", "skopt/optimizer/dummy.py", "skopt/optimizer/gp.py", "skopt/optimizer/forest.py", "skopt/optimizer/gbrt.py", "skopt/utils.py", "skopt/callbacks.py"],
  [("budget and initial point bookkeeping", "skopt/optimizer/base.py:base_minimize"), ("decisions are ORed, every callback is called", "skopt/utils.py:eval_callbacks")],
  ["calls of the objective and of the callbacks", "results passed to callbacks and returned"])

p("C05", "Asynchronous ask-and-tell records exactly the delivered evaluations",
  "When evaluations come back late, out of order, in batches, more than once, not at all, without fitting, or for points never asked for, the optimizer's record is exactly the sequence of accepted deliveries: each point once per delivery with its own value (and, for time-aware acquisition, its own time), in order of delivery. Every returned or queried result agrees with that record - counts, values, the first smallest value as optimum - and a result handed out earlier never changes afterwards. Asking changes no record, and while nothing new is told the single-point suggestion of a fitted surrogate stays the same. The optimizer's own ask-and-tell loop evaluates the standing suggestion first, and after it, also when the objective raised in the middle, exactly the completed evaluations are added.",
  ["schedules", "histories", "configurations"],
  "All interleavings of asks and deliveries of many workers, delivery faults (late, lost, duplicated, batched, unasked), all surrogates and acquisition functions.",
  "Tests tell each point right after asking for it; no test delivers out of order, twice or never, or looks at an earlier result again.",
  ["skopt/optimizer/optimizer.py", "skopt/utils.py"],
  [("tell appends or extends the record", "skopt/optimizer/optimizer.py:Optimizer._tell"), ("result built from the record", "skopt/utils.py:create_result")],
  ["Optimizer.ask / tell / get_result", "every OptimizeResult handed out"],
  [("Xi, yi", "recorded points and values", "skopt/optimizer/optimizer.py:Optimizer")])

p("C06", "Batches are complete and repeatable, and their lies never reach the record",
  "Asking for n points returns exactly n points of the search space, and asking again with the same arguments before anything is told returns the same points. Each further point of a batch is suggested by a surrogate that saw exactly the real observations plus the batch's earlier points with the smallest, mean or largest real objective value (and computation time), as the chosen strategy says. Whatever part of a batch is delivered later, in whatever order, the record and the training data of the optimizer itself never contain such a made-up observation, and asking for batches changes no record, no model and no fitted single-point suggestion.",
  ["schedules", "histories", "configurations"],
  "All interleavings of batch and single asks with full, partial, reordered or lost deliveries; all strategies, batch sizes, surrogates and acquisition functions.",
  "Tests look at single batches told back in full and in order; what the surrogate saw in between, and partial deliveries, are not observed.",
  ["skopt/optimizer/optimizer.py"],
  [("batch is made on a copy which is told lies", "skopt/optimizer/optimizer.py:Optimizer.ask"), ("cache of the last batch, emptied by tell", "skopt/optimizer/optimizer.py:Optimizer._tell")],
  ["Optimizer.ask(n_points, strategy)", "training data passed to a user-supplied surrogate", "Optimizer.get_result"],
  [("cache_", "last batch", "skopt/optimizer/optimizer.py:Optimizer")])

p("C07", "A malformed delivery or request is refused and leaves no trace",
  "Telling a point outside the search space or of the wrong dimension, a value of a type that is no number, a batch whose numbers of points and values differ or that contains a single bad element, or (time-aware) a value without its time raises an exception; so does asking for an impossible batch. After any number of such refusals, at any moment, the optimizer behaves exactly as if they had never happened: same record, same results, same later suggestions.",
  ["fault_sequences", "histories", "inputs"],
  "All kinds of corrupted deliveries at all positions of a batch and of a history.",
  "Tests check that some malformed inputs raise, on a fresh optimizer, and never look at the optimizer afterwards.",
  ["skopt/optimizer/optimizer.py", "skopt/utils.py", "skopt/space/space.py"],
  [("validation happens before anything is recorded", "skopt/optimizer/optimizer.py:Optimizer.tell"), ("membership test", "skopt/utils.py:check_x_in_space")],
  ["exceptions of Optimizer.tell / ask", "comparison with a twin that never got the malformed calls"])

p("C08", "The random seed and the history decide everything",
  "Two runs with the same seed (or equal random states), configuration and history of deliveries suggest the same points and return the same results, whatever the number of parallel jobs, the order in which parallel tasks run or finish, the global random state, the hash seed of the interpreter, the clock, and the entropy of the operating system. This holds for every minimiser, for ask-and-tell with single and batch asks, for every initial point generator and surrogate, for the cross-validated search, and for the expected minimum of a result.",
  ["schedules", "configurations", "histories"],
  "All schedules of parallel tasks and all values of the ambient nondeterminism, for every seed and configuration.",
  "Tests repeat a run in the same process with sequential execution and one fixed hash seed; the ambient nondeterminism is never varied.",
  ["skopt/optimizer/optimizer.py", "skopt/optimizer/base.py", "skopt/learning/gbrt.py", "skopt/learning/forest.py", "skopt/sampler", "skopt/searchcv.py", "skopt/space/space.py"],
  [("all randomness comes from one generator", "skopt/optimizer/optimizer.py:Optimizer.rng"), ("parallel results are used in submission order", "skopt/optimizer/optimizer.py:Optimizer._tell")],
  ["points asked", "results returned"])

p("C09", "Optimizations sharing arguments do not influence each other or the caller",
  "Several optimizations that are interleaved in any order in one process and were given the same dimension objects, search space, initial point generator, surrogate, option dictionaries, starting points or callback list each behave exactly as when run alone. None of the objects the caller passed in is changed by constructing or running an optimization.",
  ["schedules", "configurations", "histories"],
  "All interleavings of several optimizations over all combinations of shared arguments.",
  "Every test builds its own arguments and runs one optimization at a time.",
  ["skopt/optimizer/optimizer.py", "skopt/optimizer/base.py", "skopt/utils.py", "skopt/callbacks.py", "skopt/searchcv.py", "skopt/sampler"],
  [("dimensions are copied before their transformer is changed", "skopt/utils.py:normalize_dimensions"), ("surrogates are cloned before fitting", "skopt/optimizer/optimizer.py:Optimizer._tell"), ("callback lists are copied", "skopt/callbacks.py:check_callback")],
  ["points asked and results of each optimization", "the caller's objects afterwards"])

p("C10", "Time-limited runs measure elapsed time right and stop within the budget",
  "The deadline callback and the timer callback record for every iteration exactly the time that passed since the previous one (for the first: since the callback was made), unaffected by the system clock being set forwards or backwards and including time spent blocked. The deadline callback ends the run at the first iteration after which the remaining budget is not larger than the longest iteration so far, and never earlier.",
  ["schedules", "fault_sequences", "histories"],
  "All sequences of evaluation durations, stalls and clock jumps.",
  "Tests use real sleeps of fixed length and can neither jump the clock nor check exact times.",
  ["skopt/callbacks.py"],
  [("differences of a monotonic clock are summed", "skopt/callbacks.py:DeadlineStopper._criterion")],
  ["iter_time", "the number of evaluations made under a simulated clock"])

p("C11", "Early stopping decisions depend only on the evaluations recorded so far",
  "The stoppers for small steps, for close best values, for lack of improvement and for a reached threshold decide at each iteration exactly as their documented rule applied to the recorded history says, and give no decision (or continue) when the history is too short. The same stopper object used again, shared between runs, or a new one used after a crash and resume from the recorded history gives the same decisions, so an interrupted and resumed run stops at the same evaluation as an uninterrupted one.",
  ["histories", "crash_points"],
  "All value and point histories, splits of a history by crash and resume, and combinations of stoppers.",
  "Tests check each rule on one or two hand-written histories and never across a restart.",
  ["skopt/callbacks.py", "skopt/optimizer/base.py"],
  [("criteria are functions of the result", "skopt/callbacks.py:EarlyStopper")],
  ["return values of the callbacks", "number of evaluations of a run"])

p("C12", "The cross-validated search evaluates and records every candidate exactly once",
  "The search evaluates exactly the requested number of candidates per search space (fewer only when a callback stops that space), each a member of its space, and its result table lists them once each, in the order they were suggested, with their own scores. The optimizer of each space records exactly these candidates with their negated scores, the best entry is one with the highest score, and the announced total equals the number of candidates evaluated. Neither the order in which parallel workers run or finish, nor the number of jobs, nor evaluation failures that are scored by a number change any of this; a failure that is not to be scored, or that hits every fit of a batch, reaches the caller, and a later fit of the same search is complete again.",
  ["schedules", "fault_sequences", "configurations"],
  "All execution orders of the parallel fits, all sets of failing fits, all combinations of spaces, budgets, batch sizes and callbacks.",
  "Tests run small real searches and check only that the score is good or the sizes match; order of workers and failing fits are not controlled.",
  ["skopt/searchcv.py", "skopt/utils.py"],
  [("ask, evaluate and tell one batch at a time", "skopt/searchcv.py:BayesSearchCV._step"), ("budget per search space", "skopt/searchcv.py:BayesSearchCV._run_search")],
  ["calls of the estimator", "cv_results_, best_index_, optimizer_results_, total_iterations", "callback calls"])

p("C13", "Later suggestions come from a surrogate trained on exactly the record",
  "No surrogate is trained before the requested number of initial evaluations has been told, and from then on every told delivery (unless fitting was declined) trains a fresh surrogate once, on all recorded observations, each with its own value, and the next suggestion is the candidate that this surrogate and the acquisition function rank best, not one of an older surrogate. A parameter of the acquisition function that is changed between evaluations takes effect when the suggestion is updated. Results carry the trained surrogates in order: all of them, or as many of the latest ones as requested. With the portfolio of acquisition functions every suggestion is the best candidate of one of them, and each is credited with the surrogate's prediction at its own earlier candidate.",
  ["histories", "schedules", "configurations"],
  "All delivery histories (batches, declined fits, duplicates, out of order), all numbers of initial points, queue sizes, acquisition functions and ways to maximise them.",
  "Tests look at the number of models and at final values of good runs; what each surrogate saw and whether a suggestion belongs to it is not observed.",
  ["skopt/optimizer/optimizer.py", "skopt/acquisition.py"],
  [("train, rank candidates, remember the next point", "skopt/optimizer/optimizer.py:Optimizer._tell"), ("model queue", "skopt/optimizer/optimizer.py:Optimizer.models"), ("hedge gains", "skopt/optimizer/optimizer.py:Optimizer.gains_")],
  ["data passed to a user-supplied surrogate", "Optimizer.ask", "OptimizeResult.models"],
  [("models", "trained surrogates", "skopt/optimizer/optimizer.py:Optimizer"), ("gains_", "credit of each acquisition function", "skopt/optimizer/optimizer.py:Optimizer")])

p("C14", "The initial design is delivered completely and in order",
  "With an initial point generator, the suggestions of the initial phase are the generated points: the k-th suggestion asked after k deliveries is the k-th generated point, single asks, batches and minimisers alike, whatever the order of deliveries, and no generated point is skipped or repeated when each suggestion is told back. Exactly as many points as requested are generated, once; given starting points take the place of the first generated ones; afterwards suggestions come from the surrogate, or at random without one. With random initial points every suggestion is a fresh draw.",
  ["histories", "schedules", "configurations"],
  "All generators, sizes, starting data, and interleavings of single and batch asks and deliveries in the initial phase.",
  "Tests check a few generators with sequential asks and one size.",
  ["skopt/optimizer/optimizer.py", "skopt/optimizer/base.py", "skopt/optimizer/dummy.py", "skopt/sampler"],
  [("position in the design follows the number of deliveries", "skopt/optimizer/optimizer.py:Optimizer._ask")],
  ["calls of a user-supplied generator", "Optimizer.ask", "points evaluated by minimisers"],
  [("_initial_samples", "generated points", "skopt/optimizer/optimizer.py:Optimizer")])

p("C15", "A restored optimizer continues exactly like the original; copies are independent",
  "An optimizer serialised and restored (pickle or joblib file, in the same or a new process, or deep copied) at any moment of a history, and then given the same deliveries as the original, makes the same suggestions and returns the same results. A restored one and a copy made by the optimizer's own copy method hold the same record and settings as the original at that moment, and afterwards neither's asks and tells change anything observable in the other.",
  ["histories", "crash_points", "configurations"],
  "Snapshots at every moment of every history, repeated snapshots, all surrogates, generators, acquisition functions and queue sizes.",
  "One test copies an optimizer once; restoring in the middle of a history and continuing both is not tested.",
  ["skopt/optimizer/optimizer.py", "skopt/learning", "skopt/space"],
  [("state is plain attributes", "skopt/optimizer/optimizer.py:Optimizer"), ("copy rebuilds from settings and record", "skopt/optimizer/optimizer.py:Optimizer.copy")],
  ["Optimizer.ask / tell / get_result of original and restored optimizer"])

p("C16", "Threads do not disturb each other",
  "Optimizations driven from different threads that share nothing but their arguments (dimension objects, search space, surrogate, generator) behave under every interleaving exactly as when run one after the other. Several threads may predict with one trained surrogate, evaluate acquisition functions, draw from or transform points of one search space, and save or load results of their own at the same time, and each gets the same answer as alone.",
  ["schedules"],
  "All preemptive interleavings of the threads.",
  "No test uses more than one thread of its own.",
  ["skopt/optimizer/optimizer.py", "skopt/space/space.py", "skopt/sampler", "skopt/learning/gaussian_process/gpr.py", "skopt/learning/forest.py", "skopt/learning/gbrt.py", "skopt/acquisition.py", "skopt/utils.py"],
  [("no shared mutable state", "skopt/optimizer/optimizer.py:Optimizer.__init__"), ("prediction does not change the model", "skopt/learning/gaussian_process/gpr.py:GaussianProcessRegressor.predict")],
  ["return values in each thread"])

p("C17", "A failing surrogate never corrupts the record, and the next delivery recovers",
  "When training or evaluating the surrogate fails with an exception during a delivery, the exception reaches the caller, all earlier observations stay recorded and all earlier surrogates listed unchanged, and the failed delivery is recorded either completely or not at all. Afterwards results can still be queried and agree with the record, suggestions stay members of the space or are refused, and the next delivery whose surrogate works trains it on exactly the recorded observations and suggests from it; batches that failed half way leave nothing behind.",
  ["fault_sequences", "histories"],
  "A failure at any training or prediction of any delivery or batch, repeatedly, under all histories.",
  "Tests never make a surrogate fail.",
  ["skopt/optimizer/optimizer.py"],
  [("record first, train afterwards", "skopt/optimizer/optimizer.py:Optimizer._tell")],
  ["Optimizer.ask / tell / get_result around injected failures", "data passed to the surrogate"])

p("C18", "Every suggestion is a member of the search space and can be told back",
  "Under every history of deliveries each suggested point - initial or from a surrogate, single or in a batch, from every kind of dimension, prior, base, data type and encoding, generator, surrogate and acquisition function - has one component per dimension, inside the bounds or among the categories and of the dimension's kind. The optimizer accepts every such point back at any later moment.",
  ["histories", "schedules", "configurations"],
  "All mixtures of dimensions, surrogates, generators, acquisition settings and delivery histories.",
  "Tests use a handful of spaces, mostly one kind of dimension at a time, and short sequential histories.",
  ["skopt/optimizer/optimizer.py", "skopt/space/space.py", "skopt/space/transformers.py", "skopt/sampler"],
  [("suggestions are clipped to the warped bounds and mapped back", "skopt/optimizer/optimizer.py:Optimizer._tell"), ("inverse transforms clip to the bounds", "skopt/space/space.py")],
  ["Optimizer.ask", "Optimizer.tell"])

p("C19", "A search space read from a configuration file is the one described there",
  "Reading a search space from a configuration file gives exactly the dimensions described there, in order, each with its kind, bounds, prior, base, categories (with their types), data type, transformation and name, from the requested or else the first section, whatever the layout, spelling and size of the file and however its transfers are split or interrupted. A read that fails, a missing file or a missing section raises, and no different space is ever returned; no file stays open, the file is not changed, and later reads are unaffected. Two spaces read share nothing, and optimizing over a space that was read suggests the same points as over the same space made by hand.",
  ["inputs", "fault_sequences", "configurations"],
  "All described spaces and layouts x all splittings and failures of the transfers.",
  "Tests read small healthy files written in one layout.",
  ["skopt/space/space.py"], [("from_yaml", "skopt/space/space.py:Space.from_yaml")],
  ["Space.from_yaml", "open file descriptors", "suggestions of an optimizer over the space"])

p("C20", "The expected minimum belongs to the last surrogate of the result",
  "After every history of deliveries, and for every random state, the expected minimum of a result is a point inside the bounds of its search space together with exactly the value its last surrogate predicts there. Found by search it is not above the prediction at the best observed point, found by sampling it is among the smallest predictions over the space. The same random state gives the same answer whatever the global random state is, which it neither reads nor changes; the result is not changed, and a surrogate that fails is reported to the caller and leaves no trace.",
  ["histories", "configurations", "fault_sequences"],
  "All results of all histories, search spaces and surrogates, all random states, failures at any prediction.",
  "Tests compute it for one or two results with a fixed seed.",
  ["skopt/utils.py"], [("expected_minimum", "skopt/utils.py:expected_minimum"), ("expected_minimum_random_sampling", "skopt/utils.py:expected_minimum_random_sampling")],
  ["expected_minimum, expected_minimum_random_sampling", "the result object", "the global random state"])

# ---- pure functions: not simulation targets
def n(id, title, statement, text, why, files, where, observe):
    p(id, title, statement, ["inputs"], text, why, files, [(where[0], where[1])], observe)
n("N01", "Acquisition functions equal their closed forms",
  "Expected improvement, probability of improvement and lower confidence bound equal their defining formulas for every mean, standard deviation and incumbent, and their reported gradients are the derivatives.",
  "All means, deviations, incumbents and parameters.", "Tests compare a few points.", ["skopt/acquisition.py"], ("closed forms", "skopt/acquisition.py"), ["acquisition values and gradients"])
n("N02", "The Gaussian process surrogate is the exact posterior with correct gradients",
  "Predicted means, deviations, covariances and their gradients are those of the Gaussian process posterior for the fitted kernel, on every training set.",
  "All training sets and kernels.", "Tests check a few kernels on random data.", ["skopt/learning/gaussian_process"], ("posterior", "skopt/learning/gaussian_process/gpr.py"), ["predict"])
n("N03", "Search space transformations are inverse to each other",
  "Transforming a point of the space and transforming back returns the point, for every dimension and encoding.",
  "All dimensions and points.", "Tests check examples.", ["skopt/space"], ("transformers", "skopt/space/transformers.py"), ["Space.transform / inverse_transform"])
n("N04", "Initial designs have their defining stratification",
  "Latin hypercube designs have one point per stratum in every dimension, and Sobol, Halton and Hammersly points are the points of their sequences.",
  "All sizes and dimensions.", "Tests check examples.", ["skopt/sampler"], ("generate", "skopt/sampler"), ["generate"])
n("N05", "Partial dependence and plots show the values of the model",
  "The data behind convergence, evaluation, objective and regret plots are the recorded values and the model's averages.",
  "All results.", "Tests check that plotting does not fail.", ["skopt/plots.py"], ("partial dependence", "skopt/plots.py"), ["plot data"])
n("N07", "Named-argument and dictionary forms of a point are equivalent to the list form",
  "Converting points between list, dictionary and keyword form keeps every value at its own parameter.",
  "All search spaces and points.", "Tests check examples.", ["skopt/utils.py"], ("use_named_args", "skopt/utils.py:use_named_args"), ["use_named_args, point_asdict, point_aslist"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
