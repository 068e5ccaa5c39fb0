"""Writes /verif/properties.jsonl.  Run: python3 tools/mkprops.py"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
OPT = "mealpy/optimizer.py"
ALG = ["mealpy/%s_based/" % g for g in ("bio", "evolutionary", "human", "math", "physics", "swarm", "system", "music", "game", "sota")]

prop("C01", "Reported fitness is the objective at the reported solution",
 "For every optimizer and problem, every agent that is reported to the user - the returned best, the recorded global/current best and worst agents, the agents of the final and of every saved population - carries the objective values and the fitness that the user's objective function yields at exactly that agent's solution. No agent is ever reported with a stale, borrowed or made-up target.",
 ["inputs", "configurations", "histories"], "all 282 optimizer classes x parameters x bounds/variable types x objectives x min/max x sequential modes x epochs x seeds",
 "The tests run each optimizer once or twice on one smooth function for a few epochs and only check types/lengths of the result; target staleness depends on the landscape, the branch taken and on boundary hits.",
 [OPT, "mealpy/utils/agent.py", "mealpy/utils/target.py"] + ALG,
 [("get_target/update_target_for_population recompute the target after each move", OPT), ("Agent.copy/duplicate_pop keep solution and target together", "mealpy/utils/agent.py")],
 ["return value of solve()", "history.list_*", "optimizer.pop", "history.list_population"])
prop("C02", "Objective only sees feasible points; reported solutions are feasible",
 "During a run the user's objective is only ever called with a one-dimensional vector of n_dims finite numbers that lies inside the problem's lower/upper bounds and decodes to admissible values of every variable. Every reported solution (returned best, history, populations) satisfies the same.",
 ["inputs", "configurations", "histories"], "all optimizer classes x variable types/bounds (narrow, shifted, asymmetric, degenerate, 1-D, mixed) x objectives x modes x seeds",
 "Bound violations appear only for particular moves, bounds and epochs; the tests check the bounds of the final best on a couple of symmetric boxes at most.",
 [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py"] + ALG,
 [("correct_solution / amend_solution", OPT), ("BaseVar.correct per variable", "mealpy/utils/space.py")],
 ["arguments received by obj_func", "solution attribute of reported agents"])
prop("C03", "Best-so-far is monotone, direction-aware and never loses a recorded best",
 "In the direction given by minmax, the recorded global best never gets worse, is at least as good as the best member of the initial population and of every recorded generation, and is what solve() returns. The recorded current best/worst of a generation are the best/worst of that generation's population, and the recorded global worst never gets better.",
 ["inputs", "histories", "configurations"], "all optimizer classes x min/max x landscapes with ties, negative values, plateaus, noise x epochs x sequential modes",
 "Needs histories on adversarial landscapes for both directions; tests use smooth minimisation and look at the final object only.",
 [OPT, "mealpy/utils/history.py"] + ALG,
 [("after_initialization / update_global_best_agent", OPT), ("History.store_initial_best_worst", "mealpy/utils/history.py")],
 ["history.list_global_best(_fit)", "history.list_current_best(_fit)", "history.list_global_worst", "return value"])
prop("C04", "Same seed, same run",
 "Solving the same problem with the same integer seed and the same configuration reproduces exactly the same sequence of objective evaluations and the same result: in a fresh optimizer, in an optimizer that already solved other problems, whatever the state of the process-global random generators, and regardless of other runs in between, or of a run inside one of its objective calls (nested optimization). A run does not consume or disturb the process-global random generators.",
 ["inputs", "histories", "configurations"], "all optimizer classes x problems x seeds x preceding uses of the instance x global RNG states x sequential modes",
 "Tests never compare two runs point by point and never disturb global RNG state or reuse instances across problems.",
 [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py"] + ALG,
 [("check_problem reseeds generator, rng and the variables", OPT), ("initialize_variables resets per-run state", ALG[0])],
 ["sequence of obj_func arguments", "returned agent", "np.random/random state"])
prop("C05", "Thread and process modes only parallelise evaluation",
 "For an optimizer that supports parallel evaluation, solving with a given seed in 'thread' or 'process' mode with any number of workers yields the same initial population, the same history of best fitness, the same evaluation count and the same result as 'swarm' mode, whatever order the workers finish in. An optimizer that does not support it runs as in 'single' mode.",
 ["schedules", "configurations", "inputs"], "all optimizer classes x worker counts x completion orders (controlled by the harness) x problems x seeds",
 "Completion order is never controlled by the tests and parallel runs are never compared with a sequential one.",
 [OPT] + ALG, [("generate_population / update_target_for_population by mode", OPT), ("check_mode_and_workers", OPT)],
 ["returned agent", "history", "nfe_counter"])
prop("C06", "Runs stop exactly when the first stopping condition is met",
 "Without a termination a run performs exactly `epoch` generations. With any combination of maximum generations, evaluations, time and early stopping (as a dict or Termination object) it stops after the first generation at whose end at least one condition holds - generations done, evaluations used, elapsed time since the start, or consecutive generations whose best fitness changed by no more than epsilon - and never later than `epoch` generations; invalid or empty conditions are rejected with ValueError.",
 ["configurations", "inputs", "histories"], "all combinations and values of stopping conditions x optimizers x landscapes x clock behaviours x reuse of the Termination object",
 "Tests try a few single conditions with fixed values; combinations, boundaries, reuse and elapsed time (needs a controlled clock) are untouched.",
 [OPT, "mealpy/utils/termination.py", "mealpy/utils/history.py"],
 [("Optimizer.check_termination", OPT), ("Termination.should_terminate", "mealpy/utils/termination.py"), ("History.get_global_repeated_times", "mealpy/utils/history.py")],
 ["history.epoch and list lengths", "termination.message"])
prop("C07", "Function-evaluation accounting is exact",
 "The number of function evaluations an optimizer reports equals the number of times the run called the user's objective, at the end and whenever a stopping condition is judged, for every optimizer, in every mode, with or without a termination and when the optimizer is reused.",
 ["inputs", "configurations", "schedules"], "all optimizer classes x modes x problems x terminations x reuse",
 "Tests never count objective calls.",
 [OPT] + ALG, [("nfe_counter updated in get_target / update_target_for_population / generate_population", OPT)],
 ["optimizer.nfe_counter vs. a counting objective"])
prop("C08", "The history is a complete and immutable record of the run",
 "After a run every history series has one entry per executed generation, fitness series agree with the recorded agents, diversity equals the spread of that generation's population, exploration and exploitation are percentages that add up to 100 in every generation, and saved populations are snapshots taken at the end of their generation. Once recorded, an entry is never changed by later generations, by later runs, or by the caller modifying the returned best or the live population.",
 ["histories", "inputs", "configurations"], "all optimizer classes x problems x epochs x terminations x caller mutations after the run x reuse",
 "Aliasing and late mutation only show when entries are compared with what was observed at the time; no test does.",
 [OPT, "mealpy/utils/history.py", "mealpy/utils/agent.py"] + ALG,
 [("track_optimize_step / track_optimize_process", OPT), ("Agent.copy", "mealpy/utils/agent.py"), ("History lists", "mealpy/utils/history.py")],
 ["history.*"])
prop("C09", "Starting solutions are honoured",
 "When starting solutions (pop_size vectors of length n_dims as nested list, tuple or array) are given, they are the first points evaluated, in order, in every mode (an optimizer that pairs each agent with a companion point evaluates it in between); the result is never worse than the best of them, and the caller's data is left unmodified. Any other number or shape is rejected with ValueError before anything is evaluated.",
 ["inputs", "configurations"], "all optimizer classes x container types x values x modes x directions",
 "Tests pass no starting solutions or one array to a couple of optimizers.",
 [OPT] + ALG, [("before_initialization", OPT)], ["sequence of obj_func arguments", "return value", "caller's container"])
prop("C10", "Variables generate, encode, correct and decode consistently within their domain",
 "Every variable type generates only members of its declared domain and can generate each of them; encoding a member gives a vector inside the variable's bounds that decodes back to the same member; correcting any real vector of the right length gives a vector inside the bounds, leaves already valid vectors unchanged (transfer-function variables excepted, whose correction is a 0/1 draw with the transfer function's probability), and decoding any real vector yields a member of the domain (every member being reachable). The same seed gives the same generated values; invalid declarations are rejected.",
 ["inputs"], "all variable classes x declarations (sizes, bounds, mixed-type label sets, transfer functions) x arbitrary real vectors including boundaries",
 "Round-trip laws over arbitrary declarations and vectors; tests use a few hand-picked values.",
 ["mealpy/utils/space.py", "mealpy/utils/transfer.py"], [("BaseVar.encode/decode/correct/generate", "mealpy/utils/space.py"), ("LabelEncoder", "mealpy/utils/space.py")],
 ["return values of the variable methods", "lb/ub"])
prop("C11", "A mixed-variable problem is the concatenation of its variables",
 "For any list of variables, the problem's bounds are the concatenation of the variables' bounds, n_dims is their total size, and generating, encoding, correcting and decoding a solution act on each variable's own slice exactly as that variable does alone, also in seeded problems, where the variables are still generated independently of each other; decoding yields a dict with each variable's name mapped to its value (a scalar for single-valued variables). Invalid bounds declarations are rejected.",
 ["inputs", "configurations"], "all lists of variables (types, sizes, order) x solution vectors",
 "Tests cover one or two fixed mixes.",
 ["mealpy/utils/problem.py", "mealpy/utils/space.py"], [("Problem.set_bounds and *_solution_with_bounds", "mealpy/utils/problem.py")], ["Problem.lb/ub/n_dims", "encode/decode/correct/generate_solution"])
prop("C12", "Fitness is the weighted sum of the objectives",
 "The fitness of an evaluated solution is the dot product of the objective values with the problem's objective weights (all ones when none are given), for scalar, list, tuple and array objectives of any size, and the objective values themselves are kept unchanged and in order. Wrongly sized weights are reported where the number of objectives is queried, unsupported objective values are rejected, and copies of targets and agents are equal in content but independent.",
 ["inputs"], "all objective vectors and weights (sizes, containers, numeric types) x agents/targets x copy-then-mutate sequences",
 "Only a fixed 3-objective example is tested.",
 ["mealpy/utils/target.py", "mealpy/utils/agent.py", "mealpy/utils/problem.py"], [("Target.calculate_fitness", "mealpy/utils/target.py"), ("Problem.n_objs/get_target", "mealpy/utils/problem.py"), ("Agent.copy", "mealpy/utils/agent.py")], ["Target.fitness/objectives/weights"])
prop("C13", "Ranking and selection pick the right agents in both directions",
 "For any population (ties, negative, infinite values) and either direction, sorting returns a permutation ordered from best to worst together with the matching original indices; best/worst/special agents, greedy, trimmed and pairwise selection return exactly the agents that definition implies, greedy selection never makes a slot worse, and agent comparison is a strict order (irreflexive, asymmetric). Helpers return copies where documented and never modify their inputs.",
 ["inputs"], "all populations (size, ties, signs, infinities) x min/max x n_best/n_worst",
 "Tests use one population without ties; the laws quantify over all populations and both directions.",
 [OPT, "mealpy/utils/agent.py"], [("get_sorted_population, get_special_agents, get_best/worst_agent, get_better_agent, greedy_selection_population, compare_*", OPT), ("Agent.is_better_than/get_better_solution", "mealpy/utils/agent.py")], ["return values"])
prop("C14", "Random selection helpers only return admissible choices, for the right direction",
 "Index sampling never returns an excluded index, an out-of-range index or (without replacement) a duplicate, returns the requested number, and can return every admissible index. Roulette-wheel selection returns a valid index, never one with zero probability, and favours better fitness in the problem's direction; k-way tournament returns distinct participants ordered best first (worst when reversed); Levy steps are finite and have the requested shape; arithmetic crossover children are complementary convex combinations; opposition solutions are feasible.",
 ["inputs"], "all fitness vectors, population sizes, exclusions, k, output sizes, shapes, seeds x min/max",
 "Distributional and set-valued guarantees over all inputs; the tests sample one call or none.",
 [OPT], [("sample_indexes_exclude_one/list, get_index_roulette_wheel_selection, get_index_kway_tournament_selection, get_levy_flight_step, crossover_arithmetic, generate_opposition_solution, generate_group_population", OPT)], ["return values"])
prop("C15", "Declared parameters are validated, visible and settable",
 "Every optimizer constructs with its default parameters, keeps exactly the values it was given, reports them all by name, and rejects values outside its documented type or range with ValueError (contradictory pairs such as a minimum above its maximum aside). Setting a subset of parameters by name on an existing optimizer is equivalent to constructing it with those values - the same later runs - and unknown names are rejected without any change.",
 ["configurations", "histories"], "all optimizer classes x parameter names x in-range and out-of-range values x set-then-solve sequences",
 "Tests check a few listed invalid values per algorithm; set_parameters is tested on one optimizer.",
 [OPT, "mealpy/utils/validator.py"] + ALG, [("constructor validator.check_* + set_parameters", OPT)], ["get_parameters()", "str(optimizer)", "runs after set_parameters"])
prop("C16", "Validator accepts exactly the documented values",
 "Each validation helper returns the given value (numbers as the required number type, integers truncated towards zero), exactly when it has the required type and lies in the given range (a tuple range being open, a list range closed, infinite ends unbounded; for strings and booleans membership), and raises ValueError mentioning the parameter's name in every other case - never another exception and never a silently altered value.",
 ["inputs"], "all values (ints, floats, numpy scalars, bools, strings, containers, NaN/inf, None) x all ranges",
 "Boundary, open/closed, infinite and odd-typed combinations are far more than the handful tested.",
 ["mealpy/utils/validator.py"], [("is_in_bound and Validator.check_*", "mealpy/utils/validator.py")], ["return value / ValueError"])
prop("C17", "Saving and loading an optimizer preserves it",
 "Saving an optimizer after any history of use and loading it back yields an optimizer with the same class, name, parameters, best agent, population, history and problem definition, whose later seeded runs equal those of the original; saving has no effect on the original. A missing '.pkl' ending is added consistently on both sides.",
 ["histories", "configurations"], "all optimizer classes x use histories x file names",
 "At most one optimizer is round-tripped by tests and nothing is compared.",
 ["mealpy/utils/io.py", OPT], [("save_model/load_model", "mealpy/utils/io.py"), ("picklability of optimizer state", OPT)], ["loaded object vs. original"])
prop("C18", "The tuner evaluates the whole grid and picks the truly best row",
 "The tuner runs every parameter combination of the grid exactly n_trials times with exactly those parameters under the given mode and termination, and tabulates each trial's true best fitness and convergence. The selected row has the best mean fitness in the problem's direction, ties broken by the smaller standard deviation; best score, best parameters, best algorithm and the re-solve all refer to that row, exported files contain the same data, and n_jobs None or <= 1 run sequentially.",
 ["configurations", "inputs"], "all grids x problems (dict or instance) x min/max x trials x job counts x optimizers x terminations",
 "Tests run one minimisation grid and check that attributes exist.",
 ["mealpy/tuner.py"], [("Tuner.execute/resolve/export_results", "mealpy/tuner.py")], ["df_fit", "df_loss", "best_*", "exported files", "solve() calls observed"])
prop("C19", "Multitask runs every algorithm on every problem under its own settings",
 "Multitask executes each algorithm on each problem (names being distinct) n_trials times, under the termination and mode that its lists assign to that (algorithm, problem) pair - one value for all, one per algorithm, one per problem, or one per pair - and rejects other lengths. The written result files contain, per algorithm and problem, exactly the trials' best fitness (and convergence curves if requested) that those runs produced, in trial order, sequentially for n_jobs None or <= 1 and in parallel otherwise.",
 ["configurations", "schedules"], "all numbers of algorithms/problems x list shapes of terminations/modes x trials x jobs x export formats",
 "There is no test of Multitask.",
 ["mealpy/multitask.py"], [("Multitask.check_input/execute", "mealpy/multitask.py")], ["exported files", "solve() calls observed"])
prop("C20", "Parameter grid enumerates, counts and indexes the same points",
 "For any grid or list of grids, iteration yields every combination exactly once in declaration order with the last parameter varying fastest, the length equals the number of points iterated, and indexing at i gives the i-th iterated point (IndexError beyond the end). Malformed grids are rejected.",
 ["inputs"], "all dicts / lists of dicts of value sequences, including empty dicts",
 "Tests iterate one or two fixed grids.",
 ["mealpy/tuner.py"], [("ParameterGrid.__iter__/__len__/__getitem__", "mealpy/tuner.py")], ["iteration, len, indexing"])
prop("C21", "The optimizer registry is complete and consistent",
 "Listing all optimizers yields every optimizer class exported by the package and nothing else; looking up each of them by class name returns that class and by module name returns exactly the variants that module defines, whether or not verbose is set; unknown names yield no class and no exception. Each listed class constructs with defaults, carries its documentation record, and its string form shows its parameters and values.",
 ["inputs", "configurations"], "all names (valid, near-miss, arbitrary strings) x verbose",
 "Tests look up a single name.",
 ["mealpy/__init__.py", "mealpy/utils/opt_info.py"], [("get_all_optimizers, get_optimizer_by_class, get_optimizer_by_name", "mealpy/__init__.py")], ["returned dicts/classes"])
prop("C22", "A failing objective surfaces and leaves everything reusable",
 "If the user's objective raises at any evaluation, that same exception reaches the caller of solve() in every mode - it is never swallowed or replaced by a result - and afterwards the same optimizer and problem solve correctly again, with results identical to a run that never failed. Invalid problem, mode, worker and termination arguments are rejected with ValueError and likewise leave the optimizer usable.",
 ["fault_sequences", "configurations"], "all optimizer classes x failing evaluation index x modes x exception types x subsequent runs",
 "No test injects a failing objective.",
 [OPT] + ALG, [("solve() re-initialisation: check_problem / initialize_variables", OPT)], ["exception at the caller", "run after the failure"])
prop("C23", "Every valid configuration runs to completion",
 "For every optimizer, any valid problem (1-D or many dimensions, narrow, shifted or degenerate bounds, mixed variable types) with any finite objective (flat, discontinuous, huge, tiny, negative, integer-valued), direction, admissible parameters and seed, solve() returns without an exception after the requested number of generations within a bounded number of evaluations, keeps a non-empty population of complete agents, and yields finite results.",
 ["inputs", "configurations"], "all optimizer classes x problems x objectives x parameters x seeds",
 "Division by zero, empty selections or index errors need flat or odd landscapes, small populations or dimensions never used in tests.",
 [OPT] + ALG, [("evolve() of each optimizer", ALG[0])], ["exceptions", "history.epoch", "objective call count", "optimizer.pop"])
prop("C24", "Charts show exactly the recorded history",
 "Each chart-saving method of the history writes the requested image files (special characters removed from the name, folders created) and plots, on a figure of its own, exactly the recorded series it is named after (all generations, values unchanged and in order, the selected agents and dimensions for trajectories), rejects selections outside the recorded range with an error, and leaves the recorded history unchanged.",
 ["histories", "inputs"], "all recorded histories x chart kinds x selected agents/dimensions x objectives",
 "Tests do not draw charts, let alone compare plotted data.",
 ["mealpy/utils/history.py", "mealpy/utils/visualize/linechart.py"], [("History.save_*_chart", "mealpy/utils/history.py"), ("export_* functions", "mealpy/utils/visualize/linechart.py")], ["data handed to the plotting back end", "files"])
prop("C25", "Transfer functions, chaotic maps and fuzzy weights stay in their ranges",
 "Every transfer function maps every real number to [0, 1], S-shaped ones monotonically increasing with 1/2 at 0 and V-shaped ones even, zero at 0 and increasing in |x|, elementwise for arrays; every chaotic map keeps its invariant interval ([-1, 1] for Chebyshev, else [0, 1]) and so never leaves the range its users rely on; fuzzy hierarchical weights lie in [25, 75], change continuously over the iterations, alpha's never falling and delta's never rising in the increasing pyramid (the reverse in the decreasing one), with alpha >= beta >= delta in the half in which the hierarchy is at its strongest. All of them are the published functions, maps and rule base. Label encoding is a bijection between distinct labels and 0..n-1.",
 ["inputs"], "all real inputs / iterates / iteration fractions / label sets",
 "Range and law statements over the real line; the tests do not cover these modules.",
 ["mealpy/utils/transfer.py", "mealpy/utils/chaotic.py", "mealpy/utils/fuzzy.py", "mealpy/utils/space.py"], [("vstf_*, sstf_*", "mealpy/utils/transfer.py"), ("ChaoticMap", "mealpy/utils/chaotic.py"), ("FuzzySystem", "mealpy/utils/fuzzy.py")], ["return values"])
prop("C26", "Logging goes where the problem says and never influences the run",
 "Each run logs its optimizer, one record per executed generation with that generation's current and global best, and the stopping condition that ended it (if any), to the destination the problem asks for: the console, the named file of that very run, or nowhere. The choice of destination, or whether populations are saved, has no effect on the course or result of the run.",
 ["configurations", "histories"], "all log destinations x sequences of runs with different destinations x optimizers",
 "Logger state is process-global and tests never run two destinations in sequence.",
 ["mealpy/utils/logger.py", OPT, "mealpy/utils/problem.py"], [("Logger.create_logger", "mealpy/utils/logger.py"), ("track_optimize_step", OPT)], ["log file contents", "stderr", "run results"])
prop("C27", "Maximizing an objective takes the same course as minimizing its negative",
 "For every optimizer that uses objective values only to compare solutions (239 of the 282 classes), the run that minimizes f and the run that maximizes -f with the same seed and settings evaluate exactly the same solutions in the same order and return the same solution, as long as no two evaluations tie. No step of such an algorithm may prefer the smaller value when the problem asks for the larger one.",
 ["inputs", "configurations", "histories"], "all optimizers that are comparison-based x parameters x bounds x (weighted) objectives x modes x epochs x seeds",
 "Tests minimize almost exclusively and only check that a number comes back; a step that forgets the direction still returns a feasible, monotone result when maximizing.",
 [OPT] + ALG, [("compare_target/compare_fitness/get_sorted_population/get_better_agent take the direction", OPT), ("every use of self.problem.minmax", "mealpy/")], ["sequence of objective calls", "return value of solve()", "history.list_global_best_fit"])
prop("C28", "A run depends on the problem, not on how the problem is written down",
 "Two descriptions of the same problem give the same run under the same seed: as a dictionary or as a Problem instance, with bounds given as a single variable, list or tuple and box sides as numbers, lists, tuples or arrays, with the objective returned as a number, numpy number, list, tuple or array, with several weighted objectives or with their weighted sum as the only objective, with explicit unit weights or none, with any names or extra problem attributes, with or without saved populations, with a termination condition that cannot bind or none, with optimizer arguments by position or by keyword, and with a worker count that the sequential modes do not use.",
 ["inputs", "configurations", "histories"], "all optimizer classes x pairs of notations x parameters x variable types x objectives x modes x seeds",
 "A relation between two runs over a product of notations; the tests use one notation per optimizer.",
 ["mealpy/utils/problem.py", "mealpy/utils/target.py", "mealpy/utils/space.py", OPT] + ALG, [("Problem.__init__/set_bounds/n_objs", "mealpy/utils/problem.py"), ("check_problem accepts dict or Problem", OPT), ("Target.calculate_fitness", "mealpy/utils/target.py")], ["sequence of objective calls", "return value of solve()", "history.list_*_best_fit"])
prop("C29", "To comparison-based optimizers only the order of objective values matters",
 "For every optimizer that uses objective values only to compare solutions (data/ranked.json in the checks; about 200 of the 282 classes), shifting the objective by a constant, multiplying it by a positive factor or applying any other strictly increasing function changes nothing: with the same seed and settings both runs evaluate exactly the same solutions in the same order and return the same solution. No such step may depend on the size, sign or unit of the objective values, on thresholds or tolerances between them, or on assumed bounds such as zero, one or a large start value.",
 ["inputs", "configurations", "histories"], "all comparison-based optimizers x increasing transformations x parameters x bounds x objectives x directions x modes x epochs x seeds",
 "A relation between two runs; tests check one scale of one objective and only that a number comes back.",
 [OPT] + ALG, [("compare_target/compare_fitness/get_sorted_population/get_better_agent", OPT), ("evolve() of the comparison-based classes", "mealpy/")], ["sequence of objective calls", "return value of solve()"])
prop("C30", "The population keeps its size and its agents are independent",
 "In every generation of a run the population has exactly pop_size agents (a few methods work with another fixed number, the same in every generation, and three adapt it), never fewer, never growing; every agent is complete, with a solution of the problem's dimension and a target with a scalar fitness; and the agents of the final population and the returned best are separate objects that share no solution, target or memory, so that using or changing one never alters another.",
 ["configurations", "histories"], "all optimizer classes x parameters x population sizes (odd ones included) x epochs x problems x modes x seeds",
 "Off-by-one groupings and shared references only show for particular population sizes, parameters and generations; the tests never look at the population.",
 [OPT] + ALG, [("generate_population, greedy_selection_population, get_sorted_and_trimmed_population", OPT), ("evolve() of each optimizer assigns self.pop", "mealpy/")], ["history.list_population", "optimizer.pop", "identity and memory of agents, solutions, targets"])
prop("C31", "A run keeps searching until its last generation, and the seed decides where",
 "On an objective without ties every generation of a run evaluates at least one candidate solution: no optimizer stalls part way and spends the remaining generations doing nothing (a single generation may pass without a trial only where the method's own random choices say so). The course is decided by the seed: runs with different seeds, or without a seed, evaluate different initial populations and different candidates later (only points clipped to the bounds, or runs that have collapsed to one point, may coincide).",
 ["configurations", "histories"], "all optimizer classes x parameters x population sizes x epochs x objectives x modes x seeds",
 "A run that stops evaluating still returns its initial best and passes every test that only looks at the result; a constant random stream passes every reproducibility test.",
 [OPT] + ALG, [("evolve() of each optimizer", "mealpy/"), ("solve()/check_problem seed the generator", OPT)], ["objective calls per generation", "evaluated solutions of runs with different seeds"])
prop("C32", "Methods that keep the better solution never lose ground",
 "For every optimizer that replaces solutions only by better ones, or keeps the best pop_size of old and new solutions (about 180 of the 282 classes), the k-th best fitness in the population is never worse at the end of a generation than it was at the end of the generation before, for every k and in the direction of the problem; for about 25 further, elitist classes this holds for the best member of the population. No step of such a method overwrites a solution by a worse one, compares in the wrong direction, or drops its elite.",
 ["configurations", "histories"], "all greedy and elitist optimizers x parameters x population sizes x bounds x objectives x directions x modes x epochs x seeds",
 "The returned best is kept apart from the population, so a population that decays passes every test of the result; only the history of a run shows it.",
 [OPT] + ALG, [("greedy_selection_population, get_better_agent, get_sorted_and_trimmed_population", OPT), ("replacement steps in evolve() of each optimizer", "mealpy/")], ["history.list_population: fitness of the agents in every generation"])
prop("C33", "The units in which the variables are measured do not matter",
 "For every optimizer whose moves are proportional to the width of the box or to differences and multiples of solutions (about 180 of the 282 classes), measuring the variables in another unit (a power of two, so that rounding plays no part: box sides and solutions multiplied by it, same objective at corresponding points) gives the same run under the same seed: corresponding points are evaluated in the same order and the corresponding solution is returned. For about 155 of them every variable may have a unit of its own. Such a method contains no absolute step length, distance threshold or tolerance, and treats each dimension by that dimension's own bounds.",
 ["inputs", "configurations"], "all scale-equivariant optimizers x units x parameters x boxes x objectives x directions x modes x seeds",
 "A relation between two runs in different units; tests use one box with equal sides (mostly [-10, 10]) in every dimension.",
 [OPT] + ALG, [("correct_solution, generate_population", OPT), ("evolve() of each optimizer", "mealpy/"), ("FloatVar.generate/correct", "mealpy/utils/space.py")], ["sequence of objective calls", "return value of solve()"])
prop("C34", "An optimizer optimizes: it does better than sampling at random",
 "On a smooth function with a single optimum anywhere inside the box, an optimizer with its default parameters comes closer to the optimum than drawing as many points uniformly from the box does - by orders of magnitude for the methods that converge -, for nearly every method, in both directions, in single and swarm mode, with any seed: the population is drawn towards better solutions, not away from them or nowhere.",
 ["inputs", "configurations"], "all optimizers that reliably beat random sampling x smooth problems x positions of the optimum x directions x modes x seeds",
 "Tests only check that a solution and a number come back, which holds for a method that no longer searches.",
 [OPT] + ALG, [("selection and comparison helpers", OPT), ("evolve() of each optimizer", "mealpy/")], ["return value of solve()", "number of objective calls"])
prop("C35", "A user's own variables, problem constraints and repair rules are honoured",
 "A variable type of the user's own (a subclass of BaseVar with its own generate, encode, decode and correct), a Problem subclass with its own correct_solution, or an Optimizer subclass with its own amend_solution is honoured by every optimizer: every solution given to the objective and every reported solution has passed through that correction (with an own amend_solution: or was generated by the problem itself), whatever move, restart, migration or opposition step produced it, and reported solutions decode through the user's decode.",
 ["inputs", "configurations", "histories"], "all optimizer classes x user-defined lattices, orderings, budgets, ties and repair rules x parameters x directions x modes x epochs x seeds",
 "A step that clips to the box instead of calling correct_solution is invisible with the built-in variables that tests use, and several happen only on rare occasions (migration every 50 epochs, duplicates, undefined moves).",
 [OPT] + ALG, [("correct_solution/amend_solution", OPT), ("Problem.correct_solution, BaseVar.correct", "mealpy/utils/"), ("evolve() of each optimizer", "mealpy/")], ["objective arguments", "history and return value", "decode_solution()"])
prop("C36", "An optimizer that a user writes on Optimizer gets the same guarantees",
 "A user-written subclass of Optimizer, whatever combination of the shared building blocks its evolve() uses (generating agents, one by one, in batches or populations; correction; targets; greedy, trimmed, tournament, roulette and special-agent selection; crossover; opposition; Levy steps; groups; improved_ms), flags and hooks it sets, gets what the built-in ones get: hooks called once and in the documented order, generations 1, 2, ... in sequence, agents that carry the objective at their solution, exact evaluation counts, the size and order each block promises in the problem's direction, complete history, the best of all generations as result, and the same run for the same seed.",
 ["inputs", "histories", "configurations"], "programs of building blocks x flags x problems x directions x modes x terminations x starting solutions x seeds",
 "The combinations of helpers, modes and directions are unbounded, and helpers that no built-in optimizer uses (improved_ms) have no test at all.",
 [OPT], [("solve(), hooks, track_optimize_step", OPT), ("generate_population, generate_evaluated_agents, update_target_for_population, improved_ms, selection helpers", OPT)], ["populations after every block", "nfe_counter", "history", "hook calls"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
