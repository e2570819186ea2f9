"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os, sys

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state:
        a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every exposed solution carries the true evaluation of its variables",
     "At every iteration of every algorithm, each solution a run exposes (population, offspring, optimum, archive, history snapshots, and the final result) carries objective and constraint values equal to what the problem returns for exactly those decision variables. The constraint violation and feasibility flag it shows follow from those constraint values, and the arrays X, F, G, H, CV of the result are row-aligned views of the reported optimum.",
     ["inputs", "configurations", "histories"],
     "for all problems (continuous, integer, binary, permutation, mixed; with and without constraints), all algorithms and operator configurations, all seeds and all iterations",
     "The tests compare a few end results with stored values or loose quality thresholds; none re-evaluates what was exposed at each iteration, so in-place mutation of an evaluated solution, mis-aligned rows or stale violations go unseen.",
     ["pymoo/core/algorithm.py", "pymoo/core/evaluator.py", "pymoo/core/individual.py", "pymoo/core/population.py", "pymoo/core/infill.py", "pymoo/core/mating.py", "pymoo/algorithms/**"],
     [("evaluator fills values of unevaluated individuals", "pymoo/core/evaluator.py:Evaluator._eval"),
      ("operators build new individuals for offspring", "pymoo/core/crossover.py, pymoo/core/mutation.py"),
      ("result() copies arrays out of the optimum", "pymoo/core/algorithm.py:Algorithm.result")],
     ["Algorithm.pop", "Algorithm.off", "Algorithm.opt", "Algorithm.archive", "Result.history", "Result.X/F/G/H/CV/pop/opt"])

prop("C02", "The reported optimum is feasible-first and mutually non-dominated",
     "After every iteration the reported optimum is made of solutions that were really evaluated; if any solution of the current population is feasible it contains only feasible ones, its members do not dominate each other, and no feasible member of the population dominates them (for one objective: none is strictly better). If nothing is feasible the result reports no solution and success=False, unless the least infeasible one was requested, in which case that one, with the smallest constraint violation of the population, is returned.",
     ["inputs", "configurations", "histories"],
     "for all algorithms with Pareto or best-of-population optimum semantics (RVEA and NicheGA, which document a different optimum set, only for membership and evaluation), problems, seeds and iterations",
     "Tests look at a handful of final fronts; the quantifier is every iteration, infeasible starts, ties and duplicates.",
     ["pymoo/core/algorithm.py", "pymoo/util/optimum.py", "pymoo/algorithms/moo/*.py", "pymoo/algorithms/soo/nonconvex/*.py", "pymoo/core/survival.py"],
     [("filter_optimum", "pymoo/util/optimum.py"), ("per-algorithm _set_optimum", "pymoo/algorithms/**"), ("result() success and message", "pymoo/core/algorithm.py")],
     ["Algorithm.opt", "Result.opt/X/F/CV/success/message"])

prop("C03", "The best solution found is never lost",
     "For algorithms that promise elitism or report a best-so-far optimum, the quality of the reported optimum never gets worse from one iteration to the next: lower constraint violation first, then lower objective value for one objective; for many objectives, once feasible solutions fill the population, a feasible solution attaining the best known value in an objective is not given up for a dominated one. The final result of a single-objective run is the best solution of everything it evaluated.",
     ["inputs", "configurations", "histories"],
     "for all elitist algorithms, problems (constrained, plateaus, ties), seeds and run lengths",
     "Tests assert closeness to a known optimum after a fixed budget; a lost elite that is found again later is invisible to them.",
     ["pymoo/algorithms/soo/**", "pymoo/algorithms/moo/nsga2.py", "pymoo/core/replacement.py", "pymoo/core/survival.py", "pymoo/operators/survival/rank_and_crowding/*.py"],
     [("(mu+lambda) merge and truncation", "pymoo/algorithms/base/genetic.py"), ("one-to-one replacement", "pymoo/core/replacement.py"), ("extreme points get infinite crowding", "pymoo/operators/survival/rank_and_crowding/metrics.py")],
     ["Algorithm.opt per iteration", "problem evaluation log"])

prop("C04", "Only points of the declared search space are ever evaluated",
     "Every design vector an algorithm passes to the problem lies within the declared lower and upper bounds and in the declared domain: integers for integer variables, booleans for binary ones, a listed option for choices, and each element exactly once for permutations, with the declared dimension. This includes initial samples, offspring of every operator, local search and line search steps, and stays true when bounds are negative, tiny, huge, degenerate (xl = xu) or when the best solutions sit on the boundary.",
     ["inputs", "configurations", "histories"],
     "for all problems with bounds, algorithms with default or library operators, seeds and iterations",
     "Tests run unit-box problems whose optimum is inside; only per-evaluation monitoring over shifted, degenerate and boundary-optimal problems sees an excursion.",
     ["pymoo/algorithms/**", "pymoo/operators/**", "pymoo/core/repair.py", "pymoo/core/infill.py"],
     [("bounds repair in crossovers/mutations", "pymoo/operators/repair/*.py"), ("type repair for integers", "pymoo/operators/repair/rounding.py"), ("algorithm specific repair", "pymoo/algorithms/soo/**")],
     ["Problem.evaluate inputs"])

prop("C05", "Function evaluations are counted exactly and never repeated needlessly",
     "The evaluator's count equals the number of design vectors the problem was really asked to evaluate, at every iteration and at the end of the run, through every interface. A solution that already carries the requested values is not evaluated or counted again, a pre-evaluated initial population costs nothing, and only missing values are requested.",
     ["inputs", "configurations", "histories"],
     "for all algorithms, interfaces (minimize, step-by-step, ask-and-tell, direct evaluator use), partially evaluated populations, and seeds",
     "Tests check a single counter after a single evaluator call; the quantifier is every path by which an algorithm may call the problem.",
     ["pymoo/core/evaluator.py", "pymoo/core/individual.py", "pymoo/core/initialization.py", "pymoo/algorithms/**"],
     [("evaluated set on individuals", "pymoo/core/individual.py"), ("n_eval += number actually evaluated", "pymoo/core/evaluator.py")],
     ["Problem.evaluate inputs", "Evaluator.n_eval", "Individual.evaluated"])

prop("C06", "A run stops exactly when its termination criterion first holds",
     "With a generation limit N a run performs exactly N iterations; with an evaluation limit it stops after the first iteration whose count reaches the limit and never starts another; a target objective value stops it at the first iteration that reaches it feasibly; a combination stops as soon as one of its members does. The default and tolerance-based criteria always stop within their maximum generations and evaluations, progress stays within [0, 1], and once terminated has_next stays false.",
     ["inputs", "configurations", "histories"],
     "for all termination criteria and combinations, algorithms, limits, seeds and ways of stepping",
     "Tests check single thresholds on scripted sequences; off-by-one iterations for particular pop sizes, limits or combinations are not covered.",
     ["pymoo/core/termination.py", "pymoo/termination/*.py", "pymoo/util/sliding_window.py", "pymoo/util/misc.py", "pymoo/core/algorithm.py"],
     [("Termination.update / has_terminated", "pymoo/core/termination.py"), ("termination_from_tuple, get_termination", "pymoo/termination/__init__.py"), ("DeltaToleranceTermination windows", "pymoo/termination/delta.py")],
     ["Algorithm.has_next", "callback per iteration", "Termination.perc"])

prop("C07", "A fixed seed fixes the whole run, and global random state is left alone",
     "Two runs with equal problem, algorithm configuration, termination and seed evaluate the identical sequence of design vectors and return identical results, whatever the state of Python's or numpy's global random generators and whatever was run earlier in the process. A seeded run neither reads nor changes those global generators, and seeded operators, samplings and reference-direction generators called directly obey the same rule.",
     ["inputs", "configurations", "histories"],
     "for all algorithms, operators, samplings, problems with constraints and ties, and seeds, with perturbed global generators and different run orders",
     "The determinism tests cover default operators on a few unconstrained problems and compare with stored hashes; ties, constraint handling, operator variants and repairs use code paths they never reach.",
     ["pymoo/util/__init__.py", "pymoo/core/algorithm.py", "pymoo/core/mating.py", "pymoo/operators/**", "pymoo/algorithms/**", "pymoo/util/misc.py", "pymoo/util/ref_dirs/*.py"],
     [("random_state created from the seed and passed down", "pymoo/core/algorithm.py"), ("default_random_state decorator", "pymoo/util/__init__.py")],
     ["Problem.evaluate inputs", "Result", "np.random.get_state / random.getstate"])

prop("C08", "Every way of driving an algorithm gives the same run",
     "With the same seed, minimize, a manual has_next/next loop, ask-evaluate-tell (values set by the evaluator or by the user) and running with a copied or uncopied algorithm produce the same iterations, the same populations and the same result. Extra reads between steps and options that only observe the run (history, callback, verbose output) change nothing about the search.",
     ["inputs", "configurations", "histories"],
     "for all algorithms following ask-and-tell, problems and seeds, and interleavings of ask, tell and observation",
     "Each interface is exercised by its own example, never against the others on the same seed over many algorithms.",
     ["pymoo/optimize.py", "pymoo/core/algorithm.py", "pymoo/core/evaluator.py", "pymoo/algorithms/base/*.py"],
     [("next = infill + eval + advance; ask = infill; tell = advance", "pymoo/core/algorithm.py"), ("deep copy in minimize", "pymoo/optimize.py")],
     ["per-iteration populations", "Problem.evaluate inputs", "Result"])

prop("C09", "A checkpointed run resumes as if never interrupted; runs are isolated",
     "Serialising or deep-copying an algorithm between any two iterations and continuing the copy gives exactly the uninterrupted run, and the original is unaffected by what the copy does. A run does not modify the problem, the algorithm or termination object passed to minimize, the sampling array or population it was given (beyond attaching evaluation values), or any other algorithm instance.",
     ["crash_points", "configurations", "histories"],
     "for all algorithms, all iterations as interruption points, pickle/dill/deepcopy, all seeds, and sequences of runs over shared or separate instances",
     "One documentation example checkpoints one algorithm once; state shared through default arguments or dropped on copying depends on the algorithm and the moment.",
     ["pymoo/core/algorithm.py", "pymoo/core/problem.py", "pymoo/optimize.py", "pymoo/algorithms/**", "docs/source/misc/checkpoint.md"],
     [("state kept in the algorithm object", "pymoo/core/algorithm.py"), ("__getstate__/__setstate__", "pymoo/core/problem.py, pymoo/algorithms/soo/nonconvex/cmaes.py"), ("copy_algorithm, copy_termination", "pymoo/optimize.py")],
     ["pickled bytes, resumed evaluation trace", "fields of caller-owned objects before/after"])

prop("C10", "Callbacks, history and counters report each iteration exactly once, in order",
     "During a run the callback is invoked exactly once per completed iteration, in order, with iteration numbers 1, 2, ..., N and evaluation counts that never decrease; a saved history holds exactly one snapshot per iteration that equals what the callback saw then and never changes afterwards. Solutions created in an iteration are stamped with that iteration, and display output or progress reporting shows one line per iteration with the matching counters.",
     ["histories", "configurations"],
     "for all algorithms, run lengths, seeds and combinations of history, callback and display options",
     "Tests check the history length for one algorithm; aliasing of snapshots with live state needs comparing every past snapshot at the end of many runs.",
     ["pymoo/core/algorithm.py", "pymoo/core/callback.py", "pymoo/util/display/*.py", "pymoo/core/result.py"],
     [("_post_advance order: optimum, termination, display, history, callback", "pymoo/core/algorithm.py"), ("deepcopy of the algorithm for history", "pymoo/core/algorithm.py")],
     ["callback events", "Result.history", "captured stdout"])

prop("C11", "Non-dominated sorting is exact in every implementation",
     "Every sorting method offered (the default, the fast/efficient/tree-based/best-order sorts, compiled or pure Python, with any stop criterion) partitions the solutions into fronts such that front k contains exactly the solutions dominated by none outside the previous fronts, ties and duplicates included. Ranks agree with fronts, requested early stopping yields a prefix of the full answer holding at least the requested number, the non-dominated subset is the first front, and dominance itself is a strict partial order consistent with the dominance matrix.",
     ["inputs"],
     "for all finite objective matrices: any number of points and objectives, duplicates, ties, degenerate columns, huge/tiny magnitudes, infinities, any point order",
     "Tests compare methods on random continuous matrices in which ties and duplicates have probability zero.",
     ["pymoo/util/nds/*.py", "pymoo/util/dominator.py", "pymoo/functions/standard/non_dominated_sorting.py", "pymoo/functions/compiled/non_dominated_sorting.pyx"],
     [("NonDominatedSorting.do", "pymoo/util/nds/non_dominated_sorting.py"), ("Dominator.get_relation / calc_domination_matrix", "pymoo/util/dominator.py")],
     ["returned fronts and ranks"])

prop("C12", "Crowding and diversity measures equal their definitions",
     "Crowding distance and the other diversity measures (pruning crowding distance, crowding entropy, nearest-neighbour products) return one non-negative value per solution equal to their definition on the normalised front, infinite exactly for the solutions that attain an extreme of an objective (as documented), independent of the order in which solutions are listed, and never modify the objective values they are given.",
     ["inputs"],
     "for all fronts without duplicates: any size including 1-3 points, any number of objectives, constant objectives, any truncation size",
     "A few fronts are compared with stored numbers; small sizes, constant columns, permutations and repeated calls on the same array are not.",
     ["pymoo/operators/survival/rank_and_crowding/metrics.py", "pymoo/functions/standard/*.py", "pymoo/functions/compiled/*.pyx"],
     [("get_crowding_function", "pymoo/operators/survival/rank_and_crowding/metrics.py")],
     ["returned values, input arrays before/after"])

prop("C13", "Environmental selection keeps the right individuals",
     "Every survival strategy returns distinct members of the given population, exactly the requested number when that many are available, never keeps an infeasible solution while dropping a feasible one when constraints are handled by feasibility-first, and never keeps a solution of a later front while dropping one of an earlier front for front-based strategies, the last front being split by that strategy's own criterion. Single-objective fitness survival keeps exactly the best, and the ranks it attaches match the order.",
     ["inputs", "configurations"],
     "for all merged populations (ties, duplicates, mixed feasibility, all infeasible, size equal/below requested) and all survival operators",
     "Unit tests call rank-and-crowding on one population; the rest is only exercised inside full runs with loose quality checks.",
     ["pymoo/core/survival.py", "pymoo/operators/survival/**", "pymoo/algorithms/moo/*.py", "pymoo/algorithms/base/genetic.py", "pymoo/core/replacement.py"],
     [("split_by_feasibility in Survival.do", "pymoo/core/survival.py"), ("RankAndCrowding, ReferenceDirectionSurvival, SPEA2Survival, APDSurvival, LeastHypervolumeContributionSurvival, CADASurvival, AGEMOEASurvival, FitnessSurvival", "pymoo/algorithms/moo/*.py")],
     ["survivors of each Survival.do call, also inside runs"])

prop("C14", "Constraint violation and feasibility follow the declared constraints",
     "A solution's violation is zero exactly when every inequality constraint is satisfied and every equality constraint is satisfied within the configured tolerance, otherwise positive and equal to the configured aggregation of the individual excesses; it never decreases when a constraint gets worse and always reflects the currently stored constraint values. Feasible solutions are preferred to infeasible ones, and smaller violation preferred among infeasible ones, wherever solutions are compared.",
     ["inputs", "configurations"],
     "for all constraint values (including none, zero, exactly on the tolerance, negative, huge), tolerances, scalings and aggregation settings, and all sequences of re-assigning values",
     "Tests use fixed problems with default settings; recomputation after changes and tolerance edges are not covered.",
     ["pymoo/core/individual.py", "pymoo/constraints/*.py", "pymoo/core/survival.py", "pymoo/util/optimum.py"],
     [("calc_cv / ConstraintsToCV", "pymoo/core/individual.py"), ("AdaptiveEpsilonConstraintHandling and friends", "pymoo/constraints/*.py")],
     ["Individual.CV/FEAS", "filter_optimum", "constraint handling wrappers"])

prop("C15", "Crossover produces valid offspring and leaves the parents untouched",
     "Every crossover returns exactly the number of unevaluated offspring it promises, with every gene valid for its variable's domain: point, uniform, half-uniform, exponential and binomial crossovers only recombine parent genes position by position, order and edge crossovers return permutations, real-valued ones stay within bounds, and identical parents reproduce themselves where the operator is recombination-only. The parents' variables and values are never modified, and with crossover probability 0 offspring equal their parents.",
     ["inputs", "configurations"],
     "for all parent matrices (identical, complementary, on the bounds, one or two variables), operator parameters, bounds and seeds",
     "Tests check few operators on fixed small inputs; parents aliasing and boundary arithmetic need property monitors on each call.",
     ["pymoo/core/crossover.py", "pymoo/operators/crossover/*.py"],
     [("Crossover.do applies prob and creates new individuals", "pymoo/core/crossover.py")],
     ["Crossover.do input and output"])

prop("C16", "Mutation stays in the domain and changes only what it is allowed to",
     "Every mutation returns one unevaluated individual per input with variables in the domain (bounds for real and integer variables, booleans for bit flips, the same elements for permutation mutations) and never modifies the input individuals. Mutation probability 0 changes nothing, the per-variable probability governs which variables change (probability 1 bit-flip inverts all selected bits), and variables that cannot vary (xl = xu) keep their value.",
     ["inputs", "configurations"],
     "for all populations (on the bounds, degenerate bounds, single variable), operator parameters and seeds",
     "Tests check shapes and bounds for default settings only.",
     ["pymoo/core/mutation.py", "pymoo/operators/mutation/*.py"],
     [("Mutation.do selects by prob and copies", "pymoo/core/mutation.py"), ("bounds repair inside mutations", "pymoo/operators/mutation/pm.py, gauss.py")],
     ["Mutation.do input and output"])

prop("C17", "Sampling fills the design space as specified",
     "Every sampling returns exactly the requested number of solutions in the declared domain; Latin hypercube sampling places exactly one point in each of the n equal strata of every variable, permutation sampling returns permutations, and real, integer and binary random sampling cover the full closed domain without ever leaving it.",
     ["inputs", "configurations"],
     "for all sample sizes, dimensions, bounds (negative, degenerate, huge, integer edges) and seeds",
     "No test checks stratification or coverage; only shapes.",
     ["pymoo/operators/sampling/*.py", "pymoo/core/sampling.py", "pymoo/core/initialization.py"],
     [("sampling_lhs_unit and criterion", "pymoo/operators/sampling/lhs.py"), ("FloatRandomSampling etc.", "pymoo/operators/sampling/rnd.py")],
     ["Sampling.do output"])

prop("C18", "Parent selection returns valid, fair and correctly judged parents",
     "Every selection returns the requested number of matings with the requested number of parents each, all members of the population; random selection uses every individual equally often up to one permutation round, and a tournament winner is never worse than a competitor by the declared comparison: feasible beats infeasible, smaller violation beats larger, better rank beats worse, then larger crowding, ties decided by the seeded generator.",
     ["inputs", "configurations"],
     "for all populations (mixed feasibility, ties, single individual), tournament pressures and parent counts, and seeds",
     "No unit test observes tournament outcomes.",
     ["pymoo/core/selection.py", "pymoo/operators/selection/*.py", "pymoo/algorithms/moo/nsga2.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/soo/nonconvex/ga.py", "pymoo/util/misc.py"],
     [("TournamentSelection._do + func_comp", "pymoo/operators/selection/tournament.py"), ("random_permuations", "pymoo/util/misc.py")],
     ["Selection.do output, func_comp calls"])

prop("C19", "Repair brings any point into bounds and never moves a valid one",
     "Every bound repair (clipping, bounce-back, periodic, random re-initialisation, inverse-penalty, rounding) maps an arbitrary design vector to one within the bounds and of the required type, changes no coordinate that was already valid, is idempotent, works row by row without mixing solutions, and leaves problems without bounds untouched.",
     ["inputs"],
     "for all finite design matrices (far outside, exactly on the bounds, degenerate ranges), all bounds and seeds",
     "Not covered beyond default runs, in which excursions are small and ranges positive.",
     ["pymoo/operators/repair/*.py", "pymoo/core/repair.py"],
     [("BoundsRepair and function forms", "pymoo/operators/repair/*.py")],
     ["Repair.do / repair function input and output"])

prop("C20", "Duplicate elimination removes exactly the duplicates",
     "Duplicate elimination keeps the first occurrence of every distinct solution and drops every later one that is equal (within the given tolerance or by the given comparison) to a kept one or to a solution of any other population passed for comparison, keeping order and identity of the rest. An algorithm with duplicate elimination on never adds to its population an offspring whose variables already occur there or twice in one batch.",
     ["inputs", "configurations", "histories"],
     "for all populations (empty, all equal, near ties around the tolerance, integer/permutation/mixed variables) and algorithms using elimination",
     "Tests cover a single call; near-tolerance, multi-population and within-run behaviour are not.",
     ["pymoo/core/duplicate.py", "pymoo/core/infill.py", "pymoo/core/initialization.py"],
     [("DefaultDuplicateElimination / ElementwiseDuplicateElimination / HashDuplicateElimination", "pymoo/core/duplicate.py"), ("InfillCriterion loop", "pymoo/core/infill.py")],
     ["DuplicateElimination.do", "offspring per iteration"])

prop("C21", "Populations behave as ordered collections of independent individuals",
     "Creating, indexing, slicing, merging, copying and setting values on a population keep length, order and identity: get after set returns what was set for each individual, merge concatenates, indexing returns the same individuals, distinct individuals never share mutable state, and an individual's copy or duplicate can be changed without affecting the original.",
     ["inputs", "histories"],
     "for all sequences of container operations over populations of any size, including empty ones and custom keys",
     "A few operations are tested in isolation.",
     ["pymoo/core/population.py", "pymoo/core/individual.py"],
     [("Population numpy subclass", "pymoo/core/population.py"), ("Individual.get/set/duplicate/reset", "pymoo/core/individual.py")],
     ["Population/Individual API against a list-of-dicts model"])

prop("C22", "Compiled kernels are memory-safe",
     "No call of a compiled function with inputs the library can produce reads or writes outside the buffers it was given or allocated, uses uninitialised or freed memory, overflows an integer, or invokes undefined behaviour, whatever the number of points and objectives (including none or one), ties, duplicates, constant columns, and numbers to remove.",
     ["inputs"],
     "for all array shapes and values the Python layer passes to the compiled modules",
     "The extensions are built without bounds checks and the tests run them without sanitizers; a small overrun does not change results.",
     ["pymoo/functions/compiled/*.pyx", "pymoo/functions/compiled/utils.pxd", "pymoo/functions/__init__.py"],
     [("index arithmetic in the .pyx kernels", "pymoo/functions/compiled/*.pyx")],
     ["AddressSanitizer/UndefinedBehaviorSanitizer build of the extensions"])

prop("C23", "Compiled and pure-Python implementations agree",
     "For every function that is offered both compiled and in pure Python, both return the same result for the same input and random state (same fronts, ranks, distances and orders up to floating-point rounding), and neither modifies its arguments; so results do not depend on whether the extensions are available.",
     ["inputs", "configurations"],
     "for all valid inputs of each function pair, including ties, duplicates, constant columns and small sizes",
     "Tests compare few pairs on one random matrix each.",
     ["pymoo/functions/**"],
     [("load_function with mode auto/compiled/standard", "pymoo/functions/__init__.py")],
     ["load_function(name, 'standard'|'compiled') outputs, arguments before/after"])

prop("C24", "Performance indicators compute what they define",
     "Hypervolume equals the volume dominated up to the reference point, GD/GD+/IGD/IGD+ equal the averaged (modified) nearest distances, the epsilon and spacing indicators equal their definitions; all are unaffected by the order of points, and hypervolume never drops when points are added, ignores dominated points and those beyond the reference point. Options (reference point, normalisation by ideal/nadir, filtering of dominated points) transform the inputs exactly as documented and inputs are not modified.",
     ["inputs", "configurations"],
     "for all finite point sets (duplicates, dominated, on or beyond the reference point, single point, 1-6 objectives), references and options",
     "Tests compare with a few stored values in fixed dimensions.",
     ["pymoo/indicators/**", "pymoo/vendor/hv.py", "pymoo/util/normalization.py"],
     [("Indicator.do pre-normalisation", "pymoo/core/indicator.py"), ("Hypervolume/HV, DistanceIndicator, epsilon, spacing", "pymoo/indicators/*.py")],
     ["Indicator call values"])

prop("C25", "Scalarising functions equal their formula and order points consistently",
     "Each decomposition (weighted sum, Tchebycheff, augmented variants, achievement scalarisation, PBI, modified Tchebycheff, perpendicular distance) equals its formula for given weights, ideal, utopian and nadir points; one-to-one, one-to-many, many-to-one and many-to-many evaluation agree element by element with the right output shape. Weakly or strictly better points never get a worse value where the formula promises monotonicity.",
     ["inputs", "configurations"],
     "for all objective matrices, weights (including zeros) and reference points, evaluation modes",
     "Tests compare one formula on one point set.",
     ["pymoo/decomposition/*.py", "pymoo/core/decomposition.py", "pymoo/functions/standard/decomposition.py", "pymoo/functions/compiled/decomposition.pyx"],
     [("Decomposition.do type dispatch", "pymoo/core/decomposition.py")],
     ["Decomposition.do output"])

prop("C26", "Reference directions are valid, complete and well spread",
     "Every reference-direction generator returns vectors with non-negative entries summing to one, without duplicates, and exactly the promised number: the structured designs return the complete simplex lattice for the given partitions (each layer scaled as requested), the energy, sampling and reduction methods exactly the requested number. Scaling and layering keep the vectors on the simplex and directions around given aspiration points stay centred there.",
     ["inputs", "configurations"],
     "for all numbers of objectives, partitions, point counts, scalings, layers and seeds",
     "Tests check a few counts.",
     ["pymoo/util/ref_dirs/*.py", "pymoo/util/reference_direction.py"],
     [("das_dennis recursion, scale_reference_directions", "pymoo/util/reference_direction.py"), ("RieszEnergyReferenceDirectionFactory etc.", "pymoo/util/ref_dirs/*.py")],
     ["get_reference_directions output"])

prop("C27", "Normalisation maps to the unit range and back without loss",
     "Every normaliser sends the given lower bounds to 0 and upper bounds to 1 (or leaves values alone where no bounds are given), is inverted exactly by its backward step up to rounding, is affine and order-preserving per variable, tolerates degenerate ranges, and never modifies its inputs. The ideal and nadir estimates used for normalising objectives inside algorithms are finite, the ideal is the component-wise minimum over everything seen (monotone over time) and the nadir stays above it.",
     ["inputs", "histories"],
     "for all bounds (partial, missing, degenerate, NaN-marked), values inside and outside, and sequences of updates",
     "Tests cover four bound patterns on one matrix; nothing watches the estimates during runs.",
     ["pymoo/util/normalization.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/*.py"],
     [("ZeroToOneNormalization.forward/backward", "pymoo/util/normalization.py"), ("HyperplaneNormalization.update", "pymoo/algorithms/moo/nsga3.py")],
     ["normaliser outputs", "ideal/nadir per iteration"])

prop("C28", "Evaluating a problem is a pure row-wise function with well-formed output",
     "Evaluating a design matrix returns, for each row, the values of that row alone: batch size, order of rows and of requested outputs, single vectors versus matrices, vectorised versus element-wise definition and the parallel runner do not matter, and the input is not modified. Requested outputs have one row per solution and one column per objective or constraint, and mis-shaped user output raises an error instead of being silently misaligned; NaN replacement, when enabled, replaces exactly the NaNs.",
     ["inputs", "configurations"],
     "for all shipped and user-defined problems, batch sizes (0, 1, many), row orders and requested outputs",
     "Tests evaluate given vectors in one batch.",
     ["pymoo/core/problem.py", "pymoo/problems/**"],
     [("Problem.evaluate, do, _format_dict", "pymoo/core/problem.py"), ("LoopedElementwiseEvaluation", "pymoo/parallelization/*")],
     ["Problem.evaluate outputs and inputs before/after"])

prop("C29", "Shipped benchmark problems agree with their known optima",
     "For every shipped problem that declares a Pareto set or front, evaluating the Pareto set gives feasible points on the declared front, the points of the declared front are mutually non-dominated, no design in the search space dominates a front point beyond numerical tolerance, and ideal and nadir points match the front. Declared dimensions, bounds, numbers of objectives and constraints match what evaluation returns.",
     ["inputs", "configurations"],
     "for all shipped problems with analytic optima, parameterisations (variables, objectives) and design vectors in bounds",
     "Tests compare stored evaluations at a few points; they cannot say that a front is unbeatable over the design space.",
     ["pymoo/problems/**"],
     [("_calc_pareto_front/_calc_pareto_set", "pymoo/problems/**"), ("ideal_point/nadir_point", "pymoo/core/problem.py")],
     ["Problem.evaluate, pareto_front, pareto_set, ideal_point, nadir_point"])

prop("C30", "Automatic and numerical gradients are the true derivatives",
     "For differentiable problems the gradient and Hessian returned with the evaluation equal the derivative of the returned values with respect to the variables for every output row and column, independent of batch size; the value returned alongside is unchanged by asking for gradients, and numerical differentiation agrees with analytic derivatives to its stated accuracy.",
     ["inputs", "configurations"],
     "for all differentiable shipped problems and user problems, points in the interior, batch sizes, requested derivative types",
     "Tests check one gradient per problem at one point.",
     ["pymoo/gradient/**", "pymoo/core/problem.py", "pymoo/indicators/kktpm.py"],
     [("AutomaticDifferentiation / numerical gradient wrappers", "pymoo/gradient/*.py")],
     ["dF, dG, ddF outputs"])

prop("C31", "An archive holds exactly the best of what was offered",
     "After any sequence of insertions, an unlimited archive holds exactly the feasible non-dominated solutions offered so far (for one objective the best ones), without duplicates by its own criterion; a limited archive never exceeds its size, holds only offered, mutually non-dominated solutions, and drops members only to respect the size or because they are dominated. Inserting never modifies the offered solutions or an earlier archive object.",
     ["inputs", "histories", "configurations"],
     "for all sequences of batches (duplicates, ties, infeasible, dominated) and archive configurations",
     "Tests insert one or two small batches.",
     ["pymoo/util/archive.py"],
     [("Archive.add with default survival, sorting and truncation", "pymoo/util/archive.py")],
     ["Archive contents after each add"])

prop("C32", "Mixed-variable search handles every variable by its own type",
     "For problems mixing real, integer, binary and choice variables, every solution is a complete assignment in which each variable has a value of its own type and domain, at initialisation and after every recombination, mutation, repair and duplicate check; two assignments are duplicates exactly if all variables coincide. Single-type problems given in dictionary form behave the same way.",
     ["inputs", "configurations", "histories"],
     "for all variable dictionaries, algorithms for mixed variables, seeds and iterations",
     "Tests run one or two variable dictionaries to the end.",
     ["pymoo/core/mixed.py", "pymoo/core/variable.py", "pymoo/algorithms/soo/nonconvex/optuna.py"],
     [("MixedVariableSampling/Mating/DuplicateElimination", "pymoo/core/mixed.py")],
     ["Problem.evaluate inputs", "Population X dicts"])

prop("C33", "Parallel evaluation returns every result once, in place",
     "Element-wise evaluation through any offered runner (loop, thread or process pool starmap, joblib, dask, and other executors) evaluates every solution exactly once and returns its result in its own row whatever order the workers finish in; an exception raised for a solution reaches the caller instead of being lost or shifting results. Runners and problems using them can be copied and pickled without their pool.",
     ["schedules", "fault_sequences", "inputs"],
     "for all runners, numbers of workers and solutions, completion orders and failing solutions",
     "Tests run each runner once with equal-duration tasks and no faults.",
     ["pymoo/parallelization/*.py", "pymoo/core/problem.py"],
     [("StarmapParallelization, JoblibParallelization, ...", "pymoo/parallelization/*.py")],
     ["evaluation event log per worker", "Problem.evaluate output"])

prop("C34", "Decision-making picks what its criterion says",
     "Pseudo-weights are non-negative, sum to one per solution and the chosen solution is the nearest to the requested weights; the compromise solution minimises the given scalarisation over the normalised front; trade-off methods return exactly the solutions with a high trade-off to their neighbours. Choices are valid indices and do not depend on the order or the positive scaling of objectives when normalisation is on, and the input is not modified.",
     ["inputs", "configurations"],
     "for all fronts, weights, normalisations and method parameters",
     "Documentation examples only.",
     ["pymoo/mcdm/*.py", "pymoo/core/decision_making.py"],
     [("PseudoWeights.do, HighTradeoffPoints.do, CompromiseProgramming", "pymoo/mcdm/*.py")],
     ["DecisionMaking output"])

prop("C35", "Problem transformations preserve what they wrap",
     "Each problem wrapper (constraints as penalty, constraints as objective, bounds as constraints, unit-box scaling, several to one objective, static/dynamic wrappers) evaluates the wrapped problem at the corresponding point and differs from it only by the documented transformation: the penalty is zero exactly for feasible points, the added objective equals the violation, the bound constraints are satisfied exactly within bounds, and the scaled problem at u equals the original at xl + u (xu - xl).",
     ["inputs", "configurations"],
     "for all wrapped problems, parameters and design vectors",
     "One usage example each.",
     ["pymoo/constraints/as_penalty.py", "pymoo/constraints/as_obj.py", "pymoo/constraints/from_bounds.py", "pymoo/problems/zero_to_one.py", "pymoo/problems/multi_to_single.py", "pymoo/problems/static.py", "pymoo/problems/dyn.py", "pymoo/core/meta.py"],
     [("Meta/MetaProblem delegation", "pymoo/core/meta.py, pymoo/problems/dyn.py")],
     ["evaluation of wrapper and wrapped problem"])

prop("C36", "Reading and writing an algorithm's parameters round-trips",
     "The parameters listed for an algorithm can be read, written and read back with the same values; writing them to another instance of the same configuration makes its next run with the same seed identical to the original's; setting one parameter changes no other, and hyper-parameter optimisation evaluates the algorithm with exactly the proposed values.",
     ["inputs", "configurations"],
     "for all algorithms with exposed parameters, values in their domain and orders of assignment",
     "One example optimises one algorithm.",
     ["pymoo/core/parameters.py", "pymoo/algorithms/hyperparameters.py", "pymoo/operators/control.py", "pymoo/core/variable.py"],
     [("get_params/set_params/flatten/hierarchical", "pymoo/core/parameters.py")],
     ["parameter dictionaries, effects on runs"])

prop("C37", "Dynamic optimisation reacts to every change it observes",
     "x",
     ["inputs", "histories", "configurations"],
     "for all dynamic problems, change schedules, thresholds and settings of DNSGA-II and KGB",
     "One run per algorithm checks that the final objective values exist; nothing compares the values kept after a change with the problem as it is now.",
     ["pymoo/algorithms/moo/dnsga2.py", "pymoo/algorithms/moo/kgb.py", "pymoo/problems/dyn.py", "pymoo/core/callback.py", "pymoo/problems/dynamic/*.py"],
     [("change detection and re-evaluation", "pymoo/algorithms/moo/dnsga2.py, pymoo/algorithms/moo/kgb.py"), ("clock", "pymoo/problems/dyn.py")],
     ["log of evaluations with their time, population after each iteration"])

prop("C38", "Plots show exactly the given data where their definition puts it",
     "x",
     ["inputs", "configurations"],
     "for all data sets, plot classes and options",
     "Tests only call the plots; nothing looks at what was drawn.",
     ["pymoo/core/plot.py", "pymoo/visualization/*.py"],
     [("drawing of each plot", "pymoo/visualization/*.py"), ("common life cycle", "pymoo/core/plot.py")],
     ["artists on the axes of the figure"])

prop("C39", "The learned preference agrees with the ranking it was fitted to",
     "x",
     ["inputs", "histories", "configurations"],
     "for all ranked points, value functions, solvers, decision makers and runs of PINSGA2",
     "A few fixed rankings of two points sets are fitted; the search with a decision maker is only run.",
     ["pymoo/util/value_functions.py", "pymoo/util/vf_dominator.py", "pymoo/algorithms/moo/pinsga2.py"],
     [("value functions", "pymoo/util/value_functions.py"), ("preference relation", "pymoo/util/vf_dominator.py"), ("dialogue with the decision maker", "pymoo/algorithms/moo/pinsga2.py")],
     ["value function and ranking handed to it, questions asked, ranks of the population"])

prop("C40", "What a run displays and records about its progress is true",
     "x",
     ["inputs", "histories", "configurations"],
     "for all values, columns, problems, recording intervals and termination criteria",
     "No test reads what is printed or recorded.",
     ["pymoo/util/display/*.py", "pymoo/core/recorder.py", "pymoo/core/callback.py"],
     [("columns and tables", "pymoo/util/display/*.py"), ("recorders", "pymoo/core/recorder.py")],
     ["printed text, records, positions of the progress bar"])

prop("C41", "Shipped benchmark problems compute their published definition",
     "x",
     ["inputs", "configurations"],
     "for all shipped problems, designs, sizes, parameters and times",
     "Tests compare a few stored values or only check that problems run.",
     ["pymoo/problems/**/*.py"],
     [("single-objective", "pymoo/problems/single/*.py"), ("multi-objective", "pymoo/problems/multi/*.py"), ("many-objective", "pymoo/problems/many/*.py"), ("dynamic", "pymoo/problems/dynamic/*.py")],
     ["objective and constraint values of random designs"])

prop("C42", "Local and line searches follow their published rules",
     "x",
     ["inputs", "histories"],
     "for all functions, starting points, bounds, constraints, parameters and numbers of evaluations",
     "Tests run the local searches on one or two functions and look at the final value only.",
     ["pymoo/algorithms/soo/univariate/*.py", "pymoo/algorithms/base/bracket.py", "pymoo/algorithms/base/line.py", "pymoo/algorithms/base/local.py", "pymoo/algorithms/soo/nonconvex/nelder.py",
      "pymoo/algorithms/soo/nonconvex/pattern.py", "pymoo/algorithms/soo/nonconvex/direct.py", "pymoo/algorithms/soo/nonconvex/cmaes.py", "pymoo/vendor/vendor_cmaes.py", "pymoo/vendor/vendor_scipy.py", "pymoo/util/vectors.py"],
     [("interval and line searches", "pymoo/algorithms/soo/univariate/*.py"), ("direct searches", "pymoo/algorithms/soo/nonconvex/*.py"), ("vendored optimizers", "pymoo/vendor/vendor_scipy.py")],
     ["sequence of evaluated points, brackets, cells, values told, final solution"])

prop("C43", "Shared utilities compute their definition",
     "x",
     ["inputs"],
     "for all arrays, ties, sizes, parameters and random states",
     "Tests call few of the utilities, with one small example each.",
     ["pymoo/util/misc.py", "pymoo/util/clearing.py", "pymoo/util/roulette.py", "pymoo/util/randomized_argsort.py", "pymoo/util/sliding_window.py", "pymoo/util/cache.py", "pymoo/util/running_metric.py",
      "pymoo/util/vf_dominator.py", "pymoo/util/reference_direction.py", "pymoo/util/ref_dirs/*.py", "pymoo/decomposition/util.py", "pymoo/core/replacement.py"],
     [("utilities", "pymoo/util/*.py"), ("measures of directions", "pymoo/util/ref_dirs/*.py"), ("replacement", "pymoo/core/replacement.py")],
     ["results of the utilities on generated arrays"])

prop("C44", "Each iteration of an algorithm follows its published update rule",
     "x",
     ["schedules", "inputs"],
     "for all problems, population sizes, parameters, random states and iterations",
     "Tests compare the final result with a stored one or look at how close it is to the optimum, which a wrong rule may reach as well.",
     ["pymoo/algorithms/soo/nonconvex/*.py", "pymoo/algorithms/moo/moead.py", "pymoo/algorithms/moo/nsde.py", "pymoo/algorithms/moo/gde3.py", "pymoo/algorithms/moo/cmopso.py", "pymoo/algorithms/moo/mopso_cd.py",
      "pymoo/operators/selection/des.py", "pymoo/core/replacement.py"],
     [("differential evolution", "pymoo/algorithms/soo/nonconvex/de.py"), ("particle swarms", "pymoo/algorithms/soo/nonconvex/pso.py"), ("evolution strategies", "pymoo/algorithms/soo/nonconvex/es.py"), ("decomposition", "pymoo/algorithms/moo/moead.py")],
     ["solutions asked for, velocities, step sizes, personal and local bests, archive, ideal point, population before and after every iteration"])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import statements
import glob
for p in P:
    p["statement"] = statements.S.get(p["id"], p["statement"])
    p["anchors"]["files"] = statements.F.get(p["id"], p["anchors"]["files"])
    for m in [f for f in p["anchors"]["files"]] + [f for m in p["anchors"]["mechanism"] for f in m["where"].split(":")[0].split(", ")]:
        if m.startswith("pymoo") and os.path.isdir("/repo") and not glob.glob("/repo/" + m):
            print("no such file:", p["id"], m)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
