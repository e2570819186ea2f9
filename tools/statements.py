"""Statements as they were settled after the checks had met the code, and anchors that moved (applied by gen_properties.py)."""
S = {
"C02": "After every iteration the reported optimum is made of solutions that were really evaluated; if any solution of the current population is feasible it contains only feasible ones, its members do not dominate each other, and no feasible member of the population dominates them (for one objective: none is strictly better). If nothing is feasible the result reports no solution and success=False, unless the least infeasible one was requested, in which case that one, with the smallest constraint violation of the population, is returned.",
"C03": "For single-objective algorithms that report a best-so-far optimum, the quality of the reported optimum never gets worse from one iteration to the next (smaller constraint violation first, then smaller objective value), and the final result is the best solution of everything the run evaluated. For rank-and-crowding multi-objective algorithms whose population holds at least two solutions per objective, the best value of every objective among the feasible solutions of the population never gets worse.",
"C05": "The evaluator's count equals the number of design vectors the problem was really asked to evaluate, at every iteration and at the end of the run, through every interface. A solution that already carries the requested values is not evaluated or counted again, and a pre-evaluated initial population costs nothing.",
"C06": "With a generation limit N a run performs exactly N iterations; with an evaluation limit it stops after the first iteration whose count reaches the limit and never starts another; a target objective value stops it at the first iteration that reaches it feasibly; a combination stops as soon as one of its members does. The default and tolerance-based criteria always stop within their maximum generations and evaluations, progress is never negative, and once terminated has_next stays false (an algorithm that ends by itself, such as CMA-ES, may end earlier, and RVEA documents that it converts evaluations to generations).",
"C09": "Copying an algorithm with deepcopy or storing it with dill (the documented ways) between any two iterations and continuing the copy gives exactly the uninterrupted run, and the original is unaffected by what the copy does. A run does not modify the problem, the algorithm or termination object passed to minimize, the sampling array or population it was given (beyond attaching evaluation values), or any other algorithm instance.",
"C10": "During a run the callback is invoked exactly once per completed iteration, in order, with iteration numbers 1, 2, ..., N and evaluation counts that never decrease; a saved history holds exactly one snapshot per iteration that equals what the callback saw then and never changes afterwards. Solutions created in an iteration are stamped with that iteration, and the display output of an algorithm that has one shows one line per iteration with the matching counters.",
"C12": "Crowding distance and the other diversity measures (pruning crowding distance, crowding entropy, nearest-neighbour products) return one non-negative value per solution equal to their definition on the normalised front, infinite exactly for the solutions that attain an extreme of an objective (as documented), and zero for repeated solutions where duplicates are filtered. They are independent of the order in which distinct solutions are listed and never modify the objective values they are given.",
"C13": "Every survival strategy returns distinct members of the given population, exactly the requested number when that many are available, never keeps an infeasible solution while dropping a feasible one when constraints are handled by feasibility-first, and never keeps a solution of a later front while dropping one of an earlier front for front-based strategies (fronts by the algorithm's own dominance relation), the last front being split by that strategy's own criterion. Single-objective fitness survival keeps exactly the best, and the ranks it attaches match the order (RVEA keeps one solution per reference vector and makes no claim about the number).",
"C15": "Every crossover returns exactly the number of unevaluated offspring it promises, with every gene valid for its variable's domain: point, uniform, half-uniform, exponential and binomial crossovers only recombine parent genes position by position, order and edge crossovers return permutations, real-valued ones stay within bounds for parents in bounds, and identical parents reproduce themselves under point, uniform, half-uniform, order (without shift) and simulated binary crossover. The configured crossover and gene probabilities and distribution parameters govern how often and how far genes change, and with crossover probability 0 offspring equal their parents, whose variables and values are never modified.",
"C16": "Every mutation returns one individual per input with variables in the domain (bounds for real and integer variables, booleans for bit flips, the same elements for permutation mutations) and, when asked to work on a copy, never modifies the input individuals. Mutation probability 0 changes nothing, the mutation and per-variable probabilities and the distribution parameters govern which variables change and how far (bit flip with probability 1 inverts every bit), and variables that cannot vary (xl = xu) keep their value.",
"C18": "Every selection returns the requested number of matings with the requested number of parents each, all members of the population; random and tournament selection draw candidates by whole passes over the population, so that within a pass everyone is drawn once. A tournament winner is never worse than a competitor by the algorithm's declared comparison, such as: feasible beats infeasible, smaller violation beats larger, better rank (or dominance) beats worse, then larger crowding, ties decided by the seeded generator. Differential evolution with fewer offsprings than members chooses its targets among the whole population.",
"C19": "Every bound repair (clipping, bounce-back, periodic, random re-initialisation, inverse-penalty, rounding with integer bounds) maps an arbitrary design vector to one within the bounds and of the required type, changes no valid solution and no coordinate that was already valid (inverse-penalty moves a row with an invalid coordinate as a whole along the line to its parent), is idempotent, works row by row without mixing solutions, and leaves problems without bounds untouched. A repair given to an algorithm is applied to every solution the algorithm creates before it is evaluated.",
"C20": "Duplicate elimination keeps exactly one occurrence of every distinct solution (the first one for distance- and hash-based comparison) and drops every other one that is equal (within the given tolerance or by the given comparison) to an earlier one or to a solution of any other population passed for comparison, keeping order and identity of the rest. An algorithm with duplicate elimination on never adds to its population an offspring whose variables already occur there or twice in one batch (except the solutions some algorithms inject or carry over by design: BRKGA, C-TAEA, DNSGA-II).",
"C21": "Creating, indexing, slicing, merging, copying and setting values on a population keep length, order and identity: get after set returns what was set for each individual, merge concatenates, indexing returns the same individuals, distinct individuals never share mutable state, and an individual's copy can be changed without affecting the original.",
"C22": "No call of a compiled function with inputs the library can produce reads or writes outside the buffers it was given or allocated, uses uninitialised or freed memory, overflows an integer, or invokes undefined behaviour, whatever the number of points and objectives (including none or one), ties, duplicates, constant columns, infinities, and numbers to remove.",
"C23": "For every function that is offered both compiled and in pure Python, both return the same result for the same input, common parameters and random state (same fronts, ranks, distances and orders up to floating-point rounding), and neither modifies its arguments; so results do not depend on whether the extensions are available.",
"C24": "Hypervolume equals the volume dominated up to the reference point, GD/GD+/IGD/IGD+ and MIGD equal the averaged (modified) nearest distances, the epsilon, spacing, R-metric, KKT proximity and running metrics equal their definitions; all are unaffected by the order of points, and hypervolume never drops when points are added, ignores dominated points and those beyond the reference point, and its exact and approximate contributions agree with it. Options (reference point, normalisation by ideal/nadir, filtering of dominated points) transform the inputs exactly as documented and inputs are not modified.",
"C25": "Each decomposition (weighted sum, Tchebycheff, augmented variants, achievement scalarisation, PBI, perpendicular distance) equals its formula for given weights, ideal, utopian and nadir points; one-to-one, one-to-many, many-to-one and many-to-many evaluation agree element by element with the right output shape, and weakly or strictly better points never get a worse value where the formula promises monotonicity. MOEA/D replaces a neighbour exactly when the offspring's scalarised value for that neighbour's weight is better.",
"C26": "Every reference-direction generator returns vectors with non-negative entries summing to one, without duplicates, and exactly the promised number: the structured designs return the complete simplex lattice for the given partitions (each layer scaled as requested), the energy, sampling and reduction methods exactly the requested number. Scaling and layering keep the vectors on the simplex, directions around given aspiration points stay centred there, and the spread measures and projections used for them equal their definitions.",
"C27": "Every normaliser sends the given lower bounds to 0 and upper bounds to 1 (shifts only where one bound is given, leaves values alone where none is), is inverted exactly by its backward step up to rounding, is affine and order-preserving per variable, tolerates degenerate ranges, and never modifies its inputs. The ideal and nadir estimates used for normalising objectives inside algorithms are finite, the ideal is the component-wise minimum over everything seen (monotone over time) and the nadir stays above it.",
"C28": "Evaluating a design matrix returns, for each row, the values of that row alone: batch size, order of rows and of requested outputs, single vectors versus matrices, vectorised versus element-wise definition and the parallel runner do not matter, and the input is not modified. Requested outputs have one row per solution and one column per objective or constraint, user output with a wrong number of values raises an error instead of being silently misaligned, and NaN replacement, when enabled, replaces exactly the NaNs.",
"C29": "For every shipped problem that declares a Pareto set or front, evaluating the Pareto set gives feasible points on the declared front, the points of the declared front are mutually non-dominated and attainable, no design in the search space dominates a front point beyond numerical tolerance, and ideal and nadir points match the front. Declared dimensions, bounds, numbers of objectives and constraints match what evaluation returns.",
"C30": "For differentiable problems the gradients returned with the evaluation equal the derivative of the returned values with respect to the variables for every output row and column, independent of batch size, whichever backend (autograd, jax, complex step, finite differences) computes them; the values returned alongside are unchanged by asking for gradients, and numerical differentiation agrees with analytic derivatives to its stated accuracy. The hand-written gradients used inside the library equal the derivatives of the functions they belong to.",
"C31": "After any sequence of insertions, an unlimited archive holds exactly the feasible non-dominated solutions offered so far (for one objective the best ones; the least infeasible ones while nothing feasible was offered), without duplicates by its own criterion; a limited archive never exceeds its size, holds only offered, mutually non-dominated solutions, and drops members only to respect the size or because they are dominated. Inserting never modifies the offered solutions or an earlier archive object, and an algorithm's archive is offered every solution it tells, also in the result returned by the last tell.",
"C32": "For problems mixing real, integer, binary and choice variables, every solution is a complete assignment in which each variable has a value of its own type and domain, at initialisation and after every recombination, mutation, repair and duplicate check; two assignments are duplicates exactly if all variables coincide. Problems of a single type given in dictionary form produce the same offspring as in vector form.",
"C33": "Element-wise evaluation through any offered runner (loop, thread or process pool starmap, joblib, dask, ray) evaluates every solution exactly once (dask may merge identical rows of one batch) and returns its result in its own row whatever order the workers finish in; an exception raised for a solution reaches the caller instead of being lost or shifting results. Runners and problems using them can be copied and stored without their pool.",
"C34": "Pseudo-weights are non-negative, sum to one per solution (except for the nadir point itself, which is never chosen over another) and the chosen solution is the nearest to the requested weights; the compromise solution minimises the given scalarisation over the normalised front; the trade-off method returns exactly the solutions whose least trade-off to their neighbours is high: two or more standard deviations above the mean, or else the single best if it is more than one above, or else none. Choices are valid indices and do not depend on the order or the positive scaling of objectives when normalisation is on, and the input is not modified.",
"C35": "Each problem wrapper (constraints as penalty, constraints as objective, bounds as constraints, unit-box scaling, several to one objective, static/dynamic wrappers, line searches) evaluates the wrapped problem at the corresponding point and differs from it only by the documented transformation: the penalty is zero exactly for feasible points, the added objective equals the violation, the bound constraints are satisfied exactly within bounds, the scaled problem at u equals the original at xl + u (xu - xl), and given values are returned as given. Wrappers can be stacked (each kind once), and declared dimensions and optima follow the transformation.",
"C36": "The parameters listed for an algorithm can be read, written and read back with the same values; writing them to another instance of the same configuration makes its next run with the same seed identical to the original's and to one constructed with them. Setting one parameter changes no other, hyper-parameter optimisation evaluates the algorithm with exactly the proposed values, and a controlled operator records and uses exactly the values drawn for it.",
"C37": "In each iteration of DNSGA-II and KGB a sample of the population is evaluated anew, and whenever its values deviate from the known ones by more than the threshold, the whole population is renewed as the version demands (random solutions, mutated ones, or the predicted ones) and evaluated in the environment as it is now; otherwise nothing is evaluated in vain. After a detected change no solution keeps objective values of an earlier environment, the population keeps its size and bounds, every evaluation is counted, and the same seed with the same changes repeats the run. The clock of a dynamic problem advances exactly as set, its values depend on nothing but the design vector and the time, and two algorithm objects never share what they remember.",
"C38": "Every plot draws exactly the points, lines, polygons or cells of the data it was given, once, at the position its definition computes from the values (scatter, parallel coordinates, heatmap, petal, radar, radviz, star coordinates, fitness landscapes), with the requested bounds, reversal, order, labels and styles, on the axes it was told to use. Drawing, saving and drawing again leave the caller's data unchanged and yield the same picture, and data with the wrong number of dimensions is rejected.",
"C39": "A value function that is accepted as fitted (linear or polynomial, with any solver) has the demanded form - non-negative coefficients which sum to one, value as given by the formula - and gives points of a better rank a higher value, at least by the distance it reports, and tied points nearly equal ones; it does not depend on the order of the points and leaves the caller's points and ranks unchanged. The preference relation built on it is antisymmetric and equals its definition: a solution valued above the reference is preferred to one valued below, all others compare by Pareto dominance. PINSGA2 asks only in the agreed iterations and only about different solutions of the current first front, learns from exactly the answers given, takes the second best of them as the reference, ranks the next populations by that relation, and drops the preference if nothing fits.",
"C40": "Every line a run prints shows, under the right header and aligned with it, the values of exactly that iteration (counts, constraint violation, objective values and gap to the known optimum, IGD, GD and hypervolume with respect to the known front as it is at that time, the change of the front if none is known), and a dash where there is nothing to show; a displayed number is never cut off so that it reads as another one. The recorders store exactly the iterations their interval asks for, with the true values, and the progress bar follows the termination criterion within [0, 1] and is closed at the end. Displaying, recording and progress bars do not change the run.",
"C41": "Every shipped benchmark problem (single-, multi- and many-objective, constrained, dynamic, combinatorial and engineering design) returns, for every design in its space, every admissible size and parameter, and every time of a dynamic one, the objective and constraint values of its published definition up to rounding; random instances are of the requested size, repeat with their seed, and keep the symmetries of the definition (a tour has the same length wherever it starts).",
"C42": "Local and line searches follow their published rules. Golden section and quadratic interpolation start from the interval given, never lose the minimiser of a function that has only one, and golden section shrinks by the golden ratio with one evaluation a step; exponential search doubles its step until the value gets worse or the bound is reached. The Wolfe line search returns an evaluated point on the line that fulfils the conditions of sufficient decrease and curvature (only the first if its limits are hit). Nelder-Mead evaluates exactly the reflections, expansions, contractions and shrinks of the rule with steps limited by the bounds, Hooke-Jeeves changes one variable at a time by the current step and follows successful directions, DIRECT keeps a partition of the box into cells with their points in the centre and only divides cells no other is larger and better than, into thirds along a longest side. CMA-ES strategies are told the values of their own solutions. SciPy's optimizers find the solution of constrained quadratics they are meant for, with every evaluation counted and limits of evaluations respected.",
"C43": "Shared utilities compute their definition. Distances between rows (plain, normalized, to a weight, cosine) and the searches for duplicate, close or unique rows agree with loops over pairs; swapping exchanges two rows; masks, parameter-less penalties and hierarchical sorting put feasible solutions first; epsilon clearing selects no solution closer than epsilon to a selected one until nothing else is left; randomised sorting returns a permutation in order, picks among ties by chance and repeats with its random state; roulette wheels choose in proportion to their values; sliding windows keep the last entries; projections onto the simplex and sums of partitions meet their constraints; spacing, potential energy, volume ratio and uniformity of directions, selections of the most distant points, decompositions of many values, improvement replacement, value function domination and the running metric equal their definition.",
"C44": "Each iteration follows the update rule of the algorithm. Setting up and asking evaluate nothing. Differential evolution (DE, NSDE, GDE3) asks for combinations of each target and a donor base + F * difference of the population members its variant names; a trial replaces its target exactly if it is better, in GDE3 exactly if it dominates, while both compete if neither does. Particle swarms (PSO, EPPSO, CMOPSO, MOPSO-CD) move by w V + c1 r1 (P - X) + c2 r2 (L - X) (CMOPSO: r1 V + r2 (W - X)) with r in [0, 1], limit velocities, move by exactly the velocity (except for the perturbation of the best and for leaving the bounds), and keep personal and local bests; adaptive PSO follows its evolutionary factor and keeps c1 + c2 <= 4. ES, SRES and ISRES adapt step sizes at their learning rates between zero and the maximum, create the differential offspring first, and choose the best offspring as parents. BRKGA keeps the elites and mixes one elite with one other solution by the bias. G3PCX and NRBO replace by better solutions only. MOEA/D keeps the ideal point of everything seen, treats every subproblem once per iteration, and replaces exactly those of the closest neighbors the offspring is better for. The other genetic algorithms choose the next population among the present one and the offspring told, at its full size, without losing a better solution (by feasibility, then by front) for a worse one.",
}
F = {
"C11": ["pymoo/util/nds/fast_non_dominated_sort.py", "pymoo/util/nds/non_dominated_sorting.py", "pymoo/util/dominator.py", "pymoo/functions/standard/non_dominated_sorting.py", "pymoo/functions/compiled/non_dominated_sorting.pyx"],
"C24": ["pymoo/core/indicator.py", "pymoo/indicators/distance_indicator.py", "pymoo/indicators/epsilon.py", "pymoo/indicators/gd.py", "pymoo/indicators/gd_plus.py", "pymoo/indicators/hv/**", "pymoo/indicators/igd.py", "pymoo/indicators/igd_plus.py", "pymoo/indicators/kktpm.py", "pymoo/indicators/migd.py", "pymoo/indicators/rmetric.py", "pymoo/indicators/spacing.py", "pymoo/util/normalization.py"],
"C25": ["pymoo/decomposition/*.py", "pymoo/core/decomposition.py", "pymoo/functions/standard/decomposition.py", "pymoo/functions/compiled/decomposition.pyx", "pymoo/algorithms/moo/moead.py"],
"C26": ["pymoo/util/ref_dirs/*.py", "pymoo/util/reference_direction.py"],
"C27": ["pymoo/util/normalization.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/*.py"],
"C33": ["pymoo/parallelization/starmap.py", "pymoo/parallelization/joblib.py", "pymoo/parallelization/dask.py", "pymoo/parallelization/ray.py", "pymoo/core/problem.py"],
"C35": ["pymoo/constraints/as_penalty.py", "pymoo/constraints/as_obj.py", "pymoo/constraints/from_bounds.py", "pymoo/constraints/eps.py", "pymoo/constraints/adaptive.py", "pymoo/problems/zero_to_one.py", "pymoo/problems/multi_to_single.py", "pymoo/problems/static.py", "pymoo/problems/dyn.py", "pymoo/core/meta.py"],
}
