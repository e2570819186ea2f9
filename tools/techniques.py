"""The deciding method of every check (used by gen_manifest.py and gen_design.py): what watches, and the oracle it compares with."""
T = {
"C01": ("online monitor on live runs: every exposed solution is re-evaluated by an independent copy of the objective function", "a solution whose values belong to other variables, at any iteration, in population, offspring, optimum, archive, history or result"),
"C02": ("online monitor on live runs: dominance and feasibility of the reported optimum recomputed from scratch after every iteration", "quadratic dominance comparison, least-violation comparison and membership against population and result"),
"C03": ("online trace checker: running best over the recorded log of evaluations against the reported optimum", "prefix minimum (feasible first) over the recorded evaluations; ideal point of the first front for multi-objective elitists"),
"C04": ("monitor inside the problem: each design vector is judged at the moment of its evaluation", "the declared bounds, exactly; integrality and options for typed variables"),
"C05": ("online counter checker: evaluator count against the log the problem itself writes", "number of rows the problem received; which attributes were missing before the call"),
"C06": ("online monitor on live runs plus scripted histories: an independent reference of every stop criterion runs beside the library's", "reference implementations of the criteria written from their definitions; a virtual clock for time limits"),
"C07": ("record and compare: two executions with one seed (same process, other process, other hash seed, other global state), event logs compared bit by bit", "equality of logs; the state of the global generators before and after"),
"C08": ("record and compare: one configuration driven through every interface, event logs compared bit by bit", "the log of the plain minimize call"),
"C09": ("fault injection (stop, copy or store, resume, interleave) with event logs compared bit by bit to an uninterrupted run", "the log of the uninterrupted or solitary run"),
"C10": ("offline trace checker over the callback, history, display and evaluation event logs of one run", "a run-local story: iteration k exactly once, in order, with the state it had"),
"C11": ("runtime oracle on exhaustive small and generated inputs: fronts recomputed by quadratic peeling", "definition of dominance, evaluated pair by pair"),
"C12": ("runtime oracle on generated fronts: every measure recomputed by definition, plus metamorphic relations", "direct implementations of the definitions; permutation, shift and scale relations"),
"C13": ("runtime oracle on generated populations and hooks in live runs: survivors judged by the declared order", "feasible first, fronts by peeling, criterion of the split front recomputed"),
"C14": ("model-based runtime monitor: random histories of writes, copies and resets against a recomputed violation", "violation formula written from the documentation, evaluated on the stored constraint values"),
"C15": ("runtime oracle on generated matings and hooks in live runs: each offspring judged against its own parents", "domain, copy discipline, positional or set inheritance, exact distributions on fixed seeds"),
"C16": ("runtime oracle on generated individuals and hooks in live runs: each individual compared before and after", "domain, probabilities, step sizes, copy discipline, exact distributions on fixed seeds"),
"C17": ("runtime oracle on generated samplings: shape, domain and strata of every sample, replayed designs", "stratum counting, replayed draws, exact tests of uniformity on fixed seeds"),
"C18": ("runtime oracle on generated tournaments and a recorder of contestants in live runs", "documented order of comparison written down separately; exact counts; fairness on fixed seeds"),
"C19": ("runtime oracle on generated vectors and a monitor of the evaluated vectors in live runs", "the formula of each repair; idempotence; identity on valid points"),
"C20": ("runtime oracle on generated populations and monitors in live runs", "the definition of a duplicate evaluated pair by pair"),
"C21": ("model-based runtime monitor: random histories of operations next to a list-of-records model; aliasing checks in live runs", "the model; shared memory between individuals"),
"C22": ("AddressSanitizer, UndefinedBehaviorSanitizer, valgrind, bounds-checked memory views and checked containers on the compiled kernels rebuilt from source", "sanitizer reports; equality of results under different fill patterns of freed memory; memory growth"),
"C23": ("differential runtime monitor: each compiled function against its Python counterpart on the same inputs", "the Python implementation; both against reference values where they are allowed to differ"),
"C24": ("runtime oracle on generated fronts: every indicator recomputed by definition, plus metamorphic relations", "direct implementations of the definitions (hypervolume by inclusion of boxes)"),
"C25": ("runtime oracle on generated objective vectors: every scalarising function recomputed, plus order relations", "formula by formula references; monotonicity and permutation relations"),
"C26": ("runtime oracle on generated requests: counts, simplex membership, distinctness and spread of every set of directions", "combinatorial count and lattice of the method; brute-force distances"),
"C27": ("runtime oracle and model-based histories: round trips, ranges and running estimates recomputed", "formula by formula references; the history of all points seen so far"),
"C28": ("runtime oracle on generated and shipped problems: batch against row-by-row evaluation, declared against delivered shapes", "each row evaluated alone; the same row elsewhere in another batch; copies of the inputs"),
"C29": ("runtime oracle on the shipped problems: declared fronts and optima against evaluations and dense searches of the problem itself", "evaluation of declared sets, feasibility, mutual non-domination, attempts to dominate the front"),
"C30": ("differential runtime monitor: every gradient against independent numerical or hand-written derivatives", "hand-written derivatives and high-order differences of the same function"),
"C31": ("model-based runtime monitor: random streams of offers against a brute-force archive; archives of live runs", "non-dominated set of everything offered, recomputed; documented rules of truncation and duplicates"),
"C32": ("runtime oracle on generated mixed spaces and monitors in live runs: each variable judged by its own type", "declared type, range and options of every variable"),
"C33": ("event-log checker (exactly once, in place) over parallel runners, with injected delays, failures and adversarial schedules", "the rows asked for; the log written by the workers; the sequential run"),
"C34": ("runtime oracle on generated fronts: every choice compared with a brute-force evaluation of the criterion", "brute-force criterion; permutation, shift and scale relations"),
"C35": ("model-based runtime monitor: random stacks of wrappers against a composed reference model", "formula of every wrapper composed in the same order; the wrapped problem before and after"),
"C36": ("model-based runtime monitor: parameters written, read back and observed in the behaviour of runs", "model of the object graph; logs of runs configured in another way"),
"C37": ("model-based runtime monitor: the log of all evaluations with their time is replayed against the observed populations of each iteration", "the dynamic problem evaluated by the check at each time; repeated runs"),
"C38": ("runtime monitor of the produced figures: the artists on all axes are read back after each drawing", "the definition of each plot evaluated on copies of the data"),
"C39": ("runtime monitor of value-function fits, preference matrices and interactive runs with scripted decision makers", "the formulas of the functions and of the relation, the linear program of the fit, the answers given"),
"C40": ("runtime monitor of the printed text, the records and the progress bar of runs", "the values recomputed from the exposed solutions and the known front; the same run without display"),
"C41": ("differential runtime monitor: every evaluated design of the shipped problems against the definition written out for a single design", "the published definitions in scalar arithmetic (vlib/published.py), with the variation by rounding measured"),
"C42": ("runtime monitor replaying the log of evaluations against the published rule of each search, state monitors after every iteration, hook on what the strategies are told", "reference rules written for one point at a time, driven by the logged points; functions with known minimisers and derivatives; constrained quadratics with known solutions"),
"C43": ("online assertions comparing every result of the utilities with its definition; fairness and repetition monitors for the random ones", "definitions written with loops over single entries; counts against binomial bounds on fixed seeds"),
"C44": ("runtime monitor around ask and tell: state before, solutions asked for and state after every iteration against the rule of the algorithm; direct monitors on the equations", "the published update rules: enumeration of all parents that explain a trial, ranges of random coefficients, exact values where coefficients are fixed, one-to-one comparisons, matching of subproblems; moments on fixed seeds"),
}
