"""C17: sampling covers exactly the search space."""
import numpy as np
from checks.c15 import binom_ok, bounds, ks, uniform_counts
from vlib import gen, probs, runs, zoo

RULE = ("every sampling operator x bounds of every kind (none, degenerate, negative, tiny, huge, different per variable) x sample counts from one on: shape, type and bounds of every sample; a Latin hypercube design is judged "
        "stratum by stratum and variable by variable, and against a replay of the draws that selects the best-scored design; uniformity is judged with exact tests on fixed seeds (alarm only below 1e-7); "
        "initialisation from arrays, populations and operators with repair and duplicate elimination is judged by definition; the initial population of every algorithm run is judged against its bounds; "
        "distinct states are different (operator, bounds, count) samples")
REQUIRED = ["samplings", "samples", "strata", "distributions", "initializations", "replayed_designs", "degenerate_variables", "first_populations"]
ASSUMPTIONS = ["bounds are finite with xl <= xu; a design scored by a criterion has at least two samples"]

NAMES = ["float", "int", "bin", "perm", "random", "lhs", "lhsmid", "lhscorr", "lhsnone", "lhsfun"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 117])
    q = tier == "quick"
    out = []
    for nm in NAMES:
        for _ in range(3 if q else 40):
            out.append(dict(kind="direct", name=nm, seed=int(rng.integers(1, 10 ** 9)), n=15))
    for nm in ["float", "int", "bin", "perm", "lhs", "lhs-strata", "random"]:
        for _ in range(1 if q else 8):
            out.append(dict(kind="dist", name=nm, seed=int(rng.integers(1, 10 ** 9))))
    for _ in range(4 if q else 60):
        out.append(dict(kind="init", seed=int(rng.integers(1, 10 ** 9)), n=12))
    for name, spec in runs.combos(rng, 1 if q else 6):
        out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=1, cap=20000))
    return out


def criterion(X):
    return -float(np.abs(X - 0.37).min())


def make(nm, rng):
    from pymoo.operators.sampling import lhs, rnd
    it = int(rng.choice([1, 2, 5, 20]))
    return {"float": rnd.FloatRandomSampling, "int": rnd.IntegerRandomSampling, "bin": rnd.BinaryRandomSampling, "perm": rnd.PermutationRandomSampling, "random": rnd.FloatRandomSampling,
            "lhs": (lhs.LHS if rng.random() < 0.5 else lhs.LatinHypercubeSampling), "lhsmid": lambda: lhs.LHS(smooth=False, iterations=it),
            "lhscorr": lambda: lhs.LHS(criterion=lhs.criterion_corr, iterations=it), "lhsnone": lambda: lhs.LHS(criterion=None), "lhsfun": lambda: lhs.LHS(criterion=criterion, iterations=it)}[nm]()


def strata(mon, X, xl, xu, mid, key):
    """Every variable: exactly one point in each of the n equal slices of its range."""
    n = len(X)
    for j in range(X.shape[1]):
        w = xu[j] - xl[j]
        if not w > 0:
            mon.ev("degenerate_variables")
            mon.check(np.all(X[:, j] == xl[j]), key + ":degenerate", lambda: f"variable {j} has no freedom but takes {X[:5, j]}")
            continue
        u = np.sort((X[:, j] - xl[j]) / w * n)
        tol = 1e-9 * n + 16 * np.finfo(float).eps * (abs(xl[j]) + abs(xu[j])) / w * n
        k = np.arange(n)
        if tol < 0.2:
            mon.ev("strata", n)
            mon.check(np.all(u >= k - tol) and np.all(u <= k + 1 + tol), key + ":strata", lambda: f"variable {j}: some of {n} slices do not hold exactly one point: {u[:12]}")
            if mid:
                mon.check(np.all(np.abs(u - k - 0.5) <= tol), key + ":midpoints", lambda: f"variable {j}: points are not in the middle of their slices: {u[:12]}")


def run_direct(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.operators.sampling import lhs, rnd
    rng = np.random.default_rng(case["seed"])
    nm = case["name"]
    for t in range(case["n"]):
        d = int(rng.choice([1, 2, 3, 5, 10]))
        n = int(rng.choice([1, 2, 3, 5, 10, 33]))
        if nm.startswith("lhs") and nm != "lhsnone":
            n = max(n, 2)
        if nm in ("int",):
            xl = rng.integers(-6, 3, d)
            xu = xl + rng.integers(0, 7, d)
            if rng.random() < 0.3:
                xl, xu = xl.astype(float), xu.astype(float)
        elif nm in ("bin", "perm"):
            xl, xu = (None, None) if rng.random() < 0.5 else (np.zeros(d), np.ones(d) if nm == "bin" else np.full(d, d - 1.0))
        elif nm in ("float", "random") and rng.random() < 0.25:
            xl = xu = None
        else:
            xl, xu, _ = bounds(rng, d)
        problem = Problem(n_var=d, n_obj=1, xl=xl, xu=xu)
        op = make(nm, rng)
        s = int(rng.integers(1 << 40))
        if nm == "random":
            X = rnd.random(problem, n, random_state=np.random.default_rng(s))
            pop = Population.new(X=X)
        else:
            before = None if xl is None else (problem.xl.copy(), problem.xu.copy())
            pop = op(problem, n, random_state=np.random.default_rng(s)) if rng.random() < 0.5 else op.do(problem, n, random_state=np.random.default_rng(s))
            mon.check(before is None or np.array_equal(before[0], problem.xl) and np.array_equal(before[1], problem.xu), "problem-changed", "sampling changed the bounds of the problem")
        mon.ev("samplings")
        mon.ev("samples", n)
        if not mon.check(isinstance(pop, Population) and len(pop) == n, f"{nm}:number", lambda: f"{n} samples asked for, got {len(pop)}"):
            continue
        X = pop.get("X")
        mon.state(nm, X)
        if not mon.check(X.shape == (n, d), f"{nm}:shape", lambda: f"shape {X.shape} for {n} samples of {d} variables"):
            continue
        mon.check(len({id(i) for i in pop}) == n and all(not i.evaluated for i in pop), f"{nm}:new", "samples are not distinct unevaluated individuals")
        again = make(nm, np.random.default_rng(0)) if nm in ("float", "int", "bin", "perm") else None
        if again is not None:
            mon.eq(again(problem, n, random_state=np.random.default_rng(s)).get("X"), X, f"{nm}:reproducible", "same random state, other samples")
        if nm == "perm":
            mon.check(X.dtype.kind in "iu" and np.array_equal(np.sort(X, axis=1), np.tile(np.arange(d), (n, 1))), "perm:permutation", lambda: f"not permutations of 0..{d - 1}: {X[:3]}")
            continue
        if nm == "bin":
            mon.check(X.dtype == bool, "bin:type", lambda: f"samples of type {X.dtype}")
            continue
        if nm == "int":
            mon.check(X.dtype.kind in "iu", "int:type", lambda: f"samples of type {X.dtype}")
        else:
            mon.check(X.dtype.kind == "f" and np.all(np.isfinite(X)), f"{nm}:type", lambda: f"samples of type {X.dtype}, finite: {np.isfinite(X).all()}")
        lo, hi = (np.zeros(d), np.ones(d)) if xl is None else (np.asarray(xl, float), np.asarray(xu, float))
        mon.check(np.all(X >= lo) and np.all(X <= hi), f"{nm}:bounds", lambda: f"outside [{lo}, {hi}] by {max(np.max(lo - X), np.max(X - hi))}")
        fixed = lo == hi
        mon.ev("degenerate_variables", int(fixed.sum()))
        mon.check(np.all(X[:, fixed] == lo[fixed]), f"{nm}:fixed", "a variable without freedom is sampled elsewhere")
        if nm.startswith("lhs"):
            strata(mon, X, lo, hi, nm == "lhsmid", nm)
            # replay the draws: the best-scored of them is what is returned
            rs = np.random.default_rng(s)
            k = 1 if op.criterion is None else max(op.iterations, 1)
            mid = not op.smooth
            cand = []
            for _ in range(k):
                P = rs.random((n, d))
                U = (P.argsort(axis=0) + 1 - (0.5 if mid else rs.random((n, d)))) / n
                cand.append(U)
            sc = [0.0 if op.criterion is None else score(op.criterion, U) for U in cand]
            if np.all(np.isfinite(sc)):
                mon.ev("replayed_designs")
                got = [v for U, v in zip(cand, sc) if np.allclose(lo + U * (hi - lo), X, rtol=1e-12, atol=0)]
                if got:
                    g = max(got)
                    mon.check(g >= max(sc) - 1e-12 * (1 + abs(max(sc))), f"{nm}:best-scored", lambda: f"score {g} returned, {max(sc)} was drawn")
        if t == 0:
            mon.note(operator=nm, X=X[:3])


def score(c, U):
    from pymoo.operators.sampling import lhs
    n, d = U.shape
    if c is lhs.criterion_maxmin:
        D = np.sqrt(((U[:, None] - U[None]) ** 2).sum(-1))
        return float(D[~np.eye(n, dtype=bool)].min())
    if c is lhs.criterion_corr:
        if d == 1:
            return 0.0
        M = np.atleast_2d(np.corrcoef(U.T))
        return -float(sum(M[a, b] ** 2 for a in range(d) for b in range(a)))
    return float(c(U))


def run_dist(case, mon):
    from pymoo.core.problem import Problem
    from pymoo.operators.sampling import lhs, rnd
    rng = np.random.default_rng(case["seed"])
    rs = np.random.default_rng(int(rng.integers(1 << 40)))
    nm = case["name"]
    mon.ev("distributions")
    mon.state("dist", nm, case["seed"])
    if nm in ("float", "random"):
        xl, xu = np.array([0.0, -3.0, 10.0]), np.array([1.0, 5.0, 1e4])
        p = Problem(n_var=3, n_obj=1, xl=xl, xu=xu)
        X = rnd.FloatRandomSampling()(p, 4000, random_state=rs).get("X") if nm == "float" else rnd.random(p, 4000, random_state=rs)
        for j in range(3):
            pv, D = ks((X[:, j] - xl[j]) / (xu[j] - xl[j]))
            mon.check(pv > 1e-7, f"{nm}:uniform", lambda: f"variable {j} is not uniform between its bounds (distance {D:.3f})")
        r = abs(np.corrcoef(X.T)[np.triu_indices(3, 1)]).max()
        mon.check(r < 0.1, f"{nm}:independent", lambda: f"variables are correlated: {r}")
    elif nm == "int":
        xl, xu = np.array([0, -3, 7]), np.array([1, 3, 7])
        X = rnd.IntegerRandomSampling()(Problem(n_var=3, n_obj=1, xl=xl, xu=xu), 6000, random_state=rs).get("X")
        for j in range(3):
            c = [int((X[:, j] == v).sum()) for v in range(xl[j], xu[j] + 1)]
            mon.check(sum(c) == 6000 and min(c) > 0, "int:reach", lambda: f"values between {xl[j]} and {xu[j]} occur {c}")
            if len(c) > 1:
                uniform_counts(mon, "int:uniform", c, f"integers {xl[j]}..{xu[j]}")
    elif nm == "bin":
        X = rnd.BinaryRandomSampling()(Problem(n_var=5, n_obj=1), 2000, random_state=rs).get("X")
        for j in range(5):
            mon.check(binom_ok(int(X[:, j].sum()), 2000, 0.5), "bin:half", lambda: f"{int(X[:, j].sum())} of 2000 are true")
        uniform_counts(mon, "bin:joint", np.bincount((X * 2 ** np.arange(5)).sum(axis=1), minlength=32), "bit patterns")
    elif nm == "perm":
        X = rnd.PermutationRandomSampling()(Problem(n_var=4, n_obj=1), 4800, random_state=rs).get("X")
        u, c = np.unique(X, axis=0, return_counts=True)
        mon.check(len(u) == 24, "perm:all", lambda: f"only {len(u)} of 24 permutations of four are produced")
        uniform_counts(mon, "perm:uniform", c, "permutations")
    else:
        xl, xu = np.array([-1.0, 2.0]), np.array([3.0, 2.5])
        p = Problem(n_var=2, n_obj=1, xl=xl, xu=xu)
        op = lhs.LHS(criterion=None)
        U = np.array([(op(p, 5, random_state=rs).get("X") - xl) / (xu - xl) for _ in range(1200)])
        if nm == "lhs":
            for j in range(2):
                for i in range(5):
                    pv, D = ks(U[:, i, j])
                    mon.check(pv > 1e-7, "lhs:uniform", lambda: f"sample {i}, variable {j} is not uniform over the designs (distance {D:.3f})")
                pv, D = ks((U[:, :, j] * 5 % 1).ravel())
                mon.check(pv > 1e-7, "lhs:within", lambda: f"variable {j}: points are not uniform within their slices (distance {D:.3f})")
        else:
            cell = np.minimum((U * 5).astype(int), 4)
            for i in range(5):
                uniform_counts(mon, "lhs:pairs", np.bincount(cell[:, i, 0] * 5 + cell[:, i, 1], minlength=25), f"cells of sample {i}")


def run_init(case, mon):
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.core.individual import Individual
    from pymoo.core.initialization import Initialization
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.repair import Repair
    from pymoo.operators.sampling import lhs, rnd

    class Half(Repair):
        def _do(self, problem, X, **kwargs):
            mon.ev("repaired", len(X))
            return np.round(X * 2) / 2

    rng = np.random.default_rng(case["seed"])
    for t in range(case["n"]):
        d, n = int(rng.integers(1, 5)), int(rng.choice([1, 2, 5, 20]))
        problem = Problem(n_var=d, n_obj=1, xl=np.zeros(d), xu=np.full(d, 2.0))
        how = str(rng.choice(["op", "array", "row", "pop", "mixed"]))
        X = rng.random((n, d)) * 2
        if rng.random() < 0.4:
            X = X[rng.integers(0, max(1, n // 2), n)]
        done = np.zeros(n, bool)
        if how == "op":
            sampling = rnd.FloatRandomSampling() if rng.random() < 0.5 or n < 2 else lhs.LHS()
        elif how == "array":
            sampling = X.copy()
        elif how == "row":
            X = X[:1]
            sampling, n, done = X[0].copy(), 1, done[:1]
        else:
            sampling = Population.new(X=X.copy())
            if how == "mixed":
                done = rng.random(n) < 0.5
                for i in np.where(done)[0]:
                    sampling[i].F, sampling[i].evaluated = np.array([float(i)]), {"F"}
        rep = Half() if rng.random() < 0.6 else None
        dup = DefaultDuplicateElimination() if rng.random() < 0.6 else None
        objs = list(sampling) if isinstance(sampling, Population) else None
        s = int(rng.integers(1 << 40))
        pop = Initialization(sampling, repair=rep, eliminate_duplicates=dup).do(problem, n, random_state=np.random.default_rng(s))
        mon.ev("initializations")
        if how == "op":
            X = sampling(problem, n, random_state=np.random.default_rng(s)).get("X")
        elif how in ("array", "row"):
            mon.check(np.array_equal(np.atleast_2d(sampling), X), "init:input", "the array given as sampling was changed")
        Y = np.where(done[:, None], X, np.round(X * 2) / 2) if rep is not None else X
        keep = [i for i in range(n) if dup is None or not any(np.sqrt(((Y[i] - Y[j]) ** 2).sum()) <= 1e-16 for j in range(i))]
        mon.state(how, Y, rep is None, dup is None)
        got = pop.get("X") if len(pop) else np.zeros((0, d))
        mon.eq(got, Y[keep], f"init:{how}:values", f"repair={rep is not None} duplicates eliminated={dup is not None}")
        if objs is not None and len(pop) == len(keep):
            mon.check(all(pop[a].F is objs[i].F or np.array_equal(pop[a].F, objs[i].F) for a, i in enumerate(keep)), "init:evaluated", "an evaluated individual lost its values")
            mon.check(all(("F" in pop[a].evaluated) == bool(done[i]) for a, i in enumerate(keep)), "init:flags", "evaluation flags of given individuals changed")


def run_run(case, mon):
    """What an algorithm evaluates first lies in the search space, is as large as asked, and has the right type."""
    from pymoo.core.sampling import Sampling
    from vlib import obs
    prob, alg = obs.build(case)
    seen = []
    classes = set()

    def sub(c):
        for s in c.__subclasses__():
            classes.add(s)
            sub(s)
    sub(Sampling)
    orig = {}

    def wrap(f):
        def do(self, problem, n_samples, *a, **kw):
            pop = f(self, problem, n_samples, *a, **kw)
            nm = type(self).__name__
            mon.ev("samplings")
            mon.check(len(pop) == n_samples, f"run-number:{nm}", lambda: f"{nm}: {len(pop)} samples, {n_samples} asked for, during {case['algo']}")
            seen.append(pop)
            if getattr(problem, "vars", None) is None and len(pop) and isinstance(pop[0].X, np.ndarray) and pop[0].X.dtype.kind in "fiu" and problem.has_bounds() and "Permutation" not in nm:
                X = pop.get("X")
                mon.check(np.all(X >= problem.xl) and np.all(X <= problem.xu), f"run-bounds:{nm}", lambda: f"{nm} left the bounds during {case['algo']}")
                mon.state(case["algo"], X)
            return pop
        return do
    for c in classes | {Sampling}:
        if "do" in c.__dict__:
            orig[c] = c.__dict__["do"]
            c.do = wrap(orig[c])
    try:
        obs.setup(prob, alg, case)
        for _ in obs.steps(alg, 1):
            pass
    finally:
        for c, f in orig.items():
            c.do = f
    if seen:
        mon.ev("first_populations")


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
