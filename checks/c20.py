"""C20: duplicate elimination removes exactly the duplicates."""
import numpy as np
from vlib import gen, obs, probs, runs, zoo

RULE = ("every duplicate elimination x populations of reals, integers, booleans, permutations, choices, NaN and infinite values with none, some and only duplicates x tolerances x comparison with any number of other populations "
        "(empty, overlapping, equal) x with and without comparison to itself: the result is compared, individual by individual, with the definition evaluated pair by pair; every mating of algorithm runs with duplicate elimination on is "
        "judged against the population it was handed, and the population after every iteration against itself; distinct states are different (elimination, population) pairs")
REQUIRED = ["eliminations", "pairs", "duplicates", "kept", "in_run", "offspring_in_run", "index_form"]
ASSUMPTIONS = ["tolerances are compared with the Euclidean distance; comparison functions are symmetric"]

KINDS = ["default", "func", "element", "elementfloat", "hash", "none", "mixed"]
ON = ["GA", "GA-steady", "NSGA2", "NSGA2-steady", "NSGA3", "UNSGA3", "RNSGA2", "RNSGA3", "AGEMOEA", "AGEMOEA2", "CTAEA", "SMSEMOA", "RVEA", "SPEA2", "DNSGA2", "NicheGA", "OmniOptimizer", "BRKGA", "MixedGA", "MixedNSGA2", "PINSGA2"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 120])
    q = tier == "quick"
    out = []
    for nm in KINDS:
        for _ in range(3 if q else 40):
            out.append(dict(kind="direct", name=nm, seed=int(rng.integers(1, 10 ** 9)), n=20))
    for nm in ON:
        specs = runs.specs_for(nm)
        for sp in [specs[int(rng.integers(len(specs)))] for _ in range(1 if q else 8)]:
            out.append(dict(kind="run", algo=nm, spec=sp, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=6 if q else 20, cap=20000))
    return out


def matrix(rng, n):
    d = int(rng.integers(1, 5))
    kind = str(rng.choice(["real", "grid", "bool", "int", "perm", "nan", "inf", "near", "big"]))
    if kind == "real":
        X = rng.random((n, d))
    elif kind == "grid":
        X = rng.integers(0, 3, (n, d)) / 4
    elif kind == "bool":
        X = rng.random((n, d)) < 0.5
    elif kind == "int":
        X = rng.integers(-2, 3, (n, d))
    elif kind == "perm":
        X = np.array([rng.permutation(d + 1) for _ in range(n)]).reshape(n, d + 1)
    elif kind == "nan":
        X = rng.integers(0, 2, (n, d)).astype(float)
        X[rng.random((n, d)) < 0.2] = np.nan
    elif kind == "inf":
        X = rng.integers(0, 2, (n, d)).astype(float)
        X[rng.random((n, d)) < 0.1] = np.inf
    elif kind == "near":
        X = rng.integers(0, 2, (n, d)) + rng.choice([0.0, 1e-17, 1e-12, 1e-4, 0.05], (n, d))
    else:
        X = rng.integers(0, 3, (n, d)) * 1e10 + rng.integers(0, 2, (n, d))
    return X, kind


def run_direct(case, mon):
    from pymoo.core import duplicate as D
    from pymoo.core.population import Population
    from checks.c16 import mixed_vars
    rng = np.random.default_rng(case["seed"])
    nm = case["name"]
    for t in range(case["n"]):
        n = int(rng.choice([0, 1, 2, 3, 6, 15, 40], p=[0.05, 0.1, 0.15, 0.15, 0.2, 0.2, 0.15]))
        sizes = [int(v) for v in rng.choice([0, 1, 3, 10], int(rng.integers(0, 4)))]
        N = n + sum(sizes)
        F = rng.integers(0, 3, (max(N, 1), 2)) / 2
        if nm == "mixed":
            vars = mixed_vars(rng, int(rng.integers(1, 4)))
            base = {k: v.sample(4, random_state=np.random.default_rng(int(rng.integers(1 << 30)))) for k, v in vars.items()}
            X = [{k: base[k][int(rng.integers(4))] for k in vars} for _ in range(N)]
            kind = "mixed"
        else:
            X, kind = matrix(rng, max(N, 1))
            if rng.random() < 0.4:
                X = X[rng.integers(0, max(1, N // 2), max(N, 1))]
            if nm == "hash":
                X = X + 0 if X.dtype != bool else X
        eps = float(rng.choice([0.0, 1e-16, 1e-9, 1e-3, 0.3]))

        def dist(a, b):
            with np.errstate(all="ignore"):
                return float(np.sqrt(((np.asarray(a, float) - np.asarray(b, float)) ** 2).sum()))

        if nm == "default":
            op = D.DefaultDuplicateElimination(epsilon=eps) if rng.random() < 0.7 else D.DefaultDuplicateElimination()
            e = op.epsilon
            same = lambda i, j: dist(X[i], X[j]) <= e
        elif nm == "func":
            op = D.DefaultDuplicateElimination(func=lambda pop: pop.get("F"), epsilon=eps)
            same = lambda i, j: dist(F[i], F[j]) <= eps
        elif nm == "element":
            class El(D.ElementwiseDuplicateElimination):
                def is_equal(self, a, b):
                    return bool(np.all(a.X == b.X))
            op = El() if rng.random() < 0.5 else D.ElementwiseDuplicateElimination(cmp_func=lambda a, b: np.all(a.X == b.X))
            same = lambda i, j: bool(np.all(X[i] == X[j]))
        elif nm == "elementfloat":
            e = float(rng.choice([1e-16, 0.3]))
            op = D.ElementwiseDuplicateElimination(cmp_func=lambda a, b: float(np.abs(a.X.astype(float) - b.X.astype(float)).sum()), epsilon=e)
            same = lambda i, j: float(np.abs(np.asarray(X[i], float) - np.asarray(X[j], float)).sum()) < e
        elif nm == "hash":
            op = D.HashDuplicateElimination()
            same = lambda i, j: [repr(v) for v in np.asarray(X[i]).tolist()] == [repr(v) for v in np.asarray(X[j]).tolist()]
        elif nm == "none":
            op, same = D.NoDuplicateElimination(), lambda i, j: False
        else:
            from pymoo.core.mixed import MixedVariableDuplicateElimination
            op, same = MixedVariableDuplicateElimination(), lambda i, j: all(X[i][k] == X[j][k] for k in X[i])

        def pop_of(I):
            if len(I) == 0:
                return Population.empty()
            return Population.new(X=[X[i] for i in I] if nm == "mixed" else np.array([X[i] for i in I]), F=F[I], mark=list(I))

        own = list(range(n))
        pop, others, at = pop_of(own), [], n
        for s in sizes:
            others.append(pop_of(list(range(at, at + s))))
            at += s
        if n > 2 and rng.random() < 0.15 and nm not in ("none",):
            pop = pop[np.r_[np.arange(n), [0]]]                # the same individual once more
            own = own + [0]
        itself = bool(rng.random() < 0.75)
        idx = bool(rng.random() < 0.5) and nm != "none"
        snap = [repr(i.X) for i in pop], [repr(i.X) for o in others for i in o]
        kw = {} if itself else dict(to_itself=False)
        if idx:
            mon.ev("index_form")
            got, keep, drop = op.do(pop, *others, return_indices=True, **kw)
        else:
            got, keep, drop = op.do(pop, *others, **kw), None, None
        mon.ev("eliminations")
        mon.state(nm, kind, repr([X[i] for i in own]), sizes)
        oth = list(range(n, at))
        D_ = np.array([[same(i, j) for j in own] for i in own]).reshape(len(own), len(own))
        O_ = np.array([[same(i, j) for j in oth] for i in own]).reshape(len(own), len(oth))
        mon.ev("pairs", D_.size + O_.size)
        dup = np.zeros(len(own), bool)
        if itself and nm != "none":
            for a in range(len(own)):
                dup[a] = D_[a, :a].any() if nm not in ("element", "elementfloat", "mixed") else D_[a, a + 1:].any()
        elif nm == "hash" and oth:
            # its set of seen solutions grows while it looks at a batch
            for a in range(len(own)):
                dup[a] = D_[a, :a].any()
        dup |= O_.any(axis=1) if O_.size else False
        want = np.where(~dup)[0]
        mon.ev("duplicates", int(dup.sum()))
        mon.ev("kept", len(want))
        ids = [own[a] for a in want]
        if nm == "elementfloat" or nm == "element" or nm == "mixed":
            # which of several equal solutions stays is not part of the definition
            good = len(got) == len(want) and not any(same(a.get("mark"), b.get("mark")) for x, a in enumerate(got) for y, b in enumerate(got) if x < y and itself) if kind not in ("near", "nan") else len(got) == len(want)
        else:
            good = len(got) == len(want) and all(g is pop[int(a)] for g, a in zip(got, want))
        mon.check(good, f"{nm}:result", lambda: f"{kind}, tolerance {eps}, itself={itself}: kept {[g.get('mark') for g in got]}, expected {ids} of {[X[i] for i in own][:8]} against {[X[i] for i in oth][:8]}")
        if len(got):
            P = [id(p) for p in pop]
            pos, ok = -1, True
            for g in got:
                try:
                    pos = P.index(id(g), pos + 1)
                except ValueError:
                    ok = False
            mon.check(ok, f"{nm}:order", "the kept individuals are not the given ones in their order")
        if idx:
            mon.check(len(keep) == len(got) and sorted(list(keep) + list(drop)) == list(range(len(own))) and all(pop[k] is g for k, g in zip(keep, got)), f"{nm}:indices", lambda: f"kept {list(keep)}, dropped {list(drop)} of {len(own)} although {len(got)} stay")
        mon.check(snap == ([repr(i.X) for i in pop], [repr(i.X) for o in others for i in o]), f"{nm}:changed", "duplicate elimination changed a solution")
        if t == 0:
            mon.note(elimination=nm, kind=kind, kept=len(got), of=len(own), against=len(oth))


def key(x):
    if isinstance(x, dict):
        return repr(sorted((k, str(v)) for k, v in x.items()))
    a = np.asarray(x)
    return a.tobytes() if a.dtype.kind != "f" else (a + 0.0).tobytes()


def run_run(case, mon):
    from pymoo.core.duplicate import NoDuplicateElimination
    from pymoo.core.infill import InfillCriterion
    prob, alg = obs.build(case)
    orig = InfillCriterion.do

    def do(self, problem, pop, n_offsprings, *a, **kw):
        before = [key(i.X) for i in pop if hasattr(i, "X")]
        off = orig(self, problem, pop, n_offsprings, *a, **kw)
        if isinstance(self.eliminate_duplicates, NoDuplicateElimination):
            return off
        mon.ev("in_run")
        K = [key(i.X) for i in off]
        mon.ev("offspring_in_run", len(K))
        mon.state(case["algo"], K)
        mon.check(len(set(K)) == len(K), f"run:{case['algo']}:batch", lambda: f"{len(K) - len(set(K))} of {len(K)} offspring occur twice in one batch")
        mon.check(not set(K) & set(before), f"run:{case['algo']}:known", lambda: f"{len(set(K) & set(before))} of {len(K)} offspring are already in the population")
        mon.check(len(off) <= n_offsprings, f"run:{case['algo']}:number", lambda: f"{len(off)} offspring, {n_offsprings} asked for")
        return off
    InfillCriterion.do = do
    try:
        obs.setup(prob, alg, case)
        for _ in obs.steps(alg):
            if case["algo"] in ("BRKGA", "CTAEA", "DNSGA2"):
                continue                                      # add solutions or merge archives by design
            K = [key(i.X) for i in alg.pop]
            mon.check(len(set(K)) == len(K), f"run:{case['algo']}:population", lambda: f"{len(K) - len(set(K))} solutions occur twice in a population of {len(K)}")
    finally:
        InfillCriterion.do = orig


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
