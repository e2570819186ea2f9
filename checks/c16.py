"""C16: mutation stays in the domain and changes only what it is allowed to."""
import copy, math
import numpy as np
from checks.c15 import binom_ok, bounds, ks, uniform_counts
from vlib import gen, probs, runs, zoo

RULE = ("every mutation x populations of reals (all kinds of bounds, values on the bounds, variables without freedom), booleans, permutations and mixed variables x probabilities (0, small, default, 1) x working on a copy or in place; "
        "every individual and variable is compared before and after; frequencies and step sizes are compared with the declared distributions on fixed seeds (alarm only below 1e-7); mutations inside algorithm runs are judged by the "
        "common rules; distinct states are different (operator, population) pairs")
REQUIRED = ["mutations", "individuals", "prob_zero", "fixed_variables", "distributions", "in_run", "copies", "changed"]
ASSUMPTIONS = ["individuals lie in the domain; real-valued mutations get finite bounds; permutations have at least two elements"]

NAMES = ["bitflip", "gauss", "pm", "pm-once", "inversion", "choice", "none", "bfm", "gm"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 116])
    q = tier == "quick"
    out = []
    for nm in NAMES:
        for _ in range(4 if q else 40):
            out.append(dict(kind="direct", name=nm, seed=int(rng.integers(1, 10 ** 9)), n=14))
    for nm in ["bitflip", "prob", "pm", "pm-edge", "pm-once", "gauss", "inversion", "choice"]:
        for _ in range(1 if q else 7):
            out.append(dict(kind="dist", name=nm, seed=int(rng.integers(1, 10 ** 9))))
    for name, spec in runs.combos(rng, 1 if q else 6):
        out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=5 if q else 15, cap=20000))
    return out


def mixed_vars(rng, d):
    from pymoo.core.variable import Binary, Choice, Integer, Real
    V = {}
    for j in range(d):
        V[f"v{j}"] = [Real(bounds=(-2.0, 3.5)), Integer(bounds=(-3, 4)), Binary(), Choice(options=["a", "bb", "ccc"]), Choice(options=[1, 2, 5])][int(rng.integers(5))]
    return V


def make(nm, **kw):
    from pymoo.operators.mutation import bitflip, gauss, inversion, nom, pm, rm
    return {"bitflip": bitflip.BitflipMutation, "bfm": bitflip.BFM, "gauss": gauss.GaussianMutation, "gm": gauss.GM, "pm": pm.PM, "pm-once": lambda **k: pm.PolynomialMutation(at_least_once=True, **k),
            "inversion": inversion.InversionMutation, "choice": rm.ChoiceRandomMutation, "none": lambda **k: nom.NoMutation()}[nm](**kw)


def in_domain(v, x):
    from pymoo.core.variable import Binary, Choice, Integer, Real
    if isinstance(v, Real):
        return isinstance(x, (float, np.floating)) and v.bounds[0] <= x <= v.bounds[1]
    if isinstance(v, Integer):
        return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) and v.bounds[0] <= x <= v.bounds[1]
    if isinstance(v, Binary):
        return isinstance(x, (bool, np.bool_))
    return any(x == o for o in v.options)


def run_direct(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    rng = np.random.default_rng(case["seed"])
    nm = case["name"]
    for _ in range(case["n"]):
        d, n = int(rng.choice([1, 2, 3, 5, 12])), int(rng.choice([1, 2, 3, 6, 20]))
        kw, pv = {}, None
        prob = float(rng.choice([0.0, 0.5, 1.0, 1.0]))
        if nm != "none":
            kw["prob"] = prob
        if nm not in ("none", "inversion") and rng.random() < 0.7:
            pv = float(rng.choice([0.0, 0.3, 1.0]))
            kw["prob_var"] = pv
        if nm in ("gauss", "gm"):
            kw["sigma"] = float(rng.choice([0.01, 0.1, 1.0]))
        if nm in ("pm", "pm-once"):
            kw["eta"] = float(rng.choice([1.0, 3.0, 20.0, 100.0]))
        op = make(nm, **kw)
        V, xl, xu = None, np.zeros(d), np.ones(d)
        if nm in ("bitflip", "bfm"):
            X = rng.random((n, d)) < rng.choice([0.1, 0.5, 1.0])
        elif nm == "inversion":
            d = max(d, 2)
            X = np.array([rng.permutation(d) for _ in range(n)])
            xl, xu = np.zeros(d), np.full(d, d - 1)
        elif nm == "choice":
            V = mixed_vars(rng, d)
            X = np.empty((n, d), object)
            for i in range(n):
                for j, v in enumerate(V.values()):
                    X[i, j] = v.sample(random_state=rng)
        else:
            xl, xu, _m = bounds(rng, d)
            X = xl + rng.random((n, d)) * (xu - xl)
            at = rng.random((n, d))
            X = np.clip(np.where(at < 0.2, xl, np.where(at > 0.8, xu, X)), xl, xu)
        p = Problem(vars=V, n_obj=1) if V else Problem(n_var=d, n_obj=1, xl=xl, xu=xu)
        pop = Population.new(X=X.copy())
        held = list(pop)
        before = copy.deepcopy([i.X for i in pop])
        inplace = bool(rng.random() < 0.4)
        res = op.do(p, pop, inplace=inplace, random_state=np.random.default_rng(int(rng.integers(1 << 30))))
        mon.ev("mutations")
        mon.ev("individuals", n)
        mon.state(nm, X, repr(kw))
        if not mon.check(len(res) == n, f"number:{nm}", lambda: f"{len(res)} individuals of {n}"):
            continue
        if inplace:
            mon.check(all(a is b for a, b in zip(res, held)), f"inplace:{nm}", f"{nm} in place returned other individuals")
        elif nm != "none":
            mon.ev("copies")
            mon.check(not ({id(a) for a in res} & {id(b) for b in held}) and all(np.array_equal(i.X, b) for i, b in zip(held, before)), f"copy:{nm}", f"{nm} asked to work on a copy changed the individuals it was given")
        mon.check(len({id(a) for a in res}) == n and all(not i.evaluated for i in res), f"unevaluated:{nm}", f"{nm}: result is not made of distinct unevaluated individuals")
        Q = [i.X for i in res]
        B = np.array(before, dtype=object if V else None)
        A = np.array(Q, dtype=object if V else None)
        if not mon.check(A.shape == B.shape, f"shape:{nm}", lambda: f"{A.shape} instead of {B.shape}"):
            continue
        ch = A != B
        mon.ev("changed", int(np.sum(ch)))
        if V:
            bad = [(j, A[i, j]) for i in range(n) for j, v in enumerate(V.values()) if not in_domain(v, A[i, j])]
            mon.check(not bad, f"domain:{nm}", lambda: f"{nm}: values {bad} not in the domain of {list(V.values())}")
        elif nm in ("bitflip", "bfm"):
            mon.check(A.dtype == bool, f"domain:{nm}", f"dtype {A.dtype}")
        elif nm == "inversion":
            ok = True
            for a, b in zip(A, B):
                w = np.where(a != b)[0]
                if len(w):
                    s, e = w[0], w[-1] + 1
                    ok &= np.array_equal(a[s:e], b[s:e][::-1])
            mon.check(ok and np.all(np.sort(A, axis=1) == np.arange(d)), f"domain:{nm}", lambda: f"{nm}: {B.tolist()} to {A.tolist()} is no reversal of one segment")
        else:
            mon.check(np.all(A >= xl) and np.all(A <= xu), f"domain:{nm}", lambda: f"{nm} {kw}: {B.tolist()} to {A.tolist()} outside {xl} {xu}")
            fx = xl == xu
            if fx.any():
                mon.ev("fixed_variables", int(fx.sum()))
                mon.check(not ch[:, fx].any(), f"fixed:{nm}", lambda: f"{nm}: a variable without freedom changed")
        if nm == "none" or prob == 0.0 or (pv == 0.0 and nm != "pm-once"):
            mon.ev("prob_zero")
            mon.check(not ch.any(), f"prob0:{nm}", lambda: f"{nm} {kw} changed {B.tolist()} to {A.tolist()}")
        elif prob == 1.0:
            if nm in ("bitflip", "bfm") and pv == 1.0:
                mon.check(ch.all(), f"prob1:{nm}", "bit flip with probability 1 left bits as they were")
            if nm == "inversion":
                mon.check(ch.any(axis=1).all(), f"prob1:{nm}", "inversion with probability 1 left a permutation as it was")
            if nm in ("pm", "gauss", "gm", "pm-once") and pv == 1.0 and kw.get("eta", 0) < 50:
                inner = (B > xl) & (B < xu)
                mon.check(np.mean(ch[inner]) > 0.9 if inner.any() else True, f"prob1:{nm}", lambda: f"{nm} with variable probability 1 changed {np.mean(ch[inner])} of the inner values")
            if nm == "pm-once":
                inner = ((B > xl) & (B < xu)).all(axis=1)
                mon.check(ch[inner].any(axis=1).all(), "once", lambda: f"at_least_once left {B[inner].tolist()} unchanged")


def run_dist(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from scipy.stats import norm
    rng = np.random.default_rng(case["seed"])
    rs = np.random.default_rng(int(rng.integers(1 << 40)))
    nm = case["name"]
    mon.ev("distributions")
    mon.state(nm, case["seed"])
    n = 4000

    def mut(op, X, xl=0.0, xu=1.0, V=None):
        pop = Population.new(X=X)
        return op.do(Problem(vars=V, n_obj=1) if V else Problem(n_var=X.shape[1], n_obj=1, xl=xl, xu=xu), pop, inplace=False, random_state=rs).get("X")

    def freq(op, X, want, key, what, **kw):
        Q = mut(op, X, **kw)
        for j in range(X.shape[1]):
            k = int(np.sum(Q[:, j] != X[:, j]))
            mon.check(binom_ok(k, n, want), key, lambda: f"{what}: variable {j} changed {k} of {n} times, expected a share of {want}")
        c = np.sum(Q != X, axis=1)
        return Q, c
    if nm == "bitflip":
        B = rng.random((n, 8)) < 0.5
        for pv in (None, 0.1, 0.7):
            w = 1 / 8 if pv is None else pv
            Q, c = freq(make("bitflip", prob_var=pv), B, w, "freq-bitflip", f"prob_var {pv}")
            mon.check(binom_ok(int(np.sum(c == 0)), n, (1 - w) ** 8), "independent", lambda: "bits do not flip independently")
        freq(make("bitflip"), B[:, :1], 0.5, "freq-bitflip", "one variable")
    elif nm == "prob":
        for p in (0.2, 0.9):
            for k, X, kw in (("bitflip", rng.random((n, 6)) < 0.5, {"prob_var": 1.0}), ("pm", rng.random((n, 6)), {"prob_var": 1.0}), ("gauss", rng.random((n, 6)), {"prob_var": 1.0}),
                             ("inversion", np.array([rng.permutation(6) for _ in range(n)]), {})):
                Q = mut(make(k, prob=p, **kw), X)
                m = int(np.sum((Q != X).any(axis=1)))
                mon.check(binom_ok(m, n, p), "prob", lambda: f"{k} with probability {p} changed {m} of {n} individuals")
    elif nm == "pm":
        for eta in (3.0, 20.0):
            for pv in (0.2, 0.8):
                X = np.full((n, 4), 0.5)
                Q, c = freq(make("pm", prob=1.0, prob_var=pv, eta=eta), X, pv, "freq-pm", f"eta {eta}")
            xl, xu, x = np.array([-10.0, 0.0, 100.0]), np.array([5.0, 1.0, 1e4]), np.array([-3.0, 0.9, 120.0])
            Q = mut(make("pm", prob=1.0, prob_var=1.0, eta=eta), np.tile(x, (n, 1)), xl, xu)
            for j in range(3):
                check_pm(mon, Q[:, j], x[j], xl[j], xu[j], eta)
    elif nm == "pm-edge":
        for eta in (2.0, 15.0):
            for x in (0.0, 0.03, 0.97, 1.0):
                check_pm(mon, mut(make("pm", prob=1.0, prob_var=1.0, eta=eta), np.full((n, 1), x)).ravel(), x, 0.0, 1.0, eta)
    elif nm == "pm-once":
        Q = mut(make("pm-once", prob=1.0, prob_var=0.01), np.full((n, 5), 0.4))
        c = (Q != 0.4)
        mon.check(c.any(axis=1).all(), "once", "an individual was left unchanged")
        for j in range(5):
            mon.check(binom_ok(int(c[:, j].sum()), n, 0.01 + 0.99 ** 5 / 5), "freq-once", lambda: f"variable {j} changed {c[:, j].sum()} of {n} times")
    elif nm == "gauss":
        for s in (0.01, 0.1):
            freq(make("gauss", prob=1.0, prob_var=0.3, sigma=s), np.full((n, 4), 0.5), 0.3, "freq-gauss", "gauss")
            xl, xu = np.array([-900.0, 0.0, 5.0]), np.array([1100.0, 1.0, 5.0 + 2.0 ** -10])
            Q = mut(make("gauss", prob=1.0, prob_var=1.0, sigma=s), np.tile((xl + xu) / 2, (n, 1)), xl, xu)
            for j in range(3):
                steps = (Q[:, j] - (xl[j] + xu[j]) / 2) / (s * (xu[j] - xl[j]))
                pv, D = ks(norm.cdf(steps))
                mon.check(pv > 1e-7, "gauss", lambda: f"steps of variable {j} with sigma {s} are not normal with deviation {s} of its range (std {steps.std()}, D={D:.3f})")
    elif nm == "inversion":
        d = 6
        X = np.tile(np.arange(d), (n, 1))
        Q = mut(make("inversion", prob=1.0), X)
        vals, counts = np.unique(Q, axis=0, return_counts=True)
        mon.check(len(vals) == d * (d - 1) // 2, "segments", lambda: f"{len(vals)} different segments reversed in {n} mutations")
        uniform_counts(mon, "segments-uniform", counts, "reversed segments")
    elif nm == "choice":
        from pymoo.core.variable import Choice, Integer
        V = {"a": Choice(options=["x", "y", "zz"]), "b": Integer(bounds=(0, 4))}
        X = np.empty((n, 2), object)
        X[:, 0], X[:, 1] = "x", 0
        Q = mut(make("choice", prob=1.0, prob_var=1.0), X, V=V)
        uniform_counts(mon, "choice-uniform", [np.sum(Q[:, 0] == o) for o in ("x", "y", "zz")], "options")
        uniform_counts(mon, "choice-uniform", [np.sum(Q[:, 1] == o) for o in range(5)], "integers")
        Q = mut(make("choice", prob=1.0, prob_var=0.3), X, V=V)
        mon.check(binom_ok(int(np.sum(Q[:, 0] != "x")), n, 0.3 * 2 / 3), "freq-choice", lambda: f"{np.sum(Q[:, 0] != 'x')} of {n} changed")


def check_pm(mon, y, x, xl, xu, eta):
    """Polynomial mutation with bounds: invert the distribution function."""
    d = (y - x) / (xu - xl)
    d1, d2 = (x - xl) / (xu - xl), (xu - x) / (xu - xl)
    a, b = (1 - d1) ** (eta + 1), (1 - d2) ** (eta + 1)
    with np.errstate(all="ignore"):
        lo = ((1 + d) ** (eta + 1) - a) / (2 * (1 - a)) if a < 1 else np.zeros(len(d))
        hi = 1 - ((1 - d) ** (eta + 1) - b) / (2 * (1 - b)) if b < 1 else np.ones(len(d))
    u = np.where(d < 0, lo, hi)
    if d1 == 0 or d2 == 0:       # half of the steps stay where they are
        stay = int(np.sum(d == 0))
        mon.check(binom_ok(stay, len(d), 0.5) or stay < 5, "pm-stay", lambda: f"on the bound {stay} of {len(d)} stay")
        u = (u[d != 0] * 2) if d2 == 0 else (u[d != 0] * 2 - 1)
        if len(u) < 100:
            return
    p, D = ks(u)
    mon.check(p > 1e-7, "pm-steps", lambda: f"steps from {x} in [{xl}, {xu}] with eta {eta} do not follow the bounded polynomial distribution (D={D:.3f}, p={p:.2g})")


def run_run(case, mon):
    from pymoo.core.mutation import Mutation
    from vlib import obs
    import pymoo.operators.mutation.bitflip, pymoo.operators.mutation.nom, pymoo.operators.mutation.rm
    prob, alg = obs.build(case)
    classes = set()

    def sub(c):
        for s in c.__subclasses__():
            classes.add(s)
            sub(s)
    sub(Mutation)
    orig = {}

    def wrap(c, f):
        def do(self, problem, pop, *args, **kw):
            held, n = list(pop), len(pop)
            before = copy.deepcopy([i.X for i in pop])
            evaluated = [set(i.evaluated) for i in pop]
            res = f(self, problem, pop, *args, **kw)
            mon.ev("in_run")
            nm = type(self).__name__
            mon.check(len(res) == n, f"run-number:{nm}", lambda: f"{len(res)} of {n} individuals")
            inplace = kw.get("inplace", args[0] if args else True)
            if not inplace:
                mon.check(all(same(i.X, b) for i, b in zip(held, before)), f"run-copy:{nm}", f"{nm} on a copy changed its input during a run of {case['algo']}")
            else:
                for i, b, e in zip(held, before, evaluated):
                    if e and not mon.check(same(i.X, b) or not i.evaluated, f"run-evaluated:{nm}", lambda: f"{nm} changed the variables of an evaluated solution in place during a run of {case['algo']}"):
                        break
            for o, b in zip(res, before):
                if isinstance(o.X, np.ndarray) and o.X.dtype.kind == "f" and problem.has_bounds() and getattr(problem, "vars", None) is None and np.all(b >= problem.xl) and np.all(b <= problem.xu):
                    if not mon.check(np.all(o.X >= problem.xl) and np.all(o.X <= problem.xu), f"run-bounds:{nm}", lambda: f"{nm} left the bounds: {o.X} during a run of {case['algo']}"):
                        break
            mon.state(nm, case["algo"], mon.counts["in_run"])
            return res
        return do
    for c in classes | {Mutation}:
        if "do" in c.__dict__:
            orig[c] = c.__dict__["do"]
            c.do = wrap(c, orig[c])
    try:
        obs.setup(prob, alg, case)
        for _ in obs.steps(alg):
            pass
    finally:
        for c, f in orig.items():
            c.do = f


def same(a, b):
    return a == b if isinstance(a, dict) else np.array_equal(a, b)


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
