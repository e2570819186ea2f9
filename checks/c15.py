"""C15: crossover produces valid offspring and leaves the parents untouched."""
import copy, math
import numpy as np
from vlib import gen, probs, runs, zoo

RULE = ("every crossover x populations of reals (bounds of every kind, parents on the bounds, equal parents), booleans, integers and permutations x operator settings x both calling forms (parent indices or lists of individuals); "
        "offspring are judged position by position against their own parents; the frequencies and spreads promised by the settings are compared with exact distributions on fixed seeds (alarm only below 1e-7); "
        "every crossover inside algorithm runs is judged by the common rules; distinct states are different (operator, parents) pairs")
REQUIRED = ["crossovers", "offspring", "identical_parents", "prob_zero", "distributions", "in_run", "boundary_parents"]
ASSUMPTIONS = ["parents lie in the domain; real-valued operators get finite bounds; permutations have at least two elements"]

POINT = ["spx", "2px", "4px", "ux", "hux", "exp", "binx", "bin1"]
REAL = ["sbx", "sbx1", "pcx", "dex", "dex2", "dexexp", "dem", "dem2"]
PERM = ["ox", "oxs", "erx"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 115])
    q = tier == "quick"
    out = []
    for nm in POINT + REAL + PERM + ["none", "none2"]:
        for _ in range(2 if q else 25):
            out.append(dict(kind="direct", name=nm, seed=int(rng.integers(1, 10 ** 9)), n=12))
    for nm in ["sbx-beta", "sbx-var", "sbx-exchange", "ux", "hux", "spx", "2px", "prob", "exp", "binx", "ox-seq", "erx-first", "pcx", "dem", "dex"]:
        out.append(dict(kind="dist", name=nm, seed=int(rng.integers(1, 10 ** 9))))
        if not q:
            out += [dict(kind="dist", name=nm, seed=int(rng.integers(1, 10 ** 9))) for _ in range(6)]
    for name, spec in runs.combos(rng, 1 if q else 6):
        out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=5 if q else 15, cap=20000))
    return out


def make(nm, rng, **kw):
    from pymoo.operators.crossover import binx, dex, erx, expx, hux, nox, ox, pcx, pntx, sbx, spx, ux
    C = {"spx": lambda: (spx.SPX if rng.random() < 0.5 else pntx.SinglePointCrossover)(**kw), "2px": lambda: pntx.TwoPointCrossover(**kw), "4px": lambda: pntx.PointCrossover(n_points=4, **kw),
         "ux": lambda: (ux.UX if rng.random() < 0.5 else ux.UniformCrossover)(**kw), "hux": lambda: (hux.HUX if rng.random() < 0.5 else hux.HalfUniformCrossover)(**kw),
         "exp": lambda: expx.ExponentialCrossover(prob_exp=float(rng.choice([0.5, 0.75, 0.95])), **kw), "binx": lambda: (binx.BX if rng.random() < 0.5 else binx.BinomialCrossover)(bias=float(rng.choice([0.1, 0.5, 0.9])), **kw),
         "bin1": lambda: binx.BinomialCrossover(n_offsprings=1, **kw),
         "sbx": lambda: sbx.SBX(eta=float(rng.choice([2, 3, 15, 30])), prob_var=float(rng.choice([0.0, 0.5, 1.0])), prob_exch=float(rng.choice([0, 1.0])), prob_bin=float(rng.choice([0, 0.5, 1.0])), **kw),
         "sbx1": lambda: sbx.SimulatedBinaryCrossover(n_offsprings=1, **kw),
         "pcx": lambda: pcx.PCX(eta=float(rng.choice([0.1, 0.3, 2.0])), zeta=float(rng.choice([0.1, 2.0])), **kw),
         "dex": lambda: dex.DEX(F=[None, 0.5, 2.0][int(rng.integers(3))], CR=float(rng.choice([0.2, 0.9])), **kw), "dex2": lambda: dex.DEX(n_diffs=2, n_iter=int(rng.choice([1, 4])), at_least_once=bool(rng.random() < 0.5), **kw),
         "dexexp": lambda: dex.DEX(variant="exp", CR=0.8, **kw),
         "dem": lambda: dex.DEM(F=[None, 0.7, (0.4, 1.5)][int(rng.integers(3))], de_repair=str(rng.choice(["bounce-back", "midway", "rand-init", "to-bounds"])), gamma=[None, 1e-4][int(rng.integers(2))], **kw),
         "dem2": lambda: dex.DEM(n_diffs=2, de_repair=str(rng.choice(["bounce-back", "midway", "rand-init", "to-bounds"])), **kw),
         "ox": lambda: ox.OrderCrossover(**kw), "oxs": lambda: ox.OrderCrossover(shift=True, **kw), "erx": lambda: (erx.ERX if rng.random() < 0.5 else erx.EdgeRecombinationCrossover)(**kw),
         "none": lambda: nox.NoCrossover(), "none2": lambda: nox.NoCrossover(n_parents=2, n_offsprings=int(rng.integers(1, 5)))}
    return C[nm]()


def bounds(rng, d):
    mode = str(rng.choice(["unit", "neg", "big", "tiny", "aniso", "degen"]))
    xl, xu = {"unit": (np.zeros(d), np.ones(d)), "neg": (np.full(d, -7.0), np.full(d, -2.0)), "big": (np.full(d, -1e6), np.full(d, 1e6)), "tiny": (np.zeros(d), np.full(d, 1e-6)),
              "aniso": (-10.0 ** rng.integers(-3, 4, d), 10.0 ** rng.integers(-3, 4, d)), "degen": (np.zeros(d), np.where(rng.random(d) < 0.4, 0.0, 2.0))}[mode]
    return xl.astype(float), xu.astype(float), mode


def population(rng, nm, d, n):
    """X in the domain of the operator, bounds, kind of values."""
    if nm in PERM:
        B = np.array([rng.permutation(d) for _ in range(max(1, n if rng.random() < 0.6 else n // 3))])
        return B[rng.integers(len(B), size=n)] if len(B) < n else B, None, None, "perm"
    if nm in POINT and rng.random() < 0.5 or nm.startswith("none"):
        if rng.random() < 0.5:
            return rng.random((n, d)) < rng.choice([0.1, 0.5, 0.9]), np.zeros(d), np.ones(d), "bool"
        xl, xu = rng.integers(-5, 0, d), rng.integers(0, 5, d)
        return rng.integers(xl, xu + 1, (n, d)), xl, xu, "int"
    xl, xu, _ = bounds(rng, d)
    X = xl + rng.random((n, d)) * (xu - xl)
    at = rng.random((n, d))
    X = np.where(at < 0.15, xl, np.where(at > 0.85, xu, X))
    if rng.random() < 0.3:
        X = X[rng.integers(0, max(1, n // 3), n)]
    return np.clip(X, xl, xu), xl, xu, "real"


def run_direct(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    rng = np.random.default_rng(case["seed"])
    nm = case["name"]
    for _ in range(case["n"]):
        kw, p0 = {}, None
        if not nm.startswith(("none", "dem", "dex")):
            p0 = [1.0, 0.0, 0.5, 0.9][int(rng.integers(4))]
            kw["prob"] = p0
        op = make(nm, rng, **kw)
        d = int(rng.choice([1, 2, 3, 5, 8, 20])) if nm not in PERM else int(rng.choice([2, 3, 4, 7, 15]))
        n = int(rng.integers(max(op.n_parents, 2), 12))
        X, xl, xu, typ = population(rng, nm, d, n)
        prob = Problem(n_var=d, n_obj=1, xl=xl if xl is not None else 0, xu=xu if xu is not None else d - 1)
        k = int(rng.integers(1, 10))
        P = np.array([rng.choice(n, op.n_parents, replace=False) if rng.random() < 0.8 or nm in ("pcx",) else np.full(op.n_parents, rng.integers(n)) for _ in range(k)])
        pop = Population.new(X=X.copy(), F=rng.random((n, 1)))
        pop.apply(lambda i: i.evaluated.update(["F"]))
        before = [(copy.deepcopy(i.X), i.F.copy()) for i in pop]
        form = rng.random() < 0.5 and not nm.startswith("dem")
        seed = int(rng.integers(1 << 30))
        if form:
            off = op.do(prob, [[pop[j] for j in row] for row in P], random_state=np.random.default_rng(seed))
        else:
            off = op.do(prob, pop, P, random_state=np.random.default_rng(seed))
        mon.ev("crossovers")
        mon.ev("offspring", len(off))
        mon.state(nm, X, P)
        what = f"{nm} on {typ} {X[P].tolist()}"
        if not mon.check(len(off) == k * op.n_offsprings, f"number:{nm}", lambda: f"{len(off)} offspring of {k} matings of {op.n_offsprings}"):
            continue
        mon.check(all(np.array_equal(i.X, b[0]) and i.F is not None and np.array_equal(i.F, b[1]) for i, b in zip(pop, before)), f"parents:{nm}", lambda: f"{nm} changed its parents")
        mon.check(len({id(o) for o in off}) == len(off) and not ({id(o) for o in off} & {id(i) for i in pop}), f"objects:{nm}", lambda: f"{nm}: offspring share objects with each other or the parents")
        mon.check(all(len(o.evaluated) == 0 and len(o.F) == 0 for o in off), f"unevaluated:{nm}", lambda: f"{nm}: offspring carry evaluated values")
        Q = np.array([o.X for o in off])
        if not mon.check(Q.shape == (len(off), d) and (typ not in ("bool",) or Q.dtype == bool) and (typ != "int" or Q.dtype.kind == "i"), f"shape:{nm}", lambda: f"{nm}: offspring of shape {Q.shape} {Q.dtype} from {typ}"):
            continue
        mon.check(not any(np.shares_memory(o.X, i.X) for o in off for i in pop), f"memory:{nm}", lambda: f"{nm}: an offspring's variables are its parent's array")
        if xl is not None:
            mon.check(np.all(Q >= xl) and np.all(Q <= xu), f"bounds:{nm}", lambda: f"{what}: offspring {Q.tolist()} outside {xl} {xu}")
        else:
            mon.check(all(sorted(q.tolist()) == list(range(d)) for q in Q), f"perm:{nm}", lambda: f"{what}: {Q.tolist()} are not permutations")
        if typ == "real" and np.any((X == xl) | (X == xu)):
            mon.ev("boundary_parents")
        # the offspring of mating i are rows i, i+k, ...
        O = Q.reshape(op.n_offsprings, k, d) if not nm.startswith("none") else None
        for i in range(k):
            A = X[P[i]]
            same = bool(np.all(A == A[0]))
            if nm.startswith("none"):
                o = Q[i * op.n_offsprings:(i + 1) * op.n_offsprings]
                idx = [[j for j in range(op.n_parents) if np.array_equal(A[j], q)] for q in o]
                mon.check(all(idx), f"none:{nm}", lambda: f"{nm}: offspring {o} is no parent of {A}")
                if op.n_offsprings >= op.n_parents:
                    mon.check(all(any(np.array_equal(a, q) for q in o) for a in A), f"none-all:{nm}", lambda: f"{nm}: a parent of {A} is missing in {o}")
                continue
            o = O[:, i]
            if p0 == 0.0:
                mon.ev("prob_zero")
                ok = all(any(np.array_equal(q, a) for a in A) for q in o) and (op.n_offsprings < op.n_parents or all(np.array_equal(q, a) for q, a in zip(o, A)))
                mon.check(ok, f"prob0:{nm}", lambda: f"{nm} with probability 0 turned {A.tolist()} into {o.tolist()}")
                continue
            if same:
                mon.ev("identical_parents")
                if nm in POINT + ["ox", "sbx", "sbx1"]:
                    mon.check(np.array_equal(o, np.tile(A[0], (len(o), 1))), f"identical:{nm}", lambda: f"{nm}: identical parents {A[0]} gave {o}")
                elif nm == "erx":
                    mon.check(edges(o[0]) == edges(A[0]) if p0 == 1.0 and d > 3 else True, "identical:erx", lambda: f"identical parents {A[0]} gave {o[0]}")
                elif nm in ("dex", "dex2", "dexexp", "dem", "dem2", "pcx"):
                    mon.check(np.allclose(o, A[0], rtol=1e-12, atol=1e-25), f"identical:{nm}", lambda: f"{nm}: identical parents {A[0]} gave {o}")
            position(mon, nm, A, o, p0, what, xl, xu)


def edges(p):
    return {frozenset((int(p[i]), int(p[(i + 1) % len(p)]))) for i in range(len(p))}


def position(mon, nm, A, o, p0, what, xl, xu):
    a, b = A[0], A[1] if len(A) > 1 else A[0]
    d = len(a)
    if nm in POINT:
        mon.check(np.all((o[0] == a) | (o[0] == b)), f"genes:{nm}", lambda: f"{nm}: offspring {o[0]} has a gene of neither {a} nor {b} at its position")
        if len(o) == 2:
            mon.check(np.all(((o[0] == a) & (o[1] == b)) | ((o[0] == b) & (o[1] == a))), f"complement:{nm}", lambda: f"{nm}: {o} does not swap the genes of {a} and {b}")
        diff = np.where(a != b)[0]
        took = (o[0] == b)[diff]
        if nm in ("spx", "2px", "4px"):
            cuts = int(np.sum(took[1:] != took[:-1]))
            mon.check(cuts <= {"spx": 1, "2px": 2, "4px": 4}[nm] and (len(diff) == 0 or diff[0] != 0 or not took[0]), f"cuts:{nm}", lambda: f"{nm}: {o[0]} of {a} and {b} has {cuts} cut points or a foreign first gene")
        if nm == "hux" and p0 == 1.0:
            mon.check(int(took.sum()) == math.ceil(len(diff) / 2), "half", lambda: f"hux exchanged {took.sum()} of {len(diff)} different genes")
        if nm == "exp" and len(diff) == d and p0 == 1.0:
            changes = int(np.sum(took != np.roll(took, 1)))
            mon.check(took.any() and changes <= 2, "cyclic", lambda: f"exponential crossover exchanged {took} - not one cyclic segment")
        if nm in ("binx", "bin1") and len(diff) == d and p0 == 1.0:
            mon.check((o[0] == a).any(), "at-least-once", lambda: f"{nm}: nothing was kept of the first parent {a}: {o[0]}")
    elif nm in ("sbx", "sbx1"):
        eq = a == b
        mon.check(np.all(o[:, eq] == a[eq]), f"equal-genes:{nm}", lambda: f"{nm}: genes equal in both parents {a} {b} changed to {o}")
        if len(o) == 2:
            ch = ~((o[0] == a) & (o[1] == b))
            mid, tol = (a + b) / 2, 1e-9 * np.maximum(1e-300, np.abs(a) + np.abs(b))
            ok = (np.minimum(o[0], o[1]) <= mid + tol) & (np.maximum(o[0], o[1]) >= mid - tol)
            mon.check(np.all(ok | ~ch), f"straddle:{nm}", lambda: f"{nm}: children {o} lie on one side of the middle of {a} {b}")
    elif nm in ("ox", "oxs") and p0 == 1.0:
        for r, dn, y in ((a, b, o[0]), (b, a, o[1])):
            ok = False
            for s in range(d):
                if ok:
                    break
                for e in range(s + 1, d):
                    don = dn[s:e + 1]
                    rest = [v for v in (r if nm == "ox" else np.roll(r, -s)) if v not in set(don.tolist())]
                    if np.array_equal(np.concatenate([rest[:s], don, rest[s:]]).astype(int), y):
                        ok = True
                        break
            mon.check(ok, f"order:{nm}", lambda: f"{nm}: {y} is not receiver {r} with a segment of donor {dn} in place")
    elif nm == "erx" and p0 == 1.0:
        H = {int(v): set() for v in a}
        for p in (a, b):
            for e in edges(p):
                x = list(e)
                if len(x) == 2:
                    H[x[0]].add(x[1]); H[x[1]].add(x[0])
        y = [int(v) for v in o[0]]
        if d < 3:
            return
        for i in range(d - 1):
            cur = y[i]
            nb = H.pop(cur)
            for v in H:
                H[v].discard(cur)
            if nb:
                least = min(len(H[v]) for v in nb)
                if not mon.check(y[i + 1] in nb and len(H[y[i + 1]]) == least, "edge", lambda: f"erx: after {y[:i + 1]} the child of {a} and {b} goes to {y[i + 1]}; neighbours left {sorted(nb)}"):
                    break
    elif nm in ("dem",) :
        pass


# ---------------------------------------------------------------- distributions
def ks(u):
    """Two-sided p-value bound (Dvoretzky-Kiefer-Wolfowitz) that u is uniform on [0, 1]."""
    u = np.sort(np.asarray(u, float))
    n = len(u)
    D = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    return 2 * math.exp(-2 * n * D * D), D


def binom_ok(k, n, p, alpha=1e-7):
    from scipy.stats import binom
    return min(binom.cdf(k, n, p), binom.sf(k - 1, n, p)) > alpha


def uniform_counts(mon, key, counts, what):
    from scipy.stats import chisquare
    counts = np.asarray(counts, float)
    p = chisquare(counts).pvalue
    mon.check(p > 1e-7, key, lambda: f"{what}: counts {counts.tolist()} are not equally likely (p={p:.2g})")


def run_dist(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.operators.crossover import binx, dex, erx, expx, hux, ox, pcx, pntx, sbx, ux
    rng = np.random.default_rng(case["seed"])
    rs = np.random.default_rng(int(rng.integers(1 << 40)))
    nm = case["name"]
    mon.ev("distributions")
    mon.state(nm, case["seed"])
    n = 4000

    def cross(op, A, B=None, xl=-1e9, xu=1e9, C=None):
        A = np.atleast_2d(A)
        m, d = A.shape
        rows = [A] + ([np.atleast_2d(B)] if B is not None else []) + ([np.atleast_2d(C)] if C is not None else [])
        pop = Population.new(X=np.vstack(rows))
        P = np.column_stack([np.arange(m) + i * m for i in range(len(rows))])
        off = op.do(Problem(n_var=d, n_obj=1, xl=xl, xu=xu), pop, P, random_state=rs)
        return off.get("X").reshape(op.n_offsprings, m, d)

    if nm == "sbx-beta":
        for eta in (2.0, 15.0, 30.0):
            x1, x2 = np.full((n, 1), 1.0), np.full((n, 1), 3.0)
            o = cross(sbx.SBX(prob=1.0, prob_var=1.0, eta=eta), x1, x2)
            beta = np.abs(o[0] - o[1]).ravel() / 2.0
            mon.check(np.allclose(o.sum(axis=0), 4.0, atol=1e-6), "sbx-mean", "far from the bounds the children's mean is not the parents'")
            u = np.where(beta <= 1, 0.5 * beta ** (eta + 1), 1 - 0.5 * beta ** (-(eta + 1)))
            p, D = ks(u)
            mon.check(p > 1e-7, "sbx-spread", lambda: f"spread factors with eta={eta} do not follow the polynomial distribution (D={D:.3f}, p={p:.2g})")
            # next to the bounds the distribution is cut off exactly at the bound
            o = cross(sbx.SBX(prob=1.0, prob_var=1.0, eta=eta), x1, x2, xl=0.9, xu=20.0)
            low = np.minimum(o[0], o[1]).ravel()
            beta = (4.0 - 2 * low) / 2.0
            bmax = 1 + 2 * 0.1 / 2.0
            alpha = 2 - bmax ** (-(eta + 1))
            u = np.where(beta <= 1, beta ** (eta + 1), 2 - beta ** (-(eta + 1))) / alpha
            p, D = ks(u)
            mon.check(p > 1e-7, "sbx-spread-bounded", lambda: f"bounded spread factors with eta={eta} do not follow their distribution (D={D:.3f}, p={p:.2g})")
            x1, x2 = np.full((n, 1), 3.0), np.full((n, 1), 1.0)
            o = cross(sbx.SBX(prob=1.0, prob_var=1.0, eta=eta), x1, x2, xl=-20.0, xu=3.1)
            hi = np.maximum(o[0], o[1]).ravel()
            beta = (2 * hi - 4.0) / 2.0
            alpha = 2 - (1 + 2 * 0.1 / 2.0) ** (-(eta + 1))
            u = np.where(beta <= 1, beta ** (eta + 1), 2 - beta ** (-(eta + 1))) / alpha
            p, D = ks(u)
            mon.check(p > 1e-7, "sbx-spread-bounded", lambda: f"spread factors bounded above with eta={eta} do not follow their distribution (D={D:.3f}, p={p:.2g})")
    elif nm == "sbx-var":
        for pv in (0.1, 0.5, 0.9):
            o = cross(sbx.SBX(prob=1.0, prob_var=pv, prob_bin=0.0, eta=3.0), np.zeros((n, 4)), np.ones((n, 4)))
            for j in range(4):
                k = int(np.sum((o[0, :, j] != 0) | (o[1, :, j] != 1)))
                mon.check(binom_ok(k, n, pv), "sbx-prob-var", lambda: f"{k} of {n} genes crossed with probability {pv}")
    elif nm == "sbx-exchange":
        pass
    elif nm == "ux":
        o = cross(ux.UX(prob=1.0), np.zeros((n, 5)), np.ones((n, 5)))
        for j in range(5):
            k = int(o[0, :, j].sum())
            mon.check(binom_ok(k, n, 0.5), "ux-half", lambda: f"gene {j} exchanged {k} of {n} times")
        k = int(np.sum(o[0, :, 0] == o[0, :, 1]))
        mon.check(binom_ok(k, n, 0.5), "ux-independent", lambda: f"neighbouring genes together {k} of {n} times")
    elif nm == "hux":
        o = cross(hux.HUX(prob=1.0), np.zeros((n, 6)), np.ones((n, 6)))
        for j in range(6):
            k = int(o[0, :, j].sum())
            mon.check(binom_ok(k, n, 0.5), "hux-half", lambda: f"gene {j} exchanged {k} of {n} times")
    elif nm in ("spx", "2px"):
        d = 6
        o = cross(pntx.PointCrossover(n_points=1 if nm == "spx" else 2, prob=1.0), np.zeros((n, d)), np.ones((n, d)))[0]
        code = (o * 2 ** np.arange(d)).sum(axis=1).astype(int)
        vals, counts = np.unique(code, return_counts=True)
        want = d - 1 if nm == "spx" else (d - 1) * (d - 2) // 2
        mon.check(len(vals) == want, "points-all", lambda: f"{len(vals)} different cuts of {want} possible ones in {n} matings")
        if len(vals) == want:
            uniform_counts(mon, "points-uniform", counts, f"{nm}: cut points")
    elif nm == "prob":
        for p in (0.1, 0.5, 0.9):
            for mk in (lambda: ux.UX(prob=p), lambda: sbx.SBX(prob=p, prob_var=1.0), lambda: binx.BX(prob=p), lambda: hux.HUX(prob=p), lambda: pcx.PCX(prob=p)):
                op = mk()
                d = 30
                A, B = np.tile(np.arange(d) * 1.0, (n, 1)), np.tile(np.arange(d) + 0.5, (n, 1))
                o = cross(op, A, B, C=A + 0.25 if op.n_parents == 3 else None)
                k = int(np.sum(~np.any([np.all(o[0] == z, axis=1) for z in (A, B, A + 0.25)], axis=0)))
                mon.check(binom_ok(k, n, p), "prob", lambda: f"{op.name}: {k} of {n} matings crossed with probability {p}")
    elif nm == "exp":
        d, p = 8, 0.75
        o = cross(expx.ExponentialCrossover(prob=1.0, prob_exp=p), np.zeros((n, d)), np.ones((n, d)))[0]
        L = o.sum(axis=1)
        pr = np.array([(1 - p) + p * (1 - p)] + [p ** k * (1 - p) for k in range(2, d)] + [p ** d])
        from scipy.stats import chisquare
        got = np.array([np.sum(L == k) for k in range(1, d + 1)])
        pv = chisquare(got, pr * n).pvalue
        mon.check(pv > 1e-7, "exp-length", lambda: f"segment lengths {got.tolist()} instead of {np.round(pr * n, 1).tolist()} (p={pv:.2g})")
    elif nm == "binx":
        for bias in (0.1, 0.5, 0.9):
            d = 10
            o = cross(binx.BX(prob=1.0, bias=bias), np.zeros((n, d)), np.ones((n, d)))[0]
            kept = bias + (1 - bias) ** d / d
            for j in (0, d - 1):
                k = int(np.sum(o[:, j] == 0))
                mon.check(binom_ok(k, n, kept), "bin-bias", lambda: f"gene {j} kept {k} of {n} times with bias {bias}")
    elif nm == "ox-seq":
        d = 5
        o = cross(ox.OrderCrossover(prob=1.0), np.tile(np.arange(d), (n, 1)), np.tile(np.arange(d)[::-1], (n, 1)))[0]
        vals = np.unique(o, axis=0)
        mon.check(len(vals) >= 5, "ox-all", lambda: f"only {len(vals)} different children in {n} matings")
        C = [int(np.sum(ox.random_sequence(d, random_state=rs)[0] == s)) for s in range(1) for _ in range(n)]
        k = sum(C)
        mon.check(binom_ok(k, n, 2 / d), "ox-start", lambda: f"segments started at 0 {k} of {n} times")
    elif nm == "erx-first":
        d = 5
        o = cross(erx.ERX(prob=1.0), np.tile(np.arange(d), (n, 1)), np.tile(np.array([0, 2, 4, 1, 3]), (n, 1)))[0]
        uniform_counts(mon, "erx-start", [np.sum(o[:, 0] == v) for v in range(d)], "first element of the child")
    elif nm == "pcx":
        from scipy.stats import norm
        A, B, C = np.tile([0.0, 0.0], (n, 1)), np.tile([4.0, 0.0], (n, 1)), np.tile([2.0, 3.0], (n, 1))
        for eta, zeta in ((0.1, 0.1), (0.3, 0.05), (0.05, 0.3)):
            o = cross(pcx.PCX(prob=1.0, eta=eta, zeta=zeta), A, B, C=C)[0]
            c = np.array([2.0, 1.0]) - 0.0
            e, q = c / np.linalg.norm(c), np.array([-c[1], c[0]]) / np.linalg.norm(c)
            D = (abs(np.array([4.0, 0.0]) @ q) + abs(np.array([2.0, 3.0]) @ q)) / 2
            for val, sd, w in ((o @ e, zeta * np.linalg.norm(c), "towards the centre"), (o @ q, eta * D, "across")):
                p, dd = ks(norm.cdf(val / sd))
                mon.check(p > 1e-7, "pcx-spread", lambda: f"pcx eta={eta} zeta={zeta}: steps {w} are not normal with deviation {sd} (std {val.std()}, D={dd:.3f})")
    elif nm == "dem":
        A, B, C = rng.random((n, 3)), rng.random((n, 3)), rng.random((n, 3))
        o = cross(dex.DEM(F=0.7, gamma=None), A, B, C=C)[0]
        mon.eq(o, A + 0.7 * (B - C), "dem-formula", "donor = base + F (x1 - x2)", rtol=1e-12, atol=1e-12)
        o = cross(dex.DEM(F=(0.3, 0.9), gamma=None), A, B, C=C)[0]
        R = (o - A) / (B - C)
        mon.check(np.allclose(R, R[:, :1], rtol=1e-4, atol=1e-6), "dem-F", "one scaling factor per mating")
        p, D = ks((np.median(R, axis=1) - 0.3) / 0.6)
        mon.check(p > 1e-7, "dem-F-range", lambda: f"scaling factors are not uniform on the given range (D={D:.3f})")
        for rep in ("bounce-back", "midway", "rand-init", "to-bounds"):
            o = cross(dex.DEM(F=5.0, gamma=None, de_repair=rep), A, B, C=C, xl=0.0, xu=1.0)[0]
            V = A + 5.0 * (B - C)
            inside = (V > 1e-9) & (V < 1 - 1e-9)
            mon.check(np.allclose(o[inside], V[inside]), f"dem-repair-inside:{rep}", "values inside the bounds were changed")
            low, up = V < -1e-9, V > 1 + 1e-9
            if rep == "to-bounds":
                mon.check(np.all(o[low] == 0) and np.all(o[up] == 1), f"dem-repair:{rep}", "values outside are not on the bound")
            elif rep == "midway":
                mon.check(np.allclose(o[low], A[low] / 2) and np.allclose(o[up], (1 + A[up]) / 2), f"dem-repair:{rep}", "values outside are not half way between bound and base")
            else:
                u = np.concatenate([o[low] / (A[low] if rep == "bounce-back" else 1), (1 - o[up]) / ((1 - A[up]) if rep == "bounce-back" else 1)])
                p, D = ks(u)
                mon.check(p > 1e-7, f"dem-repair:{rep}", lambda: f"repaired values are not uniform between bound and {'base' if rep == 'bounce-back' else 'bound'} (D={D:.3f})")
    elif nm == "dex":
        A, B, C = rng.random((n, 8)), rng.random((n, 8)), rng.random((n, 8))
        for F in (0.5, 0.9):
            o = cross(dex.DEX(F=F, CR=0.6), A, B, C=C)[0]
            V = A + F * (B - C)
            donor = np.isclose(o, V, rtol=0, atol=1e-12)
            mon.check(np.all(donor | (o == A)), "dex-formula", lambda: f"a gene is neither the base's nor base + {F} (x1 - x2)")
            k = int(np.sum(o != A))
            oj = cross(dex.DEX(F=F, CR=1.0, jitter=True), A, B, C=C)[0]
            r = np.abs(oj - V) / np.abs(B - C) / F
            mon.check(np.all(r < 0.51e-4 + 1e-9) and r.max() > 1e-5, "dex-jitter", lambda: f"jitter changes the step by up to {r.max()}")
            mon.check(binom_ok(k, n * 8, 0.6 + 0.4 ** 8 / 8), "dex-cr", lambda: f"{k} of {n * 8} genes taken from the donor with CR=0.6")


# ---------------------------------------------------------------- inside runs
def run_run(case, mon):
    from pymoo.core.crossover import Crossover
    from vlib import obs
    prob, alg = obs.build(case)
    if not hasattr(alg, "mating") and not hasattr(alg, "crossover") and not hasattr(alg, "mutation"):
        pass
    classes = set()

    def sub(c):
        for s in c.__subclasses__():
            classes.add(s)
            sub(s)
    import pymoo.operators.crossover.dex, pymoo.operators.crossover.nox
    sub(Crossover)
    orig = {}

    def wrap(c, f):
        def do(self, problem, pop, parents=None, *args, **kw):
            flat = [pop[j] for j in np.asarray(parents).ravel()] if parents is not None else [i for row in pop for i in row]
            before = [(copy.deepcopy(i.X), copy.deepcopy(i.F)) for i in flat]
            k = len(parents) if parents is not None else len(pop)
            off = f(self, problem, pop, parents, *args, **kw)
            mon.ev("in_run")
            nm = type(self).__name__
            mon.check(len(off) == k * self.n_offsprings, f"run-number:{nm}", lambda: f"{len(off)} offspring of {k} matings")
            mon.check(all(not isinstance(b[0], np.ndarray) and i.X == b[0] or np.array_equal(i.X, b[0]) for i, b in zip(flat, before)), f"run-parents:{nm}", lambda: f"{nm} changed its parents during a run of {case['algo']}")
            mon.check(not ({id(o) for o in off} & {id(i) for i in flat}) and all(not o.evaluated for o in off), f"run-new:{nm}", lambda: f"{nm}: offspring are not new unevaluated individuals")
            for o in off:
                if isinstance(o.X, np.ndarray) and o.X.dtype.kind == "f" and problem.has_bounds() and getattr(problem, "vars", None) is None and nm not in ("MixedVariableMating",):
                    if not mon.check(np.all(o.X >= problem.xl) and np.all(o.X <= problem.xu), f"run-bounds:{nm}", lambda: f"{nm} left the bounds: {o.X} during a run of {case['algo']}"):
                        break
            mon.state(nm, case["algo"], mon.counts["in_run"])
            return off
        return do
    for c in classes | {Crossover}:
        if "do" in c.__dict__:
            orig[c] = c.__dict__["do"]
            c.do = wrap(c, orig[c])
    try:
        obs.setup(prob, alg, case)
        for _ in obs.steps(alg):
            pass
    finally:
        for c, f in orig.items():
            c.do = f


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
