"""C29: shipped benchmark problems agree with their known optima."""
import warnings
import numpy as np
from vlib import bench

RULE = ("for every shipped problem with a front that is calculated here, designs known to be optimal from the definition of the benchmark, random designs and designs found by climbing towards points of the declared front are evaluated: none may dominate a declared point and one has to reach it; "
        "declared sets are evaluated, checked for feasibility and compared with the declared front, declared fronts with themselves; distinct states are different (problem, parameters) with a front")
REQUIRED = ["fronts", "sets", "optimum", "mutual", "ideal", "nadir", "random_designs", "optimal_designs", "climbed", "reached", "feasible_set", "set_on_front", "front_covered", "ref_dirs", "repeatable", "declared_bounds"]
ASSUMPTIONS = ["fronts held on the project's server (or in files not contained in the repository) cannot be obtained without a network and are not judged", "tolerances: 1e-6 of the range of the front for analytic fronts, more where the declaration is rounded or a grid (named in TOL)",
               "a point counts as reached when a design is within 1 % of the range of the front of it (in the worst objective)"]
TIMEOUT = {"quick": 150, "thorough": 900}

REMOTE = {"carside", "kursawe", "osy", "tnk", "welded_beam", "mw5", "mw7", "mw9", "mw10", "mw11", "mw13", "mw14"} | {f"ctp{i}" for i in range(1, 9)} | {f"dascmop{i}" for i in range(1, 10)} | {f"zcat{i}" for i in range(1, 21)}
NONE = {n for n in bench.ALL if n.startswith(("cec:", "misc:"))} | {"knapsack", "mknapsack", "tsp", "flowshop", "mm1", "mm2", "smm", "clutch", "csi", "wrm"}
FRONTS = sorted(set(bench.ALL) - REMOTE - NONE)

# best known values from the literature (CEC 2006 report; definitions of the other functions)
OPT = {"ackley": 0, "griewank": 0, "himmelblau": 0, "rastrigin": 0, "rosenbrock": 0, "schwefel": 0, "sphere": 0, "zakharov": 0, "pressure_vessel": 5885.33, "cantilevered_beam": 92.7693,
       "g1": -15, "g4": -30665.53867178332, "g5": 5126.4967140071, "g6": -6961.81387558015, "g7": 24.30620906818, "g8": -0.0958250414180359, "g9": 680.630057374402, "g10": 7049.24802052867, "g11": 0.75, "g12": -1,
       "g13": 0.053941514041898, "g14": -47.7648884594915, "g15": 961.715022289961, "g16": -1.90515525853479, "g17": 8853.53967480648, "g18": -0.866025403784439, "g19": 32.6555929502463, "g20": None, "g21": 193.724510070035,
       "g22": 236.430975504001, "g23": -400.0551, "g24": -5.50801327159536, "g2": None, "g3": None}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 129])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = []
    for _ in range(2 if q else 25):
        out += [new(kind="problem", name=n, evals=3000 if q else 20000) for n in FRONTS]
    return out


# ---------------------------------------------------------------- designs that are optimal by the definition of the benchmark

def optimal(rng, name, p, n):
    d, m = p.n_var, p.n_obj
    base = {"dtlz1^-1": "dtlz1", "convex_dtlz2": "dtlz2", "convex_dtlz4": "dtlz4", "sdtlz1": "dtlz1"}.get(name, name)
    for pre in ("dc1", "dc2", "dc3", "c1", "c2", "c3"):
        if base.startswith(pre + "dtlz"):
            base = base[len(pre):]
    if name == "bnh":
        a = rng.random(n) * 5
        return np.column_stack([a, np.minimum(a, 3)])
    if name == "srn":
        return np.column_stack([np.full(n, -2.5), 2.5 + rng.random(n) * (14.79 - 2.5)])
    if name.startswith("zdt"):
        if name == "zdt5":
            X = np.ones((n, d))
            X[:, :30] = rng.random((n, 30)) < rng.random((n, 1))
            return X
        X = np.zeros((n, d))
        X[:, 0] = rng.random(n)
        return X
    if base.startswith("dtlz"):
        k = d - m + 1
        X = np.full((n, d), 0.0 if base in ("dtlz6", "dtlz7") else 0.5)
        U = rng.random((n, m - 1))
        if base == "dtlz1":
            e = rng.exponential(size=(n, m))
            e /= e.sum(axis=1)[:, None]
            for j in range(m - 1):
                rest = e[:, :m - j].sum(axis=1)
                U[:, j] = 1 - e[:, m - 1 - j] / rest
        if base == "dtlz4":
            U = U ** (1 / 100)
        X[:, :m - 1] = U
        if name in ("dc1dtlz1", "dc1dtlz3", "dc3dtlz1", "dc3dtlz3"):
            # allowed bands of cos(5 pi x): around 0, 0.4 and 0.8
            half = np.arccos(0.95 if name.startswith("dc1") else 0.5) / (5 * np.pi)
            c = rng.choice([0.0, 0.4, 0.8], size=U.shape) + rng.uniform(-half, half, size=U.shape)
            c = np.clip(c, 0, 1)
            if name.startswith("dc1"):
                X[:, 0] = c[:, 0]
            else:
                X[:, :m - 1] = c
        if name in ("c3dtlz1", "c3dtlz4"):
            F = p.evaluate(X, return_values_of=["F"])
            if name == "c3dtlz1":
                s = 1 / (F.sum(axis=1) + F.min(axis=1))
            else:
                s = 1 / np.sqrt((F ** 2).sum(axis=1) - 0.75 * (F ** 2).max(axis=1))
            g = np.maximum(s - 1, 0) * (1 + 1e-7) + 1e-9
            if name == "c3dtlz4":
                X[:, m - 1:] = 0.5 + np.sqrt(g / k)[:, None]
            else:
                lo, hi = np.zeros(n), np.full(n, 0.05)
                gg = lambda t: 100 * k * (1 + t ** 2 - np.cos(20 * np.pi * t))
                for _ in range(60):
                    mid = (lo + hi) / 2
                    up = gg(mid) < g
                    lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
                X[:, m - 1:] = 0.5 + hi[:, None]
        return X
    if name.startswith("mw"):
        X = rng.random((n, d)) * p.xu
        i = np.arange(d)
        if name in ("mw1", "mw4", "mw12"):
            X[:, m - 1:] = (0.5 + i[m - 1:] / (2 * d)) ** (1 / (d - m))
        elif name in ("mw2", "mw6", "mw8"):
            X[:, m - 1:] = i[m - 1:] / d
        else:
            for j in range(m - 1, d):
                X[:, j] = 1 - (X[:, j - 1] - 0.5) ** 2
        if name in ("mw3", "mw12"):
            # parts of the front are pushed away from the unconstrained one: distances above one
            some = rng.random(n) < 0.6
            X[some, -1] = rng.random(some.sum())
        if name == "mw4":
            e = rng.exponential(size=(n, m))
            e /= e.sum(axis=1)[:, None]
            for j in range(m - 1):
                # f_m = x_0 (last), remaining (1 - x_0) and so on
                rest = e[:, :m - j].sum(axis=1)
                X[:, j] = e[:, m - 1 - j] / rest
        return X
    if name.startswith("wfg"):
        k, up = p.k, 2.0 * np.arange(1, d + 1)
        Z = np.full((n, d), 0.35)
        Z[:, :k] = rng.random((n, k))
        if name == "wfg1":
            Z[:, :k] = rng.random((n, 1)) ** 50 if rng.random() < 0.5 else rng.random((n, k)) ** 50
        if rng.random() < 0.7:
            gap = k // (m - 1)
            Z[:, :k] = np.repeat(Z[:, :k:gap], gap, axis=1)
        edge = rng.random((n, d)) < 0.1
        Z[:, :k] = np.where(edge[:, :k], np.round(Z[:, :k]), Z[:, :k])
        if name == "wfg8":
            for j in range(k, d):
                u = Z[:, :j].mean(axis=1)
                Z[:, j] = 0.35 ** (1 / (0.02 + 49.98 * (0.98 / 49.98 - (1 - 2 * u) * np.abs(np.floor(0.5 - u) + 0.98 / 49.98))))
        if name == "wfg9":
            for j in range(d - 2, k - 1, -1):
                Z[:, j] = 0.35 ** (1 / (0.02 + 1.96 * Z[:, j + 1:].mean(axis=1)))
            # position variables are reached through the deceptive and the dependent maps: any value is allowed
        return Z * up
    if name.startswith("df"):
        return df(rng, name, p, n)
    if name in ("omnitest",):
        base = rng.random((n, 1)) * 0.5 + 1
        return base + 2 * rng.integers(0, 3, (n, d))
    if name.startswith("sympart"):
        a, b, c, w = p.a, p.b, p.c, p.w
        Y = np.column_stack([rng.integers(-1, 2, n) * c + rng.uniform(-a, a, n), rng.integers(-1, 2, n) * b])
        return Y @ np.array([[np.cos(w), np.sin(w)], [-np.sin(w), np.cos(w)]])
    if name == "truss2d":
        # equal stresses (a proportional design minimises the volume for a stress), y = 2 while no area is at its limit
        s = np.concatenate([np.exp(rng.uniform(np.log(8944.3), np.log(1e5), n - n // 3)), rng.uniform(8432.8, 8944.2, n // 3)])
        y = np.full(n, 2.0)
        for i in range(n):
            if 80 * np.sqrt(5) / (2 * s[i]) > 0.01:
                # second area at its limit: larger y reduces the stress
                t = 80 / (0.01 * s[i])  # y / sqrt(1 + y^2) = t
                y[i] = min(3.0, t / np.sqrt(max(1e-12, 1 - t ** 2)))
        x1 = 20 * np.sqrt(16 + y ** 2) / (y * s)
        x2 = 80 * np.sqrt(1 + y ** 2) / (y * s)
        return np.column_stack([x1, x2, y])
    return None


def df(rng, name, p, n):
    d, t = p.n_var, p.time
    X = np.zeros((n, d))
    x = p.xl[0] + rng.random(n) * (p.xu[0] - p.xl[0])
    G = np.sin(0.5 * np.pi * t)
    X[:, 0] = x
    i = name[2:]
    if i == "1":
        X[:, 1:] = abs(G)
    elif i == "2":
        X[:] = abs(G)
        X[:, int((d - 1) * abs(G))] = x
    elif i == "3":
        X[:, 1:] = (G + x ** (G + 1.5))[:, None]
    elif i == "4":
        a, b = G, 1 + abs(np.cos(0.5 * np.pi * t))
        c = max(abs(a), a + b)
        x = a + rng.random(n) * b
        X = np.column_stack([x] + [a * (x / c) ** 2 / (j + 1) for j in range(1, d)])
    elif i in ("5", "6"):
        X[:, 1:] = G
    elif i == "7":
        X[:, 1:] = (1 / (1 + np.exp(5 * np.cos(0.5 * np.pi * t) * (x - 2.5))))[:, None]
    elif i == "8":
        X[:, 1:] = (G * np.sin(4 * np.pi * x) / (1 + abs(G)))[:, None]
    elif i == "9":
        for j in range(1, d):
            X[:, j] = np.cos(4 * t + x + X[:, j - 1])
    else:
        X[:, 1] = rng.random(n)
        if i == "10":
            X[:, 2:] = (np.sin(4 * np.pi * (x + X[:, 1])) / (1 + abs(G)))[:, None]
        elif i == "11":
            X[:, 2:] = (0.5 * abs(G) * x)[:, None]
        elif i == "12":
            X[:, 2:] = np.sin(t * x)[:, None]
        else:
            X[:, 2:] = G
    return X


# ---------------------------------------------------------------- the search towards one point of the front

def evaluate(p, X):
    with np.errstate(all="ignore"):
        o = p.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)
    F = np.asarray(o["F"], float)
    cv = np.maximum(np.asarray(o["G"], float), 0).sum(axis=1) + np.maximum(np.abs(np.asarray(o["H"], float)) - 1e-4, 0).sum(axis=1)
    return F, np.where(np.isnan(cv), np.inf, cv)


def climb(rng, p, x, f, scale, evals, discrete=False, pool=None):
    """Reduce the largest scaled excess over f by random changes; returns the smallest value seen."""
    lo, hi = p.xl, p.xu
    best, width = None, 0.2
    used, lam = 0, 20
    cur = x.copy()
    while used < evals:
        d = len(cur)
        step = rng.normal(size=(lam, d)) * width * (hi - lo) * (rng.random((lam, d)) < rng.choice([1.0, 2.0 / d, 0.5]))
        X = cur + step
        if pool is not None and len(pool) > 1:
            # differences of optimal designs keep to the optimal set where it is flat
            a, b = rng.integers(0, len(pool), (2, lam // 2))
            X[:lam // 2] = cur + (pool[a] - pool[b]) * rng.choice([1.0, 0.1, 0.01, width], size=(lam // 2, 1)) * (rng.random((lam // 2, d)) < rng.choice([1.0, 0.5, 2.0 / d]))
        if discrete:
            X = np.where(rng.random((lam, d)) < 1.5 / d, 1 - cur, cur)
        X = np.clip(X, lo, hi)
        X[0] = cur
        F, cv = evaluate(p, X)
        v = np.max((F - f) / scale, axis=1)
        v = np.where((cv <= 1e-9) & ~np.isnan(v), v, np.inf)
        used += lam
        j = int(np.argmin(v))
        if best is None or v[j] < best:
            best, cur = v[j], X[j].copy()
            width = min(0.3, width * 1.6)
        else:
            width *= 0.7
            if width < 1e-9:
                width = 0.05
        if best < -1:
            break
    return best, cur


LOOSE = {"pressure_vessel": 1e-4, "cantilevered_beam": 1e-4, "df9": 0.05, "df12": 0.05, "df13": 0.05, "zdt3": 1e-6, "truss2d": 2e-3, "srn": 1e-5, "wfg1": 1e-2, "wfg2": 3e-3, "zdt6": 1e-6, "mw3": 2e-4, "mw12": 2e-4, **{g: 1e-3 for g in ("g3", "g5", "g11", "g13", "g14", "g15", "g17", "g21", "g22", "g23")}, "dtlz7": 1e-6}


def run_problem(case, mon):
    rng = np.random.default_rng(case["seed"])
    name = case["name"]
    kw = bench.params(rng, name)
    if name in ("dtlz5", "dtlz6", "dtlz7") and kw["n_obj"] == 3:
        kw["n_obj"] = 2 if rng.random() < 0.5 else 4
        kw["n_var"] = max(kw["n_var"], kw["n_obj"] + 1)
    if name.startswith("sympart") and kw and kw["h_dist"] <= 4 * kw["length"]:
        kw["h_dist"] = 4 * kw["length"] + 1.0
    if name == "c3dtlz4":
        # the distance function has to reach the constraint
        kw["n_var"] = max(kw["n_var"], kw["n_obj"] + 4)
    if name.startswith("mw") and "n_var" in kw:
        kw["n_var"] = max(kw["n_var"], kw.get("n_obj", 2) + 1)
    p = bench.create(name, **kw)
    tol = LOOSE.get(name, 1e-6)
    key = f"{name}"
    many = p.n_obj > 3 and (name in bench.MANY or name in ("mw4", "mw8")) and name not in ("dtlz5", "dtlz6", "dtlz7")
    rkw = {}
    if many:
        W = rng.exponential(size=(40, p.n_obj))
        W = np.vstack([W / W.sum(axis=1)[:, None], np.eye(p.n_obj)])
        rkw = dict(ref_dirs=W)
        mon.ev("ref_dirs")
    if name.startswith("wfg") and name != "wfg9":
        rkw.update(n_iterations=20, points_each_iteration=200)
    given = {k: np.array(v) for k, v in rkw.items()}
    pf = p.pareto_front(**rkw)
    ps = p.pareto_set()
    if pf is None and name in UNDECLARED and ps is None:
        mon.ev("undeclared")
        return
    mon.state(name, str(kw))
    mon.ev("fronts")
    if not mon.check(isinstance(pf, np.ndarray) and pf.ndim == 2 and pf.shape[1] == p.n_obj and len(pf) > 0 and np.isfinite(pf).all(), f"{key}:front", lambda: f"the front of {name}({kw}) is not a finite (n, {p.n_obj}) array: {np.shape(pf)}"):
        return
    for k, v in given.items():
        mon.eq(rkw[k], v, f"{key}:ref_dirs", f"the given {k} were modified")
    # ideal and nadir
    mon.eq(p.ideal_point(**rkw), pf.min(axis=0), f"{key}:ideal", "ideal point is not the minimum of the front")
    mon.eq(p.nadir_point(**rkw), pf.max(axis=0), f"{key}:nadir", "nadir point is not the maximum of the front")
    mon.ev("ideal")
    mon.ev("nadir")
    if not name.startswith("wfg") or name == "wfg9":
        again = bench.create(name, **kw)
        a, b = again.ideal_point(**rkw), again.nadir_point(**rkw)
        mon.eq(a, pf.min(axis=0), f"{key}:ideal:fresh", "ideal point asked first differs")
        mon.eq(b, pf.max(axis=0), f"{key}:nadir:fresh", "nadir point asked first differs")
        mon.eq(again.pareto_front(**rkw), pf, f"{key}:repeatable", "the front asked for again differs")
        mon.ev("repeatable")
    scale = pf.max(axis=0) - pf.min(axis=0)
    size = np.maximum(1.0, np.abs(pf).max())
    scale = np.where(scale > 1e-9 * size, scale, size)
    if p.xl is not None:
        mon.check(p.xl.shape == (p.n_var,) and p.xu.shape == (p.n_var,) and np.all(p.xl <= p.xu), f"{key}:bounds", "bounds are not ordered or not one per variable")
        mon.ev("declared_bounds")
    # mutual non-dominance
    S = pf if len(pf) <= 400 else pf[rng.choice(len(pf), 400, replace=False)]
    worse = S[:, None, :] - S[None, :, :]          # how much i is worse than j
    # dominated beyond rounding: clearly worse somewhere and not better anywhere by more than what rounding explains
    mt = MUTUAL.get(name, 0.0) * scale
    dom = np.all(worse >= mt, axis=2) & np.any(worse > 10 * max(tol, 1e-6) * scale, axis=2)
    i = np.flatnonzero(dom.any(axis=1))
    mon.check(len(i) == 0, f"{key}:mutual", lambda: f"the declared front of {name}({kw}) contains dominated points, e.g. {S[i[0]].tolist()} by {S[np.flatnonzero(dom[i[0]])[0]].tolist()} ({len(i)} of {len(S)})")
    mon.ev("mutual", len(S))
    # the declared set
    if ps is not None:
        ok = isinstance(ps, np.ndarray) and ps.ndim == 2 and ps.shape[1] == p.n_var and len(ps) > 0
        mon.check(ok, f"{key}:set", lambda: f"the declared set of {name}({kw}) is not an (n, {p.n_var}) array: {np.shape(ps)}")
        if ok:
            mon.ev("sets")
            P = ps if len(ps) <= 300 else ps[rng.choice(len(ps), 300, replace=False)]
            slack = 1e-9 * np.maximum(1, np.abs(p.xu - p.xl))
            mon.check(np.all(P >= p.xl - slack) and np.all(P <= p.xu + slack), f"{key}:set:bounds", lambda: f"the declared set of {name}({kw}) leaves the bounds")
            F, cv = evaluate(p, P)
            if name not in ("g20",):
                mon.check(np.all(cv <= CVTOL.get(name, 1e-4)), f"{key}:set:feasible", lambda: f"the declared set of {name}({kw}) is infeasible by {cv.max()}")
                mon.ev("feasible_set")
            if p.n_obj == 1:
                mon.check(np.all(np.abs(F - pf) <= max(SETTOL.get(name, 0), 1e-6 * max(1.0, np.abs(pf).max()))), f"{key}:set:front", lambda: f"evaluating the declared set gives {F.ravel().tolist()}, the declared optimum is {pf.ravel().tolist()}")
            elif name != "wfg2" and not name.startswith("wfg"):
                # on the front: nothing declared is better than it, and it is not better than something declared, by more than the spacing
                e = np.max((F[:, None, :] - pf[None, :, :]) / scale, axis=2)
                mon.check(np.all(e.min(axis=1) <= 0.2), f"{key}:set:front", lambda: f"a point of the declared set evaluates to {F[np.argmax(e.min(axis=1))].tolist()}, far from the declared front")
                dd = np.all(F[:, None, :] > pf[None, :, :] + 10 * tol * scale, axis=2)
                mon.check(not dd.any(), f"{key}:set:dominated", lambda: f"a point of the declared set evaluates to {F[np.flatnonzero(dd.any(axis=1))[0]].tolist()}, dominated by the declared front")
            mon.ev("set_on_front")
    # the value known from the literature
    if name in OPT and OPT[name] is not None:
        v = float(OPT[name])
        mon.check(abs(float(pf.ravel()[0]) - v) <= OPTTOL.get(name, 2e-5) * max(1.0, abs(v)), f"{key}:optimum", lambda: f"the declared optimum of {name} is {pf.ravel().tolist()}, the known one is {v}")
        mon.ev("optimum")
    # designs: random ones, optimal ones and climbed ones
    evals = case["evals"]
    X = bench.designs(rng, name, p, 400)
    O = optimal(rng, name, p, 600)
    if O is not None:
        inside = np.all((O >= p.xl - 1e-12) & (O <= p.xu + 1e-12), axis=1)
        O = np.clip(O[inside], p.xl, p.xu)
        mon.ev("optimal_designs", len(O))
    mon.ev("random_designs", len(X))
    A = X if O is None or len(O) == 0 else np.vstack([X, O])
    F, cv = evaluate(p, A)
    ok = cv <= 1e-9

    def better(F, what):
        if len(F) == 0:
            return
        e = np.max((F[:, None, :] - S[None, :, :]) / scale, axis=2)   # < 0: better in every objective
        i, j = np.unravel_index(np.nanargmin(e), e.shape)
        mon.check(not e[i, j] < -10 * tol, f"{key}:dominated", lambda: f"a {what} design of {name}({kw}) evaluates to {F[i].tolist()} and dominates the declared point {S[j].tolist()} (by {-e[i, j]:.2e} of the range)")

    better(F[ok], "random or optimal")
    reach = p.n_obj == 1 or (name not in UNREACHED)
    idx = rng.choice(len(S), size=min(4, len(S)), replace=False)
    for j in idx:
        f = S[j]
        start = A[ok] if ok.any() else A
        Fs = F[ok] if ok.any() else F
        v = np.max((Fs - f) / scale, axis=1)
        x = start[int(np.nanargmin(v))]
        if p.n_obj == 1 and ps is not None and ps.ndim == 2 and ps.shape[1] == p.n_var:
            x = ps[int(rng.integers(0, len(ps)))]
            if p.vtype is None or p.vtype is float:
                x = np.clip(x, p.xl, p.xu)
        e, got = climb(rng, p, np.asarray(x, float), f, scale, evals, discrete=name == "zdt5", pool=A[len(X):])
        mon.ev("climbed")
        mon.check(not e < -10 * tol, f"{key}:dominated", lambda: f"a design of {name}({kw}) found by climbing dominates the declared point {f.tolist()} by {-e:.2e} of the range: {got.tolist()}")
        if reach and name not in bench.SINGLE:
            mon.check(e <= REACH.get(name, 0.02 if p.n_obj < 4 else 0.05), f"{key}:reached", lambda: f"no design comes close to the declared point {f.tolist()} of {name}({kw}): the best found is worse by {e:.2e} of the range")
            mon.ev("reached")
    # every optimal design is covered by the declared front
    if O is not None and len(O) and name not in UNCOVERED and not many:
        Fo = F[len(X):][ok[len(X):]]
        if len(Fo):
            e = np.max((S[None, :, :] - Fo[:, None, :]) / scale, axis=2).min(axis=1) if len(S) == len(pf) else np.array([np.min(np.max((pf - f) / scale, axis=1)) for f in Fo[:60]])
            w = int(np.argmax(e))
            mon.check(e[w] <= COVER.get(name, 0.12), f"{key}:covered", lambda: f"the declared front of {name}({kw}) has nothing near the attainable point {Fo[w].tolist()} (missing by {e[w]:.2e} of the range)")
            mon.ev("front_covered")


OPTTOL = {"g23": 2e-4, "g17": 1e-3}
CVTOL = {"pressure_vessel": 1e-1, "cantilevered_beam": 1e-3}
SETTOL = {"ackley": 1e-6, "himmelblau": 1e-6, "schwefel": 1e-3, "pressure_vessel": 1.0, "cantilevered_beam": 0.01, "g22": 1e-3}
UNREACHED = set()
UNCOVERED = set()
REACH = {"mw8": 0.2, "mw4": 0.2, "dtlz4": 0.2, "c3dtlz4": 0.3, "convex_dtlz4": 0.2, "dtlz3": 0.2, "c1dtlz3": 0.2, "dc1dtlz3": 0.2, "dc3dtlz3": 0.2, "mw12": 0.3, "mw3": 0.1, "zdt5": 0.1, "wfg1": 0.2, **{f"wfg{i}": 0.6 for i in range(2, 10)}, **{f"df{i}": 0.15 for i in range(10, 15)}}
# the front of DF4 follows from g = 1 also where the solutions of g = 1 are outside of the bounds (a property of the benchmark)
UNREACHED |= {"df4"}
# fronts made from few points: coarse by construction
COVER = {**{n: 0.6 for n in ("dc1dtlz1", "dc1dtlz3", "dc3dtlz1", "dc3dtlz3")}, **{f"wfg{i}": 0.35 for i in range(1, 10)}, "omnitest": 0.8}
# mutual domination below this (in every objective) is rounding of the construction
MUTUAL = {"mw3": 2e-3, "mw12": 2e-3, "zdt3": 1e-6}
UNDECLARED = {"g2", "g3"}


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run_problem(case, mon)
