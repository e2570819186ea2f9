"""C44: the iterations of an algorithm follow the update rule the algorithm is named after."""
import itertools
import math

import numpy as np

RULE = ("differential evolution, NSDE and GDE3, PSO, EPPSO, CMOPSO, MOPSO-CD, ES, SRES, ISRES, BRKGA, G3PCX, NRBO, MOEA/D and its parallel variant are driven with ask and tell on problems with and without constraints; "
        "what is asked for and what the population becomes is compared with the rule of the algorithm, from the population before, the solutions told and their values; equations with random coefficients are judged by the "
        "range of the coefficients, by the exact value where a coefficient is fixed, and by their mean and variance on fixed seeds; distinct states are different populations")
REQUIRED = ["de", "de_exp", "de_line", "de_two", "nsde", "gde3", "gde3_pool", "pso", "pso_adapt", "pso_equation", "eppso", "topology", "cmopso", "cmopso_equation", "mopso", "es", "es_sigma", "sres", "isres", "brkga", "brkga_multi",
            "g3pcx", "nrbo", "moead", "moead_replace", "pmoead", "neighborhood", "mulambda", "constraints", "setup", "improved", "rejected"]
ASSUMPTIONS = ["finite objective values; every variable has a range; all solutions asked for are told", "a differential evolution has at least twelve solutions to choose from"]
TIMEOUT = {"quick": 200, "thorough": 900}

KINDS = ["de", "nsde", "pso", "eppso", "cmopso", "mopso", "es", "brkga", "g3pcx", "nrbo", "moead", "mulambda"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 144])
    q = tier == "quick"
    out = []
    for k in KINDS:
        for _ in range((25 if k == "de" else 100 if k == "mulambda" else 40) if q else 600 if k == "mulambda" else 200):
            out.append(dict(kind=k, seed=int(rng.integers(1, 10 ** 9)), n_gen=4 if q else 8))
    for k in ["pso_equation", "es_functions", "cmopso_equation", "neighborhood", "topology"]:
        for _ in range(4 if q else 40):
            out.append(dict(kind=k, seed=int(rng.integers(1, 10 ** 9))))
    return out


# ------------------------------------------------------------------------------------------------ problems

def problem(rng, n_obj=1, cons=None, n_var=None, tight=False):
    from pymoo.core.problem import Problem
    n_var = int(rng.integers(2, 6)) if n_var is None else n_var
    width = 10 ** rng.uniform(-1, 2, n_var) if rng.random() < 0.6 else np.ones(n_var)
    xl = rng.normal(0, 3, n_var)
    xu = xl + width
    cons = rng.random() < 0.4 if cons is None else cons
    C = xl + rng.random((n_obj, n_var)) * width
    if tight:
        C = np.where(rng.random(C.shape) < 0.5, xl, xu)
    kind = rng.choice(["sphere", "abs", "wavy"])
    a = rng.random(n_var)
    level = rng.uniform(0.2, 0.9) * (a.sum())

    class T(Problem):
        def __init__(self):
            super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=1 if cons else 0, xl=xl, xu=xu)
            self.calls = 0

        def _evaluate(self, X, out, *args, **kwargs):
            self.calls += len(X)
            Z = (X[:, None, :] - C) / width
            F = {"sphere": Z ** 2, "abs": np.abs(Z), "wavy": Z ** 2 + 0.3 * (1 - np.cos(8 * Z))}[kind].sum(axis=2)
            out["F"] = F
            if cons:
                out["G"] = (((X - xl) / width) @ a - level)[:, None]

    return T()


def viol(i):
    return float(np.maximum(np.asarray(i.G, float), 0).sum()) if len(np.ravel(i.G)) else 0.0


def better(a, b):
    """Is the solution a strictly better than b (one objective)?"""
    ca, cb = viol(a), viol(b)
    if ca > 0 or cb > 0:
        return ca < cb
    return float(a.F[0]) < float(b.F[0])


def relation(a, b):
    """1 if a dominates b, -1 if b dominates a, 0 otherwise."""
    ca, cb = viol(a), viol(b)
    if ca != cb:
        return 1 if ca < cb else -1
    if ca > 0:
        return 0 if None else relation_f(a.F, b.F)
    return relation_f(a.F, b.F)


def relation_f(f, g):
    f, g = np.asarray(f), np.asarray(g)
    if (f <= g).all() and (f < g).any():
        return 1
    if (g <= f).all() and (g < f).any():
        return -1
    return 0


class Ind:
    """What is known about a solution at a moment."""

    def __init__(self, i):
        self.ref, self.X, self.F, self.G = i, np.array(i.X, float), np.array(i.F, float), np.array(i.G, float)


def snap(pop):
    return [Ind(i) for i in pop]


def same(a, b):
    return np.array_equal(a.X, b.X) and np.array_equal(a.F, b.F)


def start(mon, algo, prob, seed, name, n_gen=30):
    algo.setup(prob, termination=("n_gen", n_gen), seed=seed)
    mon.ev("setup")
    mon.check(prob.calls == 0 and algo.evaluator.n_eval == 0, f"setup:{name}", f"setting up {name} evaluates solutions", calls=prob.calls)
    infills = algo.ask()
    mon.check(prob.calls == 0, f"ask:{name}", f"asking {name} for solutions evaluates some", calls=prob.calls)
    algo.evaluator.eval(prob, infills)
    algo.tell(infills=infills)
    return infills


def ask(algo, prob, mon, name):
    before = prob.calls
    infills = algo.ask()
    mon.check(prob.calls == before, f"ask:{name}", f"asking {name} for solutions evaluates some", calls=prob.calls)
    return infills


def inside(mon, prob, X, name):
    mon.check(bool(np.all((X >= prob.xl) & (X <= prob.xu))), f"bounds:{name}", f"{name} asks for solutions outside of the bounds", X=X)


def one_to_one(mon, before, off, after, name):
    """Every solution is replaced by its trial if and only if the trial is better."""
    X = [tuple(p.X) for p in before]
    seen = set()
    for k, (p, o, n) in enumerate(zip(before, off, after)):
        want = better(o, p)
        # repetitions never enter the population
        repeated = tuple(o.X) in X or tuple(o.X) in seen
        seen.add(tuple(o.X))
        if repeated:
            mon.check(same(n, p) or (want and same(n, o)), f"{name}:replaced", f"{name}: neither the solution nor its trial is kept", k=k)
            continue
        mon.ev("improved" if want else "rejected")
        mon.check(same(n, o if want else p), f"{name}:replaced", f"{name}: a {'better trial does not replace' if want else 'trial that is not better replaces'} its solution", k=k, old=p.F, new=o.F, oldcv=viol(p), newcv=viol(o), kept=n.F)


# ------------------------------------------------------------------------------------------------ differential evolution

def donors(X, first, F, n_diffs, target):
    """All vectors differential evolution may create: base + F * (differences), and whether all the solutions taken are different."""
    n = len(X)
    I = np.array(list(itertools.product(first, *[range(n)] * (2 * n_diffs))))
    D = X[I[:, 0]] + F * (X[I[:, 1]] - X[I[:, 2]])
    if n_diffs == 2:
        D = D + F * (X[I[:, 3]] - X[I[:, 4]])
    S = np.sort(I[:, 1:], axis=1)
    proper = (S[:, 1:] != S[:, :-1]).all(axis=1) & (I[:, 1:] != target).all(axis=1)
    return D, proper


def de(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.de import DE
    prob = problem(rng, 1)
    sel = str(rng.choice(["rand", "best"]))
    cross = str(rng.choice(["bin", "exp", "line", "hypercube"], p=[0.4, 0.25, 0.2, 0.15]))
    n_diffs = int(rng.random() < 0.25) + 1
    if n_diffs == 2:
        cross = "bin"
    n = 12 if n_diffs == 2 else 14
    repeated = 0
    F, CR = float(rng.uniform(0.2, 0.9)), float(rng.uniform(0.1, 0.9))
    steady = n_diffs == 1 and rng.random() < 0.4
    algo = DE(pop_size=n, n_offsprings=int(rng.integers(1, n)) if steady else None, variant=f"DE/{sel}/{n_diffs}/{cross}", F=F, CR=CR, prob_mut=0.0)
    start(mon, algo, prob, case["seed"], "DE")
    width = prob.xu - prob.xl
    for _ in range(case["n_gen"]):
        before = snap(algo.pop)
        X = np.array([p.X for p in before])
        best = [k for k in range(n) if not any(better(o, before[k]) for o in before)]
        off = ask(algo, prob, mon, "DE")
        T = off.get("X")
        index = np.asarray(off.get("index"), int)
        inside(mon, prob, T, "DE")
        mon.check(len(set(index.tolist())) == len(index), "de:index", "DE creates two trials for one solution", index=index)
        for k, x in zip(index, T):
            first = best if sel == "best" else [i for i in range(n) if i != k]
            D, proper = donors(X, first, F, n_diffs, int(k))
            # a donor that leaves the bounds is created anew within them in these coordinates
            free = (D < prob.xl - 1e-12 * width) | (D > prob.xu + 1e-12 * width)
            tol = 1e-9 * (width + np.abs(X).max(axis=0))
            mon.ev("de")
            if n_diffs == 2:
                mon.ev("de_two")
            if cross in ("bin", "exp"):
                kept = x == X[k]
                ok = (np.abs(D - x) <= tol) | free | kept
                fits = ok.all(axis=1)
                mon.check(bool(fits.any()), f"de:trial:{cross}", f"DE/{sel}/{n_diffs}/{cross}: the trial is no combination of its target and a donor base + F * difference", trial=x, target=X[k], F=F)
                if cross == "exp" and not kept.all():
                    mon.ev("de_exp")
                    m = ~kept
                    # the coordinates of the donor are contiguous (circular); a donor may agree by chance with the target only if equal coordinates exist
                    if len({float(v) for v in X[:, 0]}) == n:
                        changes = int(sum(m[j] != m[j - 1] for j in range(len(m))))
                        mon.check(changes <= 2 or bool((np.abs(D - X[k]) <= tol).any()), "de:exp", "exponential crossover takes coordinates that are not contiguous", mask=m)
            else:
                mon.ev("de_line")
                den = D - X[k]
                with np.errstate(all="ignore"):
                    w = (x - X[k]) / den
                slack = tol / np.maximum(np.abs(den), 1e-300)
                okw = free | ((w >= -slack) & (w <= CR + slack)) | ((np.abs(den) <= tol) & (np.abs(x - X[k]) <= tol))
                if cross == "hypercube":
                    fits = okw.all(axis=1)
                else:
                    ww = np.where(free | (np.abs(den) <= tol), np.nan, w)
                    with np.errstate(all="ignore"):
                        lo, hi = np.nanmin(ww - slack, axis=1, initial=np.inf), np.nanmax(ww + slack, axis=1, initial=-np.inf)
                        top, low = np.nanmax(ww - slack, axis=1, initial=-np.inf), np.nanmin(ww + slack, axis=1, initial=np.inf)
                    fits = okw.all(axis=1) & (top <= low + 1e-9)
                mon.check(bool(fits.any()), f"de:trial:{cross}", f"DE/{sel}/{n_diffs}/{cross}: the trial is not between its target and a donor", trial=x, target=X[k], F=F, CR=CR)
            # drawing different solutions is tried ten times
            repeated += not (fits & proper).any()
            mon.check(repeated <= 2, "de:parents", f"DE/{sel}/{n_diffs}/{cross}: the differences are not those of different solutions", times=repeated)
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        after = snap(algo.pop)
        mon.check(len(after) == n, "de:size", "DE changes the size of the population", n=len(after))
        mon.state("de", X)
        if prob.has_constraints():
            mon.ev("constraints")
        one_to_one(mon, [before[i] for i in index], offs, [after[i] for i in index], "DE")
        for i in set(range(n)) - set(index.tolist()):
            mon.check(same(after[i], before[i]), "de:others", "DE changes a solution for which no trial was created", i=i)


def nsde(case, mon, rng):
    from pymoo.algorithms.moo.nsde import NSDE
    from pymoo.algorithms.moo.gde3 import GDE3, GDE3MNN, GDE32NN, GDE3PCD
    cls = [NSDE, GDE3, GDE3, GDE3MNN, GDE32NN, GDE3PCD][int(rng.integers(6))]
    prob = problem(rng, int(rng.choice([2, 2, 3])), tight=rng.random() < 0.3)
    n = 12
    sel = str(rng.choice(["rand", "best", "current-to-best", "current-to-rand", "ranked"]))
    cross = str(rng.choice(["bin", "exp"]))
    F = float(rng.uniform(0.2, 0.9))
    algo = cls(pop_size=n, variant=f"DE/{sel}/1/{cross}", CR=float(rng.uniform(0.1, 0.9)), F=F, gamma=None, **({"de_repair": str(rng.choice(["bounce-back", "midway", "rand-init", "to-bounds"]))} if cls in (NSDE, GDE3) else {}))
    nm = cls.__name__
    start(mon, algo, prob, case["seed"], nm)
    width = prob.xu - prob.xl
    for _ in range(case["n_gen"]):
        before = snap(algo.pop)
        X = np.array([p.X for p in before])
        rank = algo.pop.get("rank")
        off = ask(algo, prob, mon, nm)
        T = off.get("X")
        mon.check(len(T) == n, "nsde:size", f"{nm} does not create one trial for each solution", got=len(T))
        inside(mon, prob, T, nm)
        free_best = [i for i in range(n) if not any(relation(o, before[i]) == 1 for o in before)]
        tol = 1e-9 * (width + np.abs(X).max(axis=0))
        DX = X[:, None, :] - X[None, :, :]
        for k, x in enumerate(T):
            if sel == "rand" or sel == "ranked":
                cand = [(b, a, c) for b, a, c in itertools.permutations([i for i in range(n) if i != k], 3)]
                if sel == "ranked" and all(r is not None for r in rank):
                    cand = [t for t in cand if rank[t[0]] <= rank[t[1]] <= rank[t[2]]]
                I = np.array(cand)
                D = X[I[:, 0]] + F * DX[I[:, 1], I[:, 2]]
            elif sel == "best":
                cand = [(b, a, c) for b in free_best for a, c in itertools.permutations([i for i in range(n) if i != k], 2) if b not in (a, c)]
                I = np.array(cand)
                D = X[I[:, 0]] + F * DX[I[:, 1], I[:, 2]]
            else:
                via = free_best if sel == "current-to-best" else [i for i in range(n) if i != k]
                cand = [(b, a, c) for b in via for a, c in itertools.permutations([i for i in range(n) if i != k], 2)]
                I = np.array(cand)
                D = X[k] + F * (X[I[:, 0]] - X[k]) + F * DX[I[:, 1], I[:, 2]]
            free = (D < prob.xl - 1e-12 * width) | (D > prob.xu + 1e-12 * width)
            ok = (np.abs(D - x) <= tol) | free | (x == X[k])
            mon.ev("nsde")
            mon.check(bool(ok.all(axis=1).any()), f"nsde:trial:{sel}", f"{nm} DE/{sel}/1/{cross}: the trial is no combination of its target and a donor", trial=x, target=X[k], F=F)
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        after = algo.pop
        mon.state("nsde", X)
        if prob.has_constraints():
            mon.ev("constraints")
        if cls is NSDE:
            continue
        mon.ev("gde3")
        pool = []
        for p, o in zip(before, offs):
            r = relation(o, p)
            pool += [o] if r == 1 else [p] if r == -1 else [p, o]
            mon.ev({1: "improved", -1: "rejected", 0: "gde3_pool"}[r])
        ids = [id(i) for i in after]
        allowed = {id(p.ref) for p in pool}
        mon.check(len(after) == min(n, len(pool)), "gde3:size", f"{nm}: wrong number of survivors", got=len(after), pool=len(pool))
        mon.check(set(ids) <= allowed, "gde3:pool", f"{nm}: a solution survives that lost against its trial or its parent", n=len(set(ids) - allowed))
        mon.check(len(set(ids)) == len(ids), "gde3:twice", f"{nm}: a solution survives twice", ids=len(ids))


# ------------------------------------------------------------------------------------------------ particle swarms

def hull(parts):
    lo = sum(np.minimum(a, b) for a, b in parts)
    hi = sum(np.maximum(a, b) for a, b in parts)
    return lo, hi


def in_hull(v, lo, hi, vmax, tol):
    """v is the value of the hull limited by -vmax and vmax."""
    lo, hi = np.clip(lo, -vmax, vmax), np.clip(hi, -vmax, vmax)
    return (v >= lo - tol) & (v <= hi + tol)


def pso(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    prob = problem(rng, 1, tight=rng.random() < 0.4)
    n = int(rng.integers(5, 16))
    adaptive = bool(rng.random() < 0.5)
    kw = dict(w=float(rng.uniform(0.1, 0.95)), c1=float(rng.uniform(0.2, 2.2)), c2=float(rng.uniform(0.2, 2.2)))
    if not adaptive and rng.random() < 0.6:
        for c in ("c1", "c2"):
            if rng.random() < 0.5:
                kw[c] = 0.0
    rate = float(rng.uniform(0.05, 1.0))
    perturb = bool(rng.random() < 0.5)
    init = str(rng.choice(["random", "zero"]))
    algo = PSO(pop_size=n, adaptive=adaptive, max_velocity_rate=rate, pertube_best=perturb, initial_velocity=init, **kw)
    start(mon, algo, prob, case["seed"], "PSO")
    width = prob.xu - prob.xl
    vmax = rate * width
    pos, V = algo.pop.get("X").astype(float), np.array(algo.pop.get("V").tolist(), float)
    mon.check(bool(np.all((V >= 0) & (V <= vmax))) and (init == "random" or not V.any()), "pso:init", "the velocities PSO starts with are out of range", V=V)
    tol = 1e-9 * (width + np.abs(prob.xl))
    for _ in range(case["n_gen"]):
        before = snap(algo.pop)
        P = np.array([p.X for p in before])
        g = [k for k in range(n) if not any(better(o, before[k]) for o in before)]
        w, c1, c2 = algo.w, algo.c1, algo.c2
        off = ask(algo, prob, mon, "PSO")
        T, NV = off.get("X").astype(float), np.array(off.get("V").tolist(), float)
        inside(mon, prob, T, "PSO")
        mon.ev("pso")
        mon.state("pso", pos, V)
        moved = np.zeros(n, bool)
        for k in range(n):
            good = False
            for b in g:
                lo, hi = hull([(w * V[k], w * V[k]), (0 * V[k], c1 * (P[k] - pos[k])), (0 * V[k], c2 * (P[b] - pos[k]))])
                good = good or bool(in_hull(NV[k], lo, hi, vmax, tol).all())
            mon.check(good, "pso:velocity", "the new velocity is no w V + c1 r1 (P - X) + c2 r2 (G - X) limited to the maximum", V=NV[k], old=V[k], X=pos[k], P=P[k], w=w, c1=c1, c2=c2)
            Y = pos[k] + NV[k]
            out = (Y < prob.xl) | (Y > prob.xu)
            moved[k] = bool(np.all((np.abs(T[k] - Y) <= tol) | out))
        # only the best particle may be moved elsewhere by the perturbation
        bad = np.flatnonzero(~moved)
        mon.check(len(bad) == 0 or (perturb and len(bad) == 1 and bad[0] in g), "pso:position", "the new position is not the position plus the velocity", bad=bad, perturb=perturb)
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        sb = before[g[0]].X
        algo.tell(infills=off)
        after = snap(algo.pop)
        if prob.has_constraints():
            mon.ev("constraints")
        one_to_one(mon, before, offs, after, "PSO")
        pos, V = T, NV
        if adaptive and len(g) == 1:
            adapt(mon, algo, prob, np.array([p.X for p in after]), sb, c1, c2)
        elif not adaptive:
            mon.check((algo.w, algo.c1, algo.c2) == (w, c1, c2), "pso:fixed", "PSO changes coefficients that are not adaptive")


def adapt(mon, algo, prob, X, best, c1, c2):
    """The evolutionary factor and the coefficients of adaptive PSO."""
    n = len(X)
    Z = (X - prob.xl) / (prob.xu - prob.xl)
    D = np.array([[math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for q in Z] for p in Z])
    d = D.sum(axis=1) / (n - 1)
    z = (best - prob.xl) / (prob.xu - prob.xl)
    g = np.mean([math.sqrt(sum((a - b) ** 2 for a, b in zip(z, q))) for q in Z])
    if d.max() - d.min() < 1e-9:
        return
    f = (g - d.min()) / (d.max() - d.min())
    mon.ev("pso_adapt")
    mon.check(abs(algo.f - f) <= 1e-6 * (1 + abs(f)), "pso:factor", "the evolutionary factor is not the distance of the best relative to the distances of the others", got=algo.f, want=f)
    f = algo.f
    mon.check(abs(algo.w - 1 / (1 + 1.5 * math.exp(-2.6 * f))) <= 1e-9, "pso:w", "the inertia is not the sigmoid of the evolutionary factor", w=algo.w, f=f)
    mu = [float(np.interp(f, [0.4, 0.6, 0.7, 0.8], [0, 1, 1, 0])), float(np.interp(f, [0.2, 0.3, 0.4, 0.6], [0, 1, 1, 0])), float(np.interp(f, [0.1, 0.3], [1, 0])), float(np.interp(f, [0.7, 0.9], [0, 1]))]
    s = int(algo.strategy)
    mon.check(mu[s - 1] >= max(mu) - 1e-9, "pso:strategy", "the state of the swarm is not the one of the largest membership", strategy=s, membership=mu)
    step = {1: (1, -1), 2: (0.5, -0.5), 3: (0.5, 0.5), 4: (-1, 1)}[s]
    good = sequential = False
    for delta in np.linspace(0.05, 0.1, 401):
        a, b = [min(2.5, max(1.5, c + k * delta)) for c, k in zip((c1, c2), step)]
        if a + b > 4:
            first = 4 * a / (a + b)
            # the second coefficient divided by a sum that contains the first one already divided
            sequential = sequential or (abs(first - algo.c1) <= 3e-4 and abs(4 * b / (first + b) - algo.c2) <= 3e-4)
            a, b = 4 * a / (a + b), 4 * b / (a + b)
        good = good or (abs(a - algo.c1) <= 3e-4 and abs(b - algo.c2) <= 3e-4)
    if sequential and (not good or algo.c1 + algo.c2 > 4 + 1e-9):
        mon.viol("pso:sequential-sum", "the sum of c1 and c2 exceeds four: c2 is divided by the sum with c1 already divided", c1=algo.c1, c2=algo.c2)
        return
    mon.check(good, "pso:coefficients", "c1 and c2 do not follow the state of the swarm", before=(c1, c2), after=(algo.c1, algo.c2), strategy=s)
    mon.check(algo.c1 + algo.c2 <= 4 + 1e-9, "pso:sum", "the sum of c1 and c2 exceeds four", c1=algo.c1, c2=algo.c2)


def pso_equation(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex import pso as m
    n, k = 300, int(rng.integers(1, 5))
    X, P, S = rng.normal(size=(n, k)), rng.normal(size=(n, k)), rng.normal(size=(n, k))
    V = rng.normal(size=(n, k))
    vmax = rng.uniform(0.1, 5, k)
    w, c1, c2 = rng.uniform(0, 2, 3)
    r1, r2 = rng.random((n, k)), rng.random((n, k))
    want = np.clip(w * V + c1 * r1 * (P - X) + c2 * r2 * (S - X), -vmax, vmax)
    Xp, Vp = m.pso_equation(X, P, S, V, vmax, w, c1, c2, r1=r1, r2=r2)
    mon.ev("pso_equation")
    mon.state("eq", X)
    mon.check(np.allclose(Vp, want, rtol=1e-12, atol=1e-12) and np.allclose(Xp, X + want, rtol=1e-12, atol=1e-12), "pso_equation", "the equation of PSO is wrong", w=w, c1=c1, c2=c2)
    big = np.full(k, 1e9)
    for c, kw, Q in [((1.0, 0.0), "c1", P), ((0.0, 1.0), "c2", S)]:
        _, Vp = m.pso_equation(X, P, S, V, big, 0.0, *c, random_state=np.random.default_rng(case["seed"] % 7))
        r = (Vp / (Q - X)).ravel()
        mon.check(bool(np.all((r >= -1e-9) & (r <= 1 + 1e-9))) and abs(r.mean() - 0.5) < 0.12 and 0.2 < r.std() < 0.38, f"pso_equation:{kw}", "the random coefficients of PSO are not uniform in [0, 1]", mean=r.mean(), std=r.std())
    for f in rng.uniform(-0.1, 1.2, 60):
        for fn, xp, fp in [(m.S1_exploration, [0.4, 0.6, 0.7, 0.8], [0, 1, 1, 0]), (m.S2_exploitation, [0.2, 0.3, 0.4, 0.6], [0, 1, 1, 0]), (m.S3_convergence, [0.1, 0.3], [1, 0]), (m.S4_jumping_out, [0.7, 0.9], [0, 1])]:
            mon.check(abs(fn(f) - np.interp(f, xp, fp)) <= 1e-9, "pso:membership", "the membership of the state of the swarm is wrong", f=f, fn=fn.__name__)


def eppso(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO, Swarm
    from pymoo.operators.control import NoParameterControl
    prob = problem(rng, 1, tight=rng.random() < 0.4)
    n = int(rng.integers(5, 14))
    top = str(rng.choice(["star", "ring", "ring"]))
    w, c1, c2 = float(rng.uniform(0.2, 0.9)), float(rng.uniform(0.2, 1.6)), float(rng.uniform(0.2, 1.6))
    rate = float(rng.uniform(0.1, 0.8))
    algo = EPPSO(pop_size=n, topology=top, init_V=str(rng.choice(["zero", "random"])), swarm=Swarm(w=w, c1=c1, c2=c2, V_max=rate, control=NoParameterControl))
    start(mon, algo, prob, case["seed"], "EPPSO")
    width = prob.xu - prob.xl
    tol = 1e-9 * (width + np.abs(prob.xl))
    lb = snap(algo.lbest)
    for _ in range(case["n_gen"]):
        before = snap(algo.pop)
        X, V = algo.swarm.get("X").astype(float), np.array(algo.swarm.get("V").tolist(), float)
        off = ask(algo, prob, mon, "EPPSO")
        T, NV = off.get("X").astype(float), np.array(off.get("V").tolist(), float)
        inside(mon, prob, T, "EPPSO")
        mon.ev("eppso")
        mon.state("eppso", X, V)
        for k in range(n):
            lo, hi = hull([(w * V[k], w * V[k]), (0 * V[k], c1 * (before[k].X - X[k])), (0 * V[k], c2 * (lb[k].X - X[k]))])
            lo, hi = np.clip(lo, -rate * width, rate * width), np.clip(hi, -rate * width, rate * width)
            leaves = (X[k] + lo < prob.xl) | (X[k] + hi > prob.xu)
            mon.check(bool(np.all(((NV[k] >= lo - tol) & (NV[k] <= hi + tol)) | leaves)), "eppso:velocity", "the new velocity is no w V + c1 r1 (P - X) + c2 r2 (L - X) limited to the maximum", V=NV[k], old=V[k], lo=lo, hi=hi)
        mon.check(bool(np.all(np.abs(T - X - NV) <= tol)), "eppso:position", "the new position is not the position plus the velocity", X=X, T=T)
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        after = snap(algo.pop)
        if prob.has_constraints():
            mon.ev("constraints")
        one_to_one(mon, before, offs, after, "EPPSO")
        new = snap(algo.lbest)
        for k in range(n):
            hood = range(n) if top == "star" else [(k - 1) % n, k, (k + 1) % n]
            cand = [lb[k]] + [after[i] for i in hood]
            mon.check(not any(better(c, new[k]) for c in cand) and any(same(c, new[k]) for c in cand), "eppso:local", "the local best is not the best seen in the neighborhood", k=k, topology=top)
        lb = new


def topology(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.pso_ep import get_neighbors
    n = int(rng.integers(3, 20))
    mon.ev("topology")
    mon.state("topology", n)
    star, ring, rnd = [get_neighbors(t, n, random_state=np.random.default_rng(case["seed"])) for t in ("star", "ring", "random")]
    mon.check(all(sorted(map(int, r)) == list(range(n)) for r in star) and len(star) == n, "topology:star", "in a star not everyone is connected", n=n)
    mon.check(len(ring) == n and all(sorted(map(int, r)) == sorted({(k - 1) % n, k, (k + 1) % n}) for k, r in enumerate(ring)), "topology:ring", "in a ring not the two next are connected", n=n)
    mon.check(len(rnd) == n and all(k in list(r) and set(map(int, r)) <= set(range(n)) for k, r in enumerate(rnd)), "topology:random", "random neighbors do not include itself", n=n)


def cmopso(case, mon, rng):
    from pymoo.algorithms.moo.cmopso import CMOPSO
    prob = problem(rng, int(rng.choice([2, 3])), cons=False if rng.random() < 0.7 else None)
    n, ne = int(rng.integers(6, 20)), int(rng.integers(2, 7))
    rate = float(rng.uniform(0.05, 0.6))
    algo = CMOPSO(pop_size=n, elite_size=ne, max_velocity_rate=rate, mutation_rate=0.0, initial_velocity=str(rng.choice(["random", "zero"])))
    start(mon, algo, prob, case["seed"], "CMOPSO")
    width = prob.xu - prob.xl
    vmax = rate * width
    tol = 1e-9 * (width + np.abs(prob.xl))
    for _ in range(case["n_gen"]):
        before = snap(algo.pop)
        X, V = algo.pop.get("X").astype(float), np.array(algo.pop.get("V").tolist(), float)
        L = algo.elites.get("X").astype(float)
        off = ask(algo, prob, mon, "CMOPSO")
        T, NV = off.get("X").astype(float), np.array(off.get("V").tolist(), float)
        inside(mon, prob, T, "CMOPSO")
        mon.ev("cmopso")
        mon.state("cmopso", X, V)
        mon.check(len(T) == len(X), "cmopso:size", "CMOPSO does not move every particle", got=len(T), want=len(X))
        for k in range(len(X)):
            good = any(bool(in_hull(NV[k], *hull([(0 * V[k], V[k]), (0 * V[k], l - X[k])]), vmax, tol).all()) for l in L)
            mon.check(good, "cmopso:velocity", "the new velocity is no r1 V + r2 (W - X) for any of the elites, limited to the maximum", V=NV[k], old=V[k])
            mon.check(bool(np.all(np.abs(np.clip(X[k] + NV[k], prob.xl, prob.xu) - T[k]) <= tol)), "cmopso:position", "the new position is not the position plus the velocity within the bounds", X=X[k], V=NV[k], T=T[k])
        algo.evaluator.eval(prob, off)
        algo.tell(infills=off)
        ids = {id(p.ref) for p in before} | {id(o) for o in off}
        mon.check(len(algo.pop) <= n and all(id(i) in ids for i in algo.pop), "cmopso:pop", "the population is not chosen from the particles before and after the move", size=len(algo.pop))
        if prob.has_constraints():
            mon.ev("constraints")


def cmopso_equation(case, mon, rng):
    from pymoo.algorithms.moo.cmopso import cmopso_equation as eq
    n, k = 500, int(rng.integers(2, 5))
    u = rng.normal(size=k)
    u /= np.linalg.norm(u)
    v = rng.normal(size=k)
    v -= u * (u @ v)
    v /= np.linalg.norm(v)
    X = np.tile(u, (n, 1)) * rng.uniform(1, 2)
    # one elite in the direction of the particle (far away), one across
    L = np.array([u * 50, v * 50 + u * 1e-3])
    big = np.full(k, 1e9)
    Xp, Vp = eq(X, L, np.zeros((n, k)), big, random_state=np.random.default_rng(case["seed"] % 5))
    D = L[:, None, :] - X
    with np.errstate(all="ignore"):
        R = Vp / D
    fits = (((R >= -1e-9) & (R <= 1 + 1e-9)) | (np.abs(D) < 1e-12)).all(axis=2)
    mon.ev("cmopso_equation")
    mon.state("cm", X)
    mon.check(bool(fits.any(axis=0).all()), "cmopso_equation", "a particle does not move towards an elite", n=n)
    only = fits[0] & ~fits[1]
    other = fits[1] & ~fits[0]
    if only.sum() + other.sum() > 300:
        share = only.sum() / (only.sum() + other.sum())
        mon.check(0.66 < share < 0.84, "cmopso_equation:winner", "the elite of the smaller angle does not win the tournament", share=share)
    V = rng.normal(size=(n, k))
    vmax = rng.uniform(0.05, 0.5, k)
    Xp, Vp = eq(X, L[:1], V, vmax, random_state=np.random.default_rng(1))
    lo, hi = hull([(0 * V, V), (0 * V, L[0] - X)])
    mon.check(bool(in_hull(Vp, lo, hi, vmax, 1e-9).all()) and np.allclose(Xp, X + Vp, atol=1e-9), "cmopso_equation:limit", "the velocity exceeds the limit or the position is not moved by it")


def mopso(case, mon, rng):
    from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
    prob = problem(rng, int(rng.choice([2, 3])), cons=False, tight=rng.random() < 0.3)
    n, na = int(rng.integers(5, 16)), int(rng.integers(3, 30))
    w, c1, c2, rate = float(rng.uniform(0.1, 0.9)), float(rng.uniform(0, 2)), float(rng.uniform(0, 2)), float(rng.uniform(0.05, 0.6))
    algo = MOPSO_CD(pop_size=n, w=w, c1=c1, c2=c2, max_velocity_rate=rate, archive_size=na)
    start(mon, algo, prob, case["seed"], "MOPSO_CD")
    width = prob.xu - prob.xl
    vmax, tol = rate * width, 1e-9 * (width + np.abs(prob.xl))
    mon.check(bool(np.all(np.abs(algo.velocities) <= vmax + tol)), "mopso:init", "the velocities MOPSO_CD starts with are out of range")
    for _ in range(case["n_gen"]):
        pb = snap(algo.pbest)
        X, V = algo.pop.get("X").astype(float), np.array(algo.velocities, float)
        L = algo.archive.get("X").astype(float)
        off = ask(algo, prob, mon, "MOPSO_CD")
        T, NV = off.get("X").astype(float), np.array(algo.velocities, float)
        inside(mon, prob, T, "MOPSO_CD")
        mon.ev("mopso")
        mon.state("mopso", X, V)
        for k in range(n):
            good = any(bool(in_hull(NV[k], *hull([(w * V[k], w * V[k]), (0 * V[k], c1 * (pb[k].X - X[k])), (0 * V[k], c2 * (l - X[k]))]), vmax, tol).all()) for l in L)
            mon.check(good, "mopso:velocity", "the new velocity is no w V + c1 r1 (P - X) + c2 r2 (L - X) for any leader of the archive, limited to the maximum", V=NV[k], old=V[k])
        mon.check(bool(np.all(np.abs(np.clip(X + NV, prob.xl, prob.xu) - T) <= tol)), "mopso:position", "the new position is not the position plus the velocity within the bounds")
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        for k, (p, o, a) in enumerate(zip(pb, offs, snap(algo.pbest))):
            r = relation_f(o.F, p.F)
            mon.ev({1: "improved", -1: "rejected", 0: "mopso_tie"}[r])
            mon.check((r == 1 and same(a, o)) or (r == -1 and same(a, p)) or (r == 0 and (same(a, p) or same(a, o))), "mopso:pbest", "the personal best is not the better one of the two", k=k, r=r)
        mon.check(np.array_equal(algo.pop.get("X"), T), "mopso:pop", "the particles are not where they moved to")
        mon.check(len(algo.archive) <= na, "mopso:archive", "the archive exceeds its size", n=len(algo.archive), limit=na)


# ------------------------------------------------------------------------------------------------ evolution strategies

def es(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.es import ES
    from pymoo.algorithms.soo.nonconvex.sres import SRES
    from pymoo.algorithms.soo.nonconvex.isres import ISRES
    cls = [ES, SRES, ISRES][int(rng.integers(3))]
    nm = cls.__name__
    prob = problem(rng, 1, tight=rng.random() < 0.3)
    mu = int(rng.integers(2, 6))
    lam = mu * int(rng.integers(2, 6)) + int(rng.integers(0, 3))
    gamma = 0.85 if cls is ISRES else [None, float(rng.uniform(0.3, 0.9))][int(rng.integers(2))]
    tiny = bool(rng.random() < 0.5) and cls is not ISRES
    algo = cls(pop_size=mu, n_offsprings=lam, gamma=gamma, phi=1e-13 if tiny else float(rng.uniform(0.5, 1.5)))
    start(mon, algo, prob, case["seed"], nm)
    d = prob.n_var
    smax = (prob.xu - prob.xl) / math.sqrt(d)
    width = prob.xu - prob.xl
    tol = 1e-9 * (width + np.abs(prob.xl))
    if cls is ISRES:
        chi = 1 / (2 * d) + 1 / (2 * math.sqrt(d))
        phi = math.sqrt(2 / chi * math.log((1 / algo.alpha) * (math.exp(algo.phi ** 2 * chi / 2) - (1 - algo.alpha))))
    else:
        phi = algo.phi
    mon.check(abs(algo.tau - phi / math.sqrt(2 * math.sqrt(d))) <= 1e-9 * phi and abs(algo.taup - phi / math.sqrt(2 * d)) <= 1e-9 * phi, "es:rates", "the learning rates of the step sizes are wrong", tau=algo.tau, taup=algo.taup)
    for _ in range(case["n_gen"]):
        X, S = algo.pop.get("X").astype(float), np.array(algo.pop.get("sigma").tolist(), float)
        m = len(X)
        mon.check(bool(np.all(S <= smax * (1 + 1e-12)) and np.all(S > 0)), "es:sigma", f"{nm}: a step size is not between zero and the maximum", S=S)
        off = ask(algo, prob, mon, nm)
        T, NS = off.get("X").astype(float), np.array(off.get("sigma").tolist(), float)
        inside(mon, prob, T, nm)
        mon.ev({"ES": "es", "SRES": "sres", "ISRES": "isres"}[nm])
        mon.state(nm, X, S)
        mon.check(len(T) == lam, "es:number", f"{nm} does not create the number of offspring set", got=len(T), want=lam)
        mon.check(bool(np.all(NS <= smax * (1 + 1e-12)) and np.all(NS > 0)), "es:sigma", f"{nm}: a step size is not between zero and the maximum", S=NS)
        if gamma is not None and m == mu:
            for k in range(mu - 1):
                Y = X[k] + gamma * (X[0] - X[k + 1])
                out = (Y < prob.xl) | (Y > prob.xu)
                mon.check(bool(np.all((np.abs(T[k] - Y) <= tol) | out)) and np.allclose(NS[k], S[k], rtol=1e-12), "es:differential", f"{nm}: the first offspring do not follow the differential X + gamma (X0 - Xi)", k=k, got=T[k], want=Y)
        I = np.arange(lam) % m
        rest = np.arange(lam) if gamma is None else np.arange(mu - 1, lam)
        if tiny:
            # without any learning the step sizes are the mean of two of them
            for k in rest:
                P = S[I]
                ok = np.array([np.any(np.abs(np.minimum(smax[j], (P[k, j] + P[:, j]) / 2) - NS[k, j]) <= 1e-7 * NS[k, j]) for j in range(d)])
                mon.check(bool(ok.all()), "es:recombination", f"{nm}: the step size is not the mean of those of two parents", k=k)
        # steps are not larger than what a normal distribution gives
        Z = np.abs(T[rest] - X[I[rest]]) / (NS[rest] if cls is not ISRES else smax)
        mon.check(bool(np.all(Z <= 7.5)), "es:step", f"{nm}: an offspring is farther from its parent than its step size allows", largest=Z.max())
        if cls is ISRES:
            # smoothing: the step size moves only a fraction alpha towards the new one
            late = np.arange(lam) >= mu
            mon.check(bool(np.all(NS[late] >= (1 - algo.alpha) * S[I[late]] * (1 - 1e-9)) and np.all(NS[late] <= S[I[late]] + algo.alpha * (smax - S[I[late]]) + 1e-9 * smax)), "es:smoothing", "ISRES does not smooth the step sizes")
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        after = snap(algo.pop)
        if prob.has_constraints():
            mon.ev("constraints")
        ids = {id(o.ref) for o in offs}
        mon.check(len(after) == mu and all(id(a.ref) in ids for a in after) and len({id(a.ref) for a in after}) == mu, "es:comma", f"{nm}: the parents are not chosen among the offspring", n=len(after))
        if cls is ES or not prob.has_constraints():
            kept = {id(a.ref) for a in after}
            lost = [o for o in offs if id(o.ref) not in kept]
            mon.check(not any(better(o, a) for o in lost for a in after), "es:best", f"{nm}: a better offspring does not survive")
            mon.check(not any(better(b, a) for a, b in zip(after[:-1], after[1:])), "es:order", f"{nm}: the parents are not ordered")


def es_functions(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.es import es_sigma, es_mut_repair, es_intermediate_recomb
    n, d = 3000, int(rng.integers(2, 6))
    S = rng.uniform(0.5, 2, (n, d))
    tau, taup = float(rng.uniform(0.1, 0.6)), float(rng.uniform(0.1, 0.6))
    R = np.log(es_sigma(S, tau, taup, random_state=np.random.default_rng(case["seed"] % 6)) / S)
    mon.ev("es_sigma")
    mon.state("es_sigma", S)
    row = R.mean(axis=1, keepdims=True)
    inner = float(((R - row) ** 2).sum() / (n * (d - 1)))
    total = float((R ** 2).mean())
    mon.check(abs(inner / tau ** 2 - 1) < 0.15 and abs(total / (tau ** 2 + taup ** 2) - 1) < 0.15 and abs(R.mean()) < 0.05, "es_sigma", "the step sizes do not change by exp(tau' N(0,1) + tau N_i(0,1))", inner=inner, total=total, tau=tau, taup=taup)
    few = rng.uniform(0.5, 2, (6, d))
    M = es_intermediate_recomb(few, random_state=np.random.default_rng(case["seed"] % 11))
    ok = all(np.any(np.abs((few[i, j] + few[:, j]) / 2 - M[i, j]) <= 1e-12) for i in range(6) for j in range(d))
    mon.check(ok, "es_recombination", "a step size is not the mean of two of the same variable")
    xl, xu = np.zeros(d), np.ones(d)
    X = rng.random((50, d))
    big = np.full((50, d), float(rng.choice([0.3, 1.0, 30.0])))
    Xp = X + big * rng.normal(size=(50, d))
    good = (Xp >= 0) & (Xp <= 1)
    Y = es_mut_repair(Xp.copy(), X, big, xl, xu, 10, random_state=np.random.default_rng(case["seed"] % 11))
    mon.check(bool(np.all((Y >= 0) & (Y <= 1)) and np.array_equal(Y[good], Xp[good])), "es_repair", "repairing changes values within the bounds or leaves some outside")


# ------------------------------------------------------------------------------------------------ genetic algorithms

def brkga(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    multi = rng.random() < 0.25
    prob = problem(rng, 2 if multi else 1, cons=False if multi else None)
    ne, no, nmut = int(rng.integers(2, 7)), int(rng.integers(4, 14)), int(rng.integers(1, 5))
    bias = float(rng.choice([0.6, 0.75, 0.9]))
    algo = BRKGA(n_elites=ne, n_offsprings=no, n_mutants=nmut, bias=bias)
    start(mon, algo, prob, case["seed"], "BRKGA")
    taken, expected = [0, 0], 0.0
    for _ in range(case["n_gen"]):
        pop = snap(algo.pop)
        types = [i.get("type") for i in algo.pop]
        elites = [p for p, t in zip(pop, types) if t == "elite"]
        others = [p for p, t in zip(pop, types) if t == "non_elite"]
        mon.check(len(elites) + len(others) == len(pop), "brkga:types", "a solution is neither elite nor not", types=types)
        if multi:
            mon.ev("brkga_multi")
            mon.check(not any(relation(p, e) == 1 for p in pop for e in elites) and all(any(relation(p, o) == 1 for p in pop) for o in others), "brkga:elites", "the elites are not the non-dominated solutions")
        else:
            mon.check(len(elites) == min(ne, len(pop)) and not any(better(o, e) for o in others for e in elites), "brkga:elites", "the elites are not the best solutions", n=len(elites))
        off = ask(algo, prob, mon, "BRKGA")
        T = off.get("X").astype(float)
        inside(mon, prob, T, "BRKGA")
        mon.ev("brkga")
        mon.state("brkga", T)
        mon.check(nmut <= len(T) <= no + nmut, "brkga:number", "the number of offspring and mutants is wrong", got=len(T), want=no + nmut)
        E, N = np.array([e.X for e in elites]), np.array([o.X for o in (others or elites)])
        for x in T[:len(T) - nmut]:
            fits = (x == E[:, None, :]) | (x == N[None, :, :])
            good = fits.all(axis=2)
            mon.check(bool(good.any()), "brkga:crossover", "an offspring is not a mixture of an elite and a solution that is not", x=x)
            if good.sum() == 1:
                i, j = np.argwhere(good)[0]
                diff = E[i] != N[j]
                taken[0] += int((x == E[i])[diff].sum())
                taken[1] += int(diff.sum())
                # a copy of the elite is a duplicate and does not stay
                k = int(diff.sum())
                expected += k * (bias - bias ** k) / (1 - bias ** k) if k else 0.0
        fresh = T[len(T) - nmut:]
        A = np.array([p.X for p in pop])
        mon.check(not any((m == A).all(axis=1).any() for m in fresh), "brkga:mutants", "a mutant is a copy of a solution")
        algo.evaluator.eval(prob, off)
        algo.tell(infills=off)
        want = {id(e.ref) for e in elites} | {id(o) for o in off}
        got = [id(i) for i in algo.pop]
        mon.check(set(got) == want and len(got) == len(want), "brkga:next", "the next population is not the elites with the offspring and mutants", got=len(got), want=len(want))
        if prob.has_constraints():
            mon.ev("constraints")
    if taken[1] >= 60:
        p, e = taken[0] / taken[1], expected / taken[1]
        s = 0.5 / math.sqrt(taken[1])
        mon.check(e - 5 * s <= p <= e + 5 * s + 0.1, "brkga:bias", "genes do not come from the elite with the bias set", share=p, want=e, bias=bias, n=taken[1])


def g3pcx(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    prob = problem(rng, 1)
    n, no, fam = int(rng.integers(8, 30)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    algo = G3PCX(pop_size=n, n_offsprings=no, family_size=fam)
    start(mon, algo, prob, case["seed"], "G3PCX")
    for _ in range(case["n_gen"] * 8):
        before = snap(algo.pop)
        mon.check(not any(better(p, before[0]) for p in before), "g3pcx:best", "the first solution is not the best", F=[p.F for p in before])
        off = ask(algo, prob, mon, "G3PCX")
        if off is None or len(off) == 0:
            break
        mon.ev("g3pcx")
        T = off.get("X").astype(float)
        inside(mon, prob, T, "G3PCX")
        mon.check(len(off) == no, "g3pcx:number", "the number of offspring is wrong", got=len(off), want=no)
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        after = snap(algo.pop)
        mon.state("g3pcx", T)
        ids0, ids1 = {id(p.ref) for p in before}, [id(p.ref) for p in after]
        gone = [p for p in before if id(p.ref) not in ids1]
        came = [p for p in after if id(p.ref) not in ids0]
        refused = [o for o in offs if id(o.ref) not in ids1]
        mon.check(len(ids1) == n and len(set(ids1)) == n, "g3pcx:size", "solutions are lost or repeated", n=len(set(ids1)))
        mon.check(all(any(c.ref is o.ref for o in offs) for c in came) and len(came) == len(gone) <= fam, "g3pcx:family", "more solutions than the family are replaced", came=len(came), gone=len(gone), family=fam)
        mon.check(not any(better(g, c) for g in gone for c in came), "g3pcx:worse", "a solution is replaced by a worse offspring")
        # the offspring refused are beaten by all that were chosen from the family
        mon.check(not any(better(r, c) for r in refused for c in came), "g3pcx:refused", "a better offspring is refused for a worse one")
        if refused and len(came) < min(fam, no):
            stay = sum(not better(r, p) for r in refused[:1] for p in before)
            mon.check(stay >= fam - len(came), "g3pcx:refused", "an offspring is refused though it is better than everybody", refused=refused[0].F)
        mon.ev("improved" if came else "rejected")
        if prob.has_constraints():
            mon.ev("constraints")


def nrbo(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.nrbo import NRBO
    prob = problem(rng, 1, tight=rng.random() < 0.3)
    n = int(rng.integers(4, 16))
    algo = NRBO(pop_size=n, max_iteration=int(rng.choice([10, 40])), deciding_factor=float(rng.choice([0.0, 0.6, 1.0])))
    start(mon, algo, prob, case["seed"], "NRBO")
    for _ in range(case["n_gen"]):
        before = snap(algo.pop)
        off = ask(algo, prob, mon, "NRBO")
        T = off.get("X").astype(float)
        inside(mon, prob, T, "NRBO")
        mon.ev("nrbo")
        mon.state("nrbo", T)
        mon.check(len(off) == n, "nrbo:number", "NRBO does not move every solution", got=len(off))
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        one_to_one(mon, before, offs, snap(algo.pop), "NRBO")
        if prob.has_constraints():
            mon.ev("constraints")


# ------------------------------------------------------------------------------------------------ decomposition

def moead(case, mon, rng):
    from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
    from pymoo.util.ref_dirs import get_reference_directions
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.weighted_sum import WeightedSum
    m = int(rng.choice([2, 3]))
    prob = problem(rng, m, cons=False, tight=rng.random() < 0.3)
    W = get_reference_directions("das-dennis", m, n_partitions=int(rng.integers(6, 15)) if m == 2 else int(rng.integers(3, 5)))
    n, k = len(W), int(rng.integers(3, 7))
    how = str(rng.choice(["default", "tcheb", "pbi", "sum"]))
    dec = {"default": None, "tcheb": Tchebicheff(), "pbi": PBI(), "sum": WeightedSum()}[how]
    parallel = rng.random() < 0.3
    kw = dict(n_offsprings=int(rng.integers(1, n + 1))) if parallel else {}
    algo = (ParallelMOEAD if parallel else MOEAD)(W, n_neighbors=k, decomposition=dec, prob_neighbor_mating=float(rng.choice([0.0, 0.5, 1.0])), **kw)
    nm = type(algo).__name__
    start(mon, algo, prob, case["seed"], nm, 100)
    used = "tcheb" if how == "tcheb" or (how == "default" and m == 2) else "sum" if how == "sum" else "pbi"

    def g(F, w, z):
        if used == "sum":
            return float(sum(a * b for a, b in zip(F, w)))
        if used == "tcheb":
            return max(abs(a - c) * b for a, b, c in zip(F, w, z))
        u = w / np.linalg.norm(w)
        d1 = float((F - z) @ u)
        return d1 + 5.0 * float(np.linalg.norm(F - z - d1 * u))

    hood = np.asarray(algo.neighbors, int)
    D = np.array([[math.dist(a, b) for b in W] for a in W])
    for i in range(n):
        far = D[i][hood[i]].max()
        mon.check(i in hood[i] and len(set(hood[i].tolist())) == k and int((D[i] < far - 1e-9).sum()) <= k and all(D[i][j] <= far + 1e-9 for j in hood[i]) and
                  np.allclose(sorted(D[i][hood[i]]), sorted(D[i])[:k], atol=1e-9), "moead:neighbors", "the neighbors are not the closest reference directions", i=i)
    z = np.array([p.F for p in snap(algo.pop)]).min(axis=0)
    left = None
    steps = case["n_gen"] * (4 if parallel else 2 * n)
    for _ in range(steps):
        before = list(algo.pop)
        Fb = np.array([np.array(i.F, float) for i in before])
        mon.check(np.array_equal(np.asarray(algo.ideal, float), z), "moead:ideal", f"{nm}: the ideal point is not the best of every objective seen", got=algo.ideal, want=z)
        off = ask(algo, prob, mon, nm)
        offs = list(off) if parallel else [off]
        inside(mon, prob, np.array([o.X for o in offs], float), nm)
        algo.evaluator.eval(prob, off)
        z = np.minimum(z, np.array([o.F for o in offs]).min(axis=0))
        idx = np.array(algo.indices, int) if parallel else None
        algo.tell(infills=off)
        after = list(algo.pop)
        mon.ev("pmoead" if parallel else "moead")
        mon.state("moead", Fb)
        if parallel:
            cur = list(before)
            unsure = set()
            for o, i in zip(offs, idx):
                for j in hood[i]:
                    a, b = g(np.array(o.F), W[j], z), g(np.array(cur[j].F), W[j], z)
                    if abs(a - b) <= 1e-9 * (1 + abs(b)) and a != b:
                        unsure.add(int(j))
                    if a < b:
                        cur[j] = o
            mon.check(len(set(idx.tolist())) == len(idx), "moead:indices", "a subproblem is treated twice in one iteration", idx=idx)
            mon.check(all(after[j] is cur[j] for j in range(n) if j not in unsure), "moead:replaced", f"{nm}: the offspring do not replace exactly the neighbors they are better than", how=used)
            continue
        o = offs[0]
        changed = {j for j in range(n) if after[j] is not before[j]}
        mon.check(all(after[j] is o for j in changed), "moead:foreign", "a solution is replaced by something else than the offspring")
        a, b = np.array([g(np.array(o.F), W[j], z) for j in range(n)]), np.array([g(Fb[j], W[j], z) for j in range(n)])
        sure = {j for j in range(n) if a[j] < b[j] - 1e-9 * (1 + abs(b[j]))}
        maybe = {j for j in range(n) if a[j] <= b[j] + 1e-9 * (1 + abs(b[j]))}
        fits = {i for i in range(n) if (sure & set(hood[i].tolist())) <= changed <= (maybe & set(hood[i].tolist()))}
        mon.check(bool(fits), "moead:replaced", f"{nm}: the offspring does not replace exactly the neighbors of one subproblem it is better for", changed=sorted(changed), better=sorted(sure), how=used)
        if changed:
            mon.ev("moead_replace")
        left = [fits] if left is None or len(left) >= n else left + [fits]
        if len(left) == n:
            # every subproblem is treated once in an iteration
            mon.check(matching(left, n), "moead:each", "a subproblem is left out in an iteration", n=n)
            mon.ev("moead_cycle")


def matching(sets, n):
    owner = {}

    def place(i, seen):
        for j in sets[i]:
            if j in seen:
                continue
            seen.add(j)
            if j not in owner or place(owner[j], seen):
                owner[j] = i
                return True
        return False

    return all(place(i, set()) for i in range(len(sets)))


def neighborhood(case, mon, rng):
    from pymoo.algorithms.moo.moead import NeighborhoodSelection
    from pymoo.core.population import Population
    n, k, p = int(rng.integers(8, 30)), int(rng.integers(2, 7)), int(rng.integers(1, 3))
    pop = Population.new(X=rng.random((n, 2)))
    hood = np.array([rng.choice(n, k, replace=False) for _ in range(200)])
    mon.ev("neighborhood")
    mon.state("hood", hood)
    for prob in (0.0, 0.5, 1.0):
        P = NeighborhoodSelection(prob=prob).do(None, pop, 200, p, neighbors=hood, to_pop=False, random_state=np.random.default_rng(case["seed"] % 9))
        P = np.asarray(P, int)
        mon.check(P.shape == (200, p) and bool(np.all((P >= 0) & (P < n))) and all(len(set(r.tolist())) == p for r in P), "neighborhood", "parents are repeated or do not exist", shape=P.shape)
        share = np.mean([set(r.tolist()) <= set(h.tolist()) for r, h in zip(P, hood)])
        chance = np.prod([(k - i) / (n - i) for i in range(p)])
        want = prob + (1 - prob) * chance
        mon.check(abs(share - want) <= 0.17 and (prob < 1 or share == 1), "neighborhood:prob", "parents are not taken from the neighborhood with the probability set", share=share, want=want)


# ------------------------------------------------------------------------------------------------ selection among parents and offspring

def mulambda(case, mon, rng):
    from pymoo.util.ref_dirs import get_reference_directions
    name = str(rng.choice(["GA", "NSGA2", "NSGA3", "UNSGA3", "SMSEMOA", "AGEMOEA", "AGEMOEA2", "SPEA2", "RNSGA2", "RVEA", "CTAEA", "NSDE"]))
    m = 1 if name == "GA" else int(rng.choice([2, 2, 3]))
    prob = problem(rng, m, tight=rng.random() < 0.3)
    n = int(rng.integers(8, 24))
    off_size = int(rng.choice([1, n // 2, n, 2 * n])) if rng.random() < 0.6 else None
    W = get_reference_directions("das-dennis", m, n_partitions=n - 1 if m == 2 else 4) if m > 1 else None
    if name in ("NSGA3", "UNSGA3", "RVEA", "CTAEA"):
        n = len(W)
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.moo.nsga3 import NSGA3
    from pymoo.algorithms.moo.unsga3 import UNSGA3
    from pymoo.algorithms.moo.sms import SMSEMOA
    from pymoo.algorithms.moo.age import AGEMOEA
    from pymoo.algorithms.moo.age2 import AGEMOEA2
    from pymoo.algorithms.moo.spea2 import SPEA2
    from pymoo.algorithms.moo.rnsga2 import RNSGA2
    from pymoo.algorithms.moo.rvea import RVEA
    from pymoo.algorithms.moo.ctaea import CTAEA
    from pymoo.algorithms.moo.nsde import NSDE
    kw = dict(pop_size=n) if name not in ("CTAEA",) else {}
    if off_size is not None and name not in ("CTAEA", "NSDE"):
        kw["n_offsprings"] = off_size
    algo = dict(GA=lambda: GA(**kw), NSGA2=lambda: NSGA2(**kw), NSGA3=lambda: NSGA3(W, **kw), UNSGA3=lambda: UNSGA3(W, **kw), SMSEMOA=lambda: SMSEMOA(**kw), AGEMOEA=lambda: AGEMOEA(**kw), AGEMOEA2=lambda: AGEMOEA2(**kw),
                SPEA2=lambda: SPEA2(**kw), RNSGA2=lambda: RNSGA2(rng.random((2, m)), **kw), RVEA=lambda: RVEA(W, **kw), CTAEA=lambda: CTAEA(W), NSDE=lambda: NSDE(**kw))[name]()
    start(mon, algo, prob, case["seed"], name)
    for _ in range(case["n_gen"]):
        before = snap(algo.pop)
        off = ask(algo, prob, mon, name)
        if off is None or len(off) == 0:
            break
        T = off.get("X").astype(float)
        inside(mon, prob, T, name)
        mon.ev("mulambda")
        mon.state("mulambda", T)
        if name not in ("CTAEA", "NSDE"):
            mon.check(len(off) <= (off_size or n), "select:number", f"{name} asks for more than the number of offspring set", got=len(off))
        if name != "NSDE":
            A = [tuple(x) for x in T] + [tuple(p.X) for p in before]
            mon.check(len(set(A)) >= len(T) + len({tuple(p.X) for p in before}), "select:duplicates", f"{name} asks for a solution it knows", n=len(T))
        algo.evaluator.eval(prob, off)
        offs = snap(off)
        algo.tell(infills=off)
        after = snap(algo.pop)
        if prob.has_constraints():
            mon.ev("constraints")
        pool = {id(p.ref): p for p in before + offs}
        ids = [id(a.ref) for a in after]
        if name == "CTAEA":
            mon.check(all(i in pool for i in ids), "select:foreign", f"{name}: a solution that was never a candidate is in the population")
            continue
        mon.check(all(i in pool for i in ids) and len(set(ids)) == len(ids), "select:foreign", f"{name}: a solution that was never a candidate, or one twice, is in the population")
        if name != "RVEA":
            mon.check(len(after) == min(n, len(pool)) or (name in ("NSGA3", "UNSGA3") and len(after) <= n), "select:size", f"{name}: wrong number of survivors", got=len(after), want=min(n, len(pool)))
        lost = [p for i, p in pool.items() if i not in set(ids)]
        mon.ev("improved" if any(id(o.ref) in set(ids) for o in offs) else "rejected")
        if name in ("RVEA",):
            continue
        if name == "GA":
            mon.check(not any(better(l, a) for l in lost for a in after), "select:best", "GA: a better solution is lost for a worse one")
            continue
        fl, fa = [p for p in lost if viol(p) == 0], [p for p in after if viol(p) == 0]
        if len(fa) < len(after):
            mon.check(not fl, "select:feasible", f"{name}: a feasible solution is lost while infeasible ones stay", lost=len(fl))
            continue
        feas = fl + fa
        if not feas:
            continue
        rank = fronts(np.array([p.F for p in feas]))
        low, top = [rank[i] for i in range(len(fl))], [rank[i] for i in range(len(fl), len(feas))]
        if name == "SPEA2":
            ok = not (min(low, default=1) == 0 and max(top) > 0)
        else:
            ok = not low or min(low) >= max(top)
        mon.check(ok, "select:rank", f"{name}: a solution of a better front is lost for one of a worse front", lost=low, kept=max(top))


def fronts(F):
    rank, left, r = np.full(len(F), -1), list(range(len(F))), 0
    while left:
        best = [i for i in left if not any(relation_f(F[j], F[i]) == 1 for j in left)]
        rank[best] = r
        left = [i for i in left if i not in set(best)]
        r += 1
    return rank


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(de=de, nsde=nsde, pso=pso, pso_equation=pso_equation, eppso=eppso, topology=topology, cmopso=cmopso, cmopso_equation=cmopso_equation, mopso=mopso, es=es, es_functions=es_functions, brkga=brkga, g3pcx=g3pcx,
         nrbo=nrbo, moead=moead, mulambda=mulambda, neighborhood=neighborhood)[case["kind"]](case, mon, rng)
