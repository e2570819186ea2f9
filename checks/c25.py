"""C25: every decomposition function equals its definition, and MOEA/D replaces by it."""
import numpy as np
from vlib import gen

RULE = ("point sets of 17 families and weights (random, simplex, unit vectors, with zeros, several memory layouts) are scalarised by every method with every pairing (one-to-one, one-to-many, many-to-one, many-to-many, automatic), "
        "with and without ideal, utopian and nadir point, repeatedly on one object, and every value is compared with a direct implementation; dominated points are compared with the points dominating them; "
        "the replacements of MOEA/D runs are replayed with the definition; distinct states are different (method, pairing, value)")
REQUIRED = ["values", "one_to_one", "one_to_many", "many_to_one", "many_to_many", "auto", "constructed_type", "unmodified", "monotone", "reused", "refused", "replacements", "replaced", "kept", "minimisers"]
ASSUMPTIONS = ["finite values, weight vectors with at least one positive component", "values agree up to a relative error of 1e-9 of the terms they are made of"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 125])
    q = tier == "quick"
    out = [dict(kind="values", seed=int(rng.integers(1, 10 ** 9)), n=50 if q else 150) for _ in range(24 if q else 250)]
    for alg in ("MOEAD", "ParallelMOEAD"):
        for deco in ("default", "pbi", "tche", "ws", "asf", "aasf"):
            for _ in range(1 if q else 8):
                out.append(dict(kind="moead", alg=alg, deco=deco, seed=int(rng.integers(1, 10 ** 9)), m=int(rng.choice([2, 3])), nb=int(rng.choice([2, 3, 5, 20, 50]))))
    return out


def scalar(name, f, w, u, o):
    """Definition for one point and one weight vector: (value, size of its terms)."""
    f, w, u = [np.array(v, dtype=float) for v in (f, w, u)]
    d = f - u
    if name == "WeightedSum":
        t = [float(a * b) for a, b in zip(f, w)]
        return sum(t), sum(map(abs, t))
    if name == "Tchebicheff":
        t = [abs(float(a)) * float(b) for a, b in zip(d, w)]
        return max(t), max(map(abs, t))
    if name in ("ASF", "AASF"):
        w0 = o.get("weight_0", 1e-10)
        t = [float(a) / float(b if b != 0 else w0) for a, b in zip(d, w)]
        v, s = max(t), max(map(abs, t))
        if name == "AASF":
            e = [float(a) / max(float(b), 1e-12) for a, b in zip(d, w)]
            v, s = v + o["rho"] * sum(e), s + abs(o["rho"]) * sum(map(abs, e))
        return v, s
    nw = float(np.sqrt(sum(float(b) ** 2 for b in w)))
    d1 = sum(float(a * b) for a, b in zip(d, w)) / nw
    d2 = float(np.sqrt(sum((float(a) - d1 * float(b) / nw) ** 2 for a, b in zip(d, w))))
    s = float(np.sqrt(sum(float(a) ** 2 for a in d)))
    if name == "PBI":
        return d1 + o.get("theta", 5) * d2, (1 + abs(o.get("theta", 5))) * s
    return d2, s


def weights(rng, k, m):
    kind = str(rng.choice(["random", "simplex", "unit", "zeros", "scaled", "equal"]))
    W = rng.random((k, m)) + 1e-3
    if kind == "simplex":
        W = W / W.sum(axis=1, keepdims=True)
    elif kind == "unit":
        W = np.eye(m)[rng.integers(0, m, k)]
    elif kind == "zeros":
        W[rng.random((k, m)) < 0.4] = 0.0
        W[W.sum(axis=1) == 0, 0] = 1.0
    elif kind == "scaled":
        W = W * 100.0
    elif kind == "equal":
        W = np.full((k, m), 1.0 / m)
    return W, kind


def make(rng, name, o, type_):
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.perp_dist import PerpendicularDistance
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    kw = {}
    if rng.random() < 0.5:
        o["eps"] = kw["eps"] = float(rng.choice([0.0, 1e-6, 0.5]))
    if type_:
        kw["_type"] = type_
    if name == "AASF":
        o.setdefault("eps", 1e-10)
        if rng.random() < 0.5:
            kw["rho"] = o["rho"] = float(rng.choice([0.0, 1e-4, 0.1, 2.0]))
        else:
            beta = float(rng.choice([0.0, 1.0, 5.0, 30.0]))
            kw["beta"] = beta
            o["rho"] = 1.0 / (1.0 - np.tan(np.deg2rad(beta))) - 1.0
        return AASF(**kw)
    if name == "PBI" and rng.random() < 0.7:
        kw["theta"] = o["theta"] = float(rng.choice([0.0, 0.1, 1.0, 5.0, 50.0]))
    return dict(WeightedSum=WeightedSum, Tchebicheff=Tchebicheff, ASF=ASF, PBI=PBI, PerpendicularDistance=PerpendicularDistance)[name](**kw)


NAMES = ["WeightedSum", "Tchebicheff", "ASF", "AASF", "PBI", "PerpendicularDistance"]
TYPES = ["one_to_one", "one_to_many", "many_to_one", "many_to_many"]


def run_values(case, mon):
    from vlib.kernels import layout
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        name, m = str(rng.choice(NAMES)), int(rng.integers(2, 6))
        o = {}
        ctor_type = str(rng.choice(TYPES)) if rng.random() < 0.2 else None
        D = make(rng, name, o, ctor_type)
        for use in range(3):
            while True:
                F, kind = gen.matrix(rng, nmax=15, m=m)
                if np.isfinite(F).all():
                    break
            n = len(F)
            W, wkind = weights(rng, int(rng.choice([1, 2, n, 7])), m)
            type_ = ctor_type or str(rng.choice(TYPES))
            auto = ctor_type is None and rng.random() < 0.4
            if auto:        # the documented rules
                a, b = len(F) == 1, len(W) == 1
                type_ = "one_to_many" if a and not b else "many_to_one" if b and not a else "one_to_one" if not a and len(F) == len(W) else "many_to_many"
            elif type_ == "one_to_one":
                W, wkind = weights(rng, n, m)
            elif type_ == "one_to_many":
                F = F[:1]
            elif type_ == "many_to_one":
                W = W[:1]
            n, k = len(F), len(W)
            kw, pts = {}, {}
            if rng.random() < 0.5:
                kw["ideal_point"] = F.min(axis=0) if rng.random() < 0.6 else rng.normal(size=m)
            if rng.random() < 0.4:
                kw["utopian_point"] = (kw["ideal_point"] if "ideal_point" in kw else F.min(axis=0)) - rng.random(m)
            if rng.random() < 0.2:
                kw["nadir_point"] = F.max(axis=0) + 1
            call = dict(o)
            if name in ("ASF", "AASF") and rng.random() < 0.3:
                kw["weight_0"] = call["weight_0"] = float(rng.choice([1e-6, 0.01]))
            u = kw.get("utopian_point", kw.get("ideal_point", np.zeros(m)) - o.get("eps", 0.0))
            Fa, Wa = layout(rng, F), layout(rng, W)
            if n == 1 and rng.random() < 0.5:
                Fa = F[0].copy()
            if k == 1 and rng.random() < 0.5:
                Wa = W[0].copy()
            if rng.random() < 0.15 and kind in ("int", "binary"):
                Fa = Fa.astype(int)
            if rng.random() < 0.15 and wkind == "unit":
                Wa = Wa.astype(int)
            before = [Fa.copy(), Wa.copy()] + [np.copy(v) for v in kw.values()]
            given = {} if auto or ctor_type else dict(_type=type_)
            V = D.do(Fa, Wa, **given, **kw) if rng.random() < 0.5 else D(Fa, weights=Wa, **given, **kw)
            mon.ev("unmodified")
            mon.check(all(np.array_equal(a, b) for a, b in zip(before, [Fa, Wa] + list(kw.values()))), f"modified:{name}", f"{name} changes what it is given")
            pairs = {"one_to_one": [(i, i) for i in range(n)], "one_to_many": [(0, j) for j in range(k)], "many_to_one": [(i, 0) for i in range(n)], "many_to_many": [(i, j) for i in range(n) for j in range(k)]}[type_]
            shape = (n, k) if type_ == "many_to_many" else (len(pairs),)
            mon.ev(type_)
            mon.ev("auto", auto)
            mon.ev("constructed_type", bool(ctor_type))
            mon.ev("reused", use > 0)
            if not mon.check(np.shape(V) == shape, f"shape:{name}", f"{name} {type_}{' (auto)' if auto else ''} of {np.shape(Fa)} and {np.shape(Wa)} has shape {np.shape(V)} instead of {shape}"):
                continue
            for (i, j), v in zip(pairs, np.ravel(V)):
                want, size = scalar(name, F[i], W[j], u, call)
                s0 = max(float(np.max(np.abs(F[i]))), float(np.max(np.abs(u))))     # what the subtraction rounds
                wmin = 1.0
                if name in ("ASF", "AASF"):
                    w = np.where(W[j] == 0, call.get("weight_0", 1e-10), W[j])
                    wmin = float(w.min()) if name == "ASF" else min(float(w.min()), max(float(W[j].min()), 1e-12))
                wmax = max(1.0, float(np.max(W[j]))) * (1 + abs(call.get("theta", 5)) if name == "PBI" else 1 + abs(call.get("rho", 0)))
                tol = 1e-9 * size + 1e-14 * s0 * wmax * m / wmin + 1e-300
                mon.ev("values")
                mon.check(abs(float(v) - want) <= tol, f"value:{name}:{type_}", lambda: f"{name} {type_} of {F[i]} with {W[j]} and {kw}, {o} is {v!r} instead of {want!r}", options=call)
            mon.state(name, type_, V)

            # ---- a dominated point is never better
            if name in ("WeightedSum", "Tchebicheff", "ASF", "AASF"):
                f = F[int(rng.integers(n))]
                g = f + np.where(rng.random(m) < 0.5, rng.random(m), 0.0)
                w = W[int(rng.integers(k))]
                kw2 = dict(kw)
                if name == "Tchebicheff":
                    kw2["ideal_point"] = kw2["utopian_point"] = f - rng.random(m)
                a, b = D.do(f[None, :], w[None, :], _type="one_to_one", **kw2)[0], D.do(g[None, :], w[None, :], _type="one_to_one", **kw2)[0]
                mon.ev("monotone")
                mon.check(a <= b + 1e-12 * max(abs(a), abs(b)), f"monotone:{name}", f"{name} prefers {g} to {f}, which dominates it, with {w}")
                if type_ == "many_to_one" and np.all(W[0] > 1e-3) and name in ("WeightedSum", "AASF") and (name == "WeightedSum" or o["rho"] > 1e-3) and kind in ("random", "int", "dups", "anti", "binary"):
                    V0 = np.ravel(V)
                    best = int(np.argmin(V0))
                    dom = [i for i in range(n) if np.all(F[i] <= F[best]) and np.any(F[i] < F[best] - 1e-6)]
                    mon.ev("minimisers")
                    mon.check(not dom, f"minimiser:{name}", lambda: f"the minimiser {F[best]} of {name} with positive weights {W[0]} is dominated")
        if rng.random() < 0.1:
            from pymoo.decomposition.aasf import AASF
            mon.ev("refused")
            try:
                AASF()
                mon.viol("accepted:AASF", "AASF without rho and beta is accepted")
            except Exception:
                pass
            try:
                D.do(rng.random((3, 2)), rng.random((2, 2)), _type="no_such_type")
                mon.viol("accepted:type", "an unknown pairing is accepted")
            except Exception:
                pass


def run_moead(case, mon):
    from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    from pymoo.problems import get_problem
    from pymoo.util.ref_dirs import get_reference_directions
    rng = np.random.default_rng(case["seed"])
    m = case["m"]
    problem = get_problem(str(rng.choice(["zdt1", "zdt3", "kursawe"])) if m == 2 else "dtlz" + str(rng.choice([1, 2, 7])), **({} if m == 2 else dict(n_var=6, n_obj=3)))
    rd = get_reference_directions("das-dennis", m, n_partitions=int(rng.integers(6, 15)) if m == 2 else int(rng.integers(3, 6)))
    name, o, deco = dict(default=(("Tchebicheff", {}, None) if m == 2 else ("PBI", {}, None)), pbi=("PBI", dict(theta=3.0), PBI(theta=3.0)), tche=("Tchebicheff", {}, Tchebicheff()), ws=("WeightedSum", {}, WeightedSum()),
                         asf=("ASF", {}, ASF()), aasf=("AASF", dict(rho=0.01, eps=1e-10), AASF(rho=0.01)))[case["deco"]]
    base = dict(MOEAD=MOEAD, ParallelMOEAD=ParallelMOEAD)[case["alg"]]
    nb = min(case["nb"], len(rd))
    seen = {"ideal": None, "k": []}

    class Watched(base):
        def _replace(self, k, off):
            old = list(self.pop)
            seen["ideal"] = np.min(np.vstack([seen["ideal"], off.F[None, :]]), axis=0) if case["alg"] == "MOEAD" else seen["ideal"]
            mon.check(np.array_equal(self.ideal, seen["ideal"]), "ideal", f"ideal point {self.ideal} is not the minimum of what was seen {seen['ideal']}")
            super()._replace(k, off)
            dist = np.sqrt(((self.ref_dirs[k] - self.ref_dirs) ** 2).sum(axis=1))
            far = np.sort(dist)[nb - 1]
            N = np.where(dist <= far + 1e-9)[0]
            sure = np.where(dist < far - 1e-9)[0]
            u = self.ideal - o.get("eps", 0.0)
            changed = [j for j in range(len(old)) if self.pop[j] is not old[j]]
            mon.check(set(changed) <= set(N), "foreign", lambda: f"offspring for direction {k} replaces at {changed}, neighbours are {N}")
            mon.check(all(self.pop[j] is off for j in changed), "other", "a member is replaced by something which is not the offspring")
            for j in N:
                a, sa = scalar(name, off.F, self.ref_dirs[j], u, o)
                b, sb = scalar(name, old[j].F, self.ref_dirs[j], u, o)
                if abs(a - b) <= 1e-9 * (sa + sb) and not np.array_equal(off.F, old[j].F):
                    continue
                better = a < b and not np.array_equal(off.F, old[j].F)
                mon.ev("replacements")
                if better and (j in sure or len(N) == nb):
                    mon.ev("replaced")
                    mon.check(self.pop[j] is off, "not_replaced", lambda: f"offspring with {name} {a} does not replace {b} at neighbour {j} of {k}")
                elif not better:
                    mon.ev("kept")
                    mon.check(self.pop[j] is old[j], "worse", lambda: f"offspring with {name} {a} replaces {b} at {j}")
            mon.state(case["alg"], case["deco"], len(changed), off.F)

    alg = Watched(rd, n_neighbors=nb, decomposition=deco, prob_neighbor_mating=float(rng.choice([0.0, 0.7, 1.0])))
    alg.setup(problem, termination=("n_gen", 8), seed=int(rng.integers(1, 10 ** 6)), verbose=False)
    while alg.has_next():
        if case["alg"] == "ParallelMOEAD":
            infills = alg.ask()
            if infills is None:
                continue
            alg.evaluator.eval(alg.problem, infills)
            lo = infills.get("F").min(axis=0)
            seen["ideal"] = lo if seen["ideal"] is None else np.min([lo, seen["ideal"]], axis=0)
            alg.tell(infills=infills)
        else:
            alg.next()
            if seen["ideal"] is None:
                seen["ideal"] = alg.pop.get("F").min(axis=0)


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
