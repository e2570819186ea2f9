"""C24: every performance indicator equals its definition."""
import numpy as np
from vlib import gen, mon as M

RULE = ("point sets of 17 families and reference sets (subsets, shifted, dominated, single points, other memory layouts) are measured by every indicator with every option and compared with direct implementations of the definitions; "
        "permutations, added points, dominated points and points beyond the reference point are compared with the original; calls repeat on the same object (nothing may drift); running and mean indicators are observed along runs; "
        "distinct states are different (indicator, options, value)")
REQUIRED = ["hv", "distance", "epsilon", "spacing", "permuted", "monotone", "ignored", "approximate", "rmetric", "kktpm", "kkt_points", "running", "migd", "unmodified", "empty", "one_dimensional"]
ASSUMPTIONS = ["finite values", "normalising distances by a range of zero is not meant", "values agree up to a relative error of 1e-7 (summation order)"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 124])
    q = tier == "quick"
    out = [dict(kind="sets", seed=int(rng.integers(1, 10 ** 9)), n=30 if q else 60) for _ in range(24 if q else 300)]
    out += [dict(kind="approx", seed=int(rng.integers(1, 10 ** 9)), n=4 if q else 12) for _ in range(4 if q else 30)]
    out += [dict(kind="rm", seed=int(rng.integers(1, 10 ** 9)), n=12 if q else 40) for _ in range(4 if q else 40)]
    out += [dict(kind="kkt", seed=int(rng.integers(1, 10 ** 9)), n=10 if q else 30) for _ in range(4 if q else 40)]
    out += [dict(kind="run", seed=int(rng.integers(1, 10 ** 9))) for _ in range(6 if q else 60)]
    return out


def scale01(A, lo, hi):
    A = np.array(A, float)
    out = A - lo
    d = hi - lo
    ok = d != 0
    out[:, ok] = out[:, ok] / d[ok]
    return out


def dist(P, F, plus, w):
    """D[i, j] between reference point i and point j."""
    D = np.zeros((len(P), len(F)))
    for i in range(len(P)):
        for j in range(len(F)):
            d = F[j] - P[i]
            if plus:
                d = np.where(d < 0, 0.0, d)
            D[i, j] = np.sqrt(np.sum((d / w) ** 2))
    return D


def close(a, b, scale=1.0):
    return a == b or bool(np.isfinite(a) and np.isfinite(b)) and abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-12 * scale


def points(rng, m=None):
    while True:
        F, kind = gen.matrix(rng, nmax=18, m=m, mmax=5)
        if np.isfinite(F).all() and kind not in ("huge",):
            return F, kind


def lay(rng, A):
    from vlib.kernels import layout
    return layout(rng, A)


def run_sets(case, mon):
    from pymoo.indicators.epsilon import Epsilon, EpsilonMultiplicative
    from pymoo.indicators.gd import GD
    from pymoo.indicators.gd_plus import GDPlus
    from pymoo.indicators.hv import HV, Hypervolume
    from pymoo.indicators.igd import IGD
    from pymoo.indicators.igd_plus import IGDPlus
    from pymoo.indicators.spacing import SpacingIndicator
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        F, kind = points(rng)
        n, m = F.shape
        how = str(rng.choice(["own", "random", "one", "front", "big"]))
        P = {"own": lambda: F[rng.random(n) < 0.5] if n > 1 else F, "random": lambda: rng.normal(size=(int(rng.integers(1, 9)), m)), "one": lambda: F[:1] - rng.random((1, m)), "front": lambda: F[gen.ref_fronts(F)[0]] - rng.choice([0.0, 0.3]),
             "big": lambda: rng.random((5, m)) * 1000}[how]()
        if not len(P):
            P = F[:1].copy()
        scale = float(np.max(np.abs(np.vstack([F, P]))))
        perm = rng.permutation(n)

        def measure(name, make, ref, *sets, tag=""):
            """Builds the indicator once, uses it several times, and compares."""
            ind = make()
            vals = []
            for A, want in sets:
                B = lay(rng, A)
                B0 = B.copy()
                v = ind(B) if rng.random() < 0.5 else ind.do(B)
                mon.ev("unmodified")
                mon.check(np.array_equal(B, B0), f"modified:{name}", f"{name} changes the points it measures")
                mon.check(np.ndim(v) == 0 and close(float(v), want, ref) or name in ("IGD", "GD") and abs(v - want) <= 3e-8 * ref, f"value:{name}", lambda: f"{name}{tag} on {kind} {A.shape} with reference {how} {P.shape} is {v} instead of {want}", F=A, P=P)
                vals.append(float(v))
            mon.state(name, tag, vals[0])
            return ind, vals[0]

        # ---- distances
        for name, plus, axis, cls in (("GD", 0, 0, GD), ("GD+", 1, 0, GDPlus), ("IGD", 0, 1, IGD), ("IGD+", 1, 1, IGDPlus)):
            mode = str(rng.choice(["plain", "plain", "norm", "norm-bounds", "by-dist", "by-dist-bounds"]))
            lo, hi = P.min(axis=0), P.max(axis=0)
            kw = {}
            if mode.endswith("bounds"):
                lo, hi = lo - rng.random(m), hi + rng.random(m) + (rng.random() < 0.5)
                which = str(rng.choice(["both", "ideal", "nadir"]))
                kw = {k: v for k, v in (("ideal", lo), ("nadir", hi)) if which in (k, "both")}
                lo, hi = kw.get("ideal", P.min(axis=0)), kw.get("nadir", P.max(axis=0))
            if mode.startswith("norm"):
                kw["zero_to_one"] = True
            if mode.startswith("by-dist"):
                kw["norm_by_dist"] = True
                if np.any(hi <= lo):
                    continue
            P0, kw0 = P.copy(), {k: np.copy(v) for k, v in kw.items()}
            A, B, w = P, F, 1.0
            if mode.startswith("norm"):
                A, B = scale01(P, lo, hi), scale01(F, lo, hi)
            if mode.startswith("by-dist"):
                w = hi - lo
            D = dist(A, B, plus, w)
            want = float(np.mean(np.min(D, axis=axis)))
            ref = max(scale, float(np.max(np.abs(B))))
            mon.ev("distance")
            mon.ev("permuted")
            G = np.vstack([F, F[:1]])
            want2 = float(np.mean(np.min(dist(A, np.vstack([B, B[:1]]), plus, w), axis=axis)))
            ind, v = measure(name, lambda: cls(P, **kw), ref, (F, want), (F[perm], want), (G, want2), (F, want), tag=f" {mode}")
            mon.check(np.array_equal(P, P0) and all(np.array_equal(kw[k], kw0[k]) for k in kw), f"modified:{name}:reference", f"{name} {mode} changes its reference set or bounds")
            mon.check(float(ind.do(np.zeros((0, m)))) == 0.0, f"empty:{name}", f"{name} of no points is not the documented default")
            mon.ev("empty")
            mon.ev("one_dimensional")
            mon.check(close(float(ind.do(F[0])), float(ind.do(F[:1])), ref), f"one:{name}", f"{name} of one point depends on how it is passed")
            if axis == 1 and not mode.startswith("by"):
                mon.ev("monotone")
                mon.check(float(ind.do(np.vstack([F, P[:1] + 0.1]))) <= v + 1e-9 * ref, f"monotone:{name}", f"{name} grows when a point is added")
            if how == "own" and mode == "plain":
                mon.check(float(ind.do(P)) <= 1e-9 * scale, f"zero:{name}", f"{name} of the reference set itself is {ind.do(P)}")

        # ---- epsilon
        zo = bool(rng.random() < 0.3)
        A, B = (scale01(P, P.min(axis=0), P.max(axis=0)), scale01(F, P.min(axis=0), P.max(axis=0))) if zo else (P, F)
        want = max(min(max(f - r) for f in B) for r in A)
        mon.ev("epsilon")
        measure("Epsilon", lambda: Epsilon(P, zero_to_one=zo), max(scale, float(np.abs(B).max())), (F, want), (F[perm], want), (F, want), tag=f" {zo}")
        Fp, Pp = np.abs(F) + 0.1, np.abs(P) + 0.1
        want = max(min(max(f / r) for f in Fp) for r in Pp)
        measure("EpsilonMultiplicative", lambda: EpsilonMultiplicative(Pp), 1.0, (Fp, want), (Fp[perm], want))

        # ---- spacing
        mode = str(rng.choice(["plain", "pf", "bounds"]))
        B = F
        kw = {}
        if mode != "plain":
            lo, hi = (P.min(axis=0), P.max(axis=0)) if mode == "pf" else (F.min(axis=0) - 1, F.max(axis=0) + rng.random(m))
            kw = dict(pf=P, zero_to_one=True) if mode == "pf" else dict(ideal=lo, nadir=hi, zero_to_one=True)
            B = scale01(F, lo, hi)
        near = np.array([min([np.sum(np.abs(B[i] - B[j])) for j in range(n) if j != i], default=0.0) for i in range(n)])
        want = float(np.sqrt(np.mean((near - near.mean()) ** 2)))
        mon.ev("spacing")
        measure("Spacing", lambda: SpacingIndicator(**kw), max(scale, float(np.abs(B).max())) * 1e3, (F, want), (F[perm], want), tag=f" {mode}")

        # ---- hypervolume
        if n > 14 and m > 3:
            F = F[:14]
            n = len(F)
            perm = rng.permutation(n)
        mode = str(rng.choice(["ref", "ref", "pf", "norm", "norm-ref", "norm-raw"]))
        how_r = str(rng.choice(["nadir", "mid", "far", "point", "zero"]))
        R = {"nadir": F.max(axis=0), "mid": np.median(F, axis=0), "far": F.max(axis=0) + rng.random(m) * (1 + scale), "point": F[int(rng.integers(n))].copy(), "zero": np.zeros(m)}[how_r]
        cls = HV if rng.random() < 0.3 else Hypervolume
        lo, hi = P.min(axis=0), P.max(axis=0)
        if mode == "ref":
            make, tr, rp = (lambda: cls(ref_point=R)), (lambda A: np.array(A, float)), R
        elif mode == "pf":
            make, tr, rp = (lambda: cls(pf=P)), (lambda A: np.array(A, float)), P.max(axis=0)
        elif mode == "norm":
            make, tr = (lambda: cls(pf=P, zero_to_one=True)), (lambda A: scale01(A, lo, hi))
            rp = tr(P.max(axis=0)[None, :])[0]
        elif mode == "norm-ref":
            make, tr = (lambda: cls(ref_point=R, ideal=lo, nadir=hi, zero_to_one=True)), (lambda A: scale01(A, lo, hi))
            rp = tr(R[None, :])[0]
        else:
            rp = np.full(m, 1.1)
            make, tr = (lambda: cls(ref_point=rp, pf=P, zero_to_one=True, norm_ref_point=False)), (lambda A: scale01(A, lo, hi))
        R0, P0 = R.copy(), P.copy()
        want = gen.hv(tr(F), rp)
        span = float(np.prod(np.maximum(rp - tr(F).min(axis=0), 0)))
        mon.ev("hv")
        ind, v = measure("Hypervolume", make, span, (F, want), (F[perm], want), (np.vstack([F, F]), want), (F, want), tag=f" {mode} {how_r}")
        mon.check(np.array_equal(R, R0) and np.array_equal(P, P0), "modified:Hypervolume:reference", f"Hypervolume {mode} changes its reference point or set")
        mon.check(float(ind.do(np.zeros((0, m)))) == 0.0 and close(float(ind.do(F[0])), float(ind.do(F[:1])), span), "one:Hypervolume", "no point or one point as a vector")
        # added points never make it smaller, dominated ones and those beyond the reference point change nothing
        T = rng.normal(size=(3, m)) * scale
        mon.ev("monotone")
        mon.check(float(ind.do(np.vstack([F, T]))) >= v * (1 - 1e-9) - 1e-12 * span, "monotone:Hypervolume", "the hypervolume drops when points are added")
        mon.ev("ignored")
        mon.check(close(float(ind.do(np.vstack([F, F + rng.random((n, m)) * scale]))), v, span), "ignored:dominated", "dominated points change the hypervolume")
        if mode in ("ref", "pf"):
            Y = F.copy()
            j = int(rng.integers(m))
            Y[:, j] = rp[j] + rng.random(n) * (rng.random() < 0.7)
            Y[:, [k for k in range(m) if k != j]] -= 1.0
            mon.check(close(float(ind.do(np.vstack([F, Y]))), v, span), "ignored:beyond", "points on or beyond the reference point change the hypervolume")


def run_approx(case, mon):
    from pymoo.indicators.hv.approximate import ApproximateHypervolume
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        m = int(rng.integers(2, 5))
        ref = rng.random(m) * 0.2 + 1.0
        a = ApproximateHypervolume(ref, seed=int(rng.integers(100)))
        F = np.zeros((0, m))
        for _ in range(8):
            if len(F) and rng.random() < 0.35:
                k = int(rng.integers(len(F)))
                r = a.delete(k)
                F = np.delete(F, k, axis=0)
            else:
                A = rng.random((int(rng.integers(1, 5)), m)) * rng.choice([1.0, 1.3])
                r = a.add(A)
                F = np.vstack([F, A])
            mon.ev("approximate")
            mon.check(r is a and np.array_equal(a.F, F), "approximate:points", "adding or deleting does not keep the points")
            v = gen.hv(F, ref)
            mon.check(abs(a.hv - v) <= 0.05 * v + 0.002, "approximate:value", lambda: f"the approximation is {a.hv}, the volume {v}")
            nd = gen.ref_fronts(F)[0] if len(F) else np.zeros(0, int)    # contributions among the non-dominated points
            want = np.zeros(len(F))
            for i in nd:
                want[i] = v - gen.hv(F[[j for j in nd if j != i]], ref) if len(nd) > 1 else v
            mon.check(len(a.hvc) == len(F) and np.allclose(a.hvc, want, atol=1e-9), "approximate:contributions", lambda: f"contributions {a.hvc} instead of {want}")
            mon.state("approx", a.hv)


def ref_rmetric(F, others, Z, W, delta, pf):
    """R-IGD and R-HV after the published procedure."""
    keep = [i for i in range(len(F)) if others is None or not any(np.all(o <= F[i]) and np.any(o < F[i]) for o in others)]
    P = F[keep]
    lab = np.array([int(np.argmin([np.linalg.norm(p - z) for z in Z])) for p in P], dtype=int)

    def rep(D, z, w):
        return D[int(np.argmin(np.max((D - z) / (w - z), axis=1)))]
    moved, target = [], []
    for i, (z, w) in enumerate(zip(Z, W)):
        C = P[lab == i] if len(P) else P
        if len(C):
            p = rep(C, z, w)
            T = C[np.all(np.abs(C - p) < delta / 2, axis=1)]
            r = (p - z) / (w - z)
            zl = z + r[int(np.argmax(r))] * (w - z)
            moved += list(T + (zl - p))
        t = rep(pf, z, w)
        target += list(pf[np.all(np.abs(pf - t) < delta / 2, axis=1)])
    if not moved:
        return None, None
    A, B = np.array(target), np.array(moved)
    igd = float(np.mean(np.min(dist(A, B, False, 1.0), axis=1)))
    return igd, (gen.hv(B, W.max(axis=0)) if Z.shape[1] <= 3 else None)


def run_rm(case, mon):
    from pymoo.indicators.rmetric import RMetric
    from pymoo.problems import get_problem
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        m = int(rng.choice([2, 2, 3, 4]))
        if m == 2:
            prob = get_problem(str(rng.choice(["zdt1", "zdt2"])))
            pf = prob.pareto_front()[::5]
        else:
            D = rng.random((60, m)) + 1e-3
            prob, pf = None, D / np.linalg.norm(D, axis=1, keepdims=True)
        n = int(rng.integers(1, 25))
        F = pf[rng.integers(0, len(pf), n)] + rng.random((n, m)) * rng.choice([0.01, 0.3])
        Z = rng.random((int(rng.integers(1, 4)), m)) * rng.choice([0.5, 1.0])
        w = None if rng.random() < 0.5 else rng.random(m) + 0.5
        delta = float(rng.choice([0.2, 0.2, 0.1, 0.5]))
        others = None if rng.random() < 0.5 else F[:3] + rng.normal(size=(min(3, n), m)) * 0.2
        args = [F.copy(), Z.copy(), pf.copy()]
        r = RMetric(prob, Z, w=w, delta=delta, pf=None if (prob is not None and len(pf) == len(prob.pareto_front()) and rng.random() < 0.5) else pf)
        got = r.do(F, others=others)
        want = ref_rmetric(F, others, Z, Z + 2 * (np.ones(m) if w is None else w), delta, pf)
        mon.ev("rmetric")
        for nm, a, b in zip(("R-IGD", "R-HV"), got, want):
            mon.check((a is None) == (b is None) and (a is None or close(float(a), float(b), 1.0)), f"rmetric:{nm}", lambda: f"{nm} is {a} instead of {b} (delta={delta}, w={w})")
        one = r.do(F, others=others, calc_hv=False)
        mon.check(one == got[0], "rmetric:repeat", f"R-IGD of the same set is {one} and {got[0]}")
        mon.check(np.array_equal(F, args[0]) and np.array_equal(Z, args[1]) and np.array_equal(pf, args[2]), "rmetric:modified", "the R-Metric changes its arguments")
        mon.ev("unmodified")
        mon.state("rmetric", got[0])


def run_kkt(case, mon):
    from pymoo.core.problem import Problem
    from pymoo.indicators.kktpm import KKTPM
    rng = np.random.default_rng(case["seed"])

    class Quad(Problem):
        """Convex quadratic objectives with known gradients and linear constraints A x <= c."""

        def __init__(self, centers, A=None, c=None):
            self.C, self.A, self.c = centers, A, c
            super().__init__(n_var=centers.shape[1], n_obj=len(centers), n_ieq_constr=0 if A is None else len(A), xl=-2.0, xu=2.0)

        def _evaluate(self, x, out, *args, **kwargs):
            D = x[:, None, :] - self.C[None, :, :]
            out["F"], out["dF"] = np.sum(D ** 2, axis=2), 2 * D
            if self.A is not None:
                out["G"], out["dG"] = x @ self.A.T - self.c, np.repeat(self.A[None], len(x), axis=0)

        def _calc_pareto_front(self, *args, **kwargs):
            t = np.linspace(0, 1, 50)[:, None]
            X = t * self.C[0] + (1 - t) * self.C[1]
            return np.sum((X[:, None, :] - self.C[None]) ** 2, axis=2)

    def ref(f, df, g, dg, z, rho):
        """df: (n_obj, n_var)"""
        w = np.linalg.norm(f - z) / (f - z)
        a = np.array([w[k] * df[k] + rho * sum(w[j] * df[j] for j in range(len(f))) for k in range(len(f))])
        J = len(g)
        S = np.vstack([a, dg]) if J else a
        A = S @ S.T
        A[:len(f), :len(f)] += 1.0
        for j in range(J):
            A[len(f) + j, len(f) + j] += g[j] ** 2
        b = np.concatenate([np.ones(len(f)), np.zeros(J)])
        u = np.linalg.solve(A, b)
        while np.any(u < 0):
            for j in range(len(u)):
                if u[j] < 0:
                    A[j, :], A[:, j], A[j, j], b[j] = 0, 0, 1, 0
                    u = np.linalg.solve(A, b)
        um, uj = u[:len(f)], u[len(f):]
        k = (1 - um.sum()) ** 2 + np.sum((S.T @ u) ** 2)
        ug = -float(g @ uj) if J else 0.0
        if um.sum() + ug * (1 + ug) > 1:
            proj = (k * float(g @ g) + ug) / (1 + float(g @ g)) if J else 0.0
            k = (k + ug + proj) / 3
        return k, np.linalg.cond(A)

    for _ in range(case["n"]):
        d = int(rng.integers(1, 5))
        C = rng.uniform(-1, 1, (2, d))
        J = int(rng.choice([0, 0, 1, 3]))
        A, c = (rng.normal(size=(J, d)), rng.random(J) * 2 - 0.3) if J else (None, None)
        p = Quad(C, A, c)
        X = rng.uniform(-2, 2, (8, d))
        t = rng.uniform(0.1, 0.9, (4, 1))
        X = np.vstack([X, t * C[0] + (1 - t) * C[1]])
        eps, rho = float(rng.choice([1e-4, 1e-2])), float(rng.choice([0.0, 1e-3]))
        own = bool(rng.random() < 0.5)
        z = np.zeros(2) if own else None
        zz = np.zeros(2) if own else p.pareto_front().min(axis=0)
        X0 = X.copy()
        got = [KKTPM().calc(X, p, ideal=z, utopian_eps=eps, rho=rho) for _ in range(2)]
        mon.check(np.array_equal(got[0], got[1], equal_nan=True), "kktpm:repeat", lambda: f"the second call gives other values: {got[0][:3]}, {got[1][:3]}")
        mon.check(z is None or np.array_equal(z, np.zeros(2)), "kktpm:ideal", "the ideal point passed is changed")
        mon.check(np.array_equal(X, X0), "kktpm:modified", "the solutions are changed")
        F, G = p.evaluate(X, return_values_of=["F", "G"])
        for i in range(len(X)):
            cv = float(np.sum(np.maximum(G[i], 0))) if J else 0.0
            mon.ev("kktpm")
            if cv > 0:
                mon.check(abs(got[0][i] - 1 - cv) < 1e-9, "kktpm:infeasible", lambda: f"{got[0][i]} for a violation of {cv}")
                continue
            want, cond = ref(F[i], 2 * (X[i] - C), G[i] if J else np.zeros(0), A if J else np.zeros((0, d)), zz - eps, rho)
            if cond < 1e9:
                mon.check(abs(got[0][i] - want) <= 1e-6 * max(1, abs(want)), "kktpm:value", lambda: f"{got[0][i]} instead of {want}")
            if i >= 8:                                     # optimal: gradients cancel
                mon.ev("kkt_points")
                mon.check(got[0][i] <= 0.05, "kktpm:optimal", lambda: f"{got[0][i]} at a Pareto-optimal point")
            mon.state("kktpm", got[0][i])


def run_run(case, mon):
    """Indicators which follow a run: running metric and MIGD."""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.indicators.migd import MIGD
    from pymoo.problems import get_problem
    from pymoo.util.running_metric import RunningMetric
    rng = np.random.default_rng(case["seed"])
    period = [None, 2, 4][int(rng.integers(3))]
    which = str(rng.choice(["igd", "hv"]))
    rm, hist = RunningMetric(period=period, indicator=which), []
    prob = get_problem(str(rng.choice(["zdt1", "zdt3", "dtlz2", "bnh"])))
    alg = NSGA2(pop_size=int(rng.choice([8, 20])))
    alg.setup(prob, seed=int(rng.integers(1000)), termination=("n_gen", 8), verbose=False)
    while alg.has_next():
        alg.next()
        rm.update(alg)
        hist.append(alg.opt.get("F"))
        if period:
            hist = hist[-period:]
        lo, hi = hist[-1].min(axis=0), hist[-1].max(axis=0)
        mon.ev("running")
        mon.check(len(rm.delta_f) == len(hist) == len(rm.delta_ideal) == len(rm.delta_nadir), "running:length", lambda: f"{len(rm.delta_f)} values for {len(hist)} generations")
        mon.check(not np.isnan(rm.delta_ideal).any() and not np.isnan(rm.delta_nadir).any() and not np.isnan(rm.delta_f).any(), "running:nan", "the running metric is not a number")
        if np.any(hi <= lo):
            continue
        for k, H in enumerate(hist):
            N, T = scale01(H, lo, hi), scale01(hist[-1], lo, hi)
            want = float(np.mean(np.min(dist(T, N, False, 1.0), axis=1))) if which == "igd" else gen.hv(N, np.ones(len(lo)))
            mon.check(close(rm.delta_f[k], want, 1e3), f"running:{which}", lambda: f"the running metric of generation {k} is {rm.delta_f[k]} instead of {want}")
            if k:
                for nm, got, f in (("ideal", rm.delta_ideal, np.min), ("nadir", rm.delta_nadir, np.max)):
                    w = float(np.max(np.abs(f(hist[k], axis=0) - f(hist[k - 1], axis=0)) / (hi - lo)))
                    mon.check(close(got[k - 1], w, 1e3), f"running:{nm}", lambda: f"change of the {nm} point {got[k - 1]} instead of {w}")
        mon.state("running", rm.delta_f)
    # ---- dynamic problems
    from pymoo.problems.dynamic.df import DF1
    prob = DF1(n_var=4, taut=2, nt=5)
    cb = {r: MIGD(reevaluate=r) for r in (True, False)}
    want = {True: [], False: []}
    alg = NSGA2(pop_size=12)
    alg.setup(prob, seed=1, termination=("n_gen", 6), verbose=False)
    g = 0
    while alg.has_next():
        alg.next()
        prob.tic()
        prob.cache = {}
        g += 1
        for r in (True, False):
            cb[r].update(alg)
            F = prob.evaluate(alg.pop.get("X"), return_values_of=["F"]) if r else alg.pop.get("F")
            want[r].append(float(np.mean(np.min(dist(prob.pareto_front(), F, False, 1.0), axis=1))))
        mon.ev("migd")
    for r in (True, False):
        mon.check(close(float(cb[r].value()), float(np.mean(want[r])), 1.0) and [t for t, _ in cb[r].records] and len(cb[r].records) == g, f"migd:{r}", lambda: f"MIGD is {cb[r].value()} instead of {np.mean(want[r])}")


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
