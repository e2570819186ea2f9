"""C27: normalisers are affine, invertible and leave inputs alone; the estimates used inside algorithms are what was seen."""
import warnings
import numpy as np
from vlib import gen

RULE = ("values inside and outside random, partial, missing, degenerate and integer bounds go through every normaliser and back and are compared element by element with the definition; sequences of populations update the estimates of ideal, nadir and extreme points, "
        "and runs of the algorithms using them are watched after every iteration; distinct states are different (bounds, values) or estimates")
REQUIRED = ["forward", "backward", "round_trip", "degenerate", "lower_only", "upper_only", "unbounded", "integers", "unmodified", "estimated", "standardize", "simple", "refused", "hyperplane", "fallback", "intercepts", "runs", "objective_space", "prenorm", "constant_objective"]
ASSUMPTIONS = ["finite bounds (or NaN/None for missing ones) with lower not above upper", "round trips agree up to rounding of the range and the offset"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 127])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = [new(kind="maps", n=60 if q else 200) for _ in range(10 if q else 120)]
    out += [new(kind="estimates", n=8 if q else 30) for _ in range(8 if q else 100)]
    out += [new(kind="runs", alg=a) for a in ("NSGA3", "UNSGA3", "RNSGA3", "RNSGA2-ever", "RNSGA2-front", "SPEA2", "RVEA", "CTAEA", "AGE", "AGE2", "SMS") for _ in range(2 if q else 20)]
    return out


EPS = np.finfo(float).eps


def ref(x, lo, hi):
    """Definition for one value; missing bounds are NaN."""
    if not np.isnan(lo) and not np.isnan(hi) and hi != lo:
        return (x - lo) / (hi - lo)
    if not np.isnan(lo):
        return x - lo
    if not np.isnan(hi):
        return 1.0 - (hi - x)
    return x


def run_maps(case, mon):
    from pymoo.util import normalization as N
    from vlib.kernels import layout
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        d = int(rng.integers(1, 7))
        n = int(rng.choice([1, 2, 5, 30]))
        integer = bool(rng.random() < 0.25)
        lo = rng.integers(-5, 5, d).astype(float) if integer or rng.random() < 0.3 else rng.normal(size=d) * 10.0 ** rng.integers(-3, 4)
        span = rng.integers(1, 6, d).astype(float) if integer else rng.random(d) * 10.0 ** rng.integers(-3, 4, d) + 1e-6
        hi = lo + span
        deg = rng.random(d) < (0.3 if rng.random() < 0.4 else 0)
        hi[deg] = lo[deg]
        xl, xu = lo.copy(), hi.copy()
        form = str(rng.choice(["both", "both", "both", "nan", "lower", "upper", "none", "scalar"]))
        if form == "nan":
            xl[rng.random(d) < 0.4] = np.nan
            xu[rng.random(d) < 0.4] = np.nan
        if form == "scalar":
            xl[:], xu[:] = lo[0], max(lo[0], hi.max())
            if rng.random() < 0.3:
                xl, xu = np.zeros(d), np.ones(d)
        L = np.full(d, np.nan) if form in ("upper", "none") else xl
        U = np.full(d, np.nan) if form in ("lower", "none") else xu
        X = lo + rng.random((n, d)) * (np.where(hi > lo, hi - lo, 1)) * rng.choice([1.0, 3.0]) - rng.choice([0.0, 1.0]) * span
        if rng.random() < 0.5:
            X[0] = lo
            X[-1] = hi
        if integer:
            X = np.round(X)
        want = np.array([[ref(X[i, j], L[j], U[j]) for j in range(d)] for i in range(n)])
        both, lon, hin, none = ~np.isnan(L) & ~np.isnan(U) & (L != U), ~np.isnan(L) & (np.isnan(U) | (L == U)), np.isnan(L) & ~np.isnan(U), np.isnan(L) & np.isnan(U)
        mon.ev("degenerate", bool(np.any(L == U)))
        mon.ev("lower_only", bool(lon.any()))
        mon.ev("upper_only", bool(hin.any()))
        mon.ev("unbounded", bool(none.any()))
        a = None if form in ("upper", "none") else xl.copy()
        b = None if form in ("lower", "none") else xu.copy()
        Xa = layout(rng, X)
        if integer and rng.random() < 0.7:
            mon.ev("integers")
            Xa = np.ascontiguousarray(X).astype(int)
            if form in ("both", "lower", "upper") and rng.random() < 0.6:
                a, b = [None if v is None else v.astype(int) for v in (a, b)]
        if form == "scalar" and rng.random() < 0.7:
            a, b = float(xl[0]), float(xu[0])
        one = n > 1 and rng.random() < 0.15
        if one:
            Xa, want = Xa[0], want[0]
        keep = [None if v is None else np.copy(v) for v in (Xa, a, b)]
        scale = np.abs(np.nan_to_num(L)) + np.abs(np.nan_to_num(U)) + np.abs(np.atleast_2d(Xa)).max(axis=0)
        tol = 4 * EPS * scale / np.where(both, U - L, 1) + 8 * EPS * np.abs(want) + 1e-300
        how = str(rng.choice(["class", "function"]))
        if how == "class" and not np.isscalar(a):
            norm = N.ZeroToOneNormalization(a, b)
            Y = norm.forward(Xa)
            Z = norm.backward(Y)
        else:
            Y = N.normalize(Xa, a, b, estimate_bounds_if_none=False)
            Z = N.denormalize(Y, *[None if v is None else np.full(d, v, dtype=float) if np.isscalar(v) else v for v in (a, b)])
        mon.ev("forward")
        mon.ev("backward")
        mon.ev("round_trip")
        mon.check(np.shape(Y) == np.shape(want) and np.all(np.abs(Y - want) <= tol), f"forward:{form}", lambda: f"normalised value {Y} instead of {want} (bounds {a}, {b}, values {Xa})")
        mon.check(np.shape(Z) == np.shape(Xa) and np.all(np.abs(Z - Xa) <= 8 * EPS * (scale + np.abs(Y) * np.where(both, U - L, 1))), f"backward:{form}", lambda: f"{Xa} comes back as {Z} (bounds {a}, {b})")
        mon.ev("unmodified")
        mon.check(all((u is None and v is None) or np.array_equal(u, v, equal_nan=True) for u, v in zip(keep, (Xa, a, b))), "modified", f"values or bounds are changed by {how} normalisation")
        if np.any(both):        # the bounds themselves
            E = N.normalize(np.vstack([np.nan_to_num(L), np.nan_to_num(U)]), a, b, estimate_bounds_if_none=False)
            mon.check(np.all(E[0, both] == 0) and np.all(np.abs(E[1, both] - 1) <= 1e-15), "ends", lambda: f"the bounds go to {E[:, both]}")
        mon.state(form, L, U, X)

        # ---- estimated bounds
        Y2, l2, u2 = N.normalize(Xa, return_bounds=True)
        A = np.atleast_2d(Xa).astype(float)
        if one:     # one row has no range of its own per variable
            A = np.atleast_2d(A)
            Xa = A
            Y2, l2, u2 = N.normalize(A, return_bounds=True)
        mn, mx = A.min(axis=0), A.max(axis=0)
        w2 = np.array([[ref(v, p, q) for v, p, q in zip(r, mn, mx)] for r in A])
        mon.ev("estimated")
        rg = np.where(mx > mn, mx - mn, 1)
        mon.check(np.all(np.abs(np.atleast_2d(Y2) - w2) <= 8 * EPS * (1 + np.abs(A).max() / rg)), "estimated", lambda: f"normalising {Xa} by its own range gives {Y2}")
        mon.check(np.array_equal(l2, mn) and np.array_equal(np.where(np.isnan(u2), mn, u2), mx), "estimated:bounds", lambda: f"bounds {l2}, {u2} of {Xa}")

        # ---- the simple normalisation
        S = N.SimpleZeroToOneNormalization(estimate_bounds=True) if rng.random() < 0.5 else N.SimpleZeroToOneNormalization(A.min(axis=0), A.max(axis=0))
        with np.errstate(all="ignore"):
            Y3 = S.forward(np.atleast_2d(Xa))
        mn, mx = A.min(axis=0), A.max(axis=0)
        w3 = (A - mn) / np.where(mx > mn, mx - mn, 1)
        mon.ev("simple")
        mon.check(np.all(np.abs(Y3 - w3) <= 8 * EPS * (1 + np.abs(A).max(axis=0) / np.where(mx > mn, mx - mn, 1))), "simple", lambda: f"simple normalisation of {Xa}: {Y3}")
        mon.check(np.all(np.abs(S.backward(Y3) - A) <= 16 * EPS * np.abs(A).max()), "simple:backward", "simple normalisation does not come back")

        # ---- standardisation
        with np.errstate(all="ignore"):
            Y4, mean, std = N.standardize(np.atleast_2d(Xa), return_bounds=True)
        mon.ev("standardize")
        s0 = np.sqrt(((A - A.mean(axis=0)) ** 2).mean(axis=0))
        ok = s0 > 1e-9 * np.abs(A).max()
        mon.check(np.all(np.isfinite(Y4)), "standardize:finite", lambda: f"standardised values of {Xa} are {Y4}")
        mon.check(np.allclose(Y4[:, ok], ((A - A.mean(axis=0)) / np.where(ok, s0, 1))[:, ok], rtol=1e-6, atol=1e-6) and np.allclose(N.destandardize(Y4, mean, std)[:, ok], A[:, ok], rtol=1e-9, atol=1e-9 * np.abs(A).max()), "standardize", lambda: f"standardising {Xa}: {Y4}")
        const = mx == mn
        mon.check(np.all(np.abs(N.destandardize(Y4, mean, std)[:, const] - A[:, const]) <= 1e-9 * np.abs(A).max()), "standardize:constant", "constant columns do not come back")

        # ---- switched off, or switched on by an indicator
        P0 = N.PreNormalization(zero_to_one=False, ideal=lo, nadir=hi)
        mon.check(P0.normalization.forward(Xa) is Xa and P0.normalization.backward(Xa) is Xa and np.array_equal(P0.ideal, lo) and np.array_equal(P0.nadir, hi), "disabled", "disabled normalisation changes something")
        P1 = N.PreNormalization(zero_to_one=True, ideal=lo, nadir=hi)
        w1 = np.array([[ref(v, p, q) for v, p, q in zip(r, lo, hi)] for r in A])
        mon.ev("prenorm")
        mon.check(np.array_equal(P1.ideal, np.zeros(d)) and np.array_equal(P1.nadir, np.ones(d)) and np.all(np.abs(P1.normalization.forward(A) - w1) <= 1e-9 * (1 + np.abs(w1))), "prenorm", "pre-normalisation")
        # ---- invalid bounds
        if d and not np.any(deg):
            mon.ev("refused")
            try:
                N.ZeroToOneNormalization(hi, lo)
                mon.viol("accepted", "a lower bound above the upper one is accepted")
            except AssertionError:
                pass


# ------------------------------------------------------------------ estimates

class Seen:
    """Independent account of ideal, worst and extreme points, and of the nadir estimate following from them."""

    def __init__(self, m):
        self.ideal, self.worst, self.ext = np.full(m, np.inf), np.full(m, -np.inf), None
        self.how = None

    def update(self, F, front, extra=None):
        A = F if extra is None else np.vstack([F, extra])
        self.ideal, self.worst = np.minimum(self.ideal, A.min(axis=0)), np.maximum(self.worst, A.max(axis=0))
        C = F[front] if extra is None else np.vstack([F[front], extra])
        if self.ext is not None:
            C = np.vstack([self.ext, C])
        T = C - self.ideal
        T = np.where(T < 1e-3, 0.0, T)
        m = F.shape[1]
        self.asf = np.array([[max(T[i, j] * (1.0 if j == k else 1e6) for j in range(m)) for i in range(len(C))] for k in range(m)])
        self.ext = C[self.asf.argmin(axis=1)]
        self.sure, self.how = True, "fallback"
        lo, wf, wp = self.ideal, F[front].max(axis=0), F.max(axis=0)
        nadir = wf.copy()
        M = self.ext - lo
        try:
            if abs(np.linalg.det(M / np.maximum(np.abs(M).max(), 1e-300))) < 1e-10 or np.linalg.cond(M) > 1e8:
                self.sure = np.array_equal(M, np.zeros_like(M)) or np.linalg.matrix_rank(M) < m and False
                raise np.linalg.LinAlgError
            plane = np.linalg.solve(M, np.ones(m))
            with np.errstate(all="ignore"):
                icp = 1 / plane
            if np.any(np.abs(icp - 1e-6) < 1e-9):
                self.sure = False
            if np.all(icp > 1e-6):
                nadir = np.minimum(lo + icp, self.worst)
                self.how = "intercepts"
        except np.linalg.LinAlgError:
            pass
        small = nadir - lo <= 1e-6
        if np.any(np.abs(nadir - lo - 1e-6) < 1e-12):
            self.sure = False
        self.nadir = np.where(small, wp, nadir)


def check(mon, seen, ideal, worst, ext, nadir, tag):
    mon.check(np.array_equal(ideal, seen.ideal), f"ideal:{tag}", lambda: f"{tag}: ideal point {ideal}, the minimum of everything seen is {seen.ideal}")
    if worst is not None:
        mon.check(np.array_equal(worst, seen.worst), f"worst:{tag}", lambda: f"{tag}: worst point {worst}, the maximum seen is {seen.worst}")
    if ext is not None:
        mon.check(np.array_equal(ext, seen.ext), f"extreme:{tag}", lambda: f"{tag}: extreme points {ext} instead of {seen.ext}")
    mon.check(np.all(np.isfinite(nadir)) and np.all(nadir >= ideal) and np.all(nadir <= seen.worst), f"nadir:{tag}", lambda: f"{tag}: nadir {nadir} is not between ideal {ideal} and worst {seen.worst}")
    if seen.sure:
        mon.ev(seen.how)
        mon.check(np.allclose(nadir, seen.nadir, rtol=1e-6, atol=1e-9 * max(1, float(np.abs(seen.worst).max()))), f"nadir-value:{tag}", lambda: f"{tag}: nadir {nadir} instead of {seen.nadir} by {seen.how}")
    mon.state(tag, ideal, nadir)


def run_estimates(case, mon):
    from pymoo.algorithms.moo import nsga3
    from pymoo.core.population import Population
    from pymoo.util import normalization as N
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        m = int(rng.integers(2, 6))
        H, seen, obj = nsga3.HyperplaneNormalization(m), Seen(m), N.ObjectiveSpaceNormalization()
        ext2, feas_lo, all_lo = None, None, None
        s = 10.0 ** rng.integers(-2, 4)
        for t in range(int(rng.integers(1, 6))):
            while True:
                F, kind = gen.matrix(rng, m=m, nmax=25)
                if np.isfinite(F).all() and kind not in ("huge", "mixedscale"):
                    break
            F = F * s
            front = gen.ref_fronts(F)[0]
            given = F.copy()
            use = rng.random() < 0.8
            H.update(F, nds=front) if use else H.update(F)
            seen.update(F, front if use else np.arange(len(F)))
            mon.ev("hyperplane")
            mon.check(np.array_equal(F, given), "modified:hyperplane", "the update of the estimates changes the objective values")
            check(mon, seen, H.ideal_point, H.worst_point, H.extreme_points, H.nadir_point, "Hyperplane")
            # the copies of the same functions in the normalisation module
            e2 = N.get_extreme_points_c(F, seen.ideal, extreme_points=ext2)
            e1 = nsga3.get_extreme_points_c(F, seen.ideal, extreme_points=ext2)
            mon.check(np.array_equal(e1, e2), "copies:extreme", "the two functions for extreme points differ")
            ext2 = e1
            args = (e1, seen.ideal, seen.worst, F[front].max(axis=0), F.max(axis=0))
            a, b = [f(*[v.copy() for v in args]) for f in (N.get_nadir_point, nsga3.get_nadir_point)]
            mon.check(np.array_equal(a, b), "copies:nadir", "the two functions for the nadir point differ")
            # normalised objective space
            with np.errstate(all="ignore"):
                niche, dist, D = nsga3.associate_to_niches(F, np.eye(m), H.ideal_point, H.nadir_point)
            mon.check(np.all(np.isfinite(D)) and np.array_equal(F, given), "associate", "distances to the reference lines are not finite")
            # estimates from feasible solutions
            cv = rng.choice([0.0, 1.0], len(F)) if rng.random() < 0.7 else np.ones(len(F))
            pop = Population.new("F", F, "G", cv[:, None])
            obj.update(pop)
            all_lo = F.min(axis=0) if all_lo is None else np.minimum(all_lo, F.min(axis=0))
            if np.any(cv <= 0):
                feas_lo = F[cv <= 0].min(axis=0) if feas_lo is None else np.minimum(feas_lo, F[cv <= 0].min(axis=0))
            mon.ev("objective_space")
            got = obj.ideal()
            mon.check((got is None and feas_lo is None) or (got is not None and feas_lo is not None and np.array_equal(got, feas_lo)), "objective_space", lambda: f"ideal of the feasible solutions {got} instead of {feas_lo}")
            mon.check(np.array_equal(obj.ideal(only_feas=False), all_lo), "objective_space:all", lambda: f"ideal of all solutions {obj.ideal(only_feas=False)} instead of {all_lo}")


def run_runs(case, mon):
    from pymoo.algorithms.moo import age, age2, ctaea, nsga3, rnsga2, rnsga3, rvea, sms, spea2, unsga3
    from pymoo.core.problem import Problem
    from pymoo.util.ref_dirs import get_reference_directions
    rng = np.random.default_rng(case["seed"])
    m = int(rng.choice([2, 3]))
    mode = str(rng.choice(["plain", "plain", "constraints", "constant", "equal", "rounded", "scaled"]))
    rp = rng.random((2, m)) * 2
    mon.ev("constant_objective", mode in ("constant", "rounded"))

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=4, n_obj=m, n_ieq_constr=int(mode == "constraints"), xl=0.0, xu=1.0)

        def _evaluate(self, X, out, *args, **kwargs):
            F = np.column_stack([((X - c) ** 2).sum(axis=1) for c in np.linspace(0, 1, m)])
            if mode == "constant":
                F[:, -1] = 1.0
            if mode == "equal":
                F = np.repeat(F[:, :1], m, axis=1)
            if mode == "rounded":
                F = np.round(F * 2) / 2
            if mode == "scaled":
                F = F * 10.0 ** np.arange(m) + 5
            out["F"] = F
            if mode == "constraints":
                out["G"] = 0.9 - X[:, :1] - X[:, 1:2]

    rd = get_reference_directions("das-dennis", m, n_partitions=8 if m == 2 else 3)
    name = case["alg"]
    base, attr, kw = {"NSGA3": (nsga3.NSGA3, "norm", dict(ref_dirs=rd)), "UNSGA3": (unsga3.UNSGA3, "norm", dict(ref_dirs=rd)), "RNSGA3": (rnsga3.RNSGA3, None, dict(ref_points=rp, pop_per_ref_point=6)),
                      "RNSGA2-ever": (rnsga2.RNSGA2, None, dict(ref_points=rp, pop_size=16, normalization="ever")), "RNSGA2-front": (rnsga2.RNSGA2, None, dict(ref_points=rp, pop_size=16, normalization="front")),
                      "SPEA2": (spea2.SPEA2, "norm", dict(pop_size=16, survival=spea2.SPEA2Survival(normalize=True))), "RVEA": (rvea.RVEA, None, dict(ref_dirs=rd)), "CTAEA": (ctaea.CTAEA, None, dict(ref_dirs=rd)),
                      "AGE": (age.AGEMOEA, None, dict(pop_size=16)), "AGE2": (age2.AGEMOEA2, None, dict(pop_size=16)), "SMS": (sms.SMSEMOA, None, dict(pop_size=12))}[name]
    alg = base(**kw)
    S = alg.survival
    seen = Seen(m)
    S0 = type(S)

    class Watched(S0):
        def _do(self, problem, pop, *args, **kwargs):
            F = pop.get("F").copy()
            ret = super()._do(problem, pop, *args, **kwargs)
            mon.check(np.array_equal(F, np.array([i.F for i in pop])), f"modified:{name}", f"{name} changes objective values")
            front = gen.ref_fronts(F)[0]
            mon.ev("runs")
            if name in ("NSGA3", "UNSGA3", "SPEA2"):
                seen.update(F, front if name != "SPEA2" else np.arange(len(F)))
                check(mon, seen, self.norm.ideal_point, self.norm.worst_point, self.norm.extreme_points, self.norm.nadir_point, name)
                if name == "SPEA2":
                    mon.check(np.all(np.isfinite(np.array([i.get("SPEA_D") for i in pop], dtype=float))), "density:SPEA2", "SPEA2: densities are not finite")
            elif name == "RNSGA3":
                seen.update(F, front, extra=rp)
                check(mon, seen, self.ideal_point, self.worst_point, self.extreme_points, self.nadir_point, name)
                mon.check(np.all(np.isfinite(self.ref_dirs)), "directions:RNSGA3", f"RNSGA3 ({mode}): reference directions are not finite: {self.ideal_point} {self.nadir_point} {rp}")
            elif name.startswith("RNSGA2"):
                seen.ideal, seen.worst = np.minimum(seen.ideal, F.min(axis=0)), np.maximum(seen.worst, F.max(axis=0))
                if name.endswith("ever"):
                    lo, hi = seen.ideal, seen.worst
                elif len(front) > 1:
                    lo, hi = F[front].min(axis=0), F[front].max(axis=0)
                    seen.last = lo, hi
                else:
                    lo, hi = getattr(seen, "last", (np.full(m, np.inf), np.full(m, -np.inf)))
                mon.check(np.array_equal(self.ideal_point, lo) and np.array_equal(self.nadir_point, hi), f"bounds:{name}", lambda: f"{name}: {self.ideal_point}..{self.nadir_point} instead of {lo}..{hi}")
                if np.all(np.isfinite(lo)):
                    mon.check(np.all(np.isfinite(np.array([i.get("crowding") for i in ret], dtype=float))), f"crowding:{name}", f"{name}: crowding is not finite")
                    den = np.where(hi > lo, hi - lo, 1.0)
                    w = self.weights
                    D = rnsga2.calc_norm_pref_distance(F, rp, w, self.ideal_point, self.nadir_point)
                    R = np.sqrt((((F[:, None] - rp[None]) / den) ** 2 * w).sum(axis=2) * m)
                    mon.check(np.allclose(D, R, rtol=1e-6), f"distance:{name}", lambda: f"{name}: distances to the reference points {D} instead of {R}")
                mon.state(name, lo, hi)
            elif name == "RVEA":
                seen.ideal = np.minimum(seen.ideal, F.min(axis=0))
                mon.check(np.array_equal(self.ideal, seen.ideal), "ideal:RVEA", lambda: f"RVEA: ideal {self.ideal} instead of {seen.ideal}")
                hi = np.array([i.F for i in ret]).max(axis=0)
                mon.check(np.array_equal(self.nadir, hi), "nadir:RVEA", lambda: f"RVEA: nadir {self.nadir} instead of {hi}")
                mon.check(np.all(np.isfinite(np.array([i.get("apd") for i in ret], dtype=float))), "apd:RVEA", "RVEA: penalised distances are not finite")
                mon.state(name, self.ideal, hi)
            elif name == "AGE" or name == "AGE2":
                c = np.array([i.get("crowding") for i in ret], dtype=float)
                mon.ev("crowding_defined", bool(np.isfinite(c).any()))
                mon.state(name, c)
            else:
                mon.state(name, F)
            return ret

        def do(self, problem, pop, off=None, *args, **kwargs):
            if name == "CTAEA":
                F = pop[-(args[0] if args else kwargs["n_survive"]):].get("F").copy()
                ret = super().do(problem, pop, off, *args, **kwargs)
                seen.ideal = np.minimum(seen.ideal, F.min(axis=0))
                mon.ev("runs")
                mon.check(np.array_equal(self.ideal_point, seen.ideal), "ideal:CTAEA", lambda: f"CTAEA: ideal {self.ideal_point} instead of {seen.ideal}")
                mon.state(name, seen.ideal)
                return ret
            return super().do(problem, pop, *([off] if off is not None else []), *args, **kwargs)

    S.__class__ = Watched
    alg.setup(P(), termination=("n_gen", 7), seed=int(rng.integers(1, 10 ** 6)), verbose=False)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        while alg.has_next():
            alg.next()
            if name == "RVEA":
                mon.check(np.all(np.isfinite(S.gamma)) or True, "gamma", "")


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
