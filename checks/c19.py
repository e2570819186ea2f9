"""C19: repair brings points into bounds and never moves a valid one."""
import contextlib, inspect
import numpy as np
from checks.c15 import bounds, ks
from vlib import gen, mon as M, obs, probs, runs, zoo

RULE = ("every repair, as operator and as function, x bounds of every kind (degenerate, tiny, huge, different per variable, none) x vectors inside, on, one unit in the last place outside and many ranges outside the bounds x one or many rows: "
        "each coordinate is compared with the formula of its own repair, valid coordinates with themselves, the result with its repaired self, and each row with the repair of that row alone; "
        "every algorithm that takes a repair runs with one and every solution it evaluates is judged; distinct states are different (repair, matrix) pairs")
REQUIRED = ["repairs", "outside", "inside", "idempotent", "row_alone", "unbounded", "in_run", "repaired_in_run"]
ASSUMPTIONS = ["bounds are finite with xl <= xu; reference points handed to a repair lie in bounds; rounding is used with integer bounds; distances whose squares underflow are left out"]

OPS = ["clamp", "tobound", "bounce", "periodic", "random", "inverse", "de-bounce-back", "de-midway", "de-rand-init", "de-to-bounds", "rounding", "type", "none", "custom"]
TAKE = ["GA", "GA-nodup", "DE", "PSO", "EPPSO", "ES", "SRES", "ISRES", "G3PCX", "NRBO", "NicheGA", "NSGA2", "NSGA2-steady", "RNSGA2", "NSGA3", "UNSGA3", "RNSGA3", "MOEAD", "AGEMOEA", "AGEMOEA2", "CTAEA", "SMSEMOA",
        "RVEA", "SPEA2", "CMOPSO", "OmniOptimizer", "BRKGA", "KGB", "DNSGA2", "NSDE", "GDE3", "NSDER", "PINSGA2"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 119])
    q = tier == "quick"
    out = []
    for nm in OPS:
        for _ in range(2 if q else 30):
            out.append(dict(kind="direct", name=nm, seed=int(rng.integers(1, 10 ** 9)), n=15))
    for nm in ("random", "de-rand-init", "de-bounce-back", "inverse"):
        for _ in range(1 if q else 6):
            out.append(dict(kind="dist", name=nm, seed=int(rng.integers(1, 10 ** 9))))
    for nm in TAKE:
        for _ in range(1 if q else 8):
            z = zoo.Z[nm]
            spec = dict(cls="MO", n_var=4, n_obj=2, bounds="shift", fn="convex") if z["mo"] else dict(cls="SO", n_var=4, bounds="shift", where="inside", fn="sphere")
            out.append(dict(kind="run", algo=nm, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([12, 16])), n_gen=6 if q else 15, cap=20000))
    return out


def points(rng, n, xl, xu):
    d = len(xl)
    w = xu - xl
    inside = xl + rng.random((n, d)) * w
    X = xl + rng.normal(size=(n, d)) * 2 * w
    X = np.where(rng.random((n, d)) < 0.3, inside, X)
    c = rng.random((n, d))
    k = rng.integers(1, 4, (n, d))
    X = np.where(c < 0.05, xl, np.where(c < 0.1, xu, np.where(c < 0.15, np.nextafter(xl, -np.inf), np.where(c < 0.2, np.nextafter(xu, np.inf), np.where(c < 0.25, xl - k * w, np.where(c < 0.3, xu + k * w, X))))))
    X = np.where((w == 0) & (rng.random((n, d)) < 0.5), xl + rng.normal(size=(n, d)), X)
    if rng.random() < 0.2:
        X[rng.integers(n)] = inside[0]
    return X, np.clip(xl + rng.random((n, d)) * w, xl, xu)


def expect(nm, X, P, xl, xu):
    """What the repair promises for every coordinate: lower and upper limit of the result."""
    lo, hi = X.copy(), X.copy()
    L, U = X < xl, X > xu
    w = xu - xl
    XL, XU = np.broadcast_to(xl, X.shape), np.broadcast_to(xu, X.shape)
    if nm in ("clamp", "tobound", "de-to-bounds"):
        Y = np.clip(X, xl, xu)
        return Y, Y
    if nm in ("bounce", "periodic"):
        with np.errstate(all="ignore"):
            a, b = np.mod(XL - X, w), np.mod(X - XU, w)
        Y = np.where(L, XL + a if nm == "bounce" else XU - a, np.where(U, XU - b if nm == "bounce" else XL + b, X))
        Y = np.where(w == 0, XL, Y)
        return Y, Y
    if nm in ("random", "de-bounce-back"):
        lo, hi = np.where(L, XL, np.where(U, P, X)), np.where(L, P, np.where(U, XU, X))
        return lo, hi
    if nm == "de-midway":
        Y = np.where(L, (XL + P) / 2, np.where(U, (XU + P) / 2, X))
        return Y, Y
    if nm == "de-rand-init":
        return np.where(L | U, XL, X), np.where(L | U, XU, X)
    raise KeyError(nm)


def apply(nm, X, P, xl, xu, s, form):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.operators.crossover.dex import DE_REPAIRS
    from pymoo.operators.repair import bounce_back, bounds_repair, inverse_penalty, to_bound
    rs = np.random.default_rng(s)
    if nm.startswith("de-"):
        return DE_REPAIRS[nm[3:]](X, P, xl, xu, random_state=rs)
    cls = {"tobound": to_bound.ToBoundOutOfBoundsRepair, "bounce": bounce_back.BounceBackOutOfBoundsRepair, "inverse": inverse_penalty.InversePenaltyOutOfBoundsRepair}.get(nm)
    problem = Problem(n_var=len(xl), n_obj=1, xl=xl, xu=xu)
    if form == "op" and cls is not None:
        pop = Population.new(X=X)
        kw = dict(P=P) if nm == "inverse" else {}
        out = cls()(problem, pop, random_state=rs, **kw)
        assert out is pop
        return out.get("X")
    if nm == "inverse":
        return np.array([inverse_penalty.inverse_penality_by_problem(problem, x, p, random_state=rs) for x, p in zip(X, P)])
    if nm == "clamp":
        return bounds_repair.repair_clamp(X, xl, xu)
    if nm == "periodic":
        return bounds_repair.repair_periodic(X, xl, xu)
    if nm == "random":
        return bounds_repair.repair_random_init(X, P, xl, xu, random_state=rs)
    f = {"tobound": to_bound.set_to_bounds_if_outside, "bounce": bounce_back.bounce_back}[nm]
    if len(X) == 1 and form == "row":
        return f(X[0], xl, xu)[None]
    return f(X, xl, xu)


def run_direct(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.repair import NoRepair, Repair
    from pymoo.operators.repair import bounce_back, bounds_repair, inverse_penalty, rounding, to_bound, vtype
    rng = np.random.default_rng(case["seed"])
    nm = case["name"]
    for t in range(case["n"]):
        d, n = int(rng.choice([1, 2, 3, 6])), int(rng.choice([1, 2, 5, 12]))
        xl, xu, kind = bounds(rng, d)
        X, P = points(rng, n, xl, xu)
        s = int(rng.integers(1 << 40))
        mon.ev("repairs")
        mon.state(nm, X)
        if nm in ("rounding", "type", "none", "custom"):
            other(mon, nm, rng, n, d)
            continue
        if nm == "inverse":
            # squares of smaller values are zero, and so the length of the row's way to its parent
            tiny = (X != 0) & (np.abs(X) < 1e-150)
            X[tiny] = np.sign(X[tiny]) * 1e-150
        X0, P0 = X.copy(), P.copy()
        form = str(rng.choice(["op", "row", "fn"]))
        Y = np.array(apply(nm, X.copy(), P, xl, xu, s, form))
        out = (X0 < xl) | (X0 > xu)
        mon.ev("outside", int(out.sum()))
        mon.ev("inside", int((~out).sum()))
        if not mon.check(Y.shape == X0.shape and np.all(np.isfinite(Y)), f"{nm}:values", lambda: f"shape {Y.shape}, {Y} from {X0} in [{xl}, {xu}]"):
            continue
        mon.check(np.array_equal(P, P0), f"{nm}:reference", "the reference points were changed")
        mon.check(np.all(Y >= xl) and np.all(Y <= xu), f"{nm}:bounds", lambda: f"left out of [{xl}, {xu}]: {Y} from {X0}")
        if nm == "inverse":
            ok = ~out.any(axis=1)
            mon.check(np.array_equal(Y[ok], X0[ok]), "inverse:valid", "a valid row is moved")
            for x, p, y in zip(X0[~ok], P0[~ok], Y[~ok]):
                # on the line from the outside point through the parent, up to being clipped at the bounds
                scale = np.abs(x - p).max() + np.abs(xu - xl).max()
                v = p - x
                j = np.argmax(np.abs(v))
                f = (y[j] - x[j]) / v[j]
                line = np.clip(x + f * v, xl, xu)
                mon.check(f >= -1e-9 and np.allclose(y, line, rtol=0, atol=1e-7 * scale), "inverse:line", lambda: f"{y} does not lie between {x} and beyond its parent {p}")
        else:
            lo, hi = expect(nm, X0, P0, xl, xu)
            tol = 1e-9 * (np.abs(X0) + np.abs(xl) + np.abs(xu))
            if nm in ("bounce", "periodic"):
                # a distance that is a whole number of ranges may land on either bound
                w = xu - xl
                near = np.minimum(np.abs(Y - lo), np.abs(np.abs(Y - lo) - w)) <= tol
                good = near
            else:
                good = (Y >= lo - tol) & (Y <= hi + tol)
            mon.check(np.all(good), f"{nm}:formula", lambda: f"{X0[~good][:3]} became {Y[~good][:3]}, expected {lo[~good][:3]} to {hi[~good][:3]} in [{xl}, {xu}] next to {P0[~good][:3]}")
            valid = ~out
            mon.check(np.array_equal(Y[valid], X0[valid]), f"{nm}:valid", lambda: f"valid values {X0[valid][Y[valid] != X0[valid]][:3]} became {Y[valid][Y[valid] != X0[valid]][:3]}")
        Z = np.array(apply(nm, Y.copy(), P, xl, xu, s + 1, form))
        mon.ev("idempotent")
        mon.eq(Z, Y, f"{nm}:idempotent", "repairing twice changes the result")
        if nm not in ("random", "de-bounce-back", "de-rand-init", "inverse"):
            for k in range(n):
                mon.ev("row_alone")
                R = np.array(apply(nm, X0[[k]].copy(), P[[k]], xl, xu, s, "fn"))
                if not mon.eq(R[0], Y[k], f"{nm}:row", f"row {k} repaired alone differs"):
                    break
        else:
            # other rows keep their result when a valid row is added at the end
            X1 = np.vstack([X0, P0[:1]])
            R = np.array(apply(nm, X1.copy(), np.vstack([P0, P0[:1]]), xl, xu, s, "fn" if form == "row" else form))
            mon.ev("row_alone")
            mon.eq(R[-1], P0[0], f"{nm}:row", "a valid row is moved next to others")
        # no bounds at all: nothing to repair
        cls = {"tobound": to_bound.ToBoundOutOfBoundsRepair, "bounce": bounce_back.BounceBackOutOfBoundsRepair, "inverse": inverse_penalty.InversePenaltyOutOfBoundsRepair}.get(nm)
        if cls is not None:
            mon.ev("unbounded")
            free = Problem(n_var=d, n_obj=1)
            pop = cls()(free, Population.new(X=X0.copy()), **({"P": P0} if nm == "inverse" else {}))
            mon.eq(pop.get("X"), X0, f"{nm}:unbounded", "a problem without bounds was repaired")
        a, b = set(bounds_repair.is_in_bounds(X0, xl, xu).tolist()), set(bounds_repair.is_out_of_bounds(X0, xl, xu).tolist())
        mon.check(b == set(np.where(out.any(axis=1))[0].tolist()) and a == set(range(n)) - b, "in-bounds-test", lambda: f"in {a} out {b} of {X0} in [{xl}, {xu}]")
        if t == 0:
            mon.note(repair=nm, X=X0[:2], Y=Y[:2], xl=xl, xu=xu)


def other(mon, nm, rng, n, d):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.repair import NoRepair, Repair
    from pymoo.operators.repair import rounding, vtype
    xl, xu = rng.integers(-6, 1, d), rng.integers(1, 7, d)
    X = xl + rng.random((n, d)) * (xu - xl)
    X = np.where(rng.random((n, d)) < 0.2, np.round(X), np.where(rng.random((n, d)) < 0.1, np.floor(X) + 0.5, X))
    problem = Problem(n_var=d, n_obj=1, xl=xl, xu=xu, vtype=int)
    F = rng.random((n, 1))
    pop = Population.new(X=X.copy(), F=F.copy())
    who = list(pop)
    seen = []

    class Custom(Repair):
        def _do(self, problem, X, **kwargs):
            seen.append((X.copy(), kwargs))
            return X[:, ::-1] * 2

    t = [int, float, bool][int(rng.integers(3))]
    op = {"rounding": rounding.RoundingRepair(), "type": vtype.TypeRepair(t), "none": NoRepair(), "custom": Custom(vtype=float)}[nm]
    out = op(problem, pop, algorithm="marker") if rng.random() < 0.5 else op.do(problem, pop, algorithm="marker")
    mon.check(len(out) == n and all(a is b for a, b in zip(out, who)), f"{nm}:identity", "the individuals are not those handed in")
    Y = out.get("X")
    mon.check(np.array_equal(out.get("F"), F), f"{nm}:others", "something else than the variables was changed")
    if nm == "rounding":
        mon.check(Y.dtype.kind in "iu" and np.all(np.abs(Y - X) <= 0.5) and np.all(Y >= xl) and np.all(Y <= xu), "rounding:nearest", lambda: f"{X} became {Y}")
        r = X == np.round(X)
        mon.ev("inside", int(r.sum()))
        mon.check(np.array_equal(Y[r], X[r]), "rounding:valid", "an integer value was moved")
        again = op(problem, Population.new(X=Y.copy())).get("X")
        mon.eq(again, Y, "rounding:idempotent", "rounding twice")
    elif nm == "type":
        mon.check(Y.dtype == np.dtype(t), "type:type", lambda: f"{Y.dtype} instead of {t}")
        mon.check(np.array_equal(Y, X.astype(t)), "type:values", "values differ from the conversion")
    elif nm == "none":
        mon.eq(Y, X, "none:unchanged", "no repair changed the variables")
    else:
        mon.check(len(seen) == 1 and np.array_equal(seen[0][0], X) and seen[0][1].get("algorithm") == "marker", "custom:input", "the repair did not get the matrix of variables and the arguments once")
        mon.eq(Y, X[:, ::-1] * 2, "custom:output", "what the repair returned is not what the individuals hold")


def run_dist(case, mon):
    rng = np.random.default_rng(case["seed"])
    nm = case["name"]
    xl, xu = np.array([-2.0, 0.0]), np.array([3.0, 1e-3])
    n = 4000
    low = rng.random((n, 2)) < 0.5
    P = xl + rng.random((n, 2)) * (xu - xl)
    X = np.where(low, xl - 0.5 * (xu - xl), xu + 1.5 * (xu - xl))
    mon.ev("distributions")
    mon.state("dist", nm, case["seed"])
    Y = np.array(apply(nm, X.copy(), P, xl, xu, case["seed"], "fn"))
    if nm == "inverse":
        # towards the parent: never beyond what the far bound allows, and spread along the line
        f = (Y[:, 0] - X[:, 0]) / (P[:, 0] - X[:, 0])
        mon.check(np.std(f) > 1e-3, "inverse:spread", "repaired points are not spread along the line")
        return
    a, b = (np.where(low, xl, P), np.where(low, P, xu)) if nm != "de-rand-init" else (np.broadcast_to(xl, X.shape), np.broadcast_to(xu, X.shape))
    for j in range(2):
        for side in (True, False):
            I = low[:, j] == side
            pv, D = ks((Y[I, j] - a[I, j]) / (b[I, j] - a[I, j]))
            mon.check(pv > 1e-7, f"{nm}:uniform", lambda: f"values repaired at the {'lower' if side else 'upper'} bound are not uniform (distance {D:.3f})")


@contextlib.contextmanager
def injected(repair):
    """Every algorithm created inside is given this repair."""
    from pymoo.core.algorithm import Algorithm
    for nm in TAKE:                                  # imports every module
        zoo.create(nm, probs.make(dict(cls="MO", n_var=4, n_obj=2, bounds="shift", fn="convex")), 12)
    todo, orig = [Algorithm], {}
    while todo:
        c = todo.pop()
        todo += c.__subclasses__()
        if "__init__" in c.__dict__ and c is not Algorithm:
            orig[c] = c.__init__

    def wrap(f):
        names = inspect.signature(f).parameters
        takes = "repair" in names or any(p.kind is p.VAR_KEYWORD for p in names.values())

        def __init__(self, *a, **kw):
            if takes:
                kw.setdefault("repair", repair)
            f(self, *a, **kw)
        return __init__
    for c, f in orig.items():
        c.__init__ = wrap(f)
    try:
        yield
    finally:
        for c, f in orig.items():
            c.__init__ = f


def run_run(case, mon):
    from pymoo.core.repair import Repair

    class Grid(Repair):
        """Variables on a grid of 64 steps; the first two in increasing order of their share."""

        def _do(self, problem, X, **kwargs):
            u = (X - problem.xl) / (problem.xu - problem.xl)
            v = np.clip(np.round(u * 64), 0, 64)
            v[:, :2] = np.sort(v[:, :2], axis=1)
            mon.ev("repaired_in_run", int((np.abs(v - u * 64) > 1e-6).any(axis=1).sum()))
            return problem.xl + v / 64 * (problem.xu - problem.xl)

    with injected(Grid()):
        prob, alg = obs.build(case)
    bad = []

    def judge(X, *a):
        for x in np.atleast_2d(np.asarray(X, float)):
            u = (x - prob.xl) / (prob.xu - prob.xl) * 64
            mon.ev("in_run")
            if np.abs(u - np.round(u)).max() > 1e-6 or u[0] > u[1] + 1e-6:
                bad.append(x)
    orig = prob._evaluate

    def _evaluate(x, out, *a, **kw):
        judge(x)
        return orig(x, out, *a, **kw)
    prob._evaluate = _evaluate
    obs.setup(prob, alg, case)
    for _ in obs.steps(alg):
        pass
    mon.state(case["algo"], case["seed"])
    mon.check(not bad, f"run:{case['algo']}:unrepaired", lambda: f"{len(bad)} of {mon.counts['in_run']} solutions were evaluated without the repair given to {case['algo']}: {bad[0]}")


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
