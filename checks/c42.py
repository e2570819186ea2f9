"""C42: local and line searches follow their published rules."""
import warnings

import numpy as np
from vlib import probs

RULE = ("golden section, quadratic interpolation and exponential search on functions with one known minimiser, Wolfe line searches on smooth functions, Nelder-Mead and Hooke-Jeeves replayed evaluation by evaluation from the "
        "problem's own log, DIRECT's cells after every iteration, what the CMA-ES strategies are told, and SciPy's optimizers on constrained quadratics with a known solution; distinct states are different searches")
REQUIRED = ["golden", "quadratic", "exponential", "wolfe", "nelder", "expansions", "contractions", "shrinks", "pattern_moves", "explorations", "direct", "told", "scipy"]
ASSUMPTIONS = ["one objective, finite values, and as far as bounds are given they are finite", "functions for the interval searches have a single minimiser"]

SCIPY = {"NelderMead": 0, "CG": 0, "BFGS": 0, "Powell": 0, "LBFGSB": 1, "TNC": 1, "COBYLA": 2, "SLSQP": 3, "TrustConstr": 3, "NewtonCG": 4, "Dogleg": 4, "TrustNCG": 4, "TrustExact": 4, "TrustKrylov": 4}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 142])
    q = tier == "quick"
    out = []

    def add(few, big, kind, **kw):
        for i in range(few * 4 if q else big):
            out.append(dict(kind=kind, seed=int(rng.integers(1, 10 ** 9)), **kw))

    add(8, 120, "golden", n=12)
    add(8, 120, "quadratic", n=12)
    add(8, 120, "exponential", n=20)
    add(10, 150, "wolfe", n=20)
    add(1, 3, "wolfeclass")
    add(24, 400, "nelder")
    add(24, 400, "pattern")
    add(12, 120, "direct")
    for a in ["CMAES", "SimpleCMAES", "BIPOPCMAES"]:
        add(4, 40, "cma", algo=a)
    for a in SCIPY:
        add(5, 40, "scipy", algo=a)
    for a in ["NelderMead", "Powell", "LBFGSB", "TNC", "COBYLA", "CG", "BFGS", "SLSQP", "TrustConstr"]:
        add(2, 10, "limit", algo=a)
    return out


# ------------------------------------------------------------------------------------------------- one variable

def uni(rng, xl, xu, smooth=False):
    """A function with one minimiser m and strictly monotone on both sides."""
    from pymoo.core.problem import Problem
    m = float(rng.uniform(xl, xu)) if rng.random() < 0.8 else float(rng.choice([xl, xu]))
    p, q = rng.choice([1.0, 2.0, 3.0, 0.5], 2)
    if smooth:
        p = q = 2.0
    l, r = rng.uniform(0.2, 5, 2)
    off = float(rng.choice([0.0, -3.0, 100.0]))

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=1, n_obj=1, xl=xl, xu=xu)
            self.rows = []

        def f(self, x):
            d = (x - m) / (xu - xl)
            return np.where(d < 0, l * np.abs(d) ** p, r * np.abs(d) ** q) + off

        def _evaluate(self, x, out, *args, **kwargs):
            self.rows.extend(x.ravel().tolist())
            out["F"] = self.f(x)

    return P(), m


def interval(rng):
    c = float(rng.normal(0, 10 ** rng.uniform(-2, 3)))
    return c, c + float(10 ** rng.uniform(-2, 3))


def given_bracket(rng, xl, xu):
    """How the caller names the interval: not at all, to the constructor, or as arguments of the run."""
    from pymoo.core.individual import Individual
    how = str(rng.choice(["none", "ctor", "run", "left", "right"]))
    a, b = sorted(rng.uniform(xl, xu, 2).tolist())
    if b - a < 0.05 * (xu - xl):
        a, b = xl + 0.25 * (xu - xl), xu - 0.25 * (xu - xl)
    ca, cb = (how in ("ctor", "run", "left")), (how in ("ctor", "run", "right"))
    kw = {}
    if ca:
        kw["a"] = Individual(X=np.array([a]))
    if cb:
        kw["b"] = Individual(X=np.array([b]))
    return (kw if how != "run" else {}), (kw if how == "run" else {}), a if ca else xl, b if cb else xu


def iterate(alg, prob, n, **kw):
    alg.setup(prob, termination=("n_gen", n), seed=1, verbose=False, **kw)
    k = 0
    while alg.has_next() and k < n + 5:
        alg.next()
        k += 1
        yield k, alg


def golden(case, mon, rng):
    from pymoo.algorithms.soo.univariate.golden import GoldenSectionSearch
    from pymoo.core.population import Population
    for _ in range(case["n"]):
        xl, xu = interval(rng)
        prob, m = uni(rng, xl, xu)
        ctor, run, a, b = given_bracket(rng, xl, xu)
        if not a <= m <= b:
            m = a if m < a else b          # the minimiser of the interval itself
        W, R = b - a, (5 ** 0.5 - 1) / 2
        prev, seen = None, 0
        mon.ev("golden")
        mon.state("golden", xl, xu, a, b)
        for k, alg in iterate(GoldenSectionSearch(**ctor), prob, 25, **run):
            xs = alg.pop.get("X").ravel()
            w = xs[-1] - xs[0]
            fs = prob.f(xs)
            if w < 1e-6 * W or W < 1e-9 * abs(a) or np.ptp(fs) < 1e-7 * (1 + np.abs(fs).max()):
                break
            tol = 1e-7 * w + 1e-9 * W
            data = dict(lower=a, upper=b, m=m, xs=xs.tolist(), k=k)
            ok = len(xs) == 4
            mon.check(ok, "golden:points", f"{len(xs)} points instead of the four of the bracket", **data)
            if not ok:
                break
            if prev is None:
                mon.check(abs(xs[0] - a) <= tol and abs(xs[-1] - b) <= tol, "golden:start", "the search does not start with the interval it was given", **data)
            else:
                mon.check(abs(w - R * prev) <= 1e-6 * prev + 1e-9 * W, "golden:shrink", f"the interval shrinks by {w / prev} instead of the golden ratio", **data)
                mon.check(len(prob.rows) - seen == 1, "golden:evals", f"{len(prob.rows) - seen} evaluations in an iteration", **data)
            mon.check(np.all(np.diff(xs) >= -tol), "golden:order", "the points of the bracket are not ordered", **data)
            mon.check(abs(xs[1] - (xs[3] - R * w)) <= 1e-5 * w + tol and abs(xs[2] - (xs[0] + R * w)) <= 1e-5 * w + tol, "golden:inner", "the inner points do not divide the interval by the golden ratio", **data)
            mon.check(xs[0] - tol <= m <= xs[3] + tol, "golden:lost", "the interval does not contain the minimiser any more", **data)
            mon.eq(alg.pop.get("F").ravel(), prob.f(xs), "golden:values", "the points do not carry the values of the problem", rtol=1e-9, atol=1e-12, **data)
            prev, seen = w, len(prob.rows)
        mon.ev("iterations", k)


def quadratic(case, mon, rng):
    from pymoo.algorithms.soo.univariate.quadr_interp import QuadraticInterpolationSearch, quadr_interp_equ
    for _ in range(case["n"]):
        xl, xu = interval(rng)
        smooth = rng.random() < 0.4
        prob, m = uni(rng, xl, xu, smooth)
        ctor, run, a, b = given_bracket(rng, xl, xu)
        if not a <= m <= b:
            m = a if m < a else b
        W = b - a
        prev = None
        mon.ev("quadratic")
        mon.state("quadratic", xl, xu, a, b)
        for k, alg in iterate(QuadraticInterpolationSearch(**ctor), prob, 15, **run):
            xs = alg.pop.get("X").ravel()
            if len(xs) != 3:
                mon.viol("quadratic:points", f"{len(xs)} points instead of three")
                break
            l, r, c = xs
            w = r - l
            fs = prob.f(xs)
            # close to the limits of what can be told apart nothing is judged any more
            if not w > 1e-4 * W or W < 1e-7 * abs(a) or np.ptp(fs) < 1e-7 * (1 + np.abs(fs).max()):
                break
            tol = 1e-7 * w + 1e-9 * W
            data = dict(lower=a, upper=b, m=m, xs=xs.tolist(), k=k)
            mon.check(l - tol <= c <= r + tol, "quadratic:order", "the inner point is not in the interval", **data)
            mon.check(l - tol <= m <= r + tol, "quadratic:lost", "the interval does not contain the minimiser any more", **data)
            if prev is None:
                mon.check(abs(l - a) <= tol and abs(r - b) <= tol and abs(c - (a + b) / 2) <= tol, "quadratic:start", "the search does not start with the interval it was given and its middle", **data)
            else:
                pl, pr = prev
                mon.check(l >= pl - tol and r <= pr + tol and w <= (pr - pl) * (1 + 1e-9), "quadratic:shrink", "the interval does not shrink", **data)
            prev = (l, r)
        # the interpolation itself is exact for parabolas
        v, s = rng.normal(), rng.uniform(0.1, 5)
        x3 = v + rng.permutation([-rng.uniform(0.1, 3), rng.uniform(0.1, 3), rng.uniform(-0.05, 0.05)])
        f3 = s * (x3 - v) ** 2 + 1.5
        d = quadr_interp_equ(x3[0], f3[0], x3[1], f3[1], x3[2], f3[2])
        mon.check(abs(d - v) <= 1e-6 * (1 + abs(v)), "quadratic:vertex", f"the vertex of a parabola is at {v}, not {d}", x=x3.tolist(), f=f3.tolist())


def exponential(case, mon, rng):
    from pymoo.algorithms.soo.univariate.exp import ExponentialSearch
    from pymoo.core.individual import Individual
    from pymoo.optimize import minimize
    for _ in range(case["n"]):
        xl, xu = interval(rng)
        prob, m = uni(rng, xl, xu)
        W = xu - xl
        delta = float(W * 10 ** rng.uniform(-3, 0.5))
        kw, x0 = {}, xl
        if rng.random() < 0.5:
            x0 = float(rng.uniform(xl, xu))
            kw = dict(x0=Individual(X=np.array([x0])))
        res = minimize(prob, ExponentialSearch(delta=delta), seed=1, **kw)
        rows = np.array(prob.rows)
        want = [x0]
        for k in range(200):
            x = min(x0 + delta * 2.0 ** k, xu)
            want.append(x)
            if prob.f(np.array([x]))[0] > prob.f(np.array([want[-2]]))[0] or x >= xu:
                break
        data = dict(xl=xl, xu=xu, m=m, delta=delta, x0=x0, rows=rows.tolist(), want=want)
        mon.ev("exponential")
        mon.state("exponential", xl, xu, x0, delta)
        ok = len(rows) == len(want) and np.all(np.abs(rows - np.array(want)) <= 1e-9 * W + 1e-12 * abs(xl))
        mon.check(ok, "exponential:points", "the points are not start + delta * 2^k until the value gets worse or the bound is reached", **data)
        if len(rows):
            mon.check(abs(float(res.F[0]) - prob.f(rows).min()) <= 1e-12 * (1 + abs(float(res.F[0]))), "exponential:result", "the result is not the best point evaluated", **data)


# ------------------------------------------------------------------------------------------------- Wolfe

def smooth_problem(rng):
    from pymoo.core.problem import Problem
    n = int(rng.integers(1, 6))
    kind = str(rng.choice(["quad", "quartic", "rosen", "cos", "logcosh"]))
    c = rng.normal(size=n)
    h = 10 ** rng.uniform(-2, 2, n)

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=n, n_obj=1)
            self.n_seen, self.n_grad = 0, 0

        def both(self, x):
            d = x - c
            if kind == "quad":
                return (h * d ** 2).sum(1), 2 * h * d
            if kind == "quartic":
                return (h * d ** 4).sum(1), 4 * h * d ** 3
            if kind == "cos":
                return (d ** 2 + 2 * (1 - np.cos(3 * d))).sum(1), 2 * d + 6 * np.sin(3 * d)
            if kind == "logcosh":
                return (h * (np.logaddexp(d, -d) - np.log(2))).sum(1), h * np.tanh(d)
            g = 2 * (d - 0)
            f = (d ** 2).sum(1)
            if n > 1:
                t = x[:, 1:] - x[:, :-1] ** 2
                f = f + 10 * (t ** 2).sum(1)
                g = g.copy()
                g[:, 1:] += 20 * t
                g[:, :-1] += -40 * t * x[:, :-1]
            return f, g

        def _evaluate(self, x, out, *args, **kwargs):
            self.n_seen += len(x)
            f, g = self.both(x)
            out["F"] = f[:, None]
            out["dF"] = g[:, None, :]

    return P(), kind


def wolfe(case, mon, rng):
    from pymoo.algorithms.soo.univariate.wolfe import wolfe_line_search
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    for _ in range(case["n"]):
        prob, kind = smooth_problem(rng)
        x = rng.normal(0, 2, prob.n_var)
        f0, g0 = (v[0] for v in prob.both(x[None]))
        if np.linalg.norm(g0) < 1e-3:
            continue
        d = -g0 if rng.random() < 0.5 else -g0 * rng.uniform(0.1, 2, prob.n_var)
        d = d / np.linalg.norm(d) ** int(rng.integers(0, 2)) * 10 ** rng.uniform(-2, 1)
        c1, c2, mi = float(rng.choice([1e-4, 1e-2, 0.2])), float(rng.choice([0.9, 0.5, 0.3])), int(rng.choice([1, 2, 4, 10, 20]))
        sol = Individual(X=x.copy())
        ev = Evaluator()
        ev.eval(prob, sol, evaluate_values_of=["F", "CV", "dF"])
        n0 = prob.n_seen
        new = wolfe_line_search(prob, sol, d, c1=c1, c2=c2, max_iter=mi, evaluator=ev)
        used = prob.n_seen - n0
        f, g = (v[0] for v in prob.both(np.asarray(new.X, float)[None]))
        al = float(new.get("alpha"))
        s0 = float(g0 @ d)
        data = dict(kind_f=kind, x=x.tolist(), d=d.tolist(), c1=c1, c2=c2, max_iter=mi, alpha=al, f0=f0, f=f, slope0=s0, slope=float(g @ d), used=used)
        mon.ev("wolfe")
        mon.state("wolfe", x, d, c1)
        mon.check(np.allclose(new.X, x + al * d, rtol=1e-9, atol=1e-12), "wolfe:line", "the point returned is not on the line for its alpha", **data)
        mon.check(abs(float(new.F[0]) - f) <= 1e-9 * (1 + abs(f)), "wolfe:value", "the point returned does not carry its value", **data)
        mon.check(al >= 0 and f <= f0 + c1 * al * s0 + 1e-9 * (1 + abs(f0)), "wolfe:decrease", "the step does not decrease the function sufficiently", **data)
        limited = al == 0 or al >= 2.0 ** (mi - 1) * (1 - 1e-9)
        if not limited:
            # rounding decides when the function hardly changes along the line
            mon.check(abs(g @ d) <= c2 * abs(s0) * (1 + 1e-6) + 1e-9 or al < 1e-7, "wolfe:curvature", "the step does not fulfil the curvature condition", **data)
            mon.ev("wolfe_both")
        elif al == 0:
            mon.viol("wolfe:nostep", "no step is made along a descent direction", **data)
        mon.check(used <= 2 * (mi + 101), "wolfe:evals", f"{used} evaluations", **data)


def wolfeclass(case, mon, rng):
    from pymoo.algorithms.base.line import LineSearchProblem
    from pymoo.algorithms.soo.univariate.wolfe import WolfeSearch
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    prob, kind = smooth_problem(rng)
    sol = Individual(X=rng.normal(0, 2, prob.n_var))
    Evaluator().eval(prob, sol, evaluate_values_of=["F", "CV", "dF"])
    try:
        alg = WolfeSearch()
        alg.setup(LineSearchProblem(prob, sol, -sol.get("dF")[0], strict_bounds=False), termination=("n_gen", 5), seed=1, verbose=False)
        for _ in range(5):
            if not alg.has_next():
                break
            alg.next()
        mon.ev("wolfe_class")
        best = alg.opt[0]
        mon.check(float(best.F[0]) < float(sol.F[0]), "wolfeclass:result", "the line search does not improve along a descent direction")
    except Exception as e:
        mon.viol("wolfeclass:raises", f"the Wolfe line search as an algorithm raises {type(e).__name__}: {e}")


# ------------------------------------------------------------------------------------------------- Nelder-Mead, pattern search

def local_problem(rng, tag=""):
    """A smooth or rugged function without ties, with or without bounds and constraints."""
    from pymoo.core.problem import Problem
    n = int(rng.integers(2, 7))
    kind = str(rng.choice(["quad", "rosen", "rastrigin", "abs", "edge"]))
    c = rng.normal(0, 2, n)
    h = 10 ** rng.uniform(-1, 1, n)
    bounded = rng.random() < 0.7
    con = rng.random() < 0.35
    xl = c - rng.uniform(0.2, 6, n) * np.where(rng.random(n) < 0.2, -0.1, 1)
    xu = xl + rng.uniform(0.5, 10, n)
    v, t = rng.normal(size=n), float(rng.normal())

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=n, n_obj=1, n_ieq_constr=int(con), xl=xl if bounded else None, xu=xu if bounded else None)
            self.rows = []

        def values(self, x):
            d = x - c
            if kind == "quad":
                f = (h * d ** 2).sum(1)
            elif kind == "rosen":
                f = (10 * (x[:, 1:] - x[:, :-1] ** 2) ** 2).sum(1) + (d ** 2).sum(1)
            elif kind == "rastrigin":
                f = (d ** 2 + 2 * (1 - np.cos(4 * d))).sum(1)
            elif kind == "abs":
                f = (h * np.abs(d)).sum(1) + 0.1 * (d ** 2).sum(1)
            else:
                f = x @ (h * np.sign(v)) + 0.01 * (d ** 2).sum(1)
            g = (d @ v - t)[:, None]
            return f, g

        def key(self, x):
            """Smaller is better: infeasibility first, then the value."""
            f, g = self.values(x[None])
            cv = max(float(g[0, 0]), 0.0) if con else 0.0
            return (cv, 0.0) if cv > 0 else (0.0, float(f[0]))

        def _evaluate(self, x, out, *args, **kwargs):
            self.rows.extend(np.array(x, float, copy=True))
            f, g = self.values(x)
            out["F"] = f[:, None]
            if con:
                out["G"] = g

    return P(), kind


class Stop(Exception):
    pass


class Replay:
    """Reads the evaluations one after another; ends when the log does."""

    def __init__(self, prob, start, mon, tag, data):
        self.prob, self.i, self.mon, self.tag, self.data = prob, start, mon, tag, data
        xl, xu = prob.bounds()
        self.xl, self.xu = xl, xu
        self.scale = (xu - xl) if xl is not None else None

    def clip(self, x):
        return x if self.xl is None else np.clip(x, self.xl, self.xu)

    def take(self):
        if self.i >= len(self.prob.rows):
            raise Stop
        x = self.prob.rows[self.i]
        self.i += 1
        return x

    def close(self, a, b, ref=None):
        s = self.scale if self.scale is not None else 1 + np.abs(b)
        return bool(np.all(np.abs(a - b) <= 1e-8 * s))

    def expect(self, want, what, other=None, **kw):
        x = self.take()
        if not self.close(x, want) and (other is None or not self.close(x, other)):
            self.mon.viol(f"{self.tag}:{what}", f"evaluation {self.i} is not the {what} of the rule", got=x.tolist(), want=np.asarray(want).tolist(), **self.data, **kw)
            raise Stop
        return x


def reach(c, d, xl, xu, skip=0.0):
    """How far along d from c until the first bound; skip: bounds so close are not looked at."""
    if xl is None:
        return np.inf
    best = np.inf
    for k in range(len(c)):
        if d[k] != 0 and abs((xu[k] if d[k] > 0 else xl[k]) - c[k]) < skip * (xu[k] - xl[k]):
            continue
        if d[k] > 0:
            best = min(best, (xu[k] - c[k]) / d[k])
        elif d[k] < 0:
            best = min(best, (xl[k] - c[k]) / d[k])
    return max(best, 0.0)


def run_local(alg, prob, n):
    from pymoo.optimize import minimize
    return minimize(prob, alg, ("n_eval", n), seed=1)


def first(rng, prob, kw):
    """The initial point: sampled, or given."""
    if rng.random() < 0.5 or prob.xl is None:
        lo, hi = (prob.xl, prob.xu) if prob.xl is not None else (-3 * np.ones(prob.n_var), 3 * np.ones(prob.n_var))
        x0 = rng.uniform(lo, hi)
        if prob.xl is not None and rng.random() < 0.3:
            k = rng.integers(prob.n_var)
            x0[k] = prob.xu[k] if rng.random() < 0.6 else prob.xl[k]
        kw["x0"] = x0.copy()
        return 1
    kw["n_sample_points"] = int(rng.integers(1, 25))
    return kw["n_sample_points"]


def nelder(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead, adaptive_params, default_params
    prob, kind = local_problem(rng)
    n = prob.n_var
    kw = {}
    n0 = first(rng, prob, kw)
    scale = float(rng.choice([0.05, 0.05, 0.01, 0.2, 0.5]))
    ad = bool(rng.random() < 0.6)
    if ad:
        al, be, ga, de = 1.0, 1 + 2 / n, 0.75 - 1 / (2 * n), 1 - 1 / n
    else:
        al, be, ga, de = 1.0, 2.0, 0.5, 0.05
        kw["func_params"] = default_params
    run_local(NelderMead(init_simplex_scale=scale, **kw), prob, int(rng.integers(40, 220)))
    mon.ev("nelder")
    data = dict(f=kind, n=n, bounded=prob.xl is not None, adaptive=ad, scale=scale)
    rep = Replay(prob, 0, mon, "nelder", data)
    xl, xu = prob.bounds()
    try:
        start = [rep.take() for _ in range(n0)]
        x0 = min(start, key=prob.key)
        S = [x0]
        for k in range(n):
            x = x0.copy()
            if xl is not None:
                dl = scale * (xu[k] - xl[k])
                x[k] = x[k] + dl if x[k] + dl < xu[k] else x[k] - dl
            else:
                x[k] += scale * x0[k] if x0[k] != 0 else 0.00025
            S.append(rep.expect(x, "initial simplex"))
        while True:
            S.sort(key=prob.key)
            keys = [prob.key(s) for s in S]
            if any(keys[i] == keys[i + 1] for i in range(n)):
                break
            mon.ev("nelder_steps")
            worst, second, best = keys[n], keys[n - 1], keys[0]
            c = np.mean(S[:n], axis=0)
            d = c - S[n]
            # a simplex as good as flat in a variable: rounding decides how far it is to the bound
            tiny = 1e-9 * (1 if rep.scale is None else rep.scale)
            if np.any((d != 0) & (np.abs(d) < tiny)):
                break
            # rounding decides whether a centroid on a bound is on it
            R = rep.expect(rep.clip(c + min(al, reach(c, d, xl, xu)) * d), "reflection", rep.clip(c + min(al, reach(c, d, xl, xu, 1e-12)) * d))
            kR = prob.key(R)
            shrink = False
            if kR < best:
                if np.any((R != c) & (np.abs(R - c) < tiny)):
                    break
                mon.ev("expansions")
                E = rep.expect(rep.clip(c + min(be, reach(c, R - c, xl, xu)) * (R - c)), "expansion", rep.clip(c + min(be, reach(c, R - c, xl, xu, 1e-12)) * (R - c)))
                S[n] = E if prob.key(E) < kR else R
            elif kR < second:
                S[n] = R
            elif kR < worst:
                mon.ev("contractions")
                C = rep.expect(rep.clip(c + ga * (R - c)), "outside contraction")
                if prob.key(C) < kR:
                    S[n] = C
                else:
                    shrink = True
            else:
                mon.ev("contractions")
                C = rep.expect(rep.clip(c - ga * (R - c)), "inside contraction")
                if prob.key(C) < worst:
                    S[n] = C
                else:
                    shrink = True
            if shrink:
                mon.ev("shrinks")
                for k in range(1, n + 1):
                    S[k] = rep.expect(rep.clip(S[0] + de * (S[k] - S[0])), "shrink")
    except Stop:
        pass
    mon.state("nelder", kind, n, ad, scale, len(prob.rows))


def pattern(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
    prob, kind = local_problem(rng)
    n = prob.n_var
    kw = {}
    n0 = first(rng, prob, kw)
    delta0, rho0, step = (float(rng.choice(v)) for v in ([0.25, 0.1, 0.4], [0.5, 0.3, 0.8], [1.0, 0.5, 2.0]))
    run_local(PatternSearch(init_delta=delta0, init_rho=rho0, step_size=step, **kw), prob, int(rng.integers(40, 300)))
    mon.ev("pattern")
    data = dict(f=kind, n=n, bounded=prob.xl is not None, delta=delta0, rho=rho0, step=step)
    rep = Replay(prob, 0, mon, "pattern", data)
    xl, xu = prob.bounds()

    def explore(base, rho):
        left = set(range(n))
        while left:
            x = rep.take()
            diff = [k for k in range(n) if x[k] != base[k]]
            if len(diff) > 1 or (diff and diff[0] not in left):
                mon.viol("pattern:axis", "an exploration does not change exactly one variable, each of them once", got=x.tolist(), base=base.tolist(), left=sorted(left), **data)
                raise Stop

            def step_to(k, sg):
                w = base.copy()
                w[k] += sg * rho * D[k]
                return rep.clip(w)

            cand = [(k, sg) for k in (diff or sorted(left)) for sg in (1, -1) if rep.close(x, step_to(k, sg))]
            if not cand:
                mon.viol("pattern:step", "an exploration does not make a step of the current size", got=x.tolist(), base=base.tolist(), size=(rho * D).tolist(), **data)
                raise Stop
            if not diff and len({k for k, _ in cand}) > 1:
                raise Stop                # which variable it was cannot be told
            k, sg = cand[0]
            if len(cand) > 1 and diff:
                # a step in either direction may end at the same bound
                raise Stop
            left.discard(k)
            if prob.key(x) < prob.key(base):
                base = x
                continue
            if len(cand) > 1:
                raise Stop
            x = rep.expect(step_to(k, -sg), "opposite step")
            if prob.key(x) < prob.key(base):
                base = x
        return base

    try:
        start = [rep.take() for _ in range(n0)]
        center = min(start, key=prob.key)
        if xl is not None:
            D = delta0 * (xu - xl)
        else:
            D = np.abs(center) / 2
            D[D <= 1.0] = 1.0
        expl, fails = center, 0
        while True:
            if not prob.key(expl) < prob.key(center):
                fails += 1
                mon.ev("explorations")
                if rho0 ** fails < 1e-6:
                    break
                expl = explore(center, rho0 ** fails)
            else:
                direction = expl - center
                center = expl
                mon.ev("pattern_moves")
                trial = rep.expect(rep.clip(center + step * direction), "pattern move")
                expl = explore(trial, rho0 ** fails)
    except Stop:
        pass
    mon.state("pattern", kind, n, delta0, rho0, len(prob.rows))


# ------------------------------------------------------------------------------------------------- DIRECT

def direct(case, mon, rng):
    from pymoo.algorithms.soo.nonconvex.direct import DIRECT
    prob, kind = local_problem(rng)
    while prob.xl is None:
        prob, kind = local_problem(rng)
    xl, xu = prob.bounds()
    pen, cap = float(rng.choice([0.1, 1.0])), int(rng.choice([3, 10, 10, 50]))
    alg = DIRECT(penalty=pen, n_max_candidates=cap, n_max_archive=int(rng.choice([60, 400])))
    prev, whole = None, True
    data = dict(f=kind, n=prob.n_var, penalty=pen, cap=cap)
    mon.ev("direct")
    mon.state("direct", kind, prob.n_var, cap, case["seed"])
    for k, alg in iterate(alg, prob, int(rng.integers(6, 26))):
        pop = alg.pop
        X, L, U = pop.get("X"), pop.get("xl").astype(float), pop.get("xu").astype(float)
        side = (U - L) / (xu - xl)
        ok = np.all(np.abs(X - (L + U) / 2) <= 1e-9 * (xu - xl)) and np.all(L >= xl - 1e-9 * (xu - xl)) and np.all(U <= xu + 1e-9 * (xu - xl)) and np.all(side > 0)
        mon.check(ok, "direct:cell", "a point is not the centre of its cell within the box", **data)
        if prev is not None:
            pX, pL, pU, pF, pCV, ids = prev
            old = {tuple(x): i for i, x in enumerate(pX)}
            kept = [(i, old[tuple(x)]) for i, x in enumerate(X) if tuple(x) in old]
            if len(kept) < len(pX):
                whole = False
            parents = [j for i, j in kept if not (np.array_equal(L[i], pL[j]) and np.array_equal(U[i], pU[j]))]
            # what was worth dividing: no other cell is at least as large and at least as good
            ps = ((pU - pL) / (xu - xl) / 2).mean(axis=1)
            rg = np.ptp(pF)
            val = ((pF - pF.min()) / (rg if rg > 0 else 1.0)).ravel() + pen * pCV.ravel()
            if len(kept) == len(pX):
                n_front = 0
                for j in range(len(pX)):
                    dom = (ps >= ps[j] - 1e-9) & (val <= val[j]) & ((ps > ps[j] + 1e-9) | (val < val[j] - 1e-9))
                    if not dom.any():
                        n_front += 1
                    elif j in parents:
                        mon.viol("direct:parents", "a cell is divided although another one is larger and better", sizes=ps.tolist(), values=val.tolist(), cell=j, **data)
                if n_front <= cap:
                    mon.check(len(parents) >= n_front, "direct:missed", f"{len(parents)} cells are divided, {n_front} are worth it", **data)
                else:
                    mon.check(len(parents) <= cap, "direct:cap", f"{len(parents)} cells are divided, at most {cap} should be", **data)
            mon.ev("divided", len(parents))
            for j in parents:
                w = (pU[j] - pL[j]) / (xu - xl)
                i = [a for a, b in kept if b == j][0]
                dims = [q for q in range(prob.n_var) if abs((U[i] - L[i])[q] - (pU[j] - pL[j])[q]) > 1e-12 * (xu - xl)[q]]
                good = len(dims) == 1 and abs((U[i] - L[i])[dims[0]] * 3 - (pU[j] - pL[j])[dims[0]]) <= 1e-8 * (pU[j] - pL[j])[dims[0]] and w[dims[0]] >= w.max() * (1 - 1e-9)
                mon.check(good, "direct:longest", "a cell is not divided into thirds along its longest side", before=w.tolist(), after=side[i].tolist(), **data)
            # no cell overlaps another one, and together they make up the box
        for i in range(len(X)):
            ov = np.minimum(U, U[i]) - np.maximum(L, L[i])
            inner = np.all(ov > 1e-9 * (xu - xl), axis=1)
            inner[i] = False
            if inner.any():
                mon.viol("direct:overlap", "two cells overlap", a=[L[i].tolist(), U[i].tolist()], b=[L[inner][0].tolist(), U[inner][0].tolist()], **data)
                break
        if whole:
            vol = float(np.prod(side, axis=1).sum())
            mon.check(abs(vol - 1) <= 1e-6, "direct:volume", f"the cells make up {vol} of the box", **data)
        prev = (X.copy(), L.copy(), U.copy(), pop.get("F").copy(), pop.get("CV").copy(), None)


# ------------------------------------------------------------------------------------------------- CMA-ES

def cma_case(case, mon, rng):
    import cma
    from pymoo.algorithms.soo.nonconvex import cmaes
    from pymoo.optimize import minimize
    prob, kind = local_problem(rng)
    while prob.xl is None:
        prob, kind = local_problem(rng)
    xl, xu = prob.bounds()
    con = prob.n_ieq_constr > 0
    told = []
    real = cma.CMAEvolutionStrategy.tell

    def tell(self, solutions, function_values, *a, **k):
        told.append((np.array(solutions, float, copy=True), np.array(function_values, float, copy=True)))
        return real(self, solutions, function_values, *a, **k)

    name = case["algo"]
    kw = {}
    n0 = first(rng, prob, kw)
    if name != "SimpleCMAES" and "n_sample_points" in kw:
        del kw["n_sample_points"]          # everything not known is an option of the strategy itself
        n0 = 20
    norm = bool(rng.random() < 0.7)
    if norm is False:
        kw["normalize"] = False
        kw["sigma"] = float(0.2 * (xu - xl).min())
    if name == "CMAES" and rng.random() < 0.5:
        kw["parallelize"] = False
    cma.CMAEvolutionStrategy.tell = tell
    try:
        minimize(prob, getattr(cmaes, name)(**kw), ("n_eval", int(rng.integers(60, 400))), seed=int(rng.integers(1, 1000)))
    finally:
        cma.CMAEvolutionStrategy.tell = real
    data = dict(algo=name, f=kind, n=prob.n_var, con=con, kw={k: v for k, v in kw.items() if k != "x0"})
    seen = {tuple(np.round((r - xl) / (xu - xl), 9)) for r in prob.rows[n0:]}
    for S, V in told:
        Z = np.clip(S * (xu - xl) + xl if norm else S, xl, xu)
        f, g = prob.values(Z)
        if con and name != "SimpleCMAES":
            f = np.where(g[:, 0] > 0, np.inf, f)
        edge = con and bool(np.any(np.abs(g) < 1e-9))
        mon.ev("told", len(S))
        mon.state("cma", name, S)
        if not edge:
            mon.eq(V.ravel(), f.ravel(), "cma:told", "the values told to the strategy are not those of its solutions", rtol=1e-7, atol=1e-9, **data)
        miss = [z for z in Z if tuple(np.round((z - xl) / (xu - xl), 9)) not in seen]
        mon.check(len(miss) <= 0.02 * len(Z) + 1, "cma:evaluated", f"{len(miss)} of {len(Z)} solutions told were not evaluated", **data)


# ------------------------------------------------------------------------------------------------- SciPy

def scipy_case(case, mon, rng, limit=False):
    import pymoo.vendor.vendor_scipy as v
    from pymoo.core.problem import Problem
    from pymoo.optimize import minimize
    name = case["algo"]
    level = SCIPY[name]
    n = int(rng.integers(2, 5))
    c, h = rng.uniform(-2, 2, n), rng.uniform(0.5, 4, n)
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    box = level in (1, 3) and rng.random() < 0.8
    ieq = int(level in (2, 3) and rng.random() < 0.7)
    eq = int(level == 3 and rng.random() < 0.5)
    xl, xu = None, None
    if box:
        xl = c + rng.uniform(-3, 0.5, n)
        xu = xl + rng.uniform(0.5, 5, n)
        lo, hi = xl.copy(), xu.copy()
    best = np.clip(c, lo, hi)
    b0 = b1 = None
    if ieq:
        b0 = float(best[0] + rng.uniform(-0.4, 0.3))
        if box:
            b0 = float(np.clip(b0, lo[0] + 0.05, None))
        best[0] = min(best[0], b0)
    if eq:
        b1 = float(best[1] + rng.uniform(-0.3, 0.3))
        if box:
            b1 = float(np.clip(b1, lo[1], hi[1]))
        best[1] = b1
    grad = level == 4 or (level < 4 and name not in ("NelderMead", "Powell", "COBYLA") and rng.random() < 0.4)

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=n, n_obj=1, n_ieq_constr=ieq, n_eq_constr=eq, xl=xl, xu=xu)
            self.rows = []

        def _evaluate(self, x, out, *args, **kwargs):
            self.rows.extend(np.array(x, float, copy=True))
            out["F"] = (h * (x - c) ** 2).sum(axis=1)
            out["dF"] = (2 * h * (x - c))[:, None, :]
            if ieq:
                out["G"] = x[:, :1] - b0
            if eq:
                out["H"] = x[:, 1:2] - b1

    prob = P()
    x0 = rng.uniform(xl, xu) if box else rng.uniform(-3, 3, n)
    kw = dict(estm_gradients=False) if grad else {}
    term, lim = (), None
    if limit:
        lim = int(rng.integers(6, 25))
        term = (("n_eval", lim),)
    data = dict(algo=name, n=n, c=c.tolist(), h=h.tolist(), xl=xl, xu=xu, ieq=b0, eq=b1, x0=x0.tolist(), grad=grad, limit=lim)
    if level == 4:
        # these need a matrix of second derivatives which can not be provided
        if name in ("Dogleg", "TrustNCG", "TrustExact", "TrustKrylov"):
            mon.ev("scipy_skipped")
            return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            res = minimize(prob, getattr(v, name)(x0=x0, **kw), *term, seed=1)
        except Exception as e:
            mon.viol(f"scipy:{name}:raises", f"the optimizer raises {type(e).__name__}: {e}", **data)
            return
    mon.ev("scipy")
    mon.state("scipy", name, x0)
    used = len(prob.rows)
    mon.check(res.algorithm.evaluator.n_eval == used, f"scipy:{name}:count", f"{res.algorithm.evaluator.n_eval} evaluations are counted, the problem has made {used}", **data)
    X, F = (res.X, res.F) if res.X is not None else (res.opt[0].X, res.opt[0].F)
    mon.check(abs(float(np.ravel(F)[0]) - float((h * (X - c) ** 2).sum())) <= 1e-9 * (1 + abs(float(np.ravel(F)[0]))), f"scipy:{name}:value", "the result does not carry its value", **data)
    if box:
        mon.check(np.all(X >= xl - 1e-6) and np.all(X <= xu + 1e-6), f"scipy:{name}:bounds", "the result is out of bounds", X=X.tolist(), **data)
    if limit:
        # the limit is looked at between steps (line searches, estimations of the gradient), constraints are further evaluations,
        # and the result is evaluated once more
        most = {"TNC": (n + 1) * lim, "COBYLA": (1 + ieq + eq) * max(lim, n + 3), "LBFGSB": lim + 20 * (n + 1)}.get(name, lim)
        mon.check(used <= most + (n + 2) * 2, f"limit:{name}:exceeded", f"{used} evaluations with a limit of {lim}", **data)
        mon.ev("limits")
    else:
        fb = float((h * (best - c) ** 2).sum())
        mon.check(np.all(np.abs(X - best) <= 0.02), f"scipy:{name}:solution", "the result is not the solution of the quadratic problem", X=X.tolist(), want=best.tolist(), **data)


def run(case, mon):
    rng = np.random.default_rng([case["seed"], 42])
    k = case["kind"]
    if k in ("scipy", "limit"):
        return scipy_case(case, mon, rng, k == "limit")
    {"golden": golden, "quadratic": quadratic, "exponential": exponential, "wolfe": wolfe, "wolfeclass": wolfeclass, "nelder": nelder, "pattern": pattern, "direct": direct, "cma": cma_case}[k](case, mon, rng)
