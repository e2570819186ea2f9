"""Test problems whose every evaluation is logged, and whose values can be recomputed without logging.

The log is shared between copies of the problem (deepcopy and pickle keep a reference to the same
log while the process lives), so that it sees what was really evaluated, whoever does it.
"""
import numpy as np
from pymoo.core.problem import Problem
from pymoo.core.variable import Real, Integer, Binary, Choice

from vlib.mon import Stop

_LOGS = {}


def _get_log(i):
    return _LOGS[i]


class Log:
    n = 0

    def __init__(self, cap=None):
        Log.n += 1
        self.id = Log.n
        _LOGS[self.id] = self
        self.rows = []
        self.calls = []
        self.cap = cap
        self.on_rows = None
        self.capped = False

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_get_log, (self.id,))

    def add(self, X):
        X = [dict(x) if isinstance(x, dict) else np.array(x, copy=True) for x in X]
        if self.on_rows is not None:
            self.on_rows(X)
        self.rows.extend(X)
        self.calls.append(len(X))
        if self.cap is not None and len(self.rows) > self.cap:
            self.capped = True
            raise Stop(f"more than {self.cap} evaluations")


class P(Problem):
    """Base class: subclasses give truth(X) -> dict of F, G, H computed row by row."""

    def __init__(self, log=None, **kw):
        super().__init__(**kw)
        self.log = log if log is not None else Log()

    def _evaluate(self, X, out, *args, **kwargs):
        X2 = [X] if self.elementwise else X
        self.log.add(X2)
        r = self.truth(X2)
        for k in ("F", "G", "H"):
            if k in r:
                out[k] = r[k][0] if self.elementwise else r[k]

    def truth(self, X):
        rows = [self.one(x) for x in X]
        out = {"F": np.array([r[0] for r in rows], dtype=float).reshape(len(rows), self.n_obj)}
        if self.n_ieq_constr:
            out["G"] = np.array([r[1] for r in rows], dtype=float).reshape(len(rows), self.n_ieq_constr)
        if self.n_eq_constr:
            out["H"] = np.array([r[2] for r in rows], dtype=float).reshape(len(rows), self.n_eq_constr)
        return out

    def valid(self, x):
        """None, or why x is outside the declared search space."""
        x = np.asarray(x)
        if x.shape != (self.n_var,):
            return f"shape {x.shape} instead of {(self.n_var,)}"
        x = x.astype(float)
        if not np.all(np.isfinite(x)):
            return f"not finite: {x}"
        tol = 0.0
        lo, hi = x < self.xl - tol, x > self.xu + tol
        if lo.any() or hi.any():
            j = int(np.argmax(lo | hi))
            return f"variable {j} = {x[j]!r} outside [{float(self.xl[j])!r}, {float(self.xu[j])!r}]"
        return None


# ------------------------------------------------------------------ continuous

BOUNDS = {
    "unit": lambda n: (np.zeros(n), np.ones(n)),
    "sym": lambda n: (-5.0 * np.ones(n), 5.0 * np.ones(n)),
    "shift": lambda n: (np.linspace(10, 12, n), np.linspace(11.5, 14, n)),
    "neg": lambda n: (-3.0 - np.arange(n), -1.0 - 0.5 * np.arange(n)),
    "aniso": lambda n: (-(10.0 ** np.arange(-2, n - 2)), 2 * 10.0 ** np.arange(-2, n - 2)),
    "odd": lambda n: (np.sqrt(np.arange(2, n + 2)) * (-1.0) ** np.arange(n) - 0.1, np.sqrt(np.arange(2, n + 2)) * (-1.0) ** np.arange(n) + np.pi / np.arange(3, n + 3)),   # nothing representable, nothing round
    "big": lambda n: (-1e6 * np.ones(n), 3e6 * np.ones(n)),
    "degen": lambda n: (np.where(np.arange(n) % 3 == 1, 0.25, 0.0), np.where(np.arange(n) % 3 == 1, 0.25, 1.0)),
}


def bounds_of(name, n):
    """Declared bounds by name; r<seed> draws them, so that no number involved is round."""
    if name[0] == "r" and name[1:].isdigit():
        r = np.random.RandomState(int(name[1:]))
        xl = r.uniform(-3, 1, n)
        return xl, xl + r.uniform(0.05, 3, n)
    return BOUNDS[name](n)


def optimum_of(xl, xu, where):
    n = len(xl)
    t = {"inside": np.linspace(0.3, 0.62, n), "lower": np.zeros(n), "upper": np.ones(n),
         "mixed": np.where(np.arange(n) % 2 == 0, 0.0, 0.4)}[where]
    return xl + t * (xu - xl), t


class SO(P):
    """Single objective in the unit-scaled space around an optimum t."""

    def __init__(self, n_var=4, bounds="unit", where="inside", fn="sphere", cons="none", elementwise=False, **kw):
        xl, xu = bounds_of(bounds, n_var)
        self.x_opt, self.t = optimum_of(xl, xu, where)
        self.fn, self.cons = fn, cons
        nc = {"none": (0, 0), "ieq": (2, 0), "eq": (0, 1), "both": (1, 1), "infeasible": (2, 0), "narrow": (2, 0), "ceq": (2, 0), "tiny": (2, 0)}[cons]
        super().__init__(n_var=n_var, n_obj=1, n_ieq_constr=nc[0], n_eq_constr=nc[1], xl=xl, xu=xu, elementwise=elementwise, **kw)

    def unit(self, x):
        r = np.where(self.xu > self.xl, self.xu - self.xl, 1.0)
        return (np.asarray(x, float) - self.xl) / r

    def one(self, x):
        u = self.unit(x)
        d = u - np.where(self.xu > self.xl, self.t, 0.0)
        if self.fn == "sphere":
            f = float(np.sum(d * d))
        elif self.fn == "neg":         # negative optimum
            f = float(np.sum(d * d) - 3.0)
        elif self.fn == "rastrigin":
            f = float(np.sum(d * d * 9 - 1.0 * np.cos(2 * np.pi * d * 3) + 1.0))
        elif self.fn == "plateau":
            f = float(np.floor(np.sum(np.abs(d)) * 6))
        elif self.fn == "const":
            f = 1.0
        elif self.fn == "linear":
            f = float(np.sum(u) * 2 - 1)
        elif self.fn == "abs":
            f = float(np.sum(np.sqrt(np.abs(d))))
        s, m = float(np.sum(u)), float(len(u))
        G, H = None, None
        if self.cons == "ieq":
            G = [0.35 * m - s, u[0] - 0.8]
        elif self.cons == "narrow":
            G = [0.6 * m - s, s - 0.66 * m]
        elif self.cons == "eq":
            H = [u[0] - 0.5]
        elif self.cons == "both":
            G, H = [u[-1] - 0.7], [0.2 * (u[0] - 0.5)]
        elif self.cons == "infeasible":
            G = [1.0 + s, np.floor(4 * u[0])]
        elif self.cons == "ceq":       # many exact ties in the violation
            G = [np.floor(3 * u[0]) - 1, np.floor(3 * u[-1]) - 1]
        elif self.cons == "tiny":      # badly scaled: every violation is far below the usual tolerances
            G = [1e-9 * (0.6 * m - s), 1e-7 * (u[0] - 0.8)]
        return [f], G, H


class MO(P):
    def __init__(self, n_var=5, n_obj=2, bounds="unit", fn="zdt1", cons="none", elementwise=False, **kw):
        xl, xu = bounds_of(bounds, n_var)
        self.fn, self.cons = fn, cons
        nc = {"none": (0, 0), "ieq": (1, 0), "eq": (0, 1), "both": (1, 1), "infeasible": (2, 0), "narrow": (2, 0), "ceq": (1, 0), "tiny": (2, 0)}[cons]
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=nc[0], n_eq_constr=nc[1], xl=xl, xu=xu, elementwise=elementwise, **kw)

    unit = SO.unit

    def one(self, x):
        u = self.unit(x)
        m, n = self.n_obj, len(u)
        k = u[m - 1:]
        if self.fn == "zdt1":
            g = 1 + 9 * float(np.mean(np.abs(k))) if len(k) else 1.0
            if m == 2:
                F = [float(u[0]), float(g * (1 - np.sqrt(min(1.0, max(0.0, abs(u[0]) / g)))))]
            else:
                F = list(u[:m - 1]) + [float(g * (m - float(np.sum(u[:m - 1]))))]
        elif self.fn == "dtlz2":
            g = float(np.sum((k - 0.5) ** 2))
            F = []
            for i in range(m):
                f = 1 + g
                for j in range(m - 1 - i):
                    f *= np.cos(u[j] * np.pi / 2)
                if i > 0:
                    f *= np.sin(u[m - 1 - i] * np.pi / 2)
                F.append(float(f))
        elif self.fn == "plateau":
            F = [float(np.floor(4 * u[0] + 2 * np.sum(k)))] + [float(np.floor(4 * (1 - u[i % n]) + 2 * np.sum(k))) for i in range(m - 1)]
        elif self.fn == "scaled":      # very different magnitudes, negative values
            g = float(np.sum((k - 0.3) ** 2))
            F = [float((-1) ** i * 10.0 ** (2 * i) * ((u[i % n] if i % 2 == 0 else 1 - u[(i - 1) % n]) + g) - 7 * i) if i % 2 == 0
                 else float(10.0 ** (2 * i) * (1 - u[(i - 1) % n] + g) - 7 * i) for i in range(m)]
        elif self.fn == "convex":
            F = [float(np.sum((u - (j + 0.5) / m) ** 2) + 0.1 * (u[j % n] - 0.2) ** 2) for j in range(m)]
        elif self.fn == "single":      # one solution dominates everything
            F = [float(np.sum(u) * (j + 1)) for j in range(m)]
        s = float(np.sum(u))
        G, H = None, None
        if self.cons == "ieq":
            G = [0.25 * n - s]
        elif self.cons == "narrow":
            G = [0.5 * n - s, s - 0.58 * n]
        elif self.cons == "eq":
            H = [0.1 * (u[-1] - 0.5)]
        elif self.cons == "both":
            G, H = [0.15 * n - s], [0.1 * (u[-1] - 0.5)]
        elif self.cons == "infeasible":
            G = [1.0 + s, np.floor(4 * u[0])]
        elif self.cons == "ceq":
            G = [np.floor(4 * u[-1]) - 1]
        elif self.cons == "tiny":
            G = [1e-9 * (0.5 * n - s), 1e-7 * (u[-1] - 0.8)]
        return F, G, H


# ------------------------------------------------------------------ other variable types

class Bin(P):
    """Leading-ones / trailing-zeros style, optionally with a capacity constraint."""

    def __init__(self, n_var=12, n_obj=1, cons="none", elementwise=False, **kw):
        self.cons = cons
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=0 if cons == "none" else 1, xl=0, xu=1, vtype=bool, elementwise=elementwise, **kw)
        self.w = (np.arange(n_var) * 7 % 5 + 1).astype(float)

    def one(self, x):
        b = np.asarray(x).astype(float)
        F = [-float(b @ (self.w[::-1] + 0.5)), float(np.abs(np.diff(b)).sum() - b[-1] * 3), -float((1 - b) @ self.w)][:self.n_obj]
        return F, [float(b @ self.w - self.w.sum() * 0.45)], None

    def valid(self, x):
        x = np.asarray(x)
        if x.shape != (self.n_var,):
            return f"shape {x.shape}"
        if x.dtype == bool:
            return None
        return None if np.all((x == 0) | (x == 1)) else f"not boolean: {x.tolist()}"


class Int(P):
    def __init__(self, n_var=5, n_obj=1, cons="none", elementwise=False, lo=-4, hi=11, degen=False, **kw):
        self.cons = cons
        xl, xu = np.full(n_var, lo), np.full(n_var, hi)
        if degen:
            xl[1] = xu[1] = 3
            xl[0], xu[0] = 0, 1
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=0 if cons == "none" else 1, xl=xl, xu=xu, vtype=int, elementwise=elementwise, **kw)

    def one(self, x):
        z = np.asarray(x, float)
        F = [float(np.sum((z - 3.2) ** 2)), float(np.sum(np.abs(z - 9.0))), float(-np.sum(z) + 3 * abs(z[0]))][:self.n_obj]
        return F, [float(np.sum(z) - 4 * len(z))], None

    def valid(self, x):
        r = P.valid(self, x)
        if r:
            return r
        z = np.asarray(x, float)
        return None if np.all(z == np.round(z)) else f"not integer: {np.asarray(x).tolist()}"


class Perm(P):
    def __init__(self, n_var=9, n_obj=1, cons="none", elementwise=False, **kw):
        self.cons = cons
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=0 if cons == "none" else 1, xl=0, xu=n_var - 1, vtype=int, elementwise=elementwise, **kw)
        a = np.arange(n_var)
        self.D = np.abs(((a[:, None] * 37 + 11) % 17) - ((a[None, :] * 53 + 5) % 19)) + 1.0

    def one(self, x):
        p = [int(v) % self.n_var for v in np.asarray(x)]
        f1 = float(sum(self.D[p[i], p[(i + 1) % len(p)]] for i in range(len(p))))
        f2 = float(sum(i * p[i] for i in range(len(p))))
        return [f1, f2][:self.n_obj], [float(p[0] - self.n_var / 2)], None

    def valid(self, x):
        x = np.asarray(x)
        if x.shape != (self.n_var,):
            return f"shape {x.shape}"
        return None if sorted(x.tolist()) == list(range(self.n_var)) else f"not a permutation: {x.tolist()}"


class Mixed(P):
    def __init__(self, n_obj=1, cons="none", which="all", elementwise=True, **kw):
        self.cons = cons
        V = {
            "all": {"a": Real(bounds=(-2.0, 3.0)), "b": Integer(bounds=(-3, 9)), "c": Binary(), "d": Choice(options=["x", "yy", "z"]), "e": Real(bounds=(10.0, 10.5)), "f": Choice(options=[3, 5, 8, 100])},
            "realint": {"r0": Real(bounds=(0.0, 1.0)), "r1": Real(bounds=(-7.0, -6.0)), "i0": Integer(bounds=(0, 1)), "i1": Integer(bounds=(100, 120))},
            "discrete": {"k": Choice(options=["u", "v"]), "l": Binary(), "m": Integer(bounds=(0, 3)), "n": Choice(options=[0.5, 0.25, 4])},
            "onlyreal": {"p": Real(bounds=(-1.0, 1.0)), "q": Real(bounds=(0.0, 5.0)), "s": Real(bounds=(2.0, 2.0))},
        }[which]
        super().__init__(vars=V, n_obj=n_obj, n_ieq_constr=0 if cons == "none" else 1, elementwise=elementwise, **kw)
        self.V = V

    def one(self, x):
        s, t = 0.0, 0.0
        for j, (k, v) in enumerate(sorted(self.V.items())):
            z = x[k]
            if isinstance(v, Choice):
                q = v.options.index(z) if z in v.options else -1
                s += q * 0.7; t += abs(q - 1)
            elif isinstance(v, Binary):
                s += float(bool(z)); t -= float(bool(z))
            else:
                lo, hi = v.bounds
                u = (float(z) - lo) / (hi - lo if hi > lo else 1)
                s += (u - 0.3) ** 2; t += (u - 0.8) ** 2
        F = [s, t][:self.n_obj]
        return F, [0.2 - s], None

    def valid(self, x):
        if not isinstance(x, dict):
            return f"not a dictionary: {type(x)}"
        if set(x) != set(self.V):
            return f"keys {sorted(x)}"
        for k, v in self.V.items():
            z = x[k]
            if isinstance(v, Choice):
                if not any(type(z) == type(o) and z == o or z == o for o in v.options):
                    return f"{k} = {z!r} not in {v.options}"
            elif isinstance(v, Binary):
                if not isinstance(z, (bool, np.bool_)) and z not in (0, 1):
                    return f"{k} = {z!r} not boolean"
            else:
                try:
                    zf = float(z)
                except Exception:
                    return f"{k} = {z!r} not a number"
                lo, hi = v.bounds
                if not (lo - 1e-12 * max(1, abs(lo)) <= zf <= hi + 1e-12 * max(1, abs(hi))):
                    return f"{k} = {z!r} outside {v.bounds}"
                if isinstance(v, Integer) and (zf != round(zf)):
                    return f"{k} = {z!r} not integer"
        return None


CLASSES = {"SO": SO, "MO": MO, "Bin": Bin, "Int": Int, "Perm": Perm, "Mixed": Mixed}


def make(spec, **extra):
    """spec: dict with 'cls' and constructor arguments."""
    d = dict(spec)
    cls = d.pop("cls")
    d.update(extra)
    return CLASSES[cls](**d)


def cv_of(t, eq_eps=1e-4):
    """Independent definition of the default constraint violation."""
    F = t["F"]
    cv = np.zeros(len(F))
    if "G" in t:
        cv = cv + np.maximum(0.0, t["G"]).sum(axis=1)
    if "H" in t:
        cv = cv + np.maximum(0.0, np.abs(t["H"]) - eq_eps).sum(axis=1)
    return cv
