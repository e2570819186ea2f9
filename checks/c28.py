"""C28: evaluation is a pure row-wise function with well-formed output."""
import warnings
import numpy as np
from vlib import bench
from vlib.kernels import layout

RULE = ("random designs of every shipped problem and of random user problems (vectorised, element-wise, functional, dictionary form) are evaluated as a whole, permuted, in subsets, repeated, alone, in other memory layouts and with other requested outputs; every row is compared with the row "
        "evaluated on its own (and, for user problems, with the values the user's function defines), shapes with the declared dimensions and inputs with a copy; distinct states are different (problem, parameters, design) combinations")
REQUIRED = ["rows", "single", "permuted", "subset", "repeated", "layouts", "order", "dictionary", "unmodified", "integers", "empty", "shipped", "declared", "user", "vectorised", "elementwise", "functional", "dict_form", "nan_replaced", "nan_kept", "infinite", "nan_replaced_next_to_infinite", "mis_shaped",
            "wrong_length", "missing", "callback", "kwargs", "no_kwargs", "extra", "runner", "scalar_output", "list_output"]
ASSUMPTIONS = ["the user's function is a function of the row (it is in the workload)", "values of one row in different batches agree up to rounding (vectorised arithmetic may group differently): rtol 1e-9",
               "mis-shaped output means a wrong number of values; an array holding the right number of values in another shape is reshaped by design"]
TIMEOUT = {"quick": 120, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 128])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = []
    allnames = sorted(bench.ALL)
    for _ in range(1 if q else 12):
        for names in np.array_split(np.array(allnames), 16):
            out.append(new(kind="shipped", names=[str(e) for e in names], n=10 if q else 30))
    out += [new(kind="user", n=100 if q else 300) for _ in range(16 if q else 120)]
    out += [new(kind="errors", n=60 if q else 200) for _ in range(4 if q else 40)]
    return out


NAMES = ["F", "G", "H"]


SQRT = ("mw5", "mw6", "mw7", "mw11")  # the square root of a difference vanishing at the bound magnifies rounding


def close(a, b, slack=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= 1e-9 * np.maximum(np.abs(a), np.abs(b)) + slack)))


def rowwise(mon, rng, key, p, X, want, kw=None, slack=1e-11):
    """Compare evaluations of batches made of the rows of X with the per-row values in want (dict name -> array)."""
    kw = kw or {}
    n = len(X)
    names = list(want)

    def judge(what, idx, out):
        for k in names:
            mon.check(close(out[k], want[k][idx], slack), f"{key}:{what}:{k}", lambda: f"rows of a {what} batch of {len(idx)} do not have their own values for {k}: got {np.asarray(out[k]).tolist()} expected {want[k][idx].tolist()}", x=X[idx] if not isinstance(X, list) else None)

    take = (lambda i: X[i]) if not isinstance(X, list) else (lambda i: [X[j] for j in i])
    for what in ("permuted", "subset", "repeated"):
        idx = {"permuted": rng.permutation(n), "subset": rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False), "repeated": rng.integers(0, n, size=int(rng.integers(1, 2 * n + 1)))}[what]
        if isinstance(X, list):
            B, before = take(idx), None
        else:
            B = layout(rng, take(idx)) if X.dtype.kind == "f" else take(idx)
            before = B.copy()
            mon.ev("layouts")
        order = [str(e) for e in rng.permutation(names)]
        form = int(rng.integers(0, 3))
        with np.errstate(all="ignore"):
            if form == 0:
                out = p.evaluate(B, return_values_of=list(names), return_as_dictionary=True, **kw)
                mon.ev("dictionary")
            elif form == 1:
                got = p.evaluate(B, return_values_of=list(order), **kw)
                out = {k: v for k, v in zip(order, got)} if len(order) > 1 else {order[0]: got}
                mon.ev("order")
            else:
                one = order[:1]
                got = p.evaluate(B, return_values_of=one, **kw)
                out = {k: (got if k in one else want[k][idx]) for k in names}
        judge(what, idx, out)
        mon.ev(what)
        mon.ev("rows", len(idx))
        if before is not None:
            mon.eq(B, before, f"{key}:modified", "the evaluated matrix was modified")
            mon.ev("unmodified")


def run_shipped(case, mon):
    rng = np.random.default_rng(case["seed"])
    for name in case["names"]:
        for _ in range(case["n"]):
            kw = bench.wide_params(rng, name)
            key = f"shipped:{name}" + ("-many" if name in ("mm1", "mm2") and kw["n_var"] > 1 else "")
            slack = 1e-5 if name in SQRT else 1e-11
            p = None
            try:
                p = bench.create(name, **kw)
                n = int(rng.integers(2, 12))
                X = bench.designs(rng, name, p, n)
            except Exception as e:
                mon.viol(f"{key}:raises", f"creating {name} with {kw} and designs within its bounds {getattr(p, 'xl', None)} raises {e!r}")
                continue
            mon.state(name, str(kw), X)
            mon.ev("shipped")
            before = X.copy()
            try:
                with np.errstate(all="ignore"):
                    rows = [p.evaluate(X[i], return_values_of=list(NAMES), return_as_dictionary=True) for i in range(n)]
                    default = p.evaluate(X)
            except Exception as e:
                mon.viol(f"{key}:raises", f"evaluating {name} with {kw} raises {e!r}")
                continue
            shapes = {"F": p.n_obj, "G": p.n_ieq_constr, "H": p.n_eq_constr}
            for k in NAMES:
                mon.check(all(np.shape(r[k]) == (shapes[k],) for r in rows), f"{key}:shape:{k}", lambda: f"a single design gives {k} of shape {np.shape(rows[0][k])} instead of {(shapes[k],)}")
            mon.ev("single", n)
            mon.ev("declared")
            if not all(np.shape(r[k]) == (shapes[k],) for r in rows for k in NAMES):
                continue
            want = {k: np.array([r[k] for r in rows]).reshape(n, shapes[k]) for k in NAMES}
            mon.check(not np.isnan(want["F"]).any(), f"{key}:nan", lambda: f"designs within the bounds have NaN objectives: {X[np.isnan(want['F']).any(axis=1)][:2].tolist()}")
            expect = ["F"] + (["G"] if p.n_ieq_constr > 0 else []) + (["H"] if p.n_eq_constr > 0 else [])
            parts = default if isinstance(default, tuple) else (default,)
            mon.check(len(parts) == len(expect), f"{key}:default", lambda: f"evaluation returns {len(parts)} values, declared outputs are {expect}")
            for k, v in zip(expect, parts):
                mon.check(close(v, want[k], slack), f"{key}:default:{k}", lambda: f"default evaluation of {n} rows gives other values for {k}")
            try:
                rowwise(mon, rng, key, p, X, want, slack=slack)
                mon.eq(X, before, f"{key}:modified", "the evaluated matrix was modified")
                if p.vtype not in (bool,) and rng.random() < 0.5 and name not in ("tsp", "flowshop"):
                    lo, hi = np.ceil(p.xl), np.floor(p.xu)
                    XI = np.where(lo <= hi, np.clip(np.round(X), lo, np.maximum(lo, hi)), 0).astype(int)
                    if np.all(lo <= hi):
                        with np.errstate(all="ignore"):
                            a, b = p.evaluate(XI, return_values_of=list(NAMES), return_as_dictionary=True), p.evaluate(XI.astype(float) if p.vtype is not int else XI.astype(np.int32), return_values_of=list(NAMES), return_as_dictionary=True)
                        for k in NAMES:
                            mon.check(close(a[k], b[k], slack), f"{key}:integers:{k}", lambda: f"whole-numbered designs given as integers have other values for {k}: {a[k].tolist()} vs {b[k].tolist()}", x=XI)
                        mon.ev("integers")
            except Exception as e:
                mon.viol(f"{key}:raises", f"evaluating {name} with {kw} in batches raises {e!r}")


class Spec:
    """What the user's problem computes, one row at a time."""

    def __init__(self, rng):
        self.d, self.m = int(rng.integers(1, 6)), int(rng.integers(1, 4))
        self.g, self.h = (int(rng.integers(0, 3)) for _ in range(2))
        self.A = {k: rng.normal(size=(c, self.d)) for k, c in self.counts().items()}
        self.w = {k: rng.normal(size=c) for k, c in self.counts().items()}
        self.nan = bool(rng.random() < 0.3)
        self.inf = bool(rng.random() < 0.3)
        self.shift = 0.0

    def counts(self):
        return {"F": self.m, "G": self.g, "H": self.h}

    def row(self, x, k, shift=0.0):
        v = self.A[k] @ np.asarray(x, float) + self.w[k] * np.sin(float(x[0])) + shift
        if self.nan and k != "H":
            v = np.where(np.sin(37 * np.sum(np.asarray(x, float)) + np.arange(len(v))) > 0.6, np.nan, v)
        if self.inf and k != "H":
            s = np.sin(53 * np.sum(np.asarray(x, float)) + np.arange(len(v)))
            v = np.where((np.abs(s) > 0.8) & ~np.isnan(v), np.sign(s) * np.inf, v)
        return v


def build(rng, spec, style, record, **kw):
    """A pymoo problem in one of the ways a user can define it."""
    from pymoo.core.problem import Problem, ElementwiseProblem
    from pymoo.problems.functional import FunctionalProblem
    base = dict(n_var=spec.d, n_obj=spec.m, n_ieq_constr=spec.g, n_eq_constr=spec.h, xl=-2.0, xu=2.0, **kw)
    how = {k: str(rng.choice(["array", "list", "flat"])) for k in NAMES}
    extra = bool(rng.random() < 0.5) and style != "functional"

    def fill(out, vals, n):
        # vals: name -> (n, c) array; written in one of the accepted shapes
        for k, v in vals.items():
            c = v.shape[1]
            if c == 0:
                continue
            if how[k] == "list":
                out[k] = [v[:, j] for j in range(c)]
                record.ev("list_output")
            elif how[k] == "flat" and c == 1:
                out[k] = v[:, 0]
                record.ev("scalar_output")
            else:
                out[k] = v
        return out

    if style == "vectorised":
        class P(Problem):
            def _evaluate(self, X, out, *args, **kwargs):
                record.calls.append((args, dict(kwargs), len(X)))
                s = kwargs.get("shift", 0.0)
                fill(out, {k: np.array([spec.row(x, k, s) for x in X]).reshape(len(X), c) for k, c in spec.counts().items()}, len(X))
                if extra:
                    out["extra"] = np.array([float(np.sum(x)) for x in X])
        p = P(**base)
    elif style in ("elementwise", "dict_form"):
        names = [f"v{i}" for i in range(spec.d)]

        class P(ElementwiseProblem):
            def _evaluate(self, x, out, *args, **kwargs):
                record.calls.append((args, dict(kwargs), 1))
                if style == "dict_form":
                    x = np.array([x[e] for e in names])
                s = kwargs.get("shift", 0.0)
                for k, c in spec.counts().items():
                    if c:
                        v = spec.row(x, k, s)
                        if how[k] == "list":
                            v = [float(e) for e in v]
                            record.ev("list_output")
                        elif how[k] == "flat" and c == 1:
                            v = float(v[0])
                            record.ev("scalar_output")
                        out[k] = v
                if extra:
                    out["extra"] = float(np.sum(x))
        if style == "dict_form":
            from pymoo.core.variable import Real
            base.update(vars={e: Real(bounds=(-2, 2)) for e in names})
            for k in ("n_var", "xl", "xu"):
                base.pop(k)
        p = P(**base)
    else:
        for k in ("n_obj", "n_ieq_constr", "n_eq_constr"):
            base.pop(k)
        one = lambda k, j: (lambda x: spec.row(x, k)[j])
        objs = [one("F", j) for j in range(spec.m)]
        p = FunctionalProblem(base.pop("n_var"), objs[0] if spec.m == 1 and rng.random() < 0.5 else objs, constr_ieq=[one("G", j) for j in range(spec.g)], constr_eq=[one("H", j) for j in range(spec.h)], **base)
    return p, extra


class Rec:
    def __init__(self, mon):
        self.calls, self.mon = [], mon

    def ev(self, *a):
        self.mon.ev(*a)


class Backwards:
    """An element-wise runner working through the rows in another order."""

    def __call__(self, f, X):
        res = {}
        for i in reversed(range(len(X))):
            res[i] = f(X[i])
        return [res[i] for i in range(len(X))]

    def __getstate__(self):
        return {}


def run_user(case, mon):
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        spec = Spec(rng)
        style = str(rng.choice(["vectorised", "elementwise", "functional", "dict_form"]))
        rec = Rec(mon)
        kw = {}
        fillnan = None
        if rng.random() < 0.4:
            fillnan = float(rng.choice([0.0, 1e10, np.inf, -3.0]))
            kw["replace_nan_values_by"] = fillnan
        requires = bool(rng.random() < 0.4) and style != "functional"
        kw["requires_kwargs"] = requires
        seen = []
        if rng.random() < 0.5:
            kw["callback"] = lambda X, out: seen.append((X, {k: np.array(v) for k, v in out.items()}))
        if style in ("elementwise", "dict_form", "functional") and rng.random() < 0.4:
            kw["elementwise_runner"] = Backwards()
            mon.ev("runner")
        p, extra = build(rng, spec, style, rec, **kw)
        n = int(rng.integers(1, 9))
        X = rng.uniform(-2, 2, size=(n, spec.d))
        if rng.random() < 0.3 and n > 1:
            X[-1] = X[0]
        mon.state(style, X, spec.m, spec.g, spec.h)
        mon.ev("user")
        mon.ev(style)
        args = ("a", 3) if rng.random() < 0.3 and style != "functional" else ()
        given = dict(shift=float(rng.normal())) if rng.random() < 0.7 and style != "functional" else {}
        s = given.get("shift", 0.0) if requires else 0.0
        want = {k: np.array([spec.row(x, k, s) for x in X]).reshape(n, c) for k, c in spec.counts().items()}
        if any(np.isnan(v).any() for v in want.values()):
            mon.ev("nan_replaced" if fillnan is not None else "nan_kept")
        mon.ev("infinite", sum(int(np.isinf(v).sum()) for v in want.values()))
        mon.ev("nan_replaced_next_to_infinite", fillnan is not None and any(np.isinf(v).any() for v in want.values()) and any(np.isnan(v).any() for v in want.values()))
        if fillnan is not None:
            want = {k: np.where(np.isnan(v), fillnan, v) for k, v in want.items()}
        if extra:
            want["extra"] = np.sum(X, axis=1)
        D = [dict(zip([f"v{i}" for i in range(spec.d)], x.tolist())) for x in X] if style == "dict_form" else X
        if style == "dict_form" and rng.random() < 0.5:
            D = np.array(D, dtype=object)
        key = f"user:{style}"
        before = X.copy()
        vals = list(want)
        out = p.evaluate(D, *args, return_values_of=list(vals), return_as_dictionary=True, **given)
        for k in vals:
            mon.check(close(out[k], want[k]), f"{key}:values:{k}", lambda: f"{k} is {np.asarray(out[k]).tolist()}, the problem defines {want[k].tolist()}", nan=fillnan)
            mon.check(np.asarray(out[k]).dtype == float, f"{key}:dtype:{k}", f"{k} has type {np.asarray(out[k]).dtype}")
        mon.ev("rows", n)
        if extra:
            mon.ev("extra")
        mon.eq(X, before, f"{key}:modified", "the evaluated matrix was modified")
        rows_seen = sum(e[2] for e in rec.calls)
        if style != "functional":
            mon.check(rows_seen == n, f"{key}:calls", f"{n} rows caused {rows_seen} evaluations")
            for a, k, _ in rec.calls:
                mon.check(a == args, f"{key}:args", f"_evaluate received {a} instead of {args}")
                mon.check(k == (given if requires else {}), f"{key}:kwargs", f"_evaluate received keyword arguments {k}, given {given}, requires_kwargs={requires}")
            mon.ev("kwargs" if requires and given else "no_kwargs")
        if "callback" in kw:
            mon.check(len(seen) == 1 and all(close(seen[0][1][k], want[k]) for k in vals if k in seen[0][1]) and all(k in seen[0][1] for k in vals), f"{key}:callback", lambda: f"the callback was called {len(seen)} times or with other values")
            if seen and style != "dict_form":
                mon.eq(seen[0][0], X, f"{key}:callback_x", "the callback received another matrix")
            mon.ev("callback")
        # one solution on its own
        i = int(rng.integers(0, n))
        one = p.evaluate(D[i], *args, return_values_of=list(vals), return_as_dictionary=True, **given)
        for k in vals:
            mon.check(close(one[k], want[k][i]), f"{key}:single:{k}", lambda: f"a single solution gives {np.asarray(one[k]).tolist()}, expected {want[k][i].tolist()}")
        mon.ev("single")
        rowwise(mon, rng, key, p, D, want, kw=given)
        if style != "dict_form":
            for shape in ((0, spec.d),):
                try:
                    e = p.evaluate(np.zeros(shape), return_values_of=["F"] + (["G"] if spec.g else []) + (["H"] if spec.h else []), return_as_dictionary=True)
                except Exception as ex:
                    if style == "vectorised":
                        mon.viol(f"{key}:empty", f"evaluating no solutions raises {ex!r}")
                    continue
                mon.ev("empty")
                for k, c in spec.counts().items():
                    if c:
                        mon.check(np.shape(e[k]) == (0, c), f"{key}:empty:{k}", f"no solutions give {k} of shape {np.shape(e[k])}, expected {(0, c)}")


def run_errors(case, mon):
    from pymoo.core.problem import Problem, ElementwiseProblem
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        spec = Spec(rng)
        spec.nan = spec.inf = False
        n = int(rng.integers(2, 8))
        X = rng.uniform(-2, 2, size=(n, spec.d))
        base = dict(n_var=spec.d, n_obj=spec.m, n_ieq_constr=spec.g, n_eq_constr=spec.h, xl=-2.0, xu=2.0)
        bad = str(rng.choice([k for k, c in spec.counts().items() if c > 0]))
        delta = int(rng.choice([-1, 1, 2]))
        elementwise = bool(rng.random() < 0.5)
        dim = "columns" if elementwise else str(rng.choice(["columns", "rows"]))
        good = {k: np.array([spec.row(x, k) for x in X]).reshape(n, c) for k, c in spec.counts().items() if c}

        def wrong(v):
            if dim == "columns":
                c = v.shape[-1]
                return v[..., :-1] if delta < 0 else np.concatenate([v, v[..., :1]], axis=-1) if delta == 1 else np.concatenate([v, v], axis=-1)
            return v[:-1] if delta < 0 else np.concatenate([v, v[:1]])

        kind = str(rng.choice(["mis_shaped", "missing", "wrong_length"]))
        if elementwise:
            class P(ElementwiseProblem):
                def _evaluate(self, x, out, *args, **kwargs):
                    for k in good:
                        v = spec.row(x, k)
                        if k == bad and kind == "missing":
                            continue
                        out[k] = wrong(v) if k == bad and kind == "mis_shaped" else v
        else:
            class P(Problem):
                def _evaluate(self, X, out, *args, **kwargs):
                    for k, v in good.items():
                        v = v[:len(X)]
                        if k == bad and kind == "missing":
                            continue
                        out[k] = wrong(v) if k == bad and kind == "mis_shaped" else v
        p = P(**base)
        mon.state(kind, bad, delta, elementwise, dim, n, spec.m, spec.g, spec.h)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if kind == "wrong_length":
                try:
                    out = p.evaluate(rng.uniform(-2, 2, size=(n, spec.d + int(rng.choice([1, 2])))))
                    mon.viol("errors:wrong_length", f"designs with a wrong number of variables are accepted: {out}")
                except AssertionError:
                    pass
                except Exception:
                    pass
                mon.ev("wrong_length")
                continue
            if kind == "mis_shaped":
                try:
                    out = p.evaluate(X, return_as_dictionary=True)
                    mon.viol(f"errors:mis_shaped:{'elementwise' if elementwise else 'vectorised'}:{dim}:{bad}", f"{bad} with a wrong number of {dim} is accepted: declared {spec.counts()[bad]} columns for {n} rows, the result is {np.shape(out[bad])}")
                except Exception:
                    pass
                mon.ev("mis_shaped")
                continue
            out = p.evaluate(X, return_as_dictionary=True)
            mon.check(np.shape(out[bad]) == (n, spec.counts()[bad]) and np.all(np.isposinf(out[bad])), f"errors:missing:{bad}", lambda: f"{bad} that was never set is reported as {out[bad]}")
            for k in good:
                if k != bad:
                    mon.check(close(out[k], good[k]), f"errors:missing:others:{k}", f"{k} changed because {bad} was not set")
            if bad == "F":
                mon.check(any("out['F']" in str(e.message) for e in w), "errors:missing:warning", "objective values that were never set cause no warning")
            mon.ev("missing")


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon)
