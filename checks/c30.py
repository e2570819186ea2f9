"""C30: gradients returned with an evaluation are the derivatives of the values."""
import warnings
import numpy as np
from vlib import bench

RULE = ("every gradient entry returned by the automatic-differentiation and complex-step wrappers, for shipped problems and random user problems (vectorised and element-wise; outputs as arrays, lists, scalars, constants; both backends), is compared with a fourth-order difference quotient of the plain problem "
        "at two step sizes (entries where these disagree are not judged) and, for user problems, with the derivative written out; values are compared with the plain problem, rows with the same row evaluated alone and in other batches; distinct states are different (problem, backend) with judged entries")
REQUIRED = ["entries", "autograd", "jax", "complex", "elementwise", "vectorised", "shipped", "user", "values", "alone", "other_batch", "only_gradient", "constant", "list_output", "scalar_output", "numpy_stacked", "extra", "constraints", "failing", "backend_restored", "original_unchanged", "single_point", "energy", "nearest", "user_gradient"]
ASSUMPTIONS = ["a problem is in the domain of a backend if it is written with operations the backend supports (otherwise an exception is the documented outcome); complex steps need analytic functions", "difference quotients are judged up to 1e-5 of the largest entry of the same output"]
TIMEOUT = {"quick": 200, "thorough": 900}

_M = [f"mw{i}" for i in (4, 8, 14)]
NOAUTO = {f"dascmop{i}" for i in range(1, 10)} | set(_M) | {f"wfg{i}" for i in range(1, 10)} | {f"zcat{i}" for i in range(1, 21)} | {"cec:FDA4", "cec:FDA5", "cec:DIMP2", "cec:HE2", "cec:HE7", "cec:HE9"}
NOJAX = NOAUTO | {"cec:FDA2DEB", "cec:dMOP2"} | {f"mw{i}" for i in range(1, 15)} | {f"df{i}" for i in range(1, 15)}
NOCPLX = NOAUTO | {f"ctp{i}" for i in range(2, 9)} | {"df4", "df12", "g2", "kursawe", "mw5", "mw7", "mw12", "mw13", "mw6", "mw11", "schwefel", "smm", "sympart", "sympartrot", "zdt5"}
SKIP = {"knapsack", "mknapsack", "tsp", "flowshop", "clutch", "zdt5", "mm1", "mm2", "cec:dMOP3"} | {n for n in bench.ALL if n.startswith("misc:")}
NAMES = sorted(set(bench.ALL) - SKIP - NOAUTO)


def cases(tier, seed):
    rng = np.random.default_rng([seed, 130])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = []
    for _ in range(1 if q else 15):
        for names in np.array_split(np.array(NAMES), 24):
            out.append(new(kind="shipped", names=[str(e) for e in names], jax=0.12 if q else 0.6))
    out += [new(kind="user", n=20 if q else 60) for _ in range(12 if q else 80)]
    out += [new(kind="energy", n=60 if q else 300) for _ in range(2 if q else 20)]
    return out


def quotient(f, X, names, width, lo=None, hi=None):
    """Fourth-order central differences of every output; (n, m, d)."""
    out = {k: [] for k in names}
    for j in range(X.shape[1]):
        e = np.zeros(X.shape[1])
        e[j] = width[j]
        v = [f(X + s * e) for s in (-2, -1, 1, 2)]
        for k in names:
            a, b, c, d = (np.asarray(w[k], float) for w in v)
            out[k].append((8 * (c - b) - (d - a)) / (12 * width[j]))
    return {k: np.stack(v, axis=2) for k, v in out.items()}


def judge(mon, key, got, D, D2, what):
    """Compare with the quotient where it is reliable."""
    if not mon.check(got is not None and np.shape(got) == D.shape, f"{key}:shape", lambda: f"{what}: shape {np.shape(got)}, expected (rows, outputs, variables) = {D.shape}"):
        return
    got = np.asarray(got, float)
    with np.errstate(all="ignore"):
        sc = np.nanmax(np.where(np.isfinite(D), np.abs(D), 0), axis=(0, 2), keepdims=True) + 1e-3 if D.size else 1
        fine = np.isfinite(D) & (np.abs(D - D2) <= 1e-7 * sc)
        bad = fine & ~(np.abs(got - D) <= 1e-5 * sc)
    mon.ev("entries", fine.sum())
    i = tuple(np.argwhere(bad)[0]) if bad.any() else None
    mon.check(i is None, f"{key}:entry", lambda: f"{what}: entry (row, output, variable) {[int(e) for e in i]} is {got[i]!r}, the difference quotient of the values is {D[i]!r} ({int(bad.sum())} of {int(fine.sum())} entries differ)")


def wrap(rng, p, backend, cls=None):
    from pymoo.gradient.automatic import AutomaticDifferentiation, ElementwiseAutomaticDifferentiation
    from pymoo.gradient.grad_complex import ComplexNumberGradient
    if backend == "complex":
        return ComplexNumberGradient(p)
    if cls == "elementwise":
        return ElementwiseAutomaticDifferentiation(p, backend=backend)
    return AutomaticDifferentiation(p, backend=backend)


def examine(mon, rng, key, p, q, X, ref, D, D2, vals):
    import pymoo.gradient as g
    d = ["d" + v for v in vals]
    o = q.evaluate(X, return_values_of=vals + d, return_as_dictionary=True)
    for v in vals:
        mon.check(np.shape(o[v]) == ref[v].shape and np.allclose(o[v], ref[v], rtol=1e-10, atol=1e-12 * (1 + np.abs(ref[v]).max()), equal_nan=True), f"{key}:values", lambda: f"{v} changes when gradients are requested: {np.asarray(o[v]).tolist()} instead of {ref[v].tolist()}")
        mon.ev("values")
        judge(mon, f"{key}", o.get("d" + v), D[v], D2[v], f"d{v}")
    mon.check(g.active_backend == "numpy", f"{key}:backend", lambda: f"the backend {g.active_backend} stays active after the evaluation")
    mon.ev("backend_restored")
    # other batches
    n = len(X)
    near = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-10 * (1 + np.abs(np.where(np.isfinite(b), b, 0)).max()), equal_nan=True)
    if all(o.get(e) is not None for e in d):
        i = int(rng.integers(0, n))
        a = q.evaluate(X[i], return_values_of=vals + d, return_as_dictionary=True)
        idx = rng.integers(0, n, size=int(rng.integers(1, 2 * n)))
        b = q.evaluate(X[idx], return_values_of=vals + d, return_as_dictionary=True)
        for e in d:
            mon.check(near(a[e], o[e][i]), f"{key}:alone", lambda: f"{e} of a single point differs from its row in a batch: {np.asarray(a[e]).tolist()} instead of {o[e][i].tolist()}")
            mon.check(near(b[e], o[e][idx]), f"{key}:batch", lambda: f"{e} of a row depends on the batch")
        mon.ev("alone")
        mon.ev("single_point")
        mon.ev("other_batch")
        if rng.random() < 0.3:
            w = q.evaluate(X, return_values_of=["dF"])
            mon.check(near(w, o["dF"]), f"{key}:only", lambda: "requesting only the gradient gives another one")
            mon.ev("only_gradient")


def run_shipped(case, mon):
    rng = np.random.default_rng(case["seed"])
    for name in case["names"]:
        kw = bench.params(rng, name)
        p = bench.create(name, **kw)
        if not isinstance(p.xl, np.ndarray):
            continue
        n = int(rng.integers(1, 8))
        span = p.xu - p.xl
        X = p.xl + (0.03 + 0.94 * rng.random((n, p.n_var))) * span
        vals = ["F"] + (["G"] if p.n_ieq_constr else []) + (["H"] if p.n_eq_constr else [])
        f = lambda Y: p.evaluate(Y, return_values_of=vals, return_as_dictionary=True)
        with np.errstate(all="ignore"):
            ref = {k: np.asarray(v, float) for k, v in f(X).items()}
            D, D2 = quotient(f, X, vals, 2e-4 * span), quotient(f, X, vals, 1e-4 * span)
        for backend in ("autograd", "jax", "complex"):
            if name in {"autograd": NOAUTO, "jax": NOJAX, "complex": NOCPLX}[backend] or (backend == "jax" and rng.random() > case["jax"]):
                continue
            with np.errstate(all="ignore"):
                examine(mon, rng, f"{name}:{backend}", p, wrap(rng, p, backend), X, ref, D, D2, vals)
            mon.ev(backend)
            mon.state(name, backend)
        mon.ev("shipped")
        again = f(X)
        mon.check(all(np.array_equal(again[k], ref[k], equal_nan=True) for k in vals), f"{name}:original", "the wrapped problem returns other values after being wrapped")
        mon.ev("original_unchanged")


def term(rng, d):
    """A random smooth scalar term: value and gradient from the same coefficients, for numpy or the toolbox."""
    kind = int(rng.integers(0, 6))
    w, c = rng.normal(size=d), float(rng.normal())
    j, k = int(rng.integers(0, d)), int(rng.integers(0, d))

    def value(np_, x):
        s = sum(w[i] * x[..., i] for i in range(d)) + c
        if kind == 0:
            return s
        if kind == 1:
            return np_.sin(s)
        if kind == 2:
            return np_.exp(0.3 * np_.cos(s))
        if kind == 3:
            return x[..., j] * x[..., k] + 0.0 * s
        if kind == 4:
            return np_.sqrt(1.0 + s ** 2)
        return np_.log(2.0 + x[..., j] ** 2) * x[..., k] ** 3

    def grad(x):
        s = x @ w + c
        e = np.eye(d)
        if kind == 0:
            return np.broadcast_to(w, x.shape).copy()
        if kind == 1:
            return np.cos(s)[:, None] * w
        if kind == 2:
            return (np.exp(0.3 * np.cos(s)) * -0.3 * np.sin(s))[:, None] * w
        if kind == 3:
            return x[:, [k]] * e[j] + x[:, [j]] * e[k]
        if kind == 4:
            return (s / np.sqrt(1 + s ** 2))[:, None] * w
        a, b = x[:, [j]], x[:, [k]]
        return (2 * a / (2 + a ** 2)) * b ** 3 * e[j] + np.log(2 + a ** 2) * 3 * b ** 2 * e[k]

    return value, grad


class Boom(Exception):
    pass


def run_user(case, mon):
    import pymoo.gradient as g
    import pymoo.gradient.toolbox as anp
    from pymoo.core.problem import Problem, ElementwiseProblem
    rng = np.random.default_rng(case["seed"])
    for t in range(case["n"]):
        d = int(rng.integers(1, 6))
        sizes = {"F": int(rng.integers(1, 4)), "G": int(rng.integers(0, 4)), "H": int(rng.integers(0, 3))}
        vals = [k for k in sizes if sizes[k]]
        T = {k: [term(rng, d) for _ in range(sizes[k])] for k in vals}
        const = {(k, i): float(rng.normal()) for k in vals for i in range(sizes[k]) if rng.random() < (0.12 if k != "F" else 0.05)}
        backend = str(rng.choice(["autograd", "jax", "complex"]))
        elementwise = bool(rng.random() < 0.5)
        form = {k: str(rng.choice(["stack", "list", "numpy", "scalar"])) for k in vals}
        if backend == "jax":
            form = {k: "stack" if f == "numpy" else f for k, f in form.items()}
        fail = bool(rng.random() < 0.15)
        extra = bool(rng.random() < 0.1)
        own = not elementwise and rng.random() < 0.15
        armed = [False]

        def outputs(x, out):
            for k in vals:
                cols = []
                for i, (v, _) in enumerate(T[k]):
                    cols.append(v(anp, x) if (k, i) not in const else const[(k, i)] if elementwise else np.full(len(x), const[(k, i)]))
                f = form[k]
                if f == "scalar" and len(cols) == 1:
                    out[k] = cols[0]
                elif f == "list" and (elementwise or len(cols) > 0):
                    out[k] = cols
                elif f == "numpy":
                    out[k] = np.array(cols) if elementwise else np.column_stack(cols)
                else:
                    out[k] = anp.array(cols) if elementwise else anp.column_stack(cols)

        def body(self, x, out, *args, **kwargs):
            if armed[0]:
                raise Boom("asked to fail")
            outputs(x, out)
            if own and "dF" in out:
                out["dF"] = np.stack([T["F"][i][1](x) if ("F", i) not in const else np.zeros(x.shape) for i in range(sizes["F"])], axis=1)

        cls = type("User", (ElementwiseProblem if elementwise else Problem,), {"_evaluate": body})
        p = cls(n_var=d, n_obj=sizes["F"], n_ieq_constr=sizes["G"], n_eq_constr=sizes["H"], xl=-2.0, xu=2.0)
        n = int(rng.integers(1, 7))
        X = rng.uniform(-2, 2, (n, d))
        # what the user's functions and their derivatives say
        ref, want = {}, {}
        for k in vals:
            ref[k] = np.column_stack([v(np, X) if (k, i) not in const else np.full(n, const[(k, i)]) for i, (v, _) in enumerate(T[k])])
            want[k] = np.stack([gr(X) if (k, i) not in const else np.zeros(X.shape) for i, (_, gr) in enumerate(T[k])], axis=1)
        key = f"user:{'elementwise' if elementwise else 'vectorised'}:{backend}"
        if own:
            q, key = p, "user:own"
            mon.ev("user_gradient")
            o = q.evaluate(X, return_values_of=["F", "dF"])
            mon.check(np.allclose(o[0], ref["F"]) and np.allclose(o[1], want["F"]), key, "the gradient the user computes is not returned unchanged")
            continue
        # numpy-stacked outputs cannot hold traced values of several backends; autograd can
        q = wrap(rng, p, backend, "elementwise" if elementwise and backend != "complex" and rng.random() < 0.7 else None)
        if fail:
            armed[0] = True
            try:
                q.evaluate(X, return_values_of=["F", "dF"])
                mon.viol(f"{key}:failing", "an exception of the user's function was lost")
            except Boom:
                pass
            armed[0] = False
            mon.ev("failing")
            mon.check(g.active_backend == "numpy", f"{key}:backend", lambda: f"the backend {g.active_backend} stays active after an evaluation which failed")
            mon.ev("backend_restored")
        examine(mon, rng, key, p, q, X, ref, want, want, vals)
        plain = p.evaluate(X, return_values_of=vals, return_as_dictionary=True)
        mon.check(all(np.allclose(plain[k], ref[k], rtol=1e-12, atol=1e-12) for k in vals), f"{key}:original", "the plain problem returns other values than the user's function")
        mon.ev("original_unchanged")
        mon.ev("elementwise" if elementwise else "vectorised")
        mon.ev(backend)
        mon.ev("user")
        mon.ev("constant", len(const))
        mon.ev("constraints", sizes["G"] + sizes["H"] > 0)
        for k in vals:
            mon.ev({"stack": "stacked", "list": "list_output", "numpy": "numpy_stacked", "scalar": "scalar_output" if sizes[k] == 1 else "stacked"}[form[k]])
        mon.state(key, case["seed"], t)
        if extra:
            mon.ev("extra")
            # a problem of a problem: the wrapped one is not changed by another wrapper
            r = wrap(rng, p, "autograd" if backend != "jax" else "jax")
            o = r.evaluate(X, return_values_of=["F", "dF"])
            mon.check(np.allclose(o[0], ref["F"]) and np.allclose(o[1], want["F"], rtol=1e-6, atol=1e-8), f"{key}:second", "wrapping a second time gives other gradients")


def run_energy(case, mon):
    """Hand-written gradients behind the reference directions."""
    from pymoo.util.ref_dirs.energy import calc_potential_energy_with_grad, calc_potential_energy
    from pymoo.util.ref_dirs.construction import calc_dist_to_others_with_gradient
    rng = np.random.default_rng(case["seed"])
    for t in range(case["n"]):
        n, m = int(rng.integers(2, 12)), int(rng.integers(2, 6))
        X = rng.exponential(size=(n, m))
        X /= X.sum(axis=1)[:, None]
        d = int(rng.integers(1, 2 * m * m))

        def energy(A):
            D = np.sqrt(((A[:, None] - A[None]) ** 2).sum(axis=2))[np.triu_indices(n, 1)]
            return np.log((1 / D ** d).mean())

        obj, grad, dist = calc_potential_energy_with_grad(X.copy(), d, return_mutual_dist=True)
        mon.check(np.isclose(obj, energy(X), rtol=1e-9, atol=1e-9) and np.isclose(calc_potential_energy(X, d), energy(X), rtol=1e-9, atol=1e-9), "energy:value", lambda: f"potential energy {obj} instead of {energy(X)}")
        D = np.zeros(X.shape)
        D2 = np.zeros(X.shape)
        w = 1e-3 * min(0.05, dist.min()) / max(1, d / 10)
        for h, Q in ((w, D), (w / 2, D2)):
            for i in range(n):
                for j in range(m):
                    e = np.zeros(X.shape)
                    e[i, j] = h
                    Q[i, j] = (8 * (energy(X + e) - energy(X - e)) - (energy(X + 2 * e) - energy(X - 2 * e))) / (12 * h)
        sc = np.abs(D).max() + 1e-3
        fine = np.abs(D - D2) <= 1e-6 * sc
        mon.check(not np.any(fine & (np.abs(grad - D) > 1e-4 * sc)), "energy:gradient", lambda: f"the gradient of the potential energy (d={d}) is not its derivative: {grad.tolist()} and {D.tolist()}")
        mon.ev("energy", fine.sum())
        x = rng.exponential(size=m)
        x /= x.sum()
        obj, grad = calc_dist_to_others_with_gradient(x, X)
        f = lambda y: -np.sqrt(((y - X) ** 2).sum(axis=1)).min()
        mon.check(np.isclose(obj, f(x)), "nearest:value", lambda: f"distance {obj} instead of {f(x)}")
        dd = np.sort(((x - X) ** 2).sum(axis=1))
        if len(dd) > 1 and dd[1] - dd[0] > 1e-4 and dd[0] > 1e-4:
            Q = np.array([(f(x + 1e-6 * e) - f(x - 1e-6 * e)) / 2e-6 for e in np.eye(m)])
            mon.check(np.allclose(grad, Q, atol=1e-4), "nearest:gradient", lambda: f"gradient {grad.tolist()} instead of {Q.tolist()}")
            mon.ev("nearest")


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"shipped": run_shipped, "user": run_user, "energy": run_energy}[case["kind"]](case, mon)
