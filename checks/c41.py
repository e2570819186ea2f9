"""C41: shipped benchmark problems compute their published definition."""
import warnings

import numpy as np

from vlib import bench, published

NAMES = sorted(published.REF)
FAMILIES = {"single": bench.SINGLE, "multi": bench.MULTI, "many": bench.MANY, "dynamic": bench.DYN, "other": bench.EXTRA}
RULE = ("every shipped problem with a definition written out in vlib/published.py (one design at a time, no code of the package) is created with random sizes and parameters and evaluated on random designs (inside and on the bounds, near the declared set, at random times for dynamic problems); "
        "every objective and constraint value is compared with the definition; distinct states are different (problem, parameters, design)")
REQUIRED = [*FAMILIES, "F", "G", "H", "at_bounds", "times", "dense", "instances", "batches", "reordered"]
ASSUMPTIONS = ["where what is shipped is a known variant of the publication (DC2-DTLZ with g/100, DF8, DF10, DF12, FDA2deb, ZCAT, sphere around 0.5, omni-test scaling) the variant is the definition",
               "values are judged up to 1e-9 of their size plus what the definition itself varies when the design is moved by a few units in the last place (steps, cancellation)",
               "the classes of pymoo.problems.dynamic.misc and dMOP3 cannot be evaluated (see the known findings of C28) and have no definition here; sets and fronts are the subject of C29"]
TIMEOUT = {"quick": 200, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 141])
    q = tier == "quick"
    out = []
    for _ in range(1 if q else 12):
        for names in np.array_split(np.array(NAMES), 24):
            out.append(dict(kind="shipped", seed=int(rng.integers(1, 10 ** 9)), names=[str(e) for e in names], rounds=24 if q else 60, n=60 if q else 120))
    out += [dict(kind="instances", seed=int(rng.integers(1, 10 ** 9)), n=40 if q else 150) for _ in range(2 if q else 12)]
    return out


def run(case, mon):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["do_" + case["kind"]](case, mon)


def information(name, p):
    info = dict(name=name, n_obj=p.n_obj, n_var=p.n_var, t=getattr(p, "time", None))
    if name in ("knapsack", "mknapsack"):
        info["instance"] = (p.P, p.W, p.C)
    elif name == "tsp":
        info["instance"] = p.cities
    elif name == "flowshop":
        info["instance"] = p.records
    return info


def define(name, x, info, kw):
    """The definition at x, or None where it has no (real, finite) value."""
    try:
        out = published.REF[name](list(x), info, kw)
        return {k: None if v is None else np.array([float(e) for e in v]) for k, v in zip("FGH", out)}
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None


def spread(rng, name, x, info, kw, xl, xu):
    """Range of the definition over designs (and times) that differ by rounding."""
    if not all(isinstance(v, float) for v in x):
        return None
    lo, hi = {}, {}
    for k in range(40):
        s = rng.choice([-1.0, 0.0, 1.0], size=len(x)) * float(rng.choice([2e-16, 1e-15, 4e-15, 1e-13, 1e-12]))
        y = np.array(x) * (1 + s) + s * (rng.random() < 0.5)
        y = np.clip(y, xl, xu) if xl is not None else y
        more = dict(info)
        if info["t"] is not None:
            more["t"] = info["t"] * (1 + float(rng.choice([-1.0, 0.0, 1.0])) * 4e-16)
        D = define(name, [float(e) for e in y], more, kw)
        if D is None:
            return None
        for key, v in D.items():
            if v is not None:
                lo[key] = np.minimum(lo.get(key, v), v)
                hi[key] = np.maximum(hi.get(key, v), v)
    return lo, hi


def compare(mon, rng, name, p, kw, X, info):
    D = p.evaluate(X, return_as_dictionary=True)
    dictionary = {k: np.asarray(D[k], float).reshape(len(X), -1) if k in D and D[k] is not None else np.zeros((len(X), 0)) for k in "FGH"}
    floats = X.dtype.kind == "f"
    for i, x in enumerate(X):
        x = [float(v) for v in x] if floats else [int(v) for v in x]
        ref = define(name, x, info, kw)
        mon.state(name, repr(sorted(kw.items())), x)
        if ref is None:
            mon.ev("undefined")
            continue
        wide = "unknown"
        for k in "FGH":
            if ref[k] is None:
                continue
            got = dictionary[k][i]
            if not mon.check(got.shape == ref[k].shape, f"{name}:{k}:number", lambda: f"{name} {kw}: {len(got)} values {k}, the definition has {len(ref[k])}"):
                continue
            if not got.size:
                continue
            fine = np.isfinite(ref[k])
            tol = 1e-9 * np.maximum(1, np.abs(ref[k]))
            bad = fine & ~(np.abs(got - ref[k]) <= tol)
            mon.ev(k, int(fine.sum()))
            if bad.any():
                if wide == "unknown":
                    wide = spread(rng, name, x, info, kw, p.xl if floats else None, p.xu)
                if wide is not None:
                    lo, hi = wide[0][k], wide[1][k]
                    room = tol + (hi - lo)
                    bad &= ~((got >= lo - room) & (got <= hi + room))
            j = int(np.argmax(bad))
            mon.check(not bad.any(), f"{name}:{k}:value", lambda: f"{name} {kw} (time {info['t']}): {k}[{j}] at x = {x} is {got[j]!r}, by definition {ref[k][j]!r}")
    return dictionary


def near(rng, p, X):
    """Designs that mostly agree with each other or sit where distance functions vanish."""
    Y = X.copy()
    if p.n_var > 1:
        for i in range(len(Y)):
            m = rng.random(Y.shape[1]) < 0.6
            Y[i, m] = (p.xl + rng.choice([0, 0.25, 0.35, 0.5, 0.75, 1.0]) * (p.xu - p.xl))[m]
    return Y


def do_shipped(case, mon):
    rng = np.random.default_rng(case["seed"])
    for name in case["names"]:
        family = next(k for k, v in FAMILIES.items() if name in v)
        for r in range(case["rounds"]):
            kw = bench.wide_params(rng, name)
            if name in ("mm1", "mm2"):
                kw["n_var"] = 1
            p = bench.create(name, **kw)
            info = information(name, p)
            X = bench.designs(rng, name, p, case["n"], edges=True)
            real = X.dtype.kind == "f" and name != "zdt5"
            if real and r % 2:
                X = near(rng, p, X)
                mon.ev("dense")
            if name in bench.DYN:
                if r % 4 == 3:
                    p.time = float(rng.choice([0.0, 0.25, 0.5, 1.0, 2.0, 3.0]) if rng.random() < 0.4 else rng.random() * 5)
                    info = information(name, p)
                mon.ev("times")
            if real:
                mon.ev("at_bounds", int(((X == p.xl) | (X == p.xu)).any(axis=1).sum()))
            D = compare(mon, rng, name, p, kw, X, info)
            mon.ev(family)
            # the same problem object again, other designs, other batch sizes
            k = int(rng.integers(1, len(X) + 1))
            perm = rng.permutation(len(X))[:k]
            again = p.evaluate(X[perm], return_as_dictionary=True)
            mon.ev("batches")
            for key in "FGH":
                if key in again and again[key] is not None and np.size(again[key]):
                    mon.ev("reordered")
                    mon.check(np.allclose(np.asarray(again[key], float).reshape(k, -1), D[key][perm], rtol=1e-9, atol=1e-12, equal_nan=True), f"{name}:{key}:again", lambda: f"{name} {kw}: the values of {key} differ when the same designs are evaluated again in another order")


def do_instances(case, mon):
    """Random instances: same seed, same instance; visiting order only matters up to the symmetries of the definition."""
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        name = str(rng.choice(["knapsack", "mknapsack", "tsp", "flowshop"]))
        kw = bench.params(rng, name)
        p, q = bench.create(name, **kw), bench.create(name, **kw)
        info, other = information(name, p), information(name, q)
        flat = lambda v: np.concatenate([np.ravel(np.asarray(e, float)) for e in v])
        mon.eq(flat(info["instance"]), flat(other["instance"]), f"{name}:instance", f"{name} {kw}: two instances of the same seed")
        sizes = {"tsp": (kw["n"], 2), "flowshop": (kw["m"], kw["n"])}.get(name)
        if sizes:
            mon.check(np.shape(info["instance"]) == sizes and p.n_var == kw["n"], f"{name}:size", lambda: f"{name} {kw}: data of shape {np.shape(info['instance'])}, {p.n_var} variables")
        else:
            P, W, C = info["instance"]
            mon.check(len(P) == len(W) == p.n_var == kw["n"] and C > 0, f"{name}:size", lambda: f"{name} {kw}: {len(P)} profits, {len(W)} weights, {p.n_var} variables, capacity {C}")
        mon.ev("instances")
        mon.state(name, repr(kw))
        X = bench.designs(rng, name, p, 12)
        D = compare(mon, rng, name, p, kw, X, info)
        if name == "tsp":
            k = int(rng.integers(1, p.n_var))
            for Y, what in ((np.roll(X, k, axis=1), "started elsewhere"), (X[:, ::-1], "driven backwards")):
                mon.check(np.allclose(p.evaluate(Y, return_values_of=["F"]), D["F"]), "tsp:symmetry", lambda: f"tsp {kw}: the tour {what} has another length")
        if name == "flowshop":
            low = max(np.sum(info["instance"], axis=1).max(), np.sum(info["instance"], axis=0).max())
            mon.check(bool((D["F"] >= low - 1e-9).all() and (D["F"] <= np.sum(info["instance"]) + 1e-9).all()), "flowshop:range", lambda: f"flowshop {kw}: makespan {D['F'].min()} below the load of a machine or job ({low}) or above the total")
