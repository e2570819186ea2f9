"""Recording a whole run as a comparable trace: what was evaluated, in order, and what came out."""
import numpy as np
from vlib import obs
from vlib.mon import same, short


def row(x):
    if isinstance(x, dict):
        return tuple(sorted((k, v if isinstance(v, str) else float(v)) for k, v in x.items()))
    a = np.asarray(x)
    return tuple(float(v) for v in a.ravel())


def snapshot(alg):
    def pack(p):
        if p is None:
            return None
        return [(row(i.X), tuple(np.asarray(i.F, float).ravel().tolist()) if obs.is_evaluated(i) else None) for i in p]
    return dict(n_iter=alg.n_iter, n_eval=alg.evaluator.n_eval, pop=pack(alg.pop), opt=pack(alg.opt))


def result(res):
    def a(v):
        if v is None:
            return None
        if isinstance(v, dict):
            return row(v)
        v = np.asarray(v)
        if v.dtype == object:
            return [row(x) for x in v.ravel()]
        return v.astype(float).tolist()
    return dict(X=a(res.X), F=a(res.F), G=a(res.G), H=a(res.H), CV=a(res.CV), success=res.success,
                pop=None if res.pop is None else [row(i.X) for i in res.pop])


def first_difference(a, b, path=""):
    """None if equal (NaN equals NaN), else a description of the first difference."""
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b or (a != a and b != b) else f"{path}: {a!r} != {b!r}"
    if type(a) != type(b):
        return f"{path}: {type(a).__name__} {short(a, 80)} != {type(b).__name__} {short(b, 80)}"
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"{path}: keys {sorted(a)} != {sorted(b)}"
        for k in a:
            d = first_difference(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{path}[{i}]")
            if d:
                return d
        return None if len(a) == len(b) else f"{path}: length {len(a)} != {len(b)}"
    return None if a == b else f"{path}: {a!r} != {b!r}"
