"""The object through which monitors report what they saw."""
import collections, traceback
import numpy as np


class Stop(Exception):
    """Raised by a monitor inside the code under test to end an execution whose verdict is known."""


class Mon:
    MAXV = 12

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.counts = collections.Counter()
        self.states = set()
        self.sample = {}
        self.inconclusive = []
        self._n = collections.Counter()

    # ---- observations
    def ev(self, name, n=1):
        self.counts[name] += int(n)

    def state(self, *what):
        """A distinct observed state (used for distinct_nontrivial)."""
        self.states.add(hash(tuple(_h(w) for w in what)))

    def note(self, **kw):
        for k, v in kw.items():
            if k not in self.sample:
                self.sample[k] = jsonable(v)

    # ---- verdicts
    def viol(self, key, msg, **data):
        self._n[key] += 1
        if self._n[key] <= 2 and len(self.violations) < self.MAXV:
            self.violations.append({"key": key, "msg": str(msg)[:2000], "data": jsonable(data)})

    def check(self, ok, key, msg, **data):
        self.counts["oracle_checks"] += 1
        if not ok:
            self.viol(key, msg() if callable(msg) else msg, **data)
        return bool(ok)

    def eq(self, a, b, key, msg="", rtol=0.0, atol=0.0, **data):
        """a == b as arrays of the same shape; NaN equals NaN."""
        self.counts["oracle_checks"] += 1
        r = same(a, b, rtol, atol)
        if not r:
            self.viol(key, f"{msg}: got {short(a)} expected {short(b)}", **data)
        return r


def same(a, b, rtol=0.0, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype == object or b.dtype == object or a.dtype.kind in "USb" or b.dtype.kind in "USb":
        try:
            return bool(np.all([_eqobj(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel())]))
        except Exception:
            return False
    if rtol == 0 and atol == 0:
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def _eqobj(x, y, rtol, atol):
    if isinstance(x, dict) and isinstance(y, dict):
        return x.keys() == y.keys() and all(_eqobj(x[k], y[k], rtol, atol) for k in x)
    if isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)):
        return bool(x == y or (x != x and y != y) or (np.isfinite(x) and np.isfinite(y) and abs(x - y) <= atol + rtol * abs(y)))
    r = x == y
    return bool(np.all(r))


def short(a, n=400):
    with np.printoptions(precision=10, threshold=60, linewidth=160):
        s = repr(a)
    return s if len(s) <= n else s[:n] + "..."


def _h(w):
    if isinstance(w, np.ndarray):
        if w.dtype == object:
            return hash(repr(w.tolist()))
        return hash((w.shape, w.tobytes()))
    if isinstance(w, (list, tuple)):
        return hash(tuple(_h(x) for x in w))
    if isinstance(w, dict):
        return hash(tuple(sorted((k, _h(v)) for k, v in w.items())))
    return hash(w)


def jsonable(o, depth=0):
    if depth > 6:
        return str(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    if isinstance(o, np.ndarray):
        return jsonable(o.ravel()[:200].tolist() if o.size > 200 else o.tolist(), depth + 1)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o) if np.isfinite(o) else str(float(o))
    if isinstance(o, (np.bool_, bool)):
        return bool(o)
    if isinstance(o, (int, str)) or o is None:
        return o
    return str(o)[:300]
