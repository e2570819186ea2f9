"""Generators of hostile inputs, shared by the checks of single functions."""
import numpy as np

KINDS = ["random", "int", "binary", "dups", "constcol", "chain", "anti", "onefront", "equal", "tiny", "huge", "neg", "inf", "layers", "single", "twocol_tie", "nearly", "mixedscale"]


def matrix(rng, kind=None, n=None, m=None, nmax=40, mmax=6):
    kind = kind or str(rng.choice(KINDS))
    n = int(n if n is not None else rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 20, nmax]))
    m = int(m if m is not None else rng.integers(1, mmax + 1))
    if kind == "random":
        F = rng.random((n, m))
    elif kind == "int":
        F = rng.integers(0, 4, (n, m)).astype(float)
    elif kind == "binary":
        F = rng.integers(0, 2, (n, m)).astype(float)
    elif kind == "dups":
        B = rng.random((max(1, n // 3), m)); F = B[rng.integers(0, len(B), n)]
    elif kind == "constcol":
        F = rng.random((n, m)); F[:, rng.integers(m)] = rng.choice([0.0, 1.0, -3.5])
    elif kind == "chain":
        F = np.sort(rng.random(n))[:, None] * np.ones(m) + (0 if rng.random() < 0.5 else 1) * np.arange(m)
        F = F[rng.permutation(n)]
    elif kind == "anti":
        t = rng.random(n); F = np.column_stack([t if j % 2 == 0 else 1 - t for j in range(m)])
    elif kind == "onefront":
        F = rng.random((n, m)) + 1e-3; F = F / F.sum(axis=1, keepdims=True)
    elif kind == "equal":
        F = np.tile(rng.random(m), (n, 1))
    elif kind == "tiny":
        F = rng.random((n, m)) * 1e-12
    elif kind == "huge":
        F = rng.random((n, m)) * 1e15 - 5e14
    elif kind == "neg":
        F = -rng.random((n, m)) * 100
    elif kind == "inf":
        F = rng.integers(0, 3, (n, m)).astype(float); F[rng.random((n, m)) < 0.15] = np.inf
    elif kind == "layers":
        F = rng.random((n, m)) + 0.05; F = F / F.sum(axis=1, keepdims=True) * rng.integers(1, 4, (n, 1))
    elif kind == "single":
        F = rng.random((1, m))
    elif kind == "twocol_tie":
        F = rng.random((n, m)); F[:, 0] = rng.integers(0, 2, n)
    elif kind == "nearly":
        F = np.round(rng.random((n, m)), 1); F += (rng.random((n, m)) < 0.2) * 1e-15
    elif kind == "mixedscale":
        F = rng.random((n, m)) * 10.0 ** rng.integers(-8, 9, m) - rng.integers(0, 2, m) * 10.0 ** rng.integers(-3, 6, m)
    return np.ascontiguousarray(F), kind


def ref_fronts(F):
    """The definition, in quadratic time: peel off what nothing left dominates."""
    n = len(F)
    le = np.all(F[:, None, :] <= F[None, :, :], axis=2)
    lt = np.any(F[:, None, :] < F[None, :, :], axis=2)
    D = le & lt
    left, fronts = np.ones(n, bool), []
    while left.any():
        dominated = (D & left[:, None]).any(axis=0)
        f = np.where(left & ~dominated)[0]
        fronts.append(f)
        left[f] = False
    return fronts


def ref_rank(F):
    r = np.zeros(len(F), int)
    for k, f in enumerate(ref_fronts(F)):
        r[f] = k
    return r


def hv(F, ref):
    """Volume of the region dominated by F and bounded by ref (slicing over the last objective)."""
    F = np.asarray(F, float)
    ref = np.asarray(ref, float)
    F = F[np.all(F < ref, axis=1)] if len(F) else F.reshape(0, len(ref))
    if len(F) == 0:
        return 0.0
    if F.shape[1] == 1:
        return float(ref[0] - F.min())
    F = F[np.argsort(F[:, -1], kind="stable")]
    z = np.append(F[:, -1], ref[-1])
    vol = 0.0
    for k in range(len(F)):
        if z[k + 1] > z[k]:
            vol += (z[k + 1] - z[k]) * hv(F[: k + 1, :-1], ref[:-1])
    return vol


def ieq(rng, n, mode):
    """Constraint values: some satisfied, some violated, some exactly zero."""
    if mode == "all_feasible":
        return -rng.random((n, 2))
    if mode == "all_infeasible":
        return rng.random((n, 2)) + 0.01
    if mode == "one_feasible":
        G = rng.random((n, 2)) + 0.01
        G[rng.integers(n)] = -0.5
        return G
    if mode == "ties":
        return rng.integers(-1, 2, (n, 2)).astype(float)
    return rng.random((n, 2)) - 0.5
