"""C12: every crowding measure equals its definition."""
import numpy as np
from vlib import gen

RULE = ("fronts of 17 families are measured by every crowding function (by label, compiled and in Python, and the plain functions) for several numbers to remove and compared with direct implementations of the definitions; "
        "the result for a permuted, shifted or scaled front is compared too; distinct states are different (front, number to remove) pairs")
REQUIRED = ["fronts", "measures", "pruned", "permuted", "duplicates_zero", "small_fronts", "callable"]
ASSUMPTIONS = ["objective values are finite", "values are only compared where floating-point rounding cannot decide between two solutions to prune"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 112])
    return [dict(seed=int(rng.integers(1, 10 ** 9)), n=25 if tier == "quick" else 80) for _ in range(40 if tier == "quick" else 500)]


# ------------------------------------------------------------------ definitions

def ref_cd(F):
    n, m = F.shape
    out = np.zeros(n)
    for j in range(m):
        o = np.argsort(F[:, j], kind="stable")
        v = F[o, j]
        r = v[-1] - v[0]
        if r == 0:      # documented: an objective equal for all does not contribute
            continue
        for k in range(n):
            out[o[k]] += np.inf if k in (0, n - 1) else (v[k + 1] - v[k - 1]) / r
    return out / m


def ref_ce(F):
    n, m = F.shape
    out = np.zeros(n)
    for j in range(m):
        o = np.argsort(F[:, j], kind="stable")
        v = F[o, j]
        r = v[-1] - v[0]
        if r == 0:
            continue
        for k in range(n):
            if k in (0, n - 1):
                out[o[k]] += np.inf
                continue
            dl, du = v[k] - v[k - 1], v[k + 1] - v[k]
            c = dl + du
            e = 0.0
            for p in (dl, du):
                if p > 0:
                    e -= p / c * np.log2(p / c)
            out[o[k]] += c * e / r
    return out


def extremes(F):
    return set(np.argmin(F, axis=0)) | set(np.argmax(F, axis=0))


def scaled(F):
    r = F.max(axis=0) - F.min(axis=0)
    return (F - F.min(axis=0)) / np.where(r == 0, 1.0, r)


def prune(F, n_remove, value, need):
    """Values after removing the n_remove - 1 least crowded one after another (the last value of a removed one is kept);
    None if rounding may decide what is removed."""
    n, m = F.shape
    E = extremes(F)
    left = list(range(n))
    d = np.full(n, np.inf)
    n_remove = min(n_remove, n - m, n - need)
    ambiguous = False

    def upd():
        for pos, i in enumerate(left):
            d[i] = np.inf if i in E else value(left, pos)
    upd()
    for _ in range(n_remove - 1):
        v = d[left]
        mn = v.min()
        c = np.where(v == mn)[0]
        if np.sum(v <= mn * (1 + 1e-9) + 1e-13) > len(c) or (len(c) > 1 and 0 < mn < np.inf):
            ambiguous = True
        if len(c) > 1 and mn == 0:
            ambiguous = True
        if np.isinf(mn):
            ambiguous = True
        left.pop(int(c[-1]))
        upd()
    return None if ambiguous else d


def ref_pcd(F, n_remove):
    X, m = scaled(F), F.shape[1]
    const = F.max(axis=0) == F.min(axis=0)

    def value(left, pos):
        s = 0.0
        for j in range(m):
            if const[j]:
                continue
            v = X[left, j]
            o = np.argsort(v, kind="stable")
            k = int(np.where(o == pos)[0][0])
            s += np.inf if k in (0, len(o) - 1) else (v[o[k + 1]] - v[o[k - 1]]) / m
        return s
    return prune(F, n_remove, value, 0)


def ref_nn(F, n_remove, k):
    X = scaled(F)
    n, m = F.shape
    if n <= m or n <= k:
        return np.full(n, np.inf)

    def value(left, pos):
        D = ((X[left] - X[left[pos]]) ** 2).sum(axis=1)
        D[pos] = np.inf
        return float(np.prod(np.sort(D)[:k]))
    return prune(F, n_remove, value, k)


# ------------------------------------------------------------------ monitors

def uniq(F):
    """First occurrences of the different rows."""
    seen, out = set(), []
    for i, r in enumerate(F.tolist()):
        if tuple(r) not in seen:
            seen.add(tuple(r))
            out.append(i)
    return np.array(out)


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    fin = np.isfinite(b)
    s = max(1.0, np.max(np.abs(b[fin]), initial=0.0))
    return a.shape == b.shape and np.array_equal(np.isinf(a), np.isinf(b)) and not np.isnan(a).any() and np.allclose(a[fin], b[fin], rtol=1e-7, atol=1e-10 * s)


def run(case, mon):
    from pymoo.functions import load_function
    from pymoo.operators.survival.rank_and_crowding import metrics as M
    rng = np.random.default_rng(case["seed"])
    kinds = [k for k in gen.KINDS if k not in ("inf", "nearly")]
    for _ in range(case["n"]):
        F, kind = gen.matrix(rng, kind=str(rng.choice(kinds)), nmax=45, mmax=5)
        n, m = F.shape
        F0 = F.copy()
        mon.ev("fronts")
        u = uniq(F)
        U = F[u]
        # two rows closer than the tolerance for duplicates count as one: do not test such fronts
        dist = ((U[:, None] - U[None]) ** 2).sum(axis=2) + np.eye(len(U))
        if dist.min() < 1e-30:
            continue
        for nr in sorted({0, 1, int(rng.integers(0, n + 1)), max(n - m, 0), n}):
            mon.state(F, nr)
            for label in ("cd", "ce", "pcd", "pruning-cd", "mnn", "2nn", "callable"):
                if label == "callable":
                    mon.ev("callable")
                    fun = M.get_crowding_function(lambda G, **kw: np.arange(1.0, len(G) + 1))
                else:
                    fun = M.get_crowding_function(label)
                try:
                    d = fun.do(F, n_remove=nr)
                except Exception as e:
                    mon.viol(f"raises:{label}", f"{label} of {kind} {F.shape}, n_remove={nr} raised {type(e).__name__}: {e}", F=F)
                    continue
                mon.ev("measures")
                mon.check(np.array_equal(F, F0), f"modified:{label}", "the objective values were modified")
                mon.check(isinstance(d, np.ndarray) and d.shape == (n,) and not np.isnan(d).any() and np.all(d >= 0), f"shape:{label}", lambda: f"{label} of {kind} {F.shape}: {d}", F=F)
                if n <= 2 or (label in ("mnn", "2nn") and n <= m):
                    mon.ev("small_fronts")
                    mon.check(np.all(np.isinf(d)), f"small:{label}", lambda: f"{label} of {n} points: {d}", F=F)
                    continue
                if label == "cd":
                    want = ref_cd(F)
                elif label == "callable":
                    want = np.zeros(n); want[u] = np.arange(1.0, len(u) + 1)
                else:
                    w = {"ce": lambda: ref_ce(U), "pcd": lambda: ref_pcd(U, nr), "pruning-cd": lambda: ref_pcd(U, nr), "mnn": lambda: ref_nn(U, nr, m), "2nn": lambda: ref_nn(U, nr, 2)}[label]()
                    if w is None:
                        mon.ev("ambiguous")
                        continue
                    want = np.zeros(n); want[u] = w
                    if len(u) < n:
                        mon.ev("duplicates_zero")
                    if nr > 1:
                        mon.ev("pruned")
                if label in ("ce", "pcd", "pruning-cd", "mnn", "2nn") and len(U) > 2:
                    vary = U.max(axis=0) > U.min(axis=0)
                    if label == "ce":       # one attaining each extreme; with ties the first or the last
                        ok = all(np.isinf(d[u[U[:, j] == v]]).any() for j in np.where(vary)[0] for v in (U[:, j].min(), U[:, j].max()))
                        mon.check(ok, f"extremes:{label}", lambda: f"no solution at an extreme is infinite: {d}", F=F)
                mon.check(close(d, want), f"value:{label}", lambda: f"{label} of {kind} {F.shape}, n_remove={nr}: {d} instead of {want}", F=F, n_remove=nr)
                # order, shift and scale do not matter (when there are no ties to break)
                if label in ("cd", "ce", "pcd", "mnn", "2nn") and all(len(np.unique(F[:, j])) == n for j in range(m)) and kind in ("random", "onefront", "neg"):
                    p = rng.permutation(n)
                    mon.ev("permuted")
                    d2 = fun.do(F[p], n_remove=nr)
                    mon.check(close(d2, d[p]), f"permuted:{label}", lambda: f"{label} depends on the order: {d2} and {d[p]}", F=F, n_remove=nr)
                    G = F * 2.0 ** rng.integers(-3, 4, m)
                    d2 = fun.do(G, n_remove=nr)
                    mon.check(close(d2, d), f"scaled:{label}", lambda: f"{label} depends on the scale: {d2} and {d}", F=F, n_remove=nr)
            # the kernels themselves
            if len(U) > 2:
                for mode in ("python", "cython"):
                    for f, ref in (("calc_pcd", lambda: ref_pcd(U, nr)), ("calc_mnn", lambda: ref_nn(U, nr, m)), ("calc_2nn", lambda: ref_nn(U, nr, 2))):
                        if f != "calc_pcd" and len(U) <= m:
                            continue
                        try:
                            fn = load_function(f, mode)
                        except Exception:
                            continue
                        A = U.copy()
                        d, want = np.asarray(fn(A, n_remove=nr)), ref()
                        mon.ev("measures")
                        mon.check(np.array_equal(A, U), f"modified:{mode}:{f}", "the objective values were modified")
                        if want is not None:
                            mon.check(close(d, want), f"value:{mode}:{f}", lambda: f"{mode} {f} of {kind} {U.shape}, n_remove={nr}: {d} instead of {want}", F=U, n_remove=nr)
                for name, k in (("calc_mnn_fast", m), ("calc_2nn_fast", 2)):
                    if len(U) > max(k, m):
                        d, want = getattr(M, name)(U.copy()), ref_nn(U, 0, k)
                        mon.check(close(d, want), f"value:{name}", lambda: f"{name} of {kind} {U.shape}: {d} instead of {want}", F=U)
    mon.note(front=F, n_remove=nr, last=d)
