"""C34: decision making picks what its criterion says."""
import warnings
import numpy as np
from vlib import gen

RULE = ("random fronts (convex, concave, linear, disconnected, constant objectives, duplicates, ties, dominated points, one or two points, two to six objectives, magnitudes from 1e-9 to 1e9) and weights are given to pseudo weights, compromise programming, decompositions and high trade-off points, with and without normalisation bounds; "
        "every choice is compared with a brute-force evaluation of the definition, repeated on permuted, scaled and shifted objectives and reordered solutions; inputs are compared with copies; distinct states are different (front, setting, choice) tuples")
REQUIRED = ["choices", "pseudo", "pseudo_given_bounds", "pseudo_normalized", "pseudo_constant", "nadir_point", "single", "compromise", "metrics", "scalarised", "tradeoff", "tradeoff_chosen", "tradeoff_none", "tradeoff_epsilon", "tradeoff_far", "outliers", "outliers_infinite", "outliers_single", "neighbors", "neighbors_2d", "neighbors_k", "neighbors_min", "permuted", "scaled", "reordered", "unchanged", "warnings_kept", "vector"]
ASSUMPTIONS = ["objective values are finite", "ties within rounding may be decided either way"]
TIMEOUT = {"quick": 200, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 134])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = []
    for _ in range(40 if q else 200):
        out += [new(kind=k, n=60 if q else 150) for k in ("pseudo", "compromise", "tradeoff", "neighbors", "outliers")]
    return out


def front(rng):
    m, n = int(rng.choice([2, 2, 3, 4, 6])), int(rng.choice([1, 2, 3, 5, 12, 40, 150]))
    kind = str(rng.choice(["convex", "concave", "linear", "random", "clusters", "grid", "constant", "dups"]))
    U = rng.random((n, m)) + 1e-3
    U /= U.sum(axis=1)[:, None]
    if kind == "convex":
        F = U ** 2
    elif kind == "concave":
        F = np.sqrt(U)
    elif kind == "linear":
        F = U
    elif kind == "random":
        F = rng.random((n, m))
    elif kind == "clusters":
        F = U ** 2 + (rng.random(n) < 0.3)[:, None] * np.eye(m)[int(rng.integers(m))] * 0.4
    elif kind == "grid":
        F = rng.integers(0, 4, size=(n, m)).astype(float)
    elif kind == "constant":
        F = U ** 2
        F[:, int(rng.integers(m))] = float(rng.choice([0.0, 5.0]))
    else:
        F = U[rng.integers(max(1, n // 3), size=n)]
    return kind, F


def scale(rng, F):
    if rng.random() < 0.5:
        return F
    return F * 10.0 ** rng.integers(-6, 7, size=F.shape[1]) + rng.choice([0.0, 0.0, 3.0, -100.0], size=F.shape[1])


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            globals()["run_" + case["kind"]](rng, mon)


def judge_choice(mon, key, got, dist, what):
    """got has to be an index with (nearly) the smallest distance."""
    n = len(dist)
    ok = isinstance(got, (int, np.integer)) and 0 <= got < n
    if not mon.check(ok, f"{key}:index", lambda: f"{got!r} is not an index of {n} solutions"):
        return False
    d = np.where(np.isnan(dist), np.inf, dist)
    best = d.min()
    return mon.check(d[got] <= best + 1e-9 * max(1.0, abs(best)) if np.isfinite(best) else True, f"{key}:best", lambda: f"{what}: chose {got} with {d[got]!r}, the best is {int(d.argmin())} with {best!r}")


def run_pseudo(rng, mon):
    from pymoo.mcdm.pseudo_weights import PseudoWeights
    kind, F = front(rng)
    F = scale(rng, F)
    n, m = F.shape
    w = rng.random(m)
    w = w / w.sum() if rng.random() < 0.7 else np.eye(m)[int(rng.integers(m))]
    mode = int(rng.integers(4))
    ideal, nadir = F.min(axis=0), F.max(axis=0)
    kw = {}
    if mode == 1:                                             # bounds of a larger front
        ideal, nadir = ideal - rng.random(m) * (nadir - ideal), nadir + rng.random(m) * (nadir - ideal)
        kw = dict(ideal=ideal, nadir=nadir)
        mon.ev("pseudo_given_bounds")
    elif mode == 2 and np.all(nadir > ideal):                 # (a range of zero is not normalised)
        kw = dict(ideal=ideal, nadir=nadir, zero_to_one=True)
        mon.ev("pseudo_normalized")
    elif mode == 3:
        nadir = nadir + rng.random(m) * (nadir - ideal)
        kw = dict(nadir=nadir)
    const = nadir == ideal
    mon.ev("pseudo_constant", bool(const.any() and not const.all()))
    mon.ev("single", n == 1)
    snap, ws = F.copy(), w.copy()
    got, P = PseudoWeights(w, **kw).do(F, return_pseudo_weights=True)
    mon.ev("choices")
    mon.ev("pseudo")
    mon.ev("unchanged")
    mon.check(np.array_equal(F, snap) and np.array_equal(w, ws), "pseudo:input", "the input was modified")
    D = (nadir - F) / np.where(const, 1.0, nadir - ideal)
    tot = D.sum(axis=1)
    worst = tot <= 1e-9
    mon.ev("nadir_point", int(worst.sum()))
    mon.check(P.shape == F.shape and np.all(np.isfinite(P)), "pseudo:finite", lambda: f"pseudo weights {P[:3]} for {F[:3]}")
    if P.shape != F.shape or not np.all(np.isfinite(P)):
        return
    mon.check(np.all(P >= -1e-9), "pseudo:negative", lambda: f"negative pseudo weights {P.min()}")
    mon.check(np.allclose(P[~worst].sum(axis=1), 1, atol=1e-9), "pseudo:sum", "pseudo weights do not sum to one")
    ref = D / np.where(worst, 1.0, tot)[:, None]
    if (~worst).any():
        mon.check(np.allclose(P[~worst], ref[~worst], rtol=1e-6, atol=1e-6), "pseudo:value", lambda: f"pseudo weights {P[~worst][0]} instead of {ref[~worst][0]}")
    dist = np.abs(P - w).sum(axis=1)
    dist[worst] = np.inf
    if judge_choice(mon, "pseudo", got, dist, f"{kind} {n}x{m}, weights {w}") and (~worst).any():
        mon.check(not worst[got], "pseudo:worst", "the nadir point was chosen although it has no weights")
    mon.state(F.tobytes(), w.tobytes(), int(got))
    # the form returning the index only
    mon.check(PseudoWeights(w, **kw)(F) == got and PseudoWeights(w, **kw).do(F) == got, "pseudo:forms", "the forms disagree")
    gap = np.sort(dist)
    if n > 1 and np.isfinite(gap[0]) and gap[1] - gap[0] > 1e-4 * max(1, gap[0]) and not worst.any():
        I, J = rng.permutation(n), rng.permutation(m)
        mon.ev("reordered")
        mon.check(I[PseudoWeights(w, **kw).do(F[I])] == got, "pseudo:reordered", "another choice after reordering the solutions")
        if mode == 0:
            mon.ev("permuted")
            mon.check(PseudoWeights(w[J]).do(F[:, J]) == got, "pseudo:permuted", "another choice after exchanging objectives")
            mon.ev("scaled")
            s = 2.0 ** rng.integers(-8, 9, size=m)
            mon.check(PseudoWeights(w).do(F * s) == got, "pseudo:scaled", "another choice after scaling the objectives")
    if n == 1:
        mon.ev("vector")
        mon.check(PseudoWeights(w).do(F[0]) == 0, "pseudo:vector", "a single vector")


def run_compromise(rng, mon):
    from pymoo.mcdm.compromise_programming import CompromiseProgramming
    kind, F = front(rng)
    F = scale(rng, F)
    n, m = F.shape
    mon.ev("single", n == 1)
    metric = str(rng.choice(["euclidean", "euclidean", "cityblock", "chebyshev"]))
    mon.ev("metrics", metric != "euclidean")
    ideal, nadir, kw = F.min(axis=0), F.max(axis=0), {}
    mode = int(rng.integers(3))
    if mode == 1:
        ideal, nadir = ideal - rng.random(m) * (nadir - ideal), nadir + rng.random(m) * (nadir - ideal)
        kw = dict(ideal=ideal, nadir=nadir)
    elif mode == 2:
        kw = dict(ideal=ideal, nadir=nadir, zero_to_one=True)
    snap = F.copy()
    got = CompromiseProgramming(metric, **kw).do(F)
    mon.ev("choices")
    mon.ev("compromise")
    mon.ev("unchanged")
    mon.check(np.array_equal(F, snap), "compromise:input", "the input was modified")
    N = (F - ideal) / np.where(nadir == ideal, 1.0, nadir - ideal)
    dist = {"euclidean": lambda: np.sqrt((N ** 2).sum(axis=1)), "cityblock": lambda: np.abs(N).sum(axis=1), "chebyshev": lambda: np.abs(N).max(axis=1)}[metric]()
    judge_choice(mon, "compromise", got, dist, f"{kind} {n}x{m} {metric}")
    mon.state(F.tobytes(), metric, int(got))
    gap = np.sort(dist)
    if n > 1 and gap[1] - gap[0] > 1e-4 and mode == 0:
        I, J = rng.permutation(n), rng.permutation(m)
        mon.ev("reordered")
        mon.check(I[CompromiseProgramming(metric).do(F[I])] == got, "compromise:reordered", "another choice after reordering")
        mon.ev("permuted")
        mon.check(CompromiseProgramming(metric).do(F[:, J]) == got, "compromise:permuted", "another choice after exchanging objectives")
        mon.ev("scaled")
        mon.check(CompromiseProgramming(metric).do(F * 2.0 ** rng.integers(-8, 9, size=m)) == got, "compromise:scaled", "another choice after scaling")
    # the documented way: any scalarisation and the smallest value
    from checks.c25 import scalar
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    w = rng.random(m) + 0.05
    w /= w.sum()
    mon.ev("scalarised")
    nm, cls, val = [("asf", ASF, lambda: (F / w).max(axis=1)), ("ws", WeightedSum, lambda: (F * w).sum(axis=1)), ("tch", Tchebicheff, lambda: np.abs(F - ideal) @ np.zeros(m) + (np.abs(F - ideal) * w).max(axis=1))][int(rng.integers(3))]
    k2 = dict(ideal_point=ideal) if nm == "tch" else {}
    out = cls()(F, w, **k2)
    v = val()
    judge_choice(mon, f"decomposition:{nm}", np.asarray(out).argmin(), v / max(1e-300, np.abs(v).max()), f"{kind} {n}x{m} {nm}")


def neighbours(F, i, eps, kmin, k=None):
    """Sets of neighbours: (certain, possible)."""
    d = np.sqrt(((F - F[i]) ** 2).sum(axis=1))
    if eps is not None:
        tol = 1e-12 * max(1.0, np.abs(F).max())
        sure, may = set(np.flatnonzero(d <= eps - tol).tolist()), set(np.flatnonzero(d <= eps + tol).tolist())
        if len(sure) != len(may):
            return None
    else:
        sure, kmin, ask = set(), 1, k
    if eps is not None:
        ask = kmin
    if len(sure) < kmin:
        ask = min(ask + 1, len(F)) if ask + 1 <= len(F) else len(F)
        o = np.argsort(d, kind="stable")
        cut = d[o[ask - 1]]
        if ask < len(F) and d[o[ask]] - cut <= 1e-12 * max(1.0, cut):
            return None                                       # a tie decides
        sure = set(o[:ask].tolist())
    return sure


def run_tradeoff(rng, mon):
    from pymoo.mcdm.high_tradeoff import HighTradeoffPoints
    kind, F = front(rng)
    n, m = F.shape
    eps = float(rng.choice([0.125, 0.125, 0.05, 0.3, 2.0]))
    mon.ev("tradeoff_epsilon", eps != 0.125)
    kw = {} if eps == 0.125 else dict(epsilon=eps)
    G = F
    if rng.random() < 0.3:                                    # another scale, normalised by the given bounds
        lo, hi = F.min(axis=0), F.max(axis=0)
        if np.all(hi > lo):
            s = 2.0 ** rng.integers(-8, 9, size=m)
            G = F * s
            kw.update(zero_to_one=True, ideal=lo * s, nadir=hi * s)
            F = (F - lo) / (hi - lo)
            mon.ev("scaled")
    snap = G.copy()
    before = list(warnings.filters)
    got = HighTradeoffPoints(**kw)(G)
    mon.ev("warnings_kept")
    mon.check(list(warnings.filters) == before, "tradeoff:warnings", "the filters of warnings were changed for the whole process")
    mon.ev("choices")
    mon.ev("tradeoff")
    mon.ev("unchanged")
    mon.check(np.array_equal(G, snap), "tradeoff:input", "the input was modified")
    mu = np.full(n, np.nan)
    for i in range(n):
        N = neighbours(F, i, eps, min(2 * m, n - 1))
        if N is None:
            return
        mon.ev("tradeoff_far", len(N) == min(2 * m, n - 1) + 1)
        t = []
        for j in N:
            loss, gain = np.maximum(0, F[j] - F[i]).sum(), np.maximum(0, F[i] - F[j]).sum()
            if gain > 0:
                t.append(loss / gain)
            elif loss > 0:
                t.append(np.inf)
        mu[i] = min(t) if t else np.nan
    I = np.flatnonzero(np.isfinite(mu))
    mon.state(F.tobytes(), eps, repr(got))
    if got is not None:
        ok = np.ndim(got) == 1 and len(got) > 0 and all(isinstance(g, (int, np.integer)) and 0 <= g < n for g in got) and len(set(np.asarray(got).tolist())) == len(got)
        if not mon.check(ok, "tradeoff:index", lambda: f"{got!r} are not indices of {n} solutions"):
            return
    z = mu[I]
    if len(I) == 0 or z.max() - z.min() <= 1e-12 * max(1.0, z.max()):
        mon.check(got is None or len(z) and z.max() > z.min(), "tradeoff:none", lambda: f"chose {got} although no trade-off exceeds the others")
        mon.ev("tradeoff_none")
        return
    dev = (z - z.mean()) / z.std()
    tol = 1e-7
    if np.any(np.abs(dev - 2) < tol) or (dev.max() < 2 and abs(dev.max() - 1) < tol) or (dev.max() < 2 and np.sum(z >= z.max() - 1e-9 * max(1, z.max())) > 1):
        return                                                # rounding decides
    want = set(I[dev >= 2].tolist())
    if not want and dev.max() > 1:
        want = {int(I[np.argmax(z)])}
    mon.ev("tradeoff_chosen", len(want))
    mon.ev("tradeoff_none", not want)
    mon.check((set() if got is None else set(np.asarray(got).tolist())) == want, "tradeoff:set", lambda: f"{kind} {n}x{m} epsilon {eps}: chose {got}, trade-offs {dict(zip(I.tolist(), z))}, expected {sorted(want)}")
    # order and names of objectives do not matter
    P, J = rng.permutation(n), rng.permutation(m)
    k2 = {k: (v[J] if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    g2 = HighTradeoffPoints(**k2)(G[P][:, J])
    mon.ev("reordered")
    mon.ev("permuted")
    near = np.any(np.abs(dev - 2) < 1e-4) or abs(dev.max() - 1) < 1e-4
    mon.check(near or (set() if g2 is None else set(P[g2].tolist())) == want, "tradeoff:reordered", lambda: f"{want} becomes {None if g2 is None else P[g2]} after reordering")


def run_outliers(rng, mon):
    """The rule choosing among trade-offs, given directly (also with values that are not finite at any position)."""
    from pymoo.core.decision_making import find_outliers_upper_tail
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 20, 60]))
    mu = np.round(rng.random(n) * 10, int(rng.choice([0, 2, 8]))) * float(rng.choice([1.0, 1e-6, 1e6]))
    if rng.random() < 0.3:
        mu[int(rng.integers(n))] *= 20
    for bad in (np.inf, -np.inf, np.nan):
        if rng.random() < 0.4:
            mu[rng.random(n) < 0.3] = bad
    snap = mu.copy()
    got = find_outliers_upper_tail(mu)
    mon.ev("outliers")
    mon.check(np.array_equal(mu, snap, equal_nan=True), "outliers:input", "the input was modified")
    I = np.flatnonzero(np.isfinite(mu))
    mon.ev("outliers_infinite", len(I) < n)
    mon.state(mu.tobytes(), repr(got))
    z = mu[I]
    if len(I) == 0 or z.max() - z.min() <= 1e-12 * abs(z.max()):
        mon.check(got is None or len(z) and z.max() > z.min(), "outliers:none", lambda: f"chose {got} of {mu}")
        return
    dev = (z - z.mean()) / z.std()
    if np.any(np.abs(dev - 2) < 1e-7) or (dev.max() < 2 and (abs(dev.max() - 1) < 1e-7 or np.sum(z == z.max()) > 1)):
        return
    want = set(I[dev >= 2].tolist())
    if not want and dev.max() > 1:
        want = {int(I[np.argmax(z)])}
        mon.ev("outliers_single")
    mon.check((set() if got is None else set(np.asarray(got).tolist())) == want, "outliers:set", lambda: f"chose {got} of {mu.tolist()}, expected {sorted(want)}")


def run_neighbors(rng, mon):
    from pymoo.core.decision_making import NeighborFinder
    kind, F = front(rng)
    n, m = F.shape
    mode = str(rng.choice(["ball", "k", "min", "2d", "auto"]))
    if mode == "2d" and m != 2 or mode == "k" and n < 3:
        return
    if mode == "2d":
        f = NeighborFinder(F)
        o = np.argsort(F[:, 0], kind="stable")
        if len(set(F[:, 0])) < n:
            return
        pos = {int(a): p for p, a in enumerate(o)}
        for i in range(n):
            want = [int(o[p]) for p in (pos[i] - 1, pos[i] + 1) if 0 <= p < n]
            mon.ev("neighbors_2d")
            mon.check([int(a) for a in f.find(i)] == want, "neighbors:2d", lambda: f"{f.find(i)} instead of {want}")
        return
    eps, k, kmin = 0.125, None, None
    if mode == "k":
        eps, k = None, int(rng.integers(1, n - 1))
    elif mode == "min":
        eps, kmin = float(rng.choice([0.01, 0.2])), int(rng.integers(1, 6))
    elif mode == "auto":
        kmin = "auto"
    else:
        eps = float(rng.choice([0.01, 0.2, 1.0]))
    f = NeighborFinder(F, epsilon=eps, n_neighbors=k, n_min_neigbors=kmin, consider_2d=False)
    least = min(2 * m, n - 1) if kmin == "auto" else 0 if kmin is None else min(kmin, n - 1)
    for i in rng.permutation(n)[:10]:
        want = neighbours(F, i, eps, least, k)
        if want is None:
            continue
        mon.ev("neighbors")
        mon.ev("neighbors_k", mode == "k")
        mon.ev("neighbors_min", mode in ("min", "auto"))
        got = f.find(i)
        mon.state(F.tobytes(), mode, int(i))
        mon.check(sorted(int(a) for a in got) == sorted(want), f"neighbors:{mode}", lambda: f"{sorted(got)} instead of {sorted(want)} (epsilon {eps}, number {k}, at least {least})")
