"""C43: shared utilities compute their definition."""
import itertools
import math

import numpy as np
from vlib import gen

RULE = ("distances, duplicate and row utilities, masks, penalties, clearing, roulette wheel, randomised sorting, sliding windows, projections, measures of a distribution of points, selections of distant points and the "
        "running metric x generated inputs (ties, duplicates, single rows, empty, integers, large and tiny ranges); every result is compared with its definition written with loops; random ones are judged for membership, "
        "repetition with their seed and fairness on fixed seeds; distinct states are different inputs")
REQUIRED = ["distances", "duplicates", "rows", "masks", "clearing", "roulette", "argsort", "window", "projections", "measures", "partitions", "distant", "running", "decomposed", "replacement", "vf"]
ASSUMPTIONS = ["finite values; matrices have at least one column", "roulette wheels have at least one positive value"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 143])
    q = tier == "quick"
    out = []
    for k in ["distances", "duplicates", "rows", "masks", "clearing", "argsort", "window", "projections", "measures", "partitions", "distant", "decomposed", "replacement", "vf"]:
        for _ in range(30 if q else 600):
            out.append(dict(kind=k, seed=int(rng.integers(1, 10 ** 9)), n=25))
    for _ in range(24 if q else 200):
        out.append(dict(kind="roulette", seed=int(rng.integers(1, 10 ** 9))))
    for _ in range(24 if q else 400):
        out.append(dict(kind="running", seed=int(rng.integers(1, 10 ** 9))))
    return out


def mat(rng, n, m):
    how = rng.random()
    A = rng.normal(0, 10 ** rng.uniform(-3, 3), (n, m))
    if how < 0.25:
        A = rng.integers(-3, 4, (n, m)).astype(float)
    elif how < 0.4:
        A = A + 1e4
    if n > 2 and rng.random() < 0.4:
        A[rng.integers(n)] = A[rng.integers(n)]
    return A


def near(mon, a, b, key, msg, scale=1.0, **data):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ok = a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= 1e-9 * (scale + np.abs(b)))))
    mon.check(ok, key, msg, got=a, want=b, **data)


# ------------------------------------------------------------------------------------------------- distances

def distances(case, mon, rng):
    from pymoo.util import misc
    from pymoo.core.problem import Problem
    n, k, m = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 6))
    A, B = mat(rng, n, m), mat(rng, k, m)
    if rng.random() < 0.3:
        B = A[rng.integers(n, size=k)].copy()
    xl = rng.normal(size=m)
    xu = xl + rng.uniform(0, 5, m) * (rng.random(m) < 0.8)
    w = [u - l if u > l else 1.0 for l, u in zip(xl, xu)]

    def eu(a, b, s):
        return math.sqrt(sum(((x - y) / t) ** 2 for x, y, t in zip(a, b, s)))

    def ma(a, b, s):
        return sum(abs((x - y) / t) for x, y, t in zip(a, b, s))

    def tc(a, b, s):
        return max(abs((x - y) / t) for x, y, t in zip(a, b, s))

    one = [1.0] * m
    prob = Problem(n_var=m, n_obj=1, xl=xl, xu=xu)
    big = float(np.abs(np.concatenate([A, B])).max())
    sc = 1e-3 + big / min(w)
    mon.ev("distances")
    mon.state("dist", A, B)
    A0, B0 = A.copy(), B.copy()
    for f, s, nm, fun in [
            (eu, one, "vectorized_cdist", lambda: misc.vectorized_cdist(A, B)),
            (eu, one, "cdist", lambda: misc.cdist(A, B)),
            (ma, one, "manhatten", lambda: misc.vectorized_cdist(A, B, func_dist=misc.func_manhatten_distance)),
            (tc, one, "tchebychev", lambda: misc.vectorized_cdist(A, B, func_dist=misc.func_tchebychev_distance)),
            (eu, w, "norm_eucl_dist", lambda: misc.norm_eucl_dist(prob, A, B)),
            (ma, w, "norm_manhatten_dist", lambda: misc.norm_manhatten_dist(prob, A, B)),
            (tc, w, "norm_tchebychev_dist", lambda: misc.norm_tchebychev_dist(prob, A, B)),
            (eu, w, "norm_eucl_dist_by_bounds", lambda: misc.norm_eucl_dist_by_bounds(A, B, xl, xu)),
            (ma, w, "norm_manhatten_dist_by_bounds", lambda: misc.norm_manhatten_dist_by_bounds(A, B, xl, xu)),
            (tc, w, "norm_tchebychev_dist_by_bounds", lambda: misc.norm_tchebychev_dist_by_bounds(A, B, xl, xu))]:
        near(mon, fun(), [[f(a, b, s) for b in B] for a in A], f"distance:{nm}", f"the distances of {nm} are not those of its definition", sc, A=A, B=B, xl=xl, xu=xu)
    # single rows lose their dimension
    near(mon, misc.vectorized_cdist(A[0], B), [eu(A[0], b, one) for b in B], "distance:row", "distances of one row to others", sc, A=A, B=B)
    near(mon, misc.vectorized_cdist(A, B[0]), [[eu(a, B[0], one)] for a in A], "distance:column", "distances of rows to one", sc, A=A, B=B)
    near(mon, misc.vectorized_cdist(A[0], B[0]), eu(A[0], B[0], one), "distance:single", "the distance of two rows", sc, A=A, B=B)
    D = misc.vectorized_cdist(A, A, fill_diag_with_inf=True)
    near(mon, D, [[np.inf if i == j else eu(a, b, one) for j, b in enumerate(A)] for i, a in enumerate(A)], "distance:diagonal", "the diagonal is not infinite, or something else is", sc, A=A)
    if n > 1:
        I, d = misc.distance_of_closest_points_to_others(A)
        want = [min(eu(A[i], A[j], one) for j in range(n) if j != i) for i in range(n)]
        near(mon, d, want, "distance:closest", "the distance to the closest other point", sc, A=A)
        near(mon, [eu(A[i], A[j], one) for i, j in enumerate(I)], want, "distance:closest_index", "the index of the closest other point", sc, A=A)
        mon.check(all(i != j for i, j in enumerate(I)), "distance:closest_self", "a point is its own closest other point", A=A)
    mon.check(np.array_equal(A, A0) and np.array_equal(B, B0), "distance:input", "the points are changed by measuring distances")


def duplicates(case, mon, rng):
    from pymoo.util import misc
    for _ in range(case["n"]):
        n, m = int(rng.integers(1, 12)), int(rng.integers(1, 4))
        X = rng.integers(0, 3, (n, m)).astype(float)
        if rng.random() < 0.5:
            X = X + rng.choice([0.0, 1e-3], (n, m), p=[0.8, 0.2])
        eps = float(rng.choice([0.0, 1e-16, 0.01]))
        mon.ev("duplicates")
        mon.state("dup", X, eps)
        # later ones of a pair are the duplicates
        want = [any(math.sqrt(((X[i] - X[j]) ** 2).sum()) <= eps for j in range(i)) for i in range(n)]
        mon.check(np.array_equal(misc.find_duplicates(X, epsilon=eps), want), "duplicates:find", "find_duplicates does not flag the rows an earlier row is close to", X=X, eps=eps, want=want)
        U = misc.unique_rows(X)
        w = sorted({tuple(r) for r in X})
        mon.check(sorted(map(tuple, U)) == w, "duplicates:unique", "unique_rows does not return each row once", X=X, got=U)
        groups = {}
        for i, r in enumerate(X):
            groups.setdefault(tuple(r), []).append(i)
        w = sorted(sorted(g) for g in groups.values() if len(g) > 1)
        got = sorted(sorted(int(i) for i in g) for g in misc.get_duplicates(X))
        mon.check(got == w, "duplicates:groups", "get_duplicates does not return the groups of equal rows", X=X, got=got, want=w)
        v = X[:, 0]
        vals, idx = misc.unique_and_all_indices(v)
        d = {}
        for i, x in enumerate(v):
            d.setdefault(float(x), []).append(i)
        mon.check(dict(zip(map(float, vals), [list(map(int, i)) for i in idx])) == d, "duplicates:indices", "unique_and_all_indices does not group the indices by value", v=v)
        mon.check({float(k): list(i) for k, i in misc.where_is_what(v).items()} == d, "duplicates:where", "where_is_what does not group the indices by value", v=v)
        a, b = [list(map(int, rng.integers(0, 6, rng.integers(0, 8)))) for _ in range(2)]
        mon.check(misc.intersect(a, b) == [x for x in a if x in b], "duplicates:intersect", "intersect does not return what is in both", a=a, b=b, got=misc.intersect(a, b))


def rows(case, mon, rng):
    from pymoo.util import misc
    for _ in range(case["n"]):
        n, m = int(rng.integers(2, 8)), int(rng.integers(1, 5))
        M = rng.normal(size=(n, m))
        a, b = (int(i) for i in rng.integers(n, size=2))
        mon.ev("rows")
        mon.state("rows", M)
        for S in (M.copy(), M[:, 0].copy(), np.arange(n)):
            W = [np.copy(r) for r in S]
            W[a], W[b] = W[b], W[a]
            misc.swap(S, a, b)
            mon.check(np.array_equal(S, W), "rows:swap", f"swap does not exchange two entries of {'rows' if S.ndim == 2 else 'a vector'}", a=a, b=b, got=S, want=W)
        ex = [int(i) for i in rng.choice(n, rng.integers(0, n), replace=False)]
        mon.check(np.array_equal(misc.all_except(M, *ex), [M[i] for i in range(n) if i not in ex]), "rows:except", "all_except does not leave out exactly the given rows", n=n, out=ex)
        u, v = rng.integers(0, 9, n), rng.integers(0, 9, int(rng.integers(1, 6)))
        mon.check(np.array_equal(misc.all_combinations(u, v), [(x, y) for x in u for y in v]), "rows:combinations", "all_combinations does not return every pair", u=u, v=v, got=misc.all_combinations(u, v))
        s = list(range(int(rng.integers(0, 6))))
        P = [tuple(int(x) for x in p) for p in misc.powerset(np.array(s, int))]
        mon.check(sorted(P) == sorted(itertools.chain.from_iterable(itertools.combinations(s, k) for k in range(len(s) + 1))), "rows:powerset", "powerset does not return every subset once", s=s, got=P)
        h, mi, se = (int(x) for x in rng.integers(0, 60, 3))
        for t, w in [(f"{h:02d}:{mi:02d}:{se:02d}", 3600 * h + 60 * mi + se), (f"{mi}:{se:02d}", 60 * mi + se), (str(se), se)]:
            mon.check(misc.time_to_int(t) == w, "rows:time", f"{t} are {w} seconds, not {misc.time_to_int(t)}")
        x = M[0]
        r, f = misc.at_least_2d_array(x, extend_as="row", return_if_reshaped=True)
        mon.check(r.shape == (1, m) and f is True and np.array_equal(r[0], x), "rows:2d", "a vector does not become a row")
        c = misc.at_least_2d_array(x, extend_as="column")
        mon.check(c.shape == (m, 1) and np.array_equal(c[:, 0], x), "rows:2d", "a vector does not become a column")
        r, f = misc.at_least_2d_array(M, return_if_reshaped=True)
        mon.check(r is M and f is False, "rows:2d", "a matrix does not stay what it is")
        d = {f"p_{i}" if rng.random() < 0.5 else f"q_{i}": i for i in range(4)}
        mon.check(misc.filter_params(d, "p_") == {k[2:]: v for k, v in d.items() if k[0] == "p"}, "rows:params", "filter_params does not return the entries with the prefix, without it", d=d)
        y = M[0].copy()
        y[rng.random(m) < 0.5] = np.nan
        z = misc.replace_nan_by(y, 7.0)
        mon.check(np.array_equal(z, np.where(np.isnan(y), 7.0, y)), "rows:nan", "replace_nan_by does not replace exactly the missing values")
        P = misc.random_permutations(3, n, random_state=np.random.default_rng(case["seed"]))
        mon.check(len(P) == 3 * n and all(sorted(P[i * n:(i + 1) * n]) == list(range(n)) for i in range(3)), "rows:permutations", "random_permutations does not return permutations", got=P)
        mon.check(np.array_equal(P, misc.random_permutations(3, n, random_state=np.random.default_rng(case["seed"]))), "rows:seed", "random_permutations does not repeat with its generator")


def masks(case, mon, rng):
    from pymoo.core.replacement import hierarchical_sort
    from pymoo.core.replacement import parameter_less as pl
    from pymoo.util import misc
    for _ in range(case["n"]):
        n, m = int(rng.integers(1, 10)), int(rng.integers(1, 7))
        M = rng.random((n, m)) < rng.choice([0.0, 0.3, 0.8])
        M0 = M.copy()
        R = misc.row_at_least_once_true(M.copy(), random_state=np.random.default_rng(5))
        ok = all((np.array_equal(r, m0) if m0.any() else r.sum() == 1) for r, m0 in zip(R, M0))
        mon.check(ok, "masks:once", "row_at_least_once_true changes more than rows without a True", before=M0, after=R)
        X = rng.integers(0, 50, (2, n, m))
        Y = misc.crossover_mask(X, M0)
        W = np.array([[[X[1 - p, i, j] if M0[i, j] else X[p, i, j] for j in range(m)] for i in range(n)] for p in range(2)])
        mon.check(np.array_equal(Y, W), "masks:crossover", "crossover_mask does not exchange exactly the masked values", mask=M0)
        F, CV = mat(rng, n, 1), rng.choice([0.0, 0.5, 2.0], (n, 1))
        mon.ev("masks")
        mon.state("masks", F, CV)
        F0 = F.copy()
        fmax = float(F.max() + rng.random()) if rng.random() < 0.5 else None
        top = F.max() if fmax is None else fmax
        want = np.where(CV > 0, top + CV, F)
        near(mon, misc.parameter_less(F, CV, fmax=fmax), want, "masks:penalty", "infeasible solutions do not get the worst value plus their violation", F=F, CV=CV)
        mon.check(np.array_equal(F, F0), "masks:penalty_input", "parameter_less changes its input although it should not")
        near(mon, misc.parameter_less_constraints(F.copy(), CV, F_max=fmax), want, "masks:penalty", "infeasible solutions do not get the worst value plus their violation", F=F, CV=CV)
        near(mon, pl(F0[:, 0], CV[:, 0]), np.where(CV > 0, F0.max() + CV, F0)[:, 0], "masks:penalty_replacement", "infeasible solutions do not get the worst value plus their violation", F=F0, CV=CV)
        I = hierarchical_sort(F0[:, 0], CV[:, 0])
        key = [(0, F0[i, 0]) if CV[i, 0] <= 0 else (1, CV[i, 0]) for i in I]
        mon.check(sorted(I) == list(range(n)) and all(key[i] <= key[i + 1] for i in range(n - 1)), "masks:hierarchical", "hierarchical_sort does not put feasible solutions first, by value, and the others by violation", keys=key)


# ------------------------------------------------------------------------------------------------- clearing, wheel, sort, window

def clearing(case, mon, rng):
    from pymoo.core.population import Population
    from pymoo.util.clearing import EpsilonClearing, func_select_by_objective, func_select_from_sorted, select_by_clearing
    for _ in range(case["n"]):
        n = int(rng.integers(1, 15))
        X = rng.random((n, 2))
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
        eps = float(rng.choice([0.0, 0.1, 0.3, 2.0]))
        asked = rng.random() < 0.4
        C = EpsilonClearing((n, lambda k: D[k]) if asked else D, eps)
        cleared, chosen = set(), []
        mon.ev("clearing")
        mon.state("clearing", X, eps)
        while True:
            left = [i for i in range(n) if i not in cleared]
            mon.check(list(C.remaining()) == left and C.has_remaining() == bool(left) and list(np.where(C.cleared())[0]) == sorted(cleared), "clearing:remaining", "what remains is not what has been neither selected nor cleared", left=left)
            if not left:
                break
            if chosen and rng.random() < 0.1:
                C.reset()
                cleared = set(chosen)
                continue
            k = int(rng.choice(left))
            got = set(int(i) for i in C.select(k))
            want = {i for i in left if i != k and D[k, i] < eps}
            chosen.append(k)
            cleared |= want | {k}
            mon.check(got == want, "clearing:cleared", "a selection does not clear exactly the solutions closer than epsilon", eps=eps, got=sorted(got), want=sorted(want))
        mon.check(list(C.selected()) == chosen, "clearing:selected", "the selected ones are not those selected")
        # a whole selection
        F = rng.permutation(n).astype(float)[:, None]
        pop = Population.new(X=X, F=F)
        sel = int(rng.integers(1, n + 1))
        by = rng.random() < 0.5
        S = select_by_clearing(pop, D, sel, func_select_by_objective if by else func_select_from_sorted, delta=eps)
        cl, ch = set(), []
        while len(ch) < sel:
            left = [i for i in range(n) if i not in cl]
            if not left:
                cl = set(ch)
                left = [i for i in range(n) if i not in cl]
            k = min(left, key=lambda i: F[i, 0]) if by else left[0]
            ch.append(k)
            cl |= {i for i in range(n) if D[k, i] < eps} | {k}
        mon.check([int(i) for i in S] == ch, "clearing:select", "selecting by clearing does not take the best that is not cleared, and starts again when nothing is left", got=[int(i) for i in S], want=ch, eps=eps)


def roulette(case, mon, rng):
    from checks.c15 import binom_ok
    from pymoo.util.roulette import RouletteWheelSelection
    n = int(rng.integers(1, 7))
    val = rng.random(n) * rng.choice([0, 1], n, p=[0.2, 0.8]) + 0.0
    if val.sum() == 0:
        val[0] = 1.0
    larger = bool(rng.random() < 0.6)
    if not larger and val.max() == val.min():
        val = np.append(val, val.max() + 1.0)
        n += 1
    p = val if larger else val.max() - val
    p = p / p.sum()
    N = 4000
    S = RouletteWheelSelection(val.copy(), larger_is_better=larger)
    I = np.asarray(S.next(N, random_state=np.random.default_rng(case["seed"])))
    mon.ev("roulette")
    mon.state("roulette", val, larger)
    mon.check(I.shape == (N,) and I.min() >= 0 and I.max() < n, "roulette:range", "an index is not on the wheel", val=val, got=[int(I.min()), int(I.max())])
    for k in range(n):
        c = int((I == k).sum())
        mon.check(binom_ok(c, N, float(p[k])) if 0 < p[k] < 1 else c == round(p[k] * N), "roulette:share", f"entry {k} is drawn {c} of {N} times instead of with probability {p[k]:.4f}", val=val, larger=larger)
    mon.check(np.array_equal(I, S.next(N, random_state=np.random.default_rng(case["seed"]))), "roulette:seed", "the wheel does not repeat with its generator")
    one = S.next(random_state=np.random.default_rng(1))
    mon.check(isinstance(one, int) and 0 <= one < n, "roulette:one", "a single draw is not an index")


def argsort(case, mon, rng):
    from pymoo.util.randomized_argsort import randomized_argsort
    for _ in range(case["n"]):
        n = int(rng.integers(1, 25))
        A = rng.integers(0, int(rng.choice([2, 5, 100])), n).astype(float)
        if rng.random() < 0.2:
            A[rng.integers(n)] = np.inf
        s = int(rng.integers(1, 10 ** 6))
        for method in ["numpy", "quicksort"]:
            for order in ["ascending", "descending"]:
                I = randomized_argsort(A, method=method, order=order, random_state=np.random.default_rng(s))
                mon.ev("argsort")
                mon.state("argsort", A, method, order)
                B = A[I]
                ok = sorted(I) == list(range(n)) and all((B[i] <= B[i + 1]) if order == "ascending" else (B[i] >= B[i + 1]) for i in range(n - 1))
                mon.check(ok, f"argsort:{method}:order", "the indices do not sort the values", A=A, I=I, order=order)
                J = randomized_argsort(A, method=method, order=order, random_state=np.random.default_rng(s))
                mon.check(np.array_equal(I, J), f"argsort:{method}:seed", "the order does not repeat with the generator", A=A, I=I, J=J)
    # ties are broken at random
    for method in ["numpy", "quicksort"]:
        for order in ["ascending", "descending"]:
            r = np.random.default_rng(case["seed"])
            first = {int(randomized_argsort(np.zeros(4), method=method, order=order, random_state=r)[0]) for _ in range(80)}
            mon.check(first == {0, 1, 2, 3}, f"argsort:{method}:ties", "equal values are not ordered at random", first=sorted(first))


def window(case, mon, rng):
    from pymoo.util.cache import Cache
    from pymoo.util.sliding_window import SlidingWindow
    for _ in range(case["n"]):
        size = None if rng.random() < 0.2 else int(rng.integers(1, 8))
        W, all_ = SlidingWindow(size), []
        mon.ev("window")
        for k in range(int(rng.integers(1, 25))):
            if rng.random() < 0.05:
                W.clear()
                all_ = []
            else:
                W.append(k)
                all_.append(k)
            want = all_ if size is None else all_[-size:] if all_ else []
            mon.check(list(W) == want and list(W.to_numpy()) == want, "window:content", "the window does not hold the last entries", size=size, got=list(W), want=want)
            mon.check(bool(W.is_full()) == (size is not None and len(want) == size), "window:full", "the window is full when it is not, or the other way round", size=size, n=len(want))
        mon.state("window", size, k)

        class A:
            calls = 0

            @Cache
            def f(self, x):
                A.calls += 1
                return x

            @Cache
            def g(self, x):
                return -x

        a, stored = A(), {}
        for _ in range(12):
            nm, x, use, keep = str(rng.choice(["f", "g"])), int(rng.integers(100)), bool(rng.random() < 0.7), bool(rng.random() < 0.7)
            got = getattr(a, nm)(x, use_cache=use, set_cache=keep)
            if use and nm in stored:
                want = stored[nm]
            else:
                want = x if nm == "f" else -x
                if keep:
                    stored[nm] = want
            mon.check(got == want, "window:cache", "the cache does not return the stored result, or returns it when it should not", name=nm, use=use, keep=keep, got=got, want=want)


# ------------------------------------------------------------------------------------------------- points on the simplex

def simplex(rng, n, m):
    return rng.dirichlet(np.ones(m), n)


def projections(case, mon, rng):
    from pymoo.util import reference_direction as rd
    from pymoo.util.ref_dirs import misc
    for _ in range(case["n"]):
        n, m = int(rng.integers(1, 10)), int(rng.integers(2, 7))
        Y = mat(rng, n, m)
        p, v = rng.normal(size=m), rng.normal(size=m)
        sc = float(np.abs(Y).max()) + 1
        mon.ev("projections")
        mon.state("proj", Y)
        for A in (Y, Y[0]):
            Z = misc.project_onto(A.copy(), p, v * 3.0)
            u = v / np.linalg.norm(v)
            d = A - Z
            mon.check(Z.shape == A.shape and np.all(np.abs((Z - p) @ u) <= 1e-9 * sc) and np.allclose(d, np.multiply.outer((A - p) @ u, u), rtol=1e-9, atol=1e-9 * sc), "proj:plane", "a projection is not the closest point of the plane", y=A, p=p, n=v)
            for f, s in ((misc.project_onto_sum_equals_one_plane, 1.0), (misc.project_onto_sum_equals_zero_plane, 0.0)):
                Z = f(A.copy())
                near(mon, Z, A - ((A.sum(axis=-1) - s) / m)[..., None], "proj:sum", f"the point projected is not the closest with sum {s}", sc, y=A)
        near(mon, misc.matrix_project_onto_sum_equals_one_plane(Y[0].copy()), Y[0] - (Y[0].sum() - 1) / m, "proj:matrix", "the point projected is not the closest with sum one", sc * 1e2, y=Y[0])
        # points of the plane outside of the simplex are brought into it; the others stay
        Q = misc.project_onto_sum_equals_one_plane(rng.normal(1 / m, float(rng.choice([0.1, 0.5, 2.0])), (n, m)))
        R = misc.project_onto_unit_simplex_recursive(Q.copy())
        inside = np.all(Q >= 0, axis=1)
        mon.check(np.all(R >= 0) and np.all(np.abs(R.sum(axis=1) - 1) <= 1e-9), "proj:simplex", "a point is not on the unit simplex", before=Q, after=R)
        mon.check(np.array_equal(R[inside], Q[inside]), "proj:stay", "a point on the simplex is moved", before=Q[inside], after=R[inside])
        U = rng.random((n, m))
        near(mon, rd.map_onto_unit_simplex(U.copy(), "sum"), U / U.sum(axis=1, keepdims=True), "proj:map_sum", "points are not scaled to sum one")
        K = [np.diff([0.0] + sorted(r[:m - 1]) + [1.0]) for r in U]
        near(mon, rd.map_onto_unit_simplex(U.copy(), "kraemer"), K, "proj:map_kraemer", "points are not the gaps between sorted numbers")
        s = float(rng.uniform(0.1, 2))
        S = simplex(rng, n, m)
        near(mon, rd.scale_reference_directions(S, s), 1 / m + s * (S - 1 / m), "proj:scale", "points are not scaled around the centre of the simplex")


def measures(case, mon, rng):
    from pymoo.util.ref_dirs import performance as pf
    n, m = int(rng.integers(4, 14)), int(rng.integers(2, 5))
    Z = simplex(rng, n, m)
    if rng.random() < 0.4:
        Z[rng.integers(n)] = np.eye(m)[rng.integers(m)]
    mon.ev("measures")
    mon.state("measures", Z)

    def d(a, b):
        return math.sqrt(((a - b) ** 2).sum())

    near(mon, pf.distance_of_closest_point(Z), min(d(a, b) for a, b in itertools.combinations(Z, 2)), "measures:closest", "the smallest distance", Z=Z)
    near(mon, pf.average_distance_to_other_points(Z), np.mean([d(a, b) for a, b in itertools.combinations(Z, 2)]), "measures:average", "the average distance", Z=Z)
    E = [r for r in np.eye(m) if not any(np.array_equal(r, z) for z in Z)]
    A = list(Z) + E
    N = [sorted(d(a, b) for j, b in enumerate(A) if j != i) for i, a in enumerate(A)]
    near(mon, pf.closest_point_variance(Z), np.var([x[0] for x in N]), "measures:variance", "the variance of distances to the closest point, extreme points included", Z=Z)
    k = math.ceil(math.sqrt(m))
    near(mon, pf.closest_point_variance_mod(Z), np.var([x[k - 1] for x in N]), "measures:variance_mod", "the variance of distances to the k-th closest point", Z=Z)
    near(mon, pf.geometric_mean_var(Z), np.var([math.exp(np.mean([math.log(v) for v in x[:m - 1]])) for x in N]), "measures:geometric", "the variance of geometric means of distances", Z=Z)
    near(mon, pf.mean_mean(Z), np.mean([np.mean(x[:m - 1]) for x in N]), "measures:mean", "the mean of mean distances", Z=Z)
    S = float(rng.uniform(0.5, 3)) * Z
    P = [z / z.sum() for z in S]
    want = np.mean([1 / ((a - b) ** 2).sum() for a, b in itertools.combinations(P, 2)])
    near(mon, pf.potential_energy(S), want, "measures:energy", "the potential energy", want * 1e-3, Z=S)
    # against all points of a lattice around the simplex
    npart = int(rng.integers(2, 7))
    L = np.array([c for c in itertools.product(range(npart + 1), repeat=m) if sum(c) == npart], float) / npart
    L = 1 / m + 1.5 * (L - 1 / m)
    near(mon, pf.iterative_igd(Z, n_partitions=npart, batch_size=int(rng.integers(1, 30))), np.mean([min(d(l, z) for z in Z) for l in L]), "measures:igd", "the inverted generational distance to a lattice", Z=Z, n_partitions=npart)
    G = rng.normal(size=(m, m + 2))
    O = pf.gram_schmidt(G)
    mon.check(np.allclose(O @ O.T, np.eye(m), atol=1e-7), "measures:orthonormal", "the vectors are not orthonormal", X=G)
    mon.check(np.linalg.matrix_rank(np.vstack([G, O]), tol=1e-6) == m, "measures:span", "the vectors do not span the same space", X=G)
    near(mon, pf.gram_schmidt(G.T.copy(), row_vecs=False), O.T, "measures:columns", "orthonormal columns", X=G)
    Q = pf.project_onto_one_dim_less(Z)
    ok = Q.shape == (n, m - 1) and all(abs(d(Q[i], Q[j]) - d(Z[i], Z[j])) <= 1e-9 for i, j in itertools.combinations(range(n), 2))
    mon.check(ok, "measures:one_less", "distances change by leaving out the dimension of the simplex", Z=Z)


def partitions(case, mon, rng):
    from pymoo.util import reference_direction as rd
    from pymoo.util.ref_dirs.das_dennis import DasDennis
    for _ in range(case["n"] // 4):
        m = int(rng.integers(2, 7))
        k = int(rng.integers(1, {2: 40, 3: 14, 4: 8}.get(m, 5)))
        want = math.comb(m + k - 1, k)
        mon.ev("partitions")
        mon.state("part", m, k)
        mon.check(rd.get_number_of_uniform_points(k, m) == want, "partitions:number", f"{k} partitions in {m} dimensions are {want} points, not {rd.get_number_of_uniform_points(k, m)}")
        q = int(rng.integers(m, 400))
        p = rd.get_partition_closest_to_points(q, m)
        mon.check(math.comb(m + p - 1, p) <= q < math.comb(m + p, p + 1), "partitions:closest", f"{p} are not the most partitions with at most {q} points in {m} dimensions")
        L = sorted(tuple(c) for c in itertools.product(range(k + 1), repeat=m) if sum(c) == k) if (k + 1) ** m < 60000 else None
        if L is not None:
            G = sorted(tuple(np.round(r * k).astype(int)) for r in rd.das_dennis(k, m))
            mon.check(G == L, "partitions:lattice", "the points are not the lattice", m=m, k=k)
            s = float(rng.choice([1.0, 0.5, 1.5]))
            D, parts = DasDennis(k, m, scaling=s), []
            mon.check(D.number_of_points() == want, "partitions:batch_number", "the number of points of the iterator", m=m, k=k)
            while D.has_next():
                b = int(rng.integers(1, 20))
                X = D.next(n_points=b)
                mon.check(0 < len(X) <= b, "partitions:batch_size", f"{len(X)} points instead of at most {b}", m=m, k=k)
                parts.extend(X)
                if len(parts) > want + 20:
                    break
            W = 1 / m + s * (np.array(L, float) / k - 1 / m)
            P = np.array(parts)
            ok = P.shape == W.shape and np.allclose(P[np.lexsort(np.round(P, 9).T)], W[np.lexsort(np.round(W, 9).T)], atol=1e-9)
            mon.check(ok, "partitions:batches", "the batches together are not the lattice", m=m, k=k, scaling=s)


def distant(case, mon, rng):
    from pymoo.util.reference_direction import select_points_with_maximum_distance
    for _ in range(case["n"]):
        n, m = int(rng.integers(2, 15)), int(rng.integers(1, 5))
        X = rng.random((n, m))
        start = [int(i) for i in rng.choice(n, int(rng.integers(0, min(3, n))), replace=False)]
        k = int(rng.integers(max(1, len(start)), n + 1))
        S = [int(i) for i in select_points_with_maximum_distance(X, k, selected=list(start), random_state=np.random.default_rng(3))]
        mon.ev("distant")
        mon.state("distant", X, k)
        mon.check(len(S) == len(set(S)) == k and S[:len(start)] == start, "distant:number", "not as many different points as asked for, the given ones first", got=S, start=start, k=k)
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
        for i in range(max(1, len(start)), k):
            left = [j for j in range(n) if j not in S[:i]]
            best = max(D[j, S[:i]].min() for j in left)
            mon.check(D[S[i], S[:i]].min() >= best - 1e-12, "distant:farthest", "the next point is not the one farthest from all selected ones", X=X, S=S, i=i)


def decomposed(case, mon, rng):
    from pymoo.decomposition.util import calc_distance_to_weights
    for _ in range(case["n"]):
        n, m = int(rng.integers(1, 9)), int(rng.integers(2, 6))
        F, W = mat(rng, n, m), rng.random((n, m)) + 0.01
        z = rng.normal(size=m) if rng.random() < 0.6 else None
        F0 = F.copy()
        d1, d2 = calc_distance_to_weights(F, W, utopian_point=z)
        mon.ev("decomposed")
        mon.state("decomposed", F, W)
        sc = float(np.abs(F).max()) + 5
        a, b = [], []
        for f, w in zip(F0, W):
            f = f - z if z is not None else f
            u = w / math.sqrt((w ** 2).sum())
            t = float(f @ u)
            a.append(t)
            b.append(math.sqrt(((f - t * u) ** 2).sum()))
        near(mon, d1, a, "decomposed:along", "the distance along a weight is not the length of the projection", sc, F=F0, W=W)
        near(mon, d2, b, "decomposed:across", "the distance to a weight is not the one to its line", sc * 10, F=F0, W=W)
        mon.check(np.array_equal(F, F0), "decomposed:input", "the values are changed")


def replacement(case, mon, rng):
    """Whether one solution is better than another, and what replaces what."""
    from pymoo.core.individual import Individual
    from pymoo.core.replacement import is_better
    for _ in range(case["n"]):
        v = []
        for _ in range(2):
            g = float(rng.choice([-1.0, 0.0, 0.5, 2.0, 2.0]))
            ind = Individual(X=rng.random(2), F=np.array([float(rng.choice([-2.0, 0.0, 1.0, 1.005]))]), G=np.array([g]))
            v.append(ind)
        a, b = v
        eps = float(rng.choice([0.0, 0.0, 0.01]))
        ca, cb = max(a.G[0], 0.0), max(b.G[0], 0.0)
        fa, fb = float(a.F[0]), float(b.F[0])
        if ca > 0 and cb > 0:
            want = cb - ca > eps
        elif ca == 0 and cb > 0:
            want = True
        elif ca > 0:
            want = False
        else:
            want = fb - fa > eps
        mon.ev("replacement")
        mon.state("better", ca, cb, fa, fb, eps)
        mon.check(bool(is_better(a, b, eps=eps)) == want, "replacement:better", f"is_better says {not want} for violations {ca}, {cb} and values {fa}, {fb} with eps {eps}")


class Alg:
    pass


def vf(case, mon, rng):
    """Domination with a learned value function: as usual, and the cut between preferred and other solutions beats it."""
    from pymoo.util.vf_dominator import VFDominator
    for _ in range(case["n"]):
        n, k, m = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(2, 5))
        A = rng.integers(0, 4, (n, m)).astype(float)
        B = A if rng.random() < 0.4 else rng.integers(0, 4, (k, m)).astype(float)
        alg = Alg()
        alg.vf_res = None
        w = rng.random(m)
        if rng.random() < 0.6:
            alg.vf_res = Alg()
            alg.vf_res.vf = lambda F: np.atleast_2d(F) @ w
            alg.v2 = float(-(A @ w)[rng.integers(len(A))])
        M = VFDominator(alg).calc_domination_matrix(A, None if B is A else B)
        W = np.zeros((len(A), len(B)))
        for i, a in enumerate(A):
            for j, b in enumerate(B):
                s, l = bool(np.any(a < b)), bool(np.any(a > b))
                W[i, j] = 1 if s and not l else -1 if l and not s else 0
                if alg.vf_res is not None:
                    va, vb = float((-A @ w)[i]), float((-B @ w)[j])
                    if min(abs(va - alg.v2), abs(vb - alg.v2)) < 1e-9 and not (va == alg.v2 or vb == alg.v2):
                        W[i, j] = M[i, j]
                    elif va > alg.v2 > vb:
                        W[i, j] = 1
                    elif va < alg.v2 < vb:
                        W[i, j] = -1
        mon.ev("vf")
        mon.state("vf", A, B)
        mon.check(np.array_equal(M, W), "vf:matrix", "the domination with a value function is not the one defined", A=A, B=B, got=M, want=W)
        G = rng.choice([-1.0, 0.0, 1.0, 2.0], (len(A), 2))
        L = VFDominator.calc_domination_matrix_loop(A, G)
        cv = np.maximum(G, 0).sum(axis=1)
        for i in range(len(A)):
            for j in range(len(A)):
                if cv[i] != cv[j]:
                    want = 1 if cv[i] < cv[j] else -1
                else:
                    s, l = bool(np.any(A[i] < A[j])), bool(np.any(A[i] > A[j]))
                    want = 1 if s and not l else -1 if l and not s else 0
                mon.check(L[i, j] == want, "vf:loop", "the domination with constraints is not the one defined", i=i, j=j, F=A, G=G)


# ------------------------------------------------------------------------------------------------- running metric

def running(case, mon, rng):
    from pymoo.core.population import Population
    from pymoo.util.running_metric import RunningMetric
    m = int(rng.integers(2, 4))
    period = None if rng.random() < 0.5 else int(rng.integers(1, 6))
    ind = str(rng.choice(["igd", "hv"]))
    R = RunningMetric(period=period, indicator=ind)
    hist, base = [], rng.random((12, m)) * 10 ** rng.uniform(-2, 3)
    for t in range(int(rng.integers(2, 12))):
        n = int(rng.integers(2, 12))
        F = base[rng.integers(len(base), size=n)] * rng.uniform(0.7, 1.1, (n, m))
        alg = Alg()
        alg.opt = Population.new(X=rng.random((n, 1)), F=F)
        R.update(alg)
        hist.append(F.copy())
        H = hist if period is None else hist[-period:]
        ideal, nadir = F.min(axis=0), F.max(axis=0)
        rg = nadir - ideal
        if np.any(rg <= 1e-9):
            continue

        def nz(A):
            return (A - ideal) / rg

        if ind == "igd":
            want = [np.mean([min(math.sqrt(((a - b) ** 2).sum()) for b in nz(h)) for a in nz(F)]) for h in H]
        else:
            want = [gen.hv(nz(h), np.ones(m)) for h in H]
        di = [np.max(np.abs(H[k].min(axis=0) - H[k - 1].min(axis=0)) / rg) for k in range(1, len(H))] + [0.0]
        dn = [np.max(np.abs(H[k].max(axis=0) - H[k - 1].max(axis=0)) / rg) for k in range(1, len(H))] + [0.0]
        mon.ev("running")
        mon.state("running", F, len(H))
        near(mon, R.delta_f, want, "running:f", f"the {ind} of previous fronts in the current range", 1e3 * len(H) if False else 1.0, t=t, period=period)
        near(mon, R.delta_ideal, di, "running:ideal", "the moves of the ideal point in the current range", t=t, period=period)
        near(mon, R.delta_nadir, dn, "running:nadir", "the moves of the nadir point in the current range", t=t, period=period)
        mon.check(np.array_equal(alg.opt.get("F"), F), "running:input", "the front is changed by measuring")


def run(case, mon):
    rng = np.random.default_rng([case["seed"], 43])
    globals()[case["kind"]](case, mon, rng)
