"""C11: every non-dominated sorting equals the definition."""
import itertools
import numpy as np
from vlib import gen

RULE = ("matrices of 18 families (ties, duplicates, constant columns, infinities, chains, one front, ...) are sorted by every method offered, compiled and in Python, and by the high-level classes with stop "
        "criteria, and compared with a quadratic peeling of the dominance relation; exhaustive: all matrices of up to 4 points and 2 objectives (3 points, 3 objectives) over three values; distinct states are different matrices")
REQUIRED = ["matrices", "sorts", "relations", "prefixes", "exhaustive_matrices", "permutations"]
ASSUMPTIONS = ["objective values are not NaN"]
METHODS = ["fast_non_dominated_sort", "efficient_non_dominated_sort", "tree_based_non_dominated_sort", "dominance_degree_non_dominated_sort", "fast_best_order_sort", "find_non_dominated"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 111])
    out = [dict(kind="exh", n=n, m=m, part=p, parts=q) for n, m, q in ((1, 2, 1), (2, 2, 1), (3, 2, 2), (4, 2, 8), (2, 3, 1), (3, 3, 8)) for p in range(q)]
    if tier == "quick":
        out = [c for c in out if not (c["parts"] == 8 and c["part"] % 4)]
    for k in range(48 if tier == "quick" else 600):
        out.append(dict(kind="rand", seed=int(rng.integers(1, 10 ** 9)), n=25 if tier == "quick" else 60))
    return out


def impls():
    """name -> function(F) -> list of fronts (or the first front only for find_non_dominated)."""
    from pymoo.functions import load_function
    out = {}
    for mode in ("python", "cython"):
        for f in METHODS:
            try:
                fn = load_function(f, mode)
            except Exception:
                continue
            if f == "fast_best_order_sort" and mode == "python":
                continue
            if f == "efficient_non_dominated_sort":
                for s in ("sequential", "binary"):
                    out[f"{mode}:{f}:{s}"] = lambda F, fn=fn, s=s: fn(F, strategy=s)
            elif f == "dominance_degree_non_dominated_sort":
                for s in ("efficient", "fast"):
                    out[f"{mode}:{f}:{s}"] = lambda F, fn=fn, s=s: fn(F, strategy=s)
            elif f == "fast_non_dominated_sort" and mode == "python":
                out[f"{mode}:{f}"] = fn
                out[f"{mode}:{f}:native"] = lambda F, fn=fn: fn(F, native_biobj_sorting=True)
            else:
                out[f"{mode}:{f}"] = fn
    return out


def run(case, mon):
    if case["kind"] == "exh":
        n, m = case["n"], case["m"]
        allm = itertools.product([0.0, 1.0, 2.0], repeat=n * m)
        for k, v in enumerate(allm):
            if k % case["parts"] != case["part"]:
                continue
            one(np.array(v).reshape(n, m), "exhaustive", mon, None)
            mon.ev("exhaustive_matrices")
        return
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        F, kind = gen.matrix(rng, nmax=60)
        one(F, kind, mon, rng)
    for n, m in ((0, 2), (0, 3)):
        empty(np.zeros((n, m)), mon)


IMPL = None


def norm(fronts):
    return [sorted(int(i) for i in f) for f in fronts]


def empty(F, mon):
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated
    mon.check(len(NonDominatedSorting().do(F)) == 0, "empty:default", "sorting nothing gives fronts")
    mon.check(len(NonDominatedSorting().do(F, only_non_dominated_front=True)) == 0, "empty:default", "sorting nothing gives solutions")
    mon.check(len(find_non_dominated(F)) == 0, "empty:find", "the empty set has a non-dominated solution")


def one(F, kind, mon, rng):
    global IMPL
    from pymoo.util.dominator import Dominator
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated, rank_from_fronts
    from pymoo.util.nds.fast_non_dominated_sort import fast_non_dominated_sort
    if IMPL is None:
        IMPL = impls()
    F0 = F.copy()
    want = gen.ref_fronts(F)
    W = norm(want)
    n = len(F)
    mon.ev("matrices")
    mon.state(F)

    def cmp(name, got, want=W):
        mon.ev("sorts")
        g = norm(got)
        while g and not g[-1] and len(g) > len(want):     # some implementations append empty fronts
            g = g[:-1]
        mon.check(g == want, f"fronts:{name}", lambda: f"{name} on {kind} {F.shape}: {g} instead of {want}", F=F)

    for name, fn in IMPL.items():
        if "find_non_dominated" in name:
            got = fn(F.copy())
            mon.ev("sorts")
            mon.check(sorted(int(i) for i in got) == W[0], f"first:{name}", lambda: f"{name} on {kind} {F.shape}: {sorted(int(i) for i in got)} instead of {W[0]}", F=F)
            continue
        if name == "python:fast_non_dominated_sort:native" and F.shape[1] != 2:
            continue
        A = F.copy()
        cmp(name, fn(A))
        mon.check(np.array_equal(A, F0), f"modified:{name}", "the objective values were modified")

    cmp("util.fast", fast_non_dominated_sort(F))
    got = find_non_dominated(F)
    mon.check(sorted(got.tolist()) == W[0], "first:util", lambda: f"find_non_dominated on {kind} {F.shape}: {sorted(got.tolist())} instead of {W[0]}", F=F)

    rank = gen.ref_rank(F)
    for nm, S in (("default", NonDominatedSorting()), ("dominator", NonDominatedSorting(dominator=Dominator())), ("method", NonDominatedSorting(method="efficient_non_dominated_sort"))):
        cmp(nm, S.do(F))
        fr, rk = S.do(F, return_rank=True)
        mon.check(norm(fr) == W and np.array_equal(rk, rank), f"rank:{nm}", lambda: f"ranks {rk} instead of {rank}", F=F)
        g = S.do(F, only_non_dominated_front=True)
        mon.check(sorted(np.asarray(g).tolist()) == W[0], f"only-first:{nm}", lambda: f"{g} instead of {W[0]}", F=F)
        ks = sorted(set([1, 2, n // 2 + 1, n, n + 5, len(W[0]), len(W[0]) + 1])) if kind != "exhaustive" else [1, 2, n]
        for k in ks:
            fr, rk = S.do(F, n_stop_if_ranked=k, return_rank=True)
            mon.ev("prefixes")
            c, stop = 0, len(W)
            for j, f in enumerate(W):
                c += len(f)
                if c >= k:
                    stop = j + 1
                    break
            g = norm(fr)
            mon.check(g == W[:len(g)] and sum(map(len, g)) >= min(k, n), f"stop:{nm}", lambda: f"n_stop_if_ranked={k}: {g} of {W}", F=F)
            mon.check(len(g) == stop, f"stop-exact:{nm}", lambda: f"n_stop_if_ranked={k}: {len(g)} fronts instead of {stop}", F=F)
            inn = np.concatenate(want[:len(g)])
            mon.check(np.array_equal(rk[inn], rank[inn]) and np.all(np.delete(rk, inn) >= n), f"stop-rank:{nm}", lambda: f"ranks with stop at {k}: {rk}", F=F)
        for k in (1, 2, len(W), len(W) + 3):
            g = norm(S.do(F, n_fronts=k))
            mon.ev("prefixes")
            mon.check(g == W[:k], f"n_fronts:{nm}", lambda: f"n_fronts={k}: {g} of {W}", F=F)
            for q in (1, n // 2 + 1):
                g = norm(S.do(F, n_fronts=k, n_stop_if_ranked=q))
                mon.check(g == W[:len(g)] and (len(g) == k or len(g) == len(W) or sum(map(len, g)) >= min(q, n)), f"n_fronts-stop:{nm}", lambda: f"n_fronts={k}, n_stop={q}: {g}", F=F)
    mon.check(np.array_equal(rank_from_fronts(want, n), rank), "rank_from_fronts", "wrong ranks", F=F)
    mon.check(np.array_equal(F, F0), "modified:util", "the objective values were modified", F=F)

    # the relation itself
    le = np.all(F[:, None, :] <= F[None, :, :], axis=2)
    lt = np.any(F[:, None, :] < F[None, :, :], axis=2)
    D = (le & lt).astype(int)
    M = Dominator.calc_domination_matrix(F)
    mon.check(np.array_equal(M, D - D.T), "matrix", lambda: f"domination matrix {M.tolist()} instead of {(D - D.T).tolist()}", F=F)
    for _ in range(4):
        i, j = (0, n - 1) if rng is None else (int(rng.integers(n)), int(rng.integers(n)))
        mon.ev("relations")
        r = Dominator.get_relation(F[i], F[j])
        mon.check(r == D[i, j] - D[j, i], "relation", lambda: f"relation of {F[i]} and {F[j]} is {r}")
        r = Dominator.get_relation(F[i], F[j], 0.5, 0.2)
        mon.check(r == -1, "relation-cv", f"the larger constraint violation has relation {r}")
        r = Dominator.get_relation(F[i], F[j], 0.0, 0.0)
        mon.check(r == D[i, j] - D[j, i], "relation-cv", f"equal constraint violations: relation {r}")
    if rng is not None:
        G = rng.random((n, 2)) - 0.7
        M = Dominator.calc_domination_matrix_loop(F, G)
        cv = np.maximum(G, 0).sum(axis=1)
        E = np.where(cv[:, None] < cv[None, :], 1, np.where(cv[:, None] > cv[None, :], -1, D - D.T))
        mon.check(np.array_equal(M, E), "matrix-cv", "domination matrix with constraints differs from the definition", F=F, G=G)
        H, k2 = gen.matrix(rng, m=F.shape[1])
        M = Dominator.calc_domination_matrix(F, H)
        a = np.all(F[:, None] <= H[None], axis=2) & np.any(F[:, None] < H[None], axis=2)
        b = np.all(F[:, None] >= H[None], axis=2) & np.any(F[:, None] > H[None], axis=2)
        mon.check(np.array_equal(M, a.astype(int) - b.astype(int)), "matrix-other", "domination matrix against another set differs from the definition", F=F, H=H)
        g = find_non_dominated(F, H)
        w = np.where(~b.any(axis=1))[0]
        mon.check(np.array_equal(np.sort(g), w), "find-other", lambda: f"not dominated by another set: {g} instead of {w}", F=F, H=H)
        # the order in which points are listed does not matter
        p = rng.permutation(n)
        mon.ev("permutations")
        g = [sorted(p[i] for i in f) for f in NonDominatedSorting().do(F[p])]
        mon.check([list(map(int, x)) for x in g] == W, "permutation", "another order of the points gives other fronts", F=F)
    mon.note(matrix=F, fronts=W)
