"""Calls of the compiled kernels: shared by the memory-safety and the agreement checks.

Runs with the standard library and numpy only, so that it is cheap under a sanitizer.
"""
import numpy as np
from vlib import gen

MOD = {"fast_non_dominated_sort": "non_dominated_sorting", "find_non_dominated": "non_dominated_sorting", "efficient_non_dominated_sort": "non_dominated_sorting", "fast_best_order_sort": "non_dominated_sorting",
       "dominance_degree_non_dominated_sort": "non_dominated_sorting", "best_order_sort": "non_dominated_sorting", "calc_distance_to_weights": "decomposition", "calc_perpendicular_distance": "calc_perpendicular_distance",
       "stochastic_ranking": "stochastic_ranking", "calc_mnn": "mnn", "calc_2nn": "mnn", "calc_pcd": "pruning_cd"}
SORTS = ["fast_non_dominated_sort", "find_non_dominated", "efficient_non_dominated_sort", "fast_best_order_sort", "dominance_degree_non_dominated_sort"]


def layout(rng, A, plain=False):
    """The same values in another memory layout."""
    how = "c" if plain else str(rng.choice(["c", "c", "f", "strided", "reversed", "offset"]))
    if A.ndim == 1:
        how = {"f": "c"}.get(how, how)
    if how == "f":
        return np.asfortranarray(A)
    if how == "strided":
        B = np.repeat(A, 2, axis=0)
        return B[::2]
    if how == "reversed":
        return A[::-1].copy()[::-1]
    if how == "offset" and A.ndim == 2:
        B = np.hstack([np.full((len(A), 2), 1e99), A, np.full((len(A), 1), -1e99)])
        return B[:, 2:2 + A.shape[1]]
    return A.copy()


def front(rng, F):
    """Mutually non-dominated rows, as the crowding functions receive them."""
    return F[np.array(gen.ref_fronts(F)[0], dtype=int)]


def calls(rng, nan=False, empty=True):
    """Endless stream of (function name, args, kwargs); functions with random state get a seed as keyword "seed"."""
    while True:
        F, kind = gen.matrix(rng, nmax=45)
        if empty and rng.random() < 0.03:
            F = F[:0]
        if nan and len(F) and rng.random() < 0.1:
            F = F.copy()
            F[rng.random(F.shape) < 0.2] = np.nan
        n, m = F.shape
        what = str(rng.choice(["sort", "sort", "crowd", "crowd", "dist", "perp", "rank"]))
        if what == "sort":
            f = str(rng.choice(SORTS))
            kw = {}
            if np.isnan(F).any() and ("dominance_degree" in f or "fast_non" in f):        # without an order there are no fronts
                continue
            if f == "efficient_non_dominated_sort":
                kw["strategy"] = str(rng.choice(["sequential", "binary"]))
            elif f == "dominance_degree_non_dominated_sort":
                kw["strategy"] = str(rng.choice(["efficient", "fast"]))
            elif f == "fast_non_dominated_sort" and rng.random() < 0.3:
                kw["n_stop_if_ranked"] = int(rng.integers(0, n + 2))
            yield f, (layout(rng, F),), kw
        elif what == "crowd":
            if rng.random() < 0.7 and not np.isnan(F).any() and len(F):
                F = np.unique(front(rng, F), axis=0)
                rng.shuffle(F)
            yield str(rng.choice(["calc_mnn", "calc_2nn", "calc_pcd"])), (layout(rng, F),), {"n_remove": int(rng.integers(-1, n + 3))}
        elif what == "dist":
            W = rng.random((n, m)) + 1e-3 if rng.random() < 0.7 else rng.integers(0, 3, (n, m)) + np.eye(n, m)
            kw = {"utopian_point": rng.normal(size=m)} if rng.random() < 0.5 else {}
            if rng.random() < 0.2 and np.isfinite(F).all() and n:
                W, F = (W * 5).astype(int) + np.eye(n, m, dtype=int), np.clip(F * 3, -1e6, 1e6).astype(int) if rng.random() < 0.5 else F
                yield "calc_distance_to_weights", (F, W + 1), kw
                continue
            yield "calc_distance_to_weights", (layout(rng, F, plain=n == 0), layout(rng, np.asarray(W, float), plain=n == 0)), kw
        elif what == "perp":
            k = int(rng.integers(1, 12))
            W = rng.random((k, m)) + 1e-3 if rng.random() < 0.7 else rng.integers(0, 2, (k, m)).astype(float) + 1e-6
            if rng.random() < 0.2:
                W = (W * 5).astype(int) + 1
                yield "calc_perpendicular_distance", (layout(rng, F), W), {}
                continue
            yield "calc_perpendicular_distance", (layout(rng, F), layout(rng, W)), {}
        else:
            k = int(rng.choice([1, 2, 3, 7, 20]))
            f = rng.integers(0, 5, k).astype(float) if rng.random() < 0.5 else rng.normal(size=k)
            phi = np.maximum(rng.integers(-2, 3, k), 0).astype(float) if rng.random() < 0.7 else rng.random(k)
            yield "stochastic_ranking", (layout(rng, f), layout(rng, phi), float(rng.choice([0.0, 0.45, 1.0]))), {"seed": int(rng.integers(1, 10 ** 6)), **({"I": rng.permutation(k)} if rng.random() < 0.4 else {})}


def invoke(fn, name, args, kw):
    kw = dict(kw)
    if name == "stochastic_ranking":
        kw["random_state"] = np.random.default_rng(kw.pop("seed"))
    kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    return fn(*args, **kw)
