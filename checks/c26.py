"""C26: reference directions lie on the simplex, have the requested number and are what their construction says."""
import itertools, math
import numpy as np

RULE = ("every generator is asked for directions in 1 to 15 dimensions with varied sizes, scalings and options and its result compared with an independent construction (lattices, layers, scaling) or with what defines it (simplex, number, distinctness, corners, lower energy, points requested around aspiration points); "
        "the projections, samplings, selections and quality measures behind them are compared with direct implementations; distinct states are different sets")
REQUIRED = ["lattice", "incremental", "multi_layer", "layer_energy", "energy", "reduction", "construction", "sample_and_map", "genetic", "scaled", "refused", "ref_points", "repeatable", "projection", "max_distance", "measures", "batches", "mapping", "energy_lower", "default", "gradient"]
ASSUMPTIONS = ["sizes up to some hundred directions", "layers of the layer-wise method do not coincide"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 126])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = [new(kind="lattice", n=25 if q else 60) for _ in range(6 if q else 60)]
    out += [new(kind="found", how=h) for h in ("energy", "energy", "energy", "reduction", "reduction", "construction", "sam", "ga", "layer", "layer", "energy-points", "energy-points", "energy-points") for _ in range(2 if q else 12)]
    out += [new(kind="tools", n=20 if q else 60) for _ in range(6 if q else 80)]
    return out


# ------------------------------------------------------------------ independent constructions

def compositions(p, m):
    for c in itertools.combinations(range(p + m - 1), m - 1):
        prev, row = -1, []
        for x in c + (p + m - 1,):
            row.append(x - prev - 1)
            prev = x
        yield row


def lattice(p, m):
    if p == 0:
        return np.full((1, m), 1.0 / m)
    return np.array(sorted(compositions(p, m)), float) / p


def scaled(R, s):
    c = np.full(R.shape[1], 1.0 / R.shape[1])
    return c + (R - c) * s


def same_set(A, B, tol=1e-9):
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        return False
    D = np.abs(A[:, None] - B[None]).max(axis=2)
    return bool((D.min(axis=0) <= tol).all() and (D.min(axis=1) <= tol).all())


def project(y):
    """Euclidean projection on the unit simplex (sorting)."""
    u = np.sort(y)[::-1]
    c = np.cumsum(u) - 1
    r = np.where(u - c / (np.arange(len(y)) + 1) > 0)[0][-1]
    return np.maximum(y - c[r] / (r + 1.0), 0)


def log_energy(X, d):
    i, j = np.triu_indices(len(X), 1)
    D = np.sqrt(((X[i] - X[j]) ** 2).sum(axis=1))
    return float(np.logaddexp.reduce(-d * np.log(np.maximum(D, 1e-300))) - np.log(len(i)))


def size(rng, cap, mmax):
    while True:
        m, p = int(rng.integers(2, mmax + 1)), int(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 30, 99]))
        if math.comb(m + p - 1, p) <= cap:
            return m, p


def lex(A):
    A = np.asarray(A)
    return all(tuple(a) <= tuple(b) for a, b in zip(A, A[1:]))


# ------------------------------------------------------------------ lattices

def run_lattice(case, mon):
    from pymoo.util.ref_dirs import get_reference_directions as get, MultiLayerReferenceDirectionFactory, IncrementalReferenceDirectionFactory
    from pymoo.util.reference_direction import UniformReferenceDirectionFactory as Uni, default_ref_dirs, get_number_of_uniform_points, get_partition_closest_to_points, das_dennis
    from pymoo.util.ref_dirs.das_dennis import DasDennis
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        m, p = size(rng, 400, 15)
        L = lattice(p, m)
        s = None if rng.random() < 0.5 else float(rng.choice([0.25, 0.5, 0.9, 1.0, rng.random()]))
        want = L if s is None else scaled(L, s)
        lx = bool(rng.random() < 0.8)
        n = len(L)
        kw = dict(n_partitions=p) if rng.random() < 0.6 or p == 0 and False else dict(n_points=n)
        kw.update(scaling=s) if s is not None else None
        R = get(str(rng.choice(["das-dennis", "uniform"])), m, lexsort=lx, **kw)
        mon.ev("lattice")
        mon.ev("scaled", s is not None)
        mon.check(same_set(R, want), "lattice", lambda: f"das-dennis {m} {kw} is not the simplex lattice: shape {R.shape}, expected {want.shape}", R=R)
        mon.check(not lx or lex(R), "order", f"das-dennis {m} {kw} is not sorted")
        mon.check(np.all(R >= -1e-15) and np.allclose(R.sum(axis=1), 1, atol=1e-12), "simplex:das-dennis", f"das-dennis {m} {kw} leaves the simplex")
        mon.state(m, p, s)
        mon.check(get_number_of_uniform_points(p, m) == n, "number", f"number of uniform points for {p}, {m} is {get_number_of_uniform_points(p, m)}, not {n}")

        # ---- number of points between two lattices
        k = int(rng.integers(1, 300))
        h = 0
        while math.comb(m + h, h + 1) <= k:
            h += 1
        mon.check(get_partition_closest_to_points(k, m) == h, "partitions", f"partitions for {k} points in {m} dimensions: {get_partition_closest_to_points(k, m)}, not {h}")
        lo, hi = math.comb(m + h - 1, h), math.comb(m + h, h + 1)
        try:
            R = get("das-dennis", m, n_points=k)
            mon.check(k == lo and len(R) == k, "refusal", f"{k} points in {m} dimensions are generated as {len(R)}")
        except Exception as e:
            mon.ev("refused")
            mon.check(k != lo and str(lo) in str(e) and str(hi) in str(e), "refusal", f"{k} points in {m} dimensions: {e}; possible are {lo} and {hi}")

        # ---- batches of the streaming lattice
        dd = DasDennis(max(p, 1), m, scaling=s)
        got, b = [], int(rng.choice([1, 3, 50, 1000]))
        while dd.has_next():
            got.append(dd.next(b))
            mon.check(len(got[-1]) <= b, "batch", "a batch is larger than requested")
        W = lattice(max(p, 1), m)
        mon.ev("batches")
        mon.check(same_set(np.vstack(got), W if s is None else scaled(W, s)) and dd.number_of_points() == len(W), "stream", f"streamed lattice {p} {m} {s} differs")

        # ---- layers
        q = int(rng.integers(0, 4))
        if math.comb(m + q - 1, q) < 300 and p > 0:
            s2 = float(rng.choice([0.5, 1.0, 0.3]))
            A, B = Uni(m, n_partitions=p, scaling=1.0).do(), Uni(m, n_partitions=q, scaling=s2).do()
            M = get("multi-layer", A, B)
            both = np.vstack([A, B])
            D = np.sqrt(((both[:, None] - both[None]) ** 2).sum(axis=2))
            new = [i for i in range(len(both)) if not np.any(D[i, :i] < 1e-12)]         # certainly distinct
            may = [i for i in range(len(both)) if not np.any(D[i, :i] == 0)]            # not exactly repeated
            mon.ev("multi_layer")
            left, kept = [tuple(r) for r in M], []
            for i in may:
                if left and left[0] == tuple(both[i]):
                    left.pop(0)
                    kept.append(i)
            mon.check(not left and set(new) <= set(kept), "multi_layer", f"layers {p}/{q} scaled {s2} in {m} dimensions give {len(M)} directions, expected {len(new)} to {len(may)}")
            F = MultiLayerReferenceDirectionFactory()
            F.add_layer(A)
            F.add_layer(B)
            mon.check(np.array_equal(F.do(), M), "multi_layer", "adding the layers one by one gives different directions")

        # ---- incremental lattice: the boundaries of all lattices with fewer partitions, pulled to the centre
        mi, pi = int(rng.integers(2, 7)), int(rng.integers(0, 6))
        layers = [np.full((1, mi), 1.0 / mi)]
        for k in range(1, pi + 1):
            E = lattice(k, mi)
            layers.append(scaled(E[(E == 0).any(axis=1)], k / pi))
        want = np.vstack(layers)
        if len(want) <= 500:
            kw = dict(n_partitions=pi) if rng.random() < 0.5 else dict(n_points=len(want))
            if s is not None:
                kw["scaling"] = s
                want = scaled(want, s)
            R = get("incremental", mi, **kw)
            mon.ev("incremental")
            mon.check(same_set(R, want) and lex(R), "incremental", lambda: f"incremental {mi} {kw}: {R.shape}, expected {want.shape}", R=R)
            try:
                IncrementalReferenceDirectionFactory(mi, n_points=len(want) + 1)
                mon.check(pi == 0 and mi == 0, "refusal:incremental", f"{len(want) + 1} points in {mi} dimensions are accepted")
            except Exception as e:
                mon.ev("refused")
                mon.check(str(len(want)) in str(e), "refusal:incremental", f"message does not name the possible number {len(want)}: {e}")
        else:
            R = None
        for k, (n_, p_) in {1: (1, 0), 2: (100, 99), 3: (91, 12)}.items():
            R = default_ref_dirs(k)
            mon.ev("default")
            mon.check(same_set(R, lattice(p_, k) if k > 1 else np.ones((1, 1))) and len(R) == n_, "default", f"default directions for {k} objectives")
    for name, kw in (("das-dennis", dict(n_partitions=3)), ("energy", dict(n_points=5)), ("reduction", dict(n_points=5)), ("incremental", dict(n_partitions=3))):
        mon.check(np.array_equal(get(name, 1, **kw), [[1.0]]), "one_objective", f"{name} for one objective")
    for bad in (lambda: get("no-such"), lambda: get("das-dennis", 3), lambda: get("incremental", 3), lambda: default_ref_dirs(4), lambda: get("reduction", 3, None)):
        try:
            bad()
            mon.viol("accepted", "invalid request is accepted")
        except Exception:
            mon.ev("refused")


# ------------------------------------------------------------------ optimised sets

def on_simplex(mon, name, R, m, n=None, lo=-1e-12):
    mon.check(R.ndim == 2 and R.shape[1] == m and np.all(np.isfinite(R)) and np.all(R >= lo) and np.allclose(R.sum(axis=1), 1, atol=1e-9), f"simplex:{name}", lambda: f"{name} in {m} dimensions leaves the simplex: shape {R.shape}, min {R.min()}, sums {R.sum(axis=1).min()}..{R.sum(axis=1).max()}", R=R)
    if n is not None:
        mon.check(len(R) == n, f"number:{name}", f"{name} gives {len(R)} directions instead of {n}")
    D = np.sqrt(((R[:, None] - R[None]) ** 2).sum(axis=2))
    np.fill_diagonal(D, np.inf)
    mon.check(len(R) < 2 or D.min() > 1e-6, f"distinct:{name}", lambda: f"{name} gives (nearly) equal directions, closest {D.min()}", R=R)
    return D.min(axis=1)


def run_found(case, mon):
    from pymoo.util.ref_dirs import get_reference_directions as get, RieszEnergyReferenceDirectionFactory as Energy, ReductionBasedReferenceDirectionFactory as Reduction, LayerwiseRieszEnergyReferenceDirectionFactory as Layer
    from pymoo.util.ref_dirs.construction import ConstructionBasedReferenceDirectionFactory as Construction
    from pymoo.util.ref_dirs.genetic_algorithm import ReferenceDirectionGA
    from pymoo.util.ref_dirs.performance import potential_energy
    from pymoo.util.ref_dirs.sample_and_map import RandomSamplingAndMap
    rng = np.random.default_rng(case["seed"])
    how = case["how"]
    m = int(rng.integers(2, 9))
    n = int(rng.choice([m, m + 1, 2 * m, 20, 40, max(2, m - 1)]))
    s = None if rng.random() < 0.6 else float(rng.choice([0.5, 0.9, 1.0]))
    sd = int(rng.integers(10 ** 6))

    def ask(F):
        A, B = F.do(random_state=np.random.default_rng(sd)), F.do(random_state=np.random.default_rng(sd))
        mon.ev("repeatable")
        mon.check(np.array_equal(A, B), f"repeatable:{how}", f"{how} gives different directions for the same random state")
        mon.check(lex(A) or how == "layer", f"order:{how}", f"{how} is not sorted")
        mon.state(how, A)
        return A

    if how == "layer":
        m = int(rng.integers(3, 8))
        parts = [[3, 2, 1, 0], [2, 1], [3], [4, 2, 1], [1, 0], [3, 2]][int(rng.integers(6))]
        R = Layer(m, parts).do()
        mon.ev("layer_energy")
        cnt = [1 if p == 0 else m + m * (m - 1) // 2 * (p - 1) for p in parts]
        on_simplex(mon, how, R, m, sum(cnt))
        mon.check(np.array_equal(R, get("layer-energy", m, parts)), "repeatable:layer", "layer-wise directions are not repeatable")
        at, last = 0, None
        for p, c in zip(parts, cnt):
            E = np.full((1, m), 1.0 / m) if p == 0 else np.array([r for r in compositions(p, m) if sum(v > 0 for v in r) <= 2], float) / p
            block = R[at:at + c]
            at += c
            C = 1.0 / m
            dev = np.abs(block - C).max() / max(np.abs(E - C).max(), 1e-300)
            k = dev if p else 1.0
            mon.check(same_set(block, scaled(E, k), 1e-7) and k <= 1 + 1e-9, "layer", lambda: f"layer {p} of {parts} in {m} dimensions is not a scaled boundary lattice", block=block)
        mon.state(how, m, parts)
        return
    kw = dict(scaling=s) if s is not None else {}
    if how == "sam":
        n = max(n, m + 1)
        R = ask(RandomSamplingAndMap(m, n, **kw))
        mon.ev("sample_and_map")
    elif how == "ga":
        n = int(rng.integers(3, 8))
        R = ask(ReferenceDirectionGA(m, n, potential_energy, n_gen=4, **kw))
        mon.ev("genetic")
        on_simplex(mon, how, R, m, n)
        return
    elif how == "construction":
        n = min(max(n, m), 20)
        R = ask(Construction(m, n, gradient_descent=bool(rng.random() < 0.7), **kw))
        mon.ev("construction")
    elif how == "reduction":
        R = ask(Reduction(m, n, n_sample_points=int(rng.choice([50 + n, 1000, 10000])), sampling=str(rng.choice(["kraemer", "sum"])), kmeans=bool(rng.random() < 0.6), **kw))
        mon.ev("reduction")
    elif how == "energy":
        seen = []
        opts = dict(sampling=str(rng.choice(["reduction", "reduction", "construction"])), freeze_edges=bool(rng.random() < 0.3), restarts=bool(rng.random() < 0.7), norm_gradients=bool(rng.random() < 0.8), n_max_iter=int(rng.choice([1, 20, 200, 1000])))
        if opts["sampling"] == "construction":
            n = min(max(n, m), 15)
        if rng.random() < 0.3:
            n = max(n, m)
            X = np.random.default_rng(sd).dirichlet(np.ones(m), n)
            opts.pop("sampling")
            X0 = X.copy()
            F = Energy(m, n, X=X, **opts, **kw)
            R = ask(F)
            mon.check(np.array_equal(X, X0), "modified:energy", "the starting directions are changed")
        else:
            R = ask(Energy(m, n, **opts, **kw))
        mon.ev("energy")
        # the optimisation does not end worse than what it has visited
        Energy(m, n, callback=lambda a, X: seen.append(X.copy()), **opts, **({"X": X} if "sampling" not in opts else {})).do(random_state=np.random.default_rng(sd))
        plain = R if s is None else scaled(R, 1 / s)
        if seen and n > 1 and opts["norm_gradients"]:
            # a step is remembered by the energy it starts from, so the result may be one small step past the lowest
            es = [log_energy(Z, 2 * m) for Z in seen]
            e = log_energy(plain, 2 * m)
            mon.ev("energy_lower")
            mon.check(opts["n_max_iter"] == 1 or e <= min(es) + 0.2 * (es[0] - min(es)) + 1e-3 * max(1, abs(e)), "energy", lambda: f"energy {e} of the result is above the lowest visited {min(es)} (start {es[0]}, {m}, {n}, {opts})")
    else:
        n = int(rng.choice([2 * m, 20, 50, 91]))
        m = int(rng.choice([2, 3, 3, 4, 5]))
        refs, total = [], 0
        C = rng.dirichlet(np.ones(m) * 5, int(rng.integers(1, 3)))
        if len(C) == 2 and np.linalg.norm(C[0] - C[1]) < 0.35:
            C = C[:1]
        for c in C:
            k = int(rng.integers(3, 15))
            k = max(k, m)
            refs.append(dict(coordinates=c, n_points=k, **({"scale": float(rng.choice([0.05, 0.1]))} if rng.random() < 0.5 else {"volume": 0.1 if m == 2 else 0.3})))
            total += k
        Z = [dict(coordinates=r["coordinates"].copy(), **{k: v for k, v in r.items() if k != "coordinates"}) for r in refs]
        R = ask(Energy(m, n, ref_points=refs, n_max_iter=300))
        mon.ev("ref_points")
        on_simplex(mon, how, R, m, n + total, lo=-1e-9)
        mon.check(all(np.array_equal(a["coordinates"], b["coordinates"]) for a, b in zip(refs, Z)), "modified:points", "the points given are changed")
        for r in refs:
            sc = r.get("scale") or r["volume"] ** (m - 1)
            near = (np.linalg.norm(R - r["coordinates"], axis=1) <= sc * 2.5 + 1e-9).sum()
            mon.check(near >= r["n_points"], "points", f"only {near} of {r['n_points']} directions are near {r['coordinates']} (scale {sc})")
        return
    d = on_simplex(mon, how, R, m, n)
    mon.ev("scaled", s is not None)
    if s is not None:
        P = scaled(R, 1 / s)
        mon.check(P.min() >= -1e-9, f"scaling:{how}", f"{how} with scaling {s} is not a scaled set")
    else:
        P = R
    if n >= m and not (how == "energy" and "sampling" not in opts):
        E = np.eye(m)
        far = np.abs(P[None] - E[:, None]).max(axis=2).min(axis=1)
        tol = 1e-9 if how != "energy" else 0.35
        mon.check(np.all(far <= tol), f"corners:{how}", lambda: f"{how} {m} {n}: no direction at corner {int(far.argmax())} (closest {far.max()})", R=R)


# ------------------------------------------------------------------ what they are built from

def run_tools(case, mon):
    from pymoo.util.ref_dirs import misc, performance as P
    from pymoo.util.ref_dirs.energy import calc_potential_energy_with_grad
    from pymoo.util.reference_direction import map_onto_unit_simplex, sample_on_unit_simplex, scale_reference_directions, select_points_with_maximum_distance
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        m, n = int(rng.integers(2, 9)), int(rng.integers(2, 25))
        # ---- projections
        Y = rng.normal(size=(n, m)) * rng.choice([0.1, 1.0, 5.0])
        Z = misc.project_onto_sum_equals_one_plane(Y)
        mon.ev("projection")
        mon.check(np.allclose(Z, Y - (Y.sum(axis=1, keepdims=True) - 1) / m, atol=1e-10), "plane:one", "projection on the plane of sum one")
        mon.check(np.allclose(misc.project_onto_sum_equals_zero_plane(Y[0]), Y[0] - Y[0].mean(), atol=1e-10), "plane:zero", "projection on the plane of sum zero")
        S = misc.project_onto_unit_simplex_recursive(Z.copy())
        W = np.array([project(z) for z in Z])
        mon.check(np.all(S >= 0) and np.allclose(S.sum(axis=1), 1, atol=1e-9), "projection:simplex", lambda: f"projected points leave the simplex: {S}")
        inside = (Z >= 0).all(axis=1)
        mon.check(np.array_equal(S[inside], Z[inside]), "projection:inside", "points of the simplex are moved")
        mon.check(np.allclose(S, W, atol=1e-7), "projection:nearest", lambda: f"projection of {Z[np.abs(S - W).max(axis=1).argmax()]} is not the nearest point of the simplex")
        # ---- sampling and mapping
        for method in ("sum", "kraemer"):
            A = rng.random((n, m))
            A0 = A.copy()
            B = map_onto_unit_simplex(A, method)
            mon.ev("mapping")
            mon.check(np.array_equal(A, A0), f"modified:{method}", f"mapping with {method} changes its input")
            mon.check(B.shape == (n, m) and np.all(B >= 0) and np.allclose(B.sum(axis=1), 1, atol=1e-9), f"mapping:{method}", f"{method} leaves the simplex")
            want = A / A.sum(axis=1, keepdims=True) if method == "sum" else np.diff(np.column_stack([np.zeros(n), np.sort(A[:, :m - 1], axis=1), np.ones(n)]), axis=1)
            mon.check(np.allclose(B, want, atol=1e-9), f"mapping:{method}:value", f"{method} maps differently from its definition")
            g = int(rng.integers(10 ** 6))
            C1, C2 = [sample_on_unit_simplex(n, m, unit_simplex_mapping=method, random_state=np.random.default_rng(g)) for _ in range(2)]
            mon.check(np.array_equal(C1, C2) and C1.shape == (n, m) and np.allclose(C1.sum(axis=1), 1, atol=1e-9) and np.all(C1 >= 0), f"sample:{method}", f"sampling with {method}")
        s = float(rng.random())
        mon.check(np.allclose(scale_reference_directions(B, s), scaled(B, s), atol=1e-12), "scale", "scaling of directions")
        # ---- farthest points
        X = rng.random((n, m)) if rng.random() < 0.6 else rng.integers(0, 4, (n, m)).astype(float)
        k = int(rng.integers(1, n + 1))
        start = [] if rng.random() < 0.4 else [int(i) for i in rng.permutation(n)[:int(rng.integers(1, k + 1))]]
        got = select_points_with_maximum_distance(X, k, selected=list(start) if start else None, random_state=np.random.default_rng(3))
        mon.ev("max_distance")
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
        ok = len(got) == max(k, len(start)) and len(set(got)) == len(got) and got[:len(start)] == start
        mon.check(ok, "max_distance:distinct", lambda: f"selecting {k} of {n} points from {start}: {got}")
        if ok:
            for i in range(max(len(start), 1), k):
                dd = D[:, got[:i]].min(axis=1)
                rest = [j for j in range(n) if j not in got[:i]]
                mon.check(dd[got[i]] >= dd[rest].max() - 1e-12, "max_distance:farthest", lambda: f"point {got[i]} chosen at distance {dd[got[i]]} although one at {dd[rest].max()} is left", X=X)
        # ---- quality measures
        R = rng.dirichlet(np.ones(m), max(n, m + 2))
        if rng.random() < 0.5:
            R = np.vstack([np.eye(m)[:int(rng.integers(1, m + 1))], R])
        Q = R.copy()
        for e in np.eye(m):
            if not any(np.array_equal(e, r) for r in Q):
                Q = np.vstack([Q, e])
        G = lambda A: np.sort(np.where(np.eye(len(A), dtype=bool), np.inf, np.sqrt(((A[:, None] - A[None]) ** 2).sum(axis=2))), axis=1)
        DR, DQ = G(R), G(Q)
        i, j = np.triu_indices(len(R), 1)
        pair = np.sqrt(((R[i] - R[j]) ** 2).sum(axis=1))
        H = 0
        while math.comb(m + H, H + 1) <= len(R) * m * 10:
            H += 1
        want = dict(distance_of_closest_point=DR[:, 0].min(), average_distance_to_other_points=pair.mean(), closest_point_variance=DQ[:, 0].var(), closest_point_variance_mod=DQ[:, int(np.ceil(np.sqrt(m))) - 1].var(),
                    geometric_mean_var=np.exp(np.log(DQ[:, :m - 1]).mean(axis=1)).var(), mean_mean=DQ[:, :m - 1].mean(), potential_energy=(1 / pair ** 2).mean())
        if m <= 4:
            L = scaled(lattice(H + 1, m), 1.5)
            want["iterative_igd"] = np.sqrt(((L[:, None] - R[None]) ** 2).sum(axis=2)).min(axis=1).mean()
        R0 = R.copy()
        for name, w in want.items():
            mon.ev("measures")
            v = getattr(P, name)(R)
            mon.check(abs(v - w) <= 1e-6 * abs(w) + 1e-9, f"measure:{name}", f"{name} of {len(R)} directions in {m} dimensions is {v} instead of {w}", R=R)
        mon.check(np.array_equal(R, R0), "modified:measure", "a quality measure changes the directions")
        # ---- the energy and its gradient
        A = rng.dirichlet(np.ones(m) * 3, int(rng.integers(3, 8)))
        d = int(rng.choice([2, m, 2 * m]))
        e, g = calc_potential_energy_with_grad(A.copy(), d)[:2]
        mon.ev("gradient")
        mon.check(abs(e - log_energy(A, d)) <= 1e-8 * max(1, abs(e)), "energy:value", f"energy {e} instead of {log_energy(A, d)}")
        a, b = int(rng.integers(len(A))), int(rng.integers(m))
        h = 1e-6
        U, V = A.copy(), A.copy()
        U[a, b] += h
        V[a, b] -= h
        num = (log_energy(U, d) - log_energy(V, d)) / (2 * h)
        gm = float(np.abs(g).max())
        mon.check(abs(num - g[a, b]) <= 1e-3 * gm + 1e-6, "energy:gradient", f"gradient {g[a, b]} of the energy, numerically {num}")
        mon.state(m, n, k, R)


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
