"""C21: populations behave as ordered collections of independent individuals."""
import copy, pickle
import numpy as np
from vlib import gen, mon as M, obs, probs, runs, zoo

RULE = ("random histories of operations on populations and individuals (create, new, empty, index by number, slice, mask and list, assign, set from matrices, views, lists and scalars, get one or several keys, merge with populations, "
        "matrices, individuals and nothing, copy, deep copy, pickle, reset, modify in place) are run next to a plain model - lists of records - and compared after every operation; in algorithm runs the arrays of different individuals "
        "are checked for shared memory after every iteration; distinct states are different model states")
REQUIRED = ["operations", "comparisons", "mutations", "copies", "merges", "in_run", "run_pairs", "wrong_sizes"]
ASSUMPTIONS = ["values stored individually as arrays by the caller stay shared with the caller"]

KEYS = ["X", "F", "G", "H", "rank", "tag", "V"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 121])
    q = tier == "quick"
    out = [dict(kind="history", seed=int(rng.integers(1, 10 ** 9)), n=120) for _ in range(24 if q else 400)]
    for name, spec in runs.combos(rng, 1 if q else 5):
        out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=5 if q else 15, cap=20000))
    return out


class Rec(dict):
    """The model of one individual: what every key should return."""


def fresh():
    r = Rec({k: np.array([]) for k in ("X", "F", "G", "H")})
    return r


def value(r, k):
    return r.get(k)


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return type(a) is type(b) and a == b or a == b


def run_history(case, mon):
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    rng = np.random.default_rng(case["seed"])
    model = {}                                             # id of an individual -> its record
    alive = []                                             # keeps the individuals, so that ids stay unique
    pops = []                                              # (population, list of individuals it has to hold)

    def adopt(ind, rec):
        alive.append(ind)
        model[id(ind)] = rec
        return ind

    def add(pop, inds):
        mon.check(isinstance(pop, Population), "type", lambda: f"a {type(pop).__name__} instead of a population")
        pops.append((pop, list(inds)))
        if len(pops) > 12:
            pops.pop(int(rng.integers(len(pops))))

    def pick():
        return pops[int(rng.integers(len(pops)))]

    def fill(n):
        """A population with new individuals and the model of each."""
        d, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        X, F = rng.random((n, d)), rng.random((n, m))
        how = int(rng.integers(4))
        src = [X, F]
        if how == 0:
            pop = Population.new("X", X, "F", F)
        elif how == 1:
            pop = Population.new(X=X, F=F)
        elif how == 2:
            pop = Population.new("X", X, F=F)
        else:
            pop = Population.create(*[Individual(X=X[i].copy(), F=F[i].copy()) for i in range(n)])
        for i, ind in enumerate(pop):
            r = fresh()
            r["X"], r["F"] = X[i].copy(), F[i].copy()
            adopt(ind, r)
        for a in src:                                      # the caller goes on using its arrays
            a[:] = -7.0
        return pop

    def op():
        k = str(rng.choice(["new", "new", "set", "set", "set", "get", "index", "index", "merge", "merge", "inplace", "copy", "deepcopy", "pickle", "assign", "reset", "collect", "empty", "badset", "indcopy", "has", "badnew", "shallow"]))
        if not pops or k == "new":
            n = int(rng.choice([0, 1, 2, 5, 9]))
            p = fill(n) if n else Population.new()
            mon.check(len(p) == n, "new:number", lambda: f"{len(p)} individuals of {n}")
            mon.check(len({id(i) for i in p}) == n, "new:distinct", "the same individual twice in a new population")
            add(p, list(p))
            return "new"
        p, inds = pick()
        n = len(inds)
        if k == "empty":
            e = Population.empty(3)
            for i in e:
                adopt(i, fresh())
            mon.check(len({id(i) for i in e}) == 3, "empty:distinct", "the same individual twice in an empty population")
            add(e, list(e))
        elif k == "set" and n:
            key = str(rng.choice(KEYS))
            how = str(rng.choice(["matrix", "view", "list", "scalar", "string", "interleaved", "two", "own"]))
            d = int(rng.integers(1, 4))
            A = rng.random((n, d))
            vals = [A[i].copy() for i in range(n)]
            last = {id(i): j for j, i in enumerate(inds)}   # an individual listed twice keeps the last value
            if how == "matrix":
                r = p.set(key, A)
                A[:] = -3.0
            elif how == "view":
                B = np.asfortranarray(np.hstack([A, A]))
                r = p.set(**{key: B[:, :d]})
                B[:] = -3.0
            elif how == "list":
                r = p.set(key, vals)
                vals = [v.copy() for v in vals]
            elif how in ("scalar", "string"):
                s = "abcd" if how == "string" else float(rng.random())
                vals = [s] * n
                r = p.set(key, s)
            elif how == "interleaved":
                s = [int(v) for v in rng.integers(0, 9, n)]
                r = p.set(key, A, "extra", s)
                for i, ind in enumerate(inds):
                    model[id(ind)]["extra"] = s[last[id(ind)]]
            elif how == "two":
                r = p.set(**{key: A, "other": [str(i) for i in range(n)]})
                for i, ind in enumerate(inds):
                    model[id(ind)]["other"] = str(last[id(ind)])
            else:
                vals = [int(v) for v in rng.integers(0, 5, n)]
                r = p.set(key, vals)
            mon.check(r is p, "set:returns", "set does not return the population")
            for ind in inds:
                v = vals[last[id(ind)]]
                model[id(ind)][key] = v.copy() if isinstance(v, np.ndarray) else v
        elif k == "badset" and n:
            before = [repr(i.get(*KEYS)) for i in inds]
            try:
                p.set("F", np.zeros((n + 1, 1)))
                mon.viol("set:size", f"{n + 1} values for {n} individuals are accepted")
            except Exception:
                pass
            mon.ev("wrong_sizes")
            mon.check(before == [repr(i.get(*KEYS)) for i in inds], "set:failed", "a refused set changed individuals")
        elif k == "badnew":
            try:
                Population.new(X=np.zeros((2, 1)), F=np.zeros((3, 1)))
                mon.viol("new:size", "values of different lengths are accepted")
            except Exception:
                mon.ev("wrong_sizes")
        elif k == "get" and n:
            key = str(rng.choice(KEYS))
            want = [value(model[id(i)], key) for i in inds]
            raw = p.get(key, to_numpy=False)
            mon.check(isinstance(raw, list) and len(raw) == n and all(equal(a, b) for a, b in zip(raw, want)), "get:list", lambda: f"get({key}) gives {raw[:3]}, expected {want[:3]}")
            snd = str(rng.choice([s for s in KEYS if s != key]))
            a, b = p.get(key, snd, to_numpy=False)
            mon.check(len(a) == len(b) == n and all(equal(x, y) for x, y in zip(a, want)) and all(equal(x, value(model[id(i)], snd)) for x, i in zip(b, inds)), "get:several", "several keys are not returned in the order asked for")
            if all(isinstance(w, np.ndarray) and w.shape == want[0].shape and w.size for w in want):
                A = p.get(key)
                mon.check(np.array_equal(A, np.array(want)), "get:matrix", lambda: f"get({key}) gives {A[:3]}, expected {want[:3]}")
                A[:] = 99.0                                 # what was returned belongs to the caller
        elif k == "index" and n:
            how = str(rng.choice(["int", "neg", "slice", "mask", "list", "step", "perm"]))
            if how in ("int", "neg"):
                j = int(rng.integers(n)) - (n if how == "neg" else 0)
                mon.check(p[j] is inds[j], "index:one", "an index returns another individual")
                return k
            I = {"slice": lambda: slice(int(rng.integers(n)), int(rng.integers(n + 1))), "mask": lambda: rng.random(n) < 0.5, "list": lambda: [int(v) for v in rng.integers(0, n, int(rng.integers(0, n + 2)))],
                 "step": lambda: slice(None, None, int(rng.choice([-1, 2]))), "perm": lambda: rng.permutation(n)}[how]()
            q = p[I]
            w = list(np.array(inds + [None], dtype=object)[:-1][I]) if not isinstance(I, list) else [inds[v] for v in I]
            mon.check(len(q) == len(w) and all(a is b for a, b in zip(q, w)), f"index:{how}", lambda: f"{how} returns {len(q)} individuals, expected {len(w)}, or others")
            add(q if how != "slice" and how != "step" else q.copy(), w)
        elif k == "merge":
            mon.ev("merges")
            q, jnds = pick()
            how = str(rng.choice(["pop", "three", "none", "ind", "array"]))
            if how == "pop":
                add(Population.merge(p, q).copy(), inds + jnds)
            elif how == "three":
                r, kn = pick()
                add(Population.merge(p, q, r).copy(), inds + jnds + kn)
            elif how == "none":
                a, b = Population.merge(None, p), Population.merge(p, None)
                mon.check([id(i) for i in a] == [id(i) for i in inds] and [id(i) for i in b] == [id(i) for i in inds], "merge:none", "merging with nothing changes the population")
            elif how == "ind" and n:
                ind = adopt(Individual(X=np.array([1.0]), tag="x"), Rec({**fresh(), "X": np.array([1.0]), "tag": "x"}))
                add(Population.merge(p, ind).copy(), inds + [ind])
            elif how == "array" and n:
                A = rng.random((2, 2))
                m = Population.merge(p, A)
                w = A.copy()
                A[:] = -5
                new = list(m)[n:]
                mon.check(len(new) == 2, "merge:array", lambda: f"{len(m)} individuals after merging {n} with two rows")
                for i, x in zip(new, w):
                    adopt(i, Rec({**fresh(), "X": x}))
                add(m, inds + new)
            if len(pops[-1][1]) > 60:
                pops.pop()
        elif k == "inplace" and n:
            ind = inds[int(rng.integers(n))]
            key = str(rng.choice(["X", "F", "G", "V"]))
            v, r = ind.get(key), model[id(ind)]
            mon.ev("mutations")
            if isinstance(v, np.ndarray) and v.size:
                v[0] = 1234.5                               # only this one may change
                r[key] = r[key].copy()
                r[key][0] = 1234.5
            ind.set("own", 5)
            r["own"] = 5
            ind.data["more"] = [1]
            r["more"] = [1]
        elif k in ("deepcopy", "pickle") and n:
            mon.ev("copies")
            q = copy.deepcopy(p) if k == "deepcopy" else pickle.loads(pickle.dumps(p))
            mon.check(len(q) == n and not {id(i) for i in q} & set(model), f"{k}:new", "a deep copy holds old individuals")
            for a, b in zip(q, inds):
                mon.check(a.evaluated is not b.evaluated and a.data is not b.data and a.config is not b.config, f"{k}:shared", "a deep copy shares its records with the original")
                if id(a) not in model:
                    adopt(a, Rec({kk: copy.deepcopy(v) for kk, v in model[id(b)].items()}))
            add(q, list(q))
        elif k == "copy" and n:
            q = p.copy()
            mon.check([id(i) for i in q] == [id(i) for i in inds], "copy:same", "the copy of a population holds other individuals")
            ind = adopt(Individual(X=np.array([2.0])), Rec({**fresh(), "X": np.array([2.0])}))
            q[0] = ind                                      # must not show up in the original
            add(q, [ind] + inds[1:])
        elif k == "assign" and n:
            j = int(rng.integers(n))
            ind = adopt(Individual(X=np.array([3.0]), rank=2), Rec({**fresh(), "X": np.array([3.0]), "rank": 2}))
            for q, jn in pops:
                if q is p:
                    jn[j] = ind
            p[j] = ind
        elif k == "indcopy" and n:
            mon.ev("copies")
            b = inds[int(rng.integers(n))]
            a = b.copy()
            mon.check(a is not b and a.data is not b.data and a.evaluated is not b.evaluated, "individual:copy", "the copy of an individual shares its records")
            adopt(a, Rec({kk: copy.deepcopy(v) for kk, v in model[id(b)].items()}))
            for key in ("X", "F", "G"):
                v = a.get(key)
                if isinstance(v, np.ndarray) and v.size:
                    v[0] = -99.0
                    model[id(a)][key] = np.array(v)
            a.set("tag", "copy")
            model[id(a)]["tag"] = "copy"
            mark = f"z{len(alive)}"
            a.evaluated.add(mark)
            mon.check(mark not in b.evaluated, "individual:evaluated", "the copy shares the set of evaluated values")
            add(Population.create(a, b), [a, b])
        elif k == "shallow" and n:
            mon.ev("copies")
            b = inds[int(rng.integers(n))]
            a = b.copy(deep=False)
            same = all(a.get(key) is b.get(key) for key in ("X", "F", "G", "H"))
            mon.check(a is not b and same and a.evaluated == b.evaluated, "shallow:values", "a shallow copy of an individual does not hold its values")
            mark = f"s{len(alive)}"
            a.evaluated.add(mark)
            a.set(mark, 1)
            mon.check(mark not in b.evaluated, "shallow:evaluated", "evaluating a shallow copy marks the original as evaluated")
            mon.check(not b.has(mark) and mark not in b.data, "shallow:data", "a value set on a shallow copy shows up in the original")
        elif k == "reset" and n:
            ind = inds[int(rng.integers(n))]
            keep = bool(rng.random() < 0.5)
            ind.evaluated.add("F")
            ind.reset(data=not keep)
            old = model[id(ind)]
            r = fresh()
            if keep:
                r.update({kk: v for kk, v in old.items() if kk not in ("X", "F", "G", "H")})
            model[id(ind)] = r
            mon.check(len(ind.evaluated) == 0, "reset:flags", "evaluation flags survive a reset")
        elif k == "collect" and n:
            got = p.collect(lambda i: id(i), to_numpy=False)
            mon.check(got == [id(i) for i in inds], "collect", "collect does not visit the individuals once in order")
            seen = []
            p.apply(lambda i: seen.append(id(i)))
            mon.check(seen == [id(i) for i in inds], "apply", "apply does not visit the individuals once in order")
        elif k == "has" and n:
            for key in ("rank", "own", "zzz", "X"):
                mon.check(p.has(key) == all(key in model[id(i)] for i in inds), "has", lambda: f"has({key}) is {p.has(key)}")
        else:
            return "-"
        return k

    for t in range(case["n"]):
        k = op()
        mon.ev("operations")
        for p, inds in pops:
            mon.ev("comparisons")
            if not mon.check(len(p) == len(inds) and all(a is b for a, b in zip(p, inds)), f"members:{k}", lambda: f"after {k}: a population of {len(inds)} holds {len(p)} or others"):
                return
        for ind in alive[-80:]:
            r = model[id(ind)]
            for key in KEYS + ["own", "more", "extra", "other"]:
                if not equal(ind.get(key), value(r, key)):
                    mon.viol(f"value:{k}", f"after {k}: {key} is {M.short(ind.get(key), 150)} instead of {M.short(value(r, key), 150)}")
                    return
        if t % 10 == 0:
            mon.state([repr(sorted((a, repr(b)) for a, b in model[id(i)].items())) for i in alive[-10:]])


def run_run(case, mon):
    """Different individuals of a run never hold overlapping arrays or the same records."""
    prob, alg = obs.build(case)
    obs.setup(prob, alg, case)
    for _ in obs.steps(alg):
        inds = {}
        for nm, p in obs.tracked_sets(alg):
            for i in p:
                inds[id(i)] = i
        inds = list(inds.values())
        mon.ev("in_run")
        spans = []
        for i in inds:
            for k in ("X", "F", "G", "H"):
                a = i.get(k)
                if isinstance(a, np.ndarray) and a.size and a.dtype != object:
                    lo, hi = np.lib.array_utils.byte_bounds(a) if hasattr(np.lib, "array_utils") else np.byte_bounds(a)
                    spans.append((lo, hi, id(i), k))
        spans.sort()
        mon.ev("run_pairs", len(spans))
        for (l1, h1, i1, k1), (l2, h2, i2, k2) in zip(spans, spans[1:]):
            if l2 < h1 and i1 != i2:
                mon.viol(f"run:{case['algo']}:shared:{k1}", f"two individuals of {case['algo']} share the memory of {k1}/{k2}")
                break
        mon.check(len({id(i.data) for i in inds}) == len(inds) and len({id(i.evaluated) for i in inds}) == len(inds), f"run:{case['algo']}:records", "two individuals share their records")
        X = [i.X for i in inds if isinstance(i.X, dict)]
        mon.check(len({id(x) for x in X}) == len(X), f"run:{case['algo']}:dict", "two individuals share one dictionary of variables")
        mon.state(case["algo"], len(inds), mon.counts["in_run"])


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
