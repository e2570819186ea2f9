"""C31: archives hold exactly the best of what was offered."""
import copy
import pickle
import warnings
import numpy as np
from vlib import gen, obs, probs, runs, zoo

RULE = ("random histories of batches (duplicates, ties, dominated, infeasible, repeated and empty ones) are added to archives of every kind and size and with every truncation and duplicate elimination; after every insertion the content is compared with the definition computed from everything offered, "
        "and earlier archive objects and the offered solutions with copies; archives are copied, pickled and sliced in between; runs of algorithms with an archive are judged the same way through the offers recorded; distinct states are different (archive content, history) pairs")
REQUIRED = ["adds", "unlimited", "limited", "truncated", "feasible", "infeasible", "turned_feasible", "single", "multi", "duplicates", "ties", "repeated", "empty", "void", "default", "survival", "random_truncation", "copies", "pickled", "previous_unchanged", "offered_unchanged", "attributes", "no_elimination",
            "hash", "epsilon", "run", "run_offers", "run_complete", "result", "smaller_truncation", "deterministic", "individual"]
ASSUMPTIONS = ["solutions are evaluated and the objectives of equal designs are equal (as evaluation is deterministic)", "objectives are not NaN"]
TIMEOUT = {"quick": 200, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 131])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = [new(kind="direct", n=60 if q else 300) for _ in range(16 if q else 120)]
    out += [new(kind="misc", n=25 if q else 100) for _ in range(2 if q else 20)]
    # algorithms whose solutions are all handed over by infill
    for name, spec in runs.combos(rng, 2 if q else 8):
        if name.split("+")[0] in OUTSIDE or spec["cls"] in ("Mixed",):
            continue
        out.append(new(kind="run", algo=name, spec=spec, pop=int(rng.choice([8, 13, 20])), n_gen=int(rng.choice([2, 5, 9]))))
    return out


# evaluate inside of advance (local searches) or keep an archive of their own
OUTSIDE = {"MOPSO_CD"}
PARTIAL = {"PatternSearch", "NelderMead", "DIRECT", "BIPOPCMAES", "DNSGA2", "KGB"}


def feasible(p):
    return np.array([bool(i.feas) for i in p], bool)


def best(p):
    """Indices of the best solutions by the definition."""
    feas = feasible(p)
    if feas.any():
        I = np.flatnonzero(feas)
        F = np.array([p[i].F for i in I], float)
        return I[gen.ref_fronts(F)[0]]
    cv = np.array([float(np.ravel(i.CV)[0]) for i in p])
    return np.flatnonzero(cv == cv.min())


def content(p):
    return [(id(i), np.array(i.X, copy=True).tolist(), np.array(i.F).tolist(), np.array(i.G).tolist(), np.array(i.H).tolist(), np.array(i.CV).tolist(), bool(i.feas)) for i in p]


def xkey(i):
    return tuple(np.asarray(i.X).ravel().tolist())


class Model:
    """Everything offered so far, without repetitions of a design."""

    def __init__(self, unique=True):
        self.sols, self.keys, self.ids, self.unique = [], set(), set(), unique

    def offer(self, pop):
        for i in pop:
            self.ids.add(id(i))
            if not self.unique or xkey(i) not in self.keys:
                self.keys.add(xkey(i))
                self.sols.append(i)

    def best(self):
        return [self.sols[i] for i in best(self.sols)] if self.sols else []


def judge(mon, key, before, batch, after, model, max_size, trunc, unique=True):
    """One insertion."""
    ids = [id(i) for i in after]
    mon.check(all(i in model.ids for i in ids), f"{key}:foreign", "the archive holds a solution which was not offered")
    if unique:
        keys = [xkey(i) for i in after]
        mon.check(len(set(keys)) == len(keys), f"{key}:duplicates", lambda: f"the archive holds the same design more than once: {[list(k) for k in keys]}")
    if max_size is None:
        want = model.best()
        W = [id(i) if not unique else xkey(i) for i in want]
        A = [id(i) if not unique else xkey(i) for i in after]
        mon.check(sorted(W) == sorted(A) if unique else set(W) == set(A), f"{key}:content", lambda: f"the archive holds {len(A)} solutions with F {[np.asarray(i.F).tolist() for i in after]}, best of the {len(model.sols)} offered are {[np.asarray(i.F).tolist() for i in want]}")
        mon.ev("unlimited")
        return
    # limited: from the previous content and the batch
    step = Model(unique)
    step.offer(before)
    step.offer(batch)
    want = step.best()
    W = {xkey(i) if unique else id(i) for i in want}
    A = [xkey(i) if unique else id(i) for i in after]
    mon.check(len(after) <= max_size, f"{key}:size", lambda: f"{len(after)} solutions in an archive of at most {max_size}")
    mon.check(set(A) <= W, f"{key}:content", lambda: f"the archive holds a solution which is not among the best of the previous content and the batch: {[np.asarray(i.F).tolist() for i in after if (xkey(i) if unique else id(i)) not in W]}")
    if len(want) <= max_size:
        mon.check(len(set(A)) == len(W), f"{key}:dropped", lambda: f"{len(W)} solutions are best and fit into the archive of at most {max_size}, it holds {len(A)}")
    else:
        mon.check(len(after) == trunc, f"{key}:truncated", lambda: f"{len(W)} best solutions are truncated to {len(after)} instead of {trunc} (at most {max_size})")
        mon.ev("truncated")
    mon.ev("limited")


def batch(rng, m, cons, pool, kind):
    """Solutions drawn from a pool of designs with fixed values, so that equal designs have equal values."""
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    n = int(rng.integers(1, 15))
    out = []
    for i in rng.integers(0, len(pool), n):
        x, f, g, h = pool[i]
        v = Individual(X=x.copy())
        kw = dict(F=f.copy())
        if cons:
            kw.update(G=g.copy(), H=h.copy())
        v.set_by_dict(**kw) if hasattr(v, "set_by_dict") else [v.set(k, e) for k, e in kw.items()]
        out.append(v)
    return Population.create(*out)


def make_pool(rng, m, cons):
    n = int(rng.choice([3, 10, 40, 120]))
    F, kind = gen.matrix(rng, n=n, m=m)
    n = len(F)
    if rng.random() < 0.3:
        # later designs are better: what is in the archive gets replaced
        F = F[np.argsort(-F.sum(axis=1))]
    X = np.unique(rng.integers(0, 5, (n * 3, 3)), axis=0).astype(float) if rng.random() < 0.3 and n < 30 else rng.random((n, 3))
    X = X[rng.permutation(len(X))][:n]
    n = min(n, len(X))
    G = np.where(rng.random((n, 2)) < (0.4 if rng.random() < 0.7 else 1.0), np.abs(np.round(rng.normal(size=(n, 2)), 1)), -1.0)
    H = np.where(rng.random((n, 1)) < 0.3, np.round(rng.normal(size=(n, 1)), 1), 0.0)
    if not cons:
        G, H = np.zeros((n, 0)), np.zeros((n, 0))
    return [(X[i], F[i], G[i], H[i]) for i in range(n)], kind


def truncations(rng, problem, m):
    from pymoo.util.archive import RandomTruncation, SurvivalTruncation
    from pymoo.algorithms.moo.nsga2 import RankAndCrowdingSurvival
    from pymoo.algorithms.moo.spea2 import SPEA2Survival
    from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival
    r = rng.random()
    if m == 1 or r < 0.4:
        return RandomTruncation(), "random_truncation"
    s = [RankAndCrowdingSurvival, SPEA2Survival, LeastHypervolumeContributionSurvival][int(rng.integers(0, 3 if m == 2 else 2))]()
    return SurvivalTruncation(s, problem=problem), "survival"


def direct(rng, mon):
    from pymoo.core.problem import Problem
    from pymoo.core.population import Population
    from pymoo.core.duplicate import DefaultDuplicateElimination, HashDuplicateElimination
    from pymoo.util.archive import SingleObjectiveArchive, MultiObjectiveArchive, default_archive
    m = int(rng.choice([1, 1, 2, 2, 3, 4]))
    cons = bool(rng.random() < 0.5)
    problem = Problem(n_var=3, n_obj=m, n_ieq_constr=2 if cons else 0, n_eq_constr=1 if cons else 0, xl=0.0, xu=5.0)
    pool, kind = make_pool(rng, m, cons)
    if kind == "inf":
        return
    unlimited = rng.random() < 0.45
    max_size = None if unlimited else int(rng.choice([1, 2, 3, 5, 10, 30]))
    kw = dict(max_size=max_size)
    trunc = max_size
    tr, name = truncations(rng, problem, m)
    kw["truncation"] = tr
    if not unlimited and rng.random() < 0.5:
        kw["truncate_size"] = int(rng.integers(1, max_size + 3))
        trunc = min(max_size, kw["truncate_size"])
        mon.ev("smaller_truncation", trunc < max_size)
    elif m > 1:
        kw["truncate_size"] = None
    unique = True
    r = rng.random()
    if r < 0.1:
        kw["duplicate_elimination"] = HashDuplicateElimination()
        mon.ev("hash")
    elif r < 0.2:
        kw["duplicate_elimination"] = rng.choice([None, False])
        unique = False
        mon.ev("no_elimination")
    elif r < 0.3:
        # designs of the pool are never closer than this without being equal
        kw["duplicate_elimination"] = DefaultDuplicateElimination(epsilon=1e-9)
        mon.ev("epsilon")
    if rng.random() < 0.15 and unlimited is False and unique and "duplicate_elimination" not in kw:
        kw.pop("truncation")
        ar = default_archive(problem, **kw)
        mon.ev("default")
    else:
        ar = (SingleObjectiveArchive if m == 1 else MultiObjectiveArchive)(**kw)
        mon.ev(name)
    mon.ev("single" if m == 1 else "multi")
    key = f"{'single' if m == 1 else 'multi'}:{'unlimited' if unlimited else name}"
    model = Model(unique)
    prev = None
    was_feasible = None
    for step in range(int(rng.integers(1, 10))):
        b = batch(rng, m, cons, pool, kind)
        if step and rng.random() < 0.1:
            b = Population()
            mon.ev("empty")
        elif prev is not None and rng.random() < 0.15:
            b = prev          # offered again
            mon.ev("repeated")
        elif len(ar) and rng.random() < 0.1:
            b = Population.create(*list(ar))
            mon.ev("repeated")
        elif rng.random() < 0.05:
            b = b[0]
            mon.ev("individual")
            single = b
            b = Population.create(b)
        B = content(b)
        A = content(ar)
        old = ar
        attrs = (old.max_size, old.truncate_size, old.truncation, old.duplicate_elimination)
        ar = old.add(b)
        mon.ev("adds")
        model.offer(b)
        mon.check(content(b) == B, f"{key}:offered", "the offered solutions changed")
        mon.ev("offered_unchanged")
        mon.check(content(old) == A and type(ar) is type(old), f"{key}:previous", "the previous archive object changed")
        mon.ev("previous_unchanged")
        mon.check(all(x is y or x == y for x, y in zip(attrs, (ar.max_size, ar.truncate_size, ar.truncation, ar.duplicate_elimination))), f"{key}:attributes", lambda: f"the configuration changed: {attrs} became {(ar.max_size, ar.truncate_size, ar.truncation, ar.duplicate_elimination)}")
        mon.ev("attributes")
        judge(mon, key, old, b, ar, model, max_size, trunc, unique)
        F = np.array([i.F for i in ar], float).reshape(len(ar), m)
        feas = feasible(ar)
        mon.ev("feasible", len(ar) > 0 and feas.all())
        mon.ev("infeasible", len(ar) > 0 and not feas.any())
        mon.ev("turned_feasible", was_feasible is False and feas.any())
        was_feasible = bool(feas.any()) if len(ar) else None
        mon.ev("duplicates", len({xkey(i) for i in b}) < len(b))
        mon.ev("ties", len(F) > 1 and len(np.unique(F, axis=0)) < len(F))
        mon.state(key, sorted(map(xkey, ar)), step)
        prev = b if len(b) else prev
        r = rng.random()
        if r < 0.15:
            other = old.add(b)
            mon.check([xkey(i) for i in other] == [xkey(i) for i in ar], f"{key}:deterministic", "adding the same batch to the same archive gives another content")
            mon.ev("deterministic")
        elif r < 0.3:
            c = {0: copy.deepcopy, 1: copy.copy, 2: lambda a: a.copy(), 3: lambda a: a[:], 4: lambda a: pickle.loads(pickle.dumps(a))}[k := int(rng.integers(0, 5))](ar)
            mon.ev("pickled" if k == 4 else "copies")
            ok = [xkey(i) for i in c] == [xkey(i) for i in ar] and type(c) is type(ar) and (c.max_size, c.truncate_size) == (ar.max_size, ar.truncate_size)
            mon.check(ok, f"{key}:copy", "a copy of the archive has another content or configuration")
            if k in (1, 2, 3):
                ar = c      # goes on with the copy
            else:
                nb = batch(rng, m, cons, pool, kind)
                x, y = ar.add(nb), c.add(nb)
                mon.check(sorted(xkey(i) for i in x) == sorted(xkey(i) for i in y), f"{key}:copy:add", "a copy of the archive develops differently")
        elif r < 0.34 and len(ar) > 1:
            part = ar[rng.random(len(ar)) < 0.5]
            mon.check(type(part) is type(ar) and part.max_size == ar.max_size, f"{key}:slice", "a part of an archive lost its configuration")


def run_direct(case, mon):
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        direct(rng, mon)


def run_misc(case, mon):
    from pymoo.core.problem import Problem
    from pymoo.core.population import Population
    from pymoo.util.archive import VoidArchive, SingleObjectiveArchive, MultiObjectiveArchive, default_archive
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        m = int(rng.integers(1, 5))
        pool, kind = make_pool(rng, m, False)
        b = batch(rng, m, False, pool, kind)
        v = VoidArchive()
        w = v.add(b)
        mon.check(len(w) == 0 and len(v) == 0, "void", "the void archive holds a solution")
        mon.ev("void")
        # the documented defaults
        d = default_archive(Problem(n_var=3, n_obj=m, xl=0.0, xu=5.0))
        a = SingleObjectiveArchive() if m == 1 else MultiObjectiveArchive()
        want = (10, 10) if m == 1 else (200, 100)
        mon.check((a.max_size, a.truncate_size) == want == (d.max_size, d.truncate_size), "defaults", lambda: f"default sizes {(a.max_size, a.truncate_size)} and {(d.max_size, d.truncate_size)} instead of {want}")
        mon.check(type(d) is type(a), "defaults:type", "the default archive has another type")
        # one that starts with individuals
        n = len(b)
        s = (SingleObjectiveArchive if m == 1 else MultiObjectiveArchive)(individuals=b)
        mon.check([id(i) for i in s] == [id(i) for i in b], "initial", "individuals given to the archive are not in it")
        big = MultiObjectiveArchive(max_size=None, truncate_size=None) if m > 1 else SingleObjectiveArchive(max_size=None)
        mon.check(big.max_size is None, "unlimited", "an unlimited archive has a size")
        mon.ev("default")


def run_run(case, mon):
    from pymoo.util.archive import SingleObjectiveArchive, MultiObjectiveArchive
    prob, alg = obs.build(case)
    name = case["algo"]
    rng = np.random.default_rng(case["seed"])
    m = prob.n_obj
    unlimited = rng.random() < 0.5
    max_size = None if unlimited else int(rng.choice([3, 10, 30]))
    base = SingleObjectiveArchive if m == 1 else MultiObjectiveArchive
    kw = dict(max_size=max_size)
    if m > 1:
        kw["truncate_size"] = None if unlimited else max_size
    offers = []
    key = f"run:{name}"
    evaluated = []

    class Seen(base):
        def add(self, sols):
            out = super().add(sols)
            offers.append((self, list(sols) if hasattr(sols, '__len__') else [sols], out))
            return out
    from pymoo.core.evaluator import Evaluator

    class Watch(Evaluator):
        def _eval(self, problem, pop, evaluate_values_of, **kwargs):
            r = super()._eval(problem, pop, evaluate_values_of, **kwargs)
            evaluated.extend(pop if hasattr(pop, '__len__') else [pop])
            return r
    from pymoo.optimize import minimize
    from pymoo.core.result import Result
    alg.archive = Seen(**kw)
    told, advance = [], alg.advance

    def watched(*args, **kwargs):
        r = advance(*args, **kwargs)
        if isinstance(r, Result):
            told.append((r.archive, alg.archive))
        return r
    alg.advance = watched
    res = minimize(prob, alg, ("n_gen", case["n_gen"]), seed=case["seed"] % 10 ** 6, evaluator=Watch(), copy_algorithm=False)
    model = Model()
    mon.ev("run")
    bynan = False
    for before, sols, after in offers:
        if any(np.isnan(np.asarray(i.F, float)).any() for i in sols):
            bynan = True
        model.offer(sols)
        if not bynan:
            judge(mon, key, before, sols, after, model, max_size, max_size)
        mon.ev("run_offers")
    if not offers:
        mon.check(name.split("+")[0] in PARTIAL or len(alg.archive) == 0, f"{key}:none", "nothing was offered to the archive in the whole run")
        return
    last = res.archive
    mon.check(last is not None and [id(i) for i in last] == [id(i) for i in offers[-1][2]], f"{key}:result", "the archive of the result is not the one after the last iteration")
    mon.ev("result")
    for a, b in told:
        mon.ev("told_results")
        mon.check([id(i) for i in a] == [id(i) for i in b], f"{key}:told", lambda: f"the result returned by the last tell has an archive of {len(a)} solutions, the algorithm one of {len(b)}: the last ones told are missing")
    if name.split("+")[0] not in PARTIAL:
        got = {xkey(i) for i in evaluated}
        mon.check(got <= model.keys, f"{key}:complete", lambda: f"{len(got - model.keys)} of {len(got)} evaluated designs were never offered to the archive")
        mon.ev("run_complete")
        # the archive knows the best solution the run has seen
        if not bynan and len(evaluated):
            full = Model()
            full.offer(evaluated)
            b = full.best()
            F = {tuple(np.asarray(i.F, float)) for i in last}
            if unlimited:
                mon.check(F == {tuple(np.asarray(i.F, float)) for i in b}, f"{key}:best", "the archive of the result does not hold the best of all evaluated solutions")
    mon.state(name, case["seed"])


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"direct": run_direct, "misc": run_misc, "run": run_run}[case["kind"]](case, mon)
