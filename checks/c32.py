"""C32: mixed-variable search handles every variable by its own type."""
import copy
import numpy as np
from vlib import obs, probs

RULE = ("random dictionaries of real, integer, binary and choice variables (negative, huge, single-valued and one-sided ranges, options of equal and of mixed types) are sampled, mated and compared for duplicates, every produced assignment being judged variable by variable; "
        "variables of one type only are compared with the vector form of the same problem; runs of all algorithms for mixed variables (with repairs, given initial assignments, constraints and several objectives) are judged at every evaluation and after every iteration; distinct states are different assignments")
REQUIRED = ["assignments", "sampled", "distribution", "offspring", "untouched_parents", "inherited", "choice_inherited", "mutated", "real", "integer", "binary", "choice", "mixed_options", "dup_pairs", "equal_pairs", "vector_form", "runs", "evaluated", "given_start", "repaired", "optuna", "odd", "result", "unique_pop",
            "ints_for_real", "one_variable"]
ASSUMPTIONS = ["an integer value may stand for a real variable if it was given so in the initial assignments", "the variables are instances of Real, Integer, Binary and Choice"]
TIMEOUT = {"quick": 200, "thorough": 900}

OPTIONS = [["x", "yy", "z"], [3, 5, 8, 100], ["auto", 0.5, None, 7], [0.25, 4, 8.5], [True, "on"], ["only"], ["a", "a much longer name"], [(1, 2), (3, 4), (5, 6)], [-1, 1], [None, 1.5]]


def variables(rng, d, kinds="ribc"):
    from pymoo.core.variable import Binary, Choice, Integer, Real
    V = {}
    for j in range(d):
        k = kinds[int(rng.integers(len(kinds)))]
        nm = [f"v{j}", f"a_{d - j}", f"{k}{j}", f"p.{j}"][int(rng.integers(4))]
        if k == "r":
            V[nm] = Real(bounds=[(-2.0, 3.5), (0.0, 1.0), (10.0, 10.5), (2.0, 2.0), (-1e6, 1e6), (1e-9, 2e-9), (0, 5)][int(rng.integers(7))])
        elif k == "i":
            V[nm] = Integer(bounds=[(-3, 4), (0, 1), (7, 7), (0, 100000), (-20, -10), (100, 102)][int(rng.integers(6))])
        elif k == "b":
            V[nm] = Binary()
        else:
            V[nm] = Choice(options=list(OPTIONS[int(rng.integers(len(OPTIONS)))]))
    return V


def same_value(a, b):
    """Equal and of the same sort (text, truth value, number, tuple, None)."""
    return sort(a) == sort(b) and bool(a == b)


def sort(v):
    if v is None:
        return "none"
    if isinstance(v, str):
        return "text"
    if isinstance(v, (bool, np.bool_)):
        return "bool"
    if isinstance(v, (int, float, np.number)):
        return "number"
    return type(v).__name__


def wrong(V, x, given=()):
    """None, or what is wrong with the assignment x."""
    from pymoo.core.variable import Binary, Choice, Integer, Real
    if not isinstance(x, dict):
        return f"not a dictionary: {type(x)}"
    if set(x) != set(V):
        return f"variables {sorted(x)} instead of {sorted(V)}"
    for k, v in V.items():
        z = x[k]
        if isinstance(v, Choice):
            if not any(same_value(z, o) for o in v.options):
                return f"{k} = {z!r} ({type(z).__name__}) is none of {v.options}"
        elif isinstance(v, Binary):
            if not isinstance(z, (bool, np.bool_)):
                return f"{k} = {z!r} ({type(z).__name__}) is not a truth value"
        elif isinstance(v, Integer):
            if not isinstance(z, (int, np.integer)) or isinstance(z, (bool, np.bool_)):
                return f"{k} = {z!r} ({type(z).__name__}) is not an integer"
            if not v.bounds[0] <= z <= v.bounds[1]:
                return f"{k} = {z!r} outside of {v.bounds}"
        elif isinstance(v, Real):
            if not isinstance(z, (float, np.floating)) and not any(z is g for g in given):
                return f"{k} = {z!r} ({type(z).__name__}) is not a real number"
            if not v.bounds[0] <= z <= v.bounds[1]:
                return f"{k} = {z!r} outside of {v.bounds}"
    return None


def count_types(mon, V):
    for v in V.values():
        mon.ev(type(v).__name__.lower())
        if type(v).__name__ == "Choice" and len({sort(o) for o in v.options}) > 1:
            mon.ev("mixed_options")


def cases(tier, seed):
    rng = np.random.default_rng([seed, 132])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = [new(kind="sampling", n=25 if q else 100) for _ in range(3 if q else 20)]
    out += [new(kind="mating", n=20 if q else 60) for _ in range(10 if q else 80)]
    out += [new(kind="vector", n=15 if q else 60) for _ in range(3 if q else 20)]
    out += [new(kind="dup", n=40 if q else 200) for _ in range(2 if q else 15)]
    for algo in ("GA", "NSGA2", "odd", "given", "repair", "elementwise"):
        out += [new(kind="run", algo=algo, n_gen=6 if q else 15) for _ in range(4 if q else 30)]
    out += [new(kind="run", algo="optuna", n_gen=12 if q else 40) for _ in range(3 if q else 20)]
    return out


def run(case, mon):
    {"sampling": run_sampling, "mating": run_mating, "vector": run_vector, "dup": run_dup, "run": run_run}[case["kind"]](case, mon)


def value(rng, v):
    from pymoo.core.variable import Binary, Choice, Integer
    if isinstance(v, Choice):
        return v.options[int(rng.integers(len(v.options)))]
    if isinstance(v, Binary):
        return bool(rng.random() < 0.5)
    if isinstance(v, Integer):
        return int(rng.integers(v.bounds[0], v.bounds[1] + 1))
    return float(rng.uniform(*v.bounds))


def run_sampling(case, mon):
    from checks.c15 import ks, uniform_counts
    from pymoo.core.mixed import MixedVariableSampling
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Binary, Choice, Integer, Real
    rng = np.random.default_rng(case["seed"])
    for t in range(case["n"]):
        d = int(rng.choice([1, 2, 4, 9]))
        V = variables(rng, d)
        count_types(mon, V)
        p = Problem(vars=V, n_obj=1)
        mon.check(p.n_var == len(V), "n_var", lambda: f"{p.n_var} variables for {sorted(V)}")
        n = int(rng.choice([1, 2, 7, 30])) if t % 8 else 2000
        pop = MixedVariableSampling()(p, n, random_state=np.random.default_rng(int(rng.integers(1 << 30))))
        mon.ev("sampled", len(pop))
        mon.check(len(pop) == n, "sampling:number", lambda: f"{len(pop)} samples for {n}")
        for i in pop:
            w = wrong(V, i.X)
            mon.ev("assignments")
            mon.check(w is None, "sampling:value", w, options=[getattr(v, "options", None) for v in V.values()])
            mon.state(repr(i.X))
        mon.check(len({id(i.X) for i in pop}) == n, "sampling:shared", "two samples share their dictionary")
        for k, v in V.items():
            if n >= 2000:
                mon.ev("distribution")
                z = [i.X.get(k) for i in pop]
                if isinstance(v, Choice) and len(v.options) > 1:
                    uniform_counts(mon, "sampling:choice", [sum(same_value(a, o) for a in z) for o in v.options], f"options {v.options}")
                elif isinstance(v, Binary):
                    uniform_counts(mon, "sampling:binary", [sum(bool(a) for a in z), sum(not a for a in z)], "truth values")
                elif isinstance(v, Integer) and 0 < v.bounds[1] - v.bounds[0] < 20:
                    uniform_counts(mon, "sampling:integer", [sum(a == b for a in z) for b in range(v.bounds[0], v.bounds[1] + 1)], f"integers of {v.bounds}")
                elif type(v) is Real and v.bounds[1] > v.bounds[0]:
                    pv, _ = ks((np.array(z, float) - v.bounds[0]) / (v.bounds[1] - v.bounds[0]))
                    mon.check(pv > 1e-7, "sampling:real", lambda: f"not uniform in {v.bounds}: p={pv}")
            one = v.sample(random_state=np.random.default_rng(int(rng.integers(1 << 30))))
            w = wrong({k: v}, {k: one})
            mon.check(w is None, "sample:one", w)


def run_mating(case, mon):
    from pymoo.core.individual import Individual
    from pymoo.core.mixed import MixedVariableMating, MixedVariableDuplicateElimination
    from pymoo.core.duplicate import NoDuplicateElimination
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.repair import Repair
    from pymoo.core.variable import Binary, Choice, Integer, Real
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UX
    from pymoo.operators.mutation.bitflip import BFM
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.rm import ChoiceRandomMutation
    from pymoo.operators.repair.rounding import RoundingRepair
    rng = np.random.default_rng(case["seed"])

    class Fix(Repair):
        seen = 0

        def _do(self, problem, X, **kw):
            Fix.seen += len(X)
            for x in X:
                x["__mark__"] = True
            return X

    for _ in range(case["n"]):
        d = int(rng.choice([1, 2, 3, 5, 9]))
        V = variables(rng, d, str(rng.choice(["ribc", "ribc", "r", "i", "b", "c", "rc", "ib"])))
        count_types(mon, V)
        if len(V) == 1:
            mon.ev("one_variable")
        p = Problem(vars=V, n_obj=1)
        n = int(rng.choice([1, 2, 5, 12, 30]))
        n_off = int(rng.choice([1, 2, 3, 7, 20]))
        mon.ev("odd", n_off % 2)
        mode = str(rng.choice(["default", "default", "nocross", "nomut", "neither", "ints", "repair", "nodup", "parents"]))
        X = [{k: value(rng, v) for k, v in V.items()} for _ in range(n)]
        if rng.random() < 0.3:                                # typical types of a numpy user
            X = [{k: (np.float64(z) if type(z) is float else np.int64(z) if type(z) is int and not isinstance(V[k], Choice) else np.bool_(z) if type(z) is bool and not isinstance(V[k], Choice) else z) for k, z in x.items()} for x in X]
        if mode == "ints":                                    # whole numbers for real variables
            for x in X:
                for k, v in V.items():
                    if type(v) is Real and v.bounds[1] - v.bounds[0] >= 1:
                        x[k] = int(rng.integers(int(np.ceil(v.bounds[0])), int(np.floor(v.bounds[1])) + 1))
                        mon.ev("ints_for_real")
        pop = Population.new(X=X)
        snap = repr([i.X for i in pop])
        no_c, no_m = mode in ("nocross", "neither"), mode in ("nomut", "neither")
        kw = {}
        if no_c:
            kw["crossover"] = {Binary: UX(prob=0.0), Real: SBX(prob=0.0), Integer: SBX(prob=0.0, vtype=float, repair=RoundingRepair()), Choice: UX(prob=0.0)}
        if no_m:
            kw["mutation"] = {Binary: BFM(prob_var=0.0), Real: PM(prob=0.0), Integer: PM(prob=0.0, vtype=float, repair=RoundingRepair()), Choice: ChoiceRandomMutation(prob_var=0.0)}
        if mode == "repair":
            kw["repair"] = Fix()
        dedupe = mode not in ("nodup", "neither", "nomut", "nocross", "parents", "ints", "repair")
        mating = MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination() if dedupe else NoDuplicateElimination(), **kw)
        Fix.seen = 0
        if mode == "parents":
            given = [[Individual(X=dict(pop[int(i)].X)) for i in rng.integers(n, size=2)] for _ in range(-(-n_off // 2))]
            snap2 = repr([[i.X for i in g] for g in given])
            off = mating(p, given, n_off, parents=True, random_state=np.random.default_rng(int(rng.integers(1 << 30))))
            mon.check(snap2 == repr([[i.X for i in g] for g in given]), "mating:parents-changed", "the given parents were changed")
        else:
            off = mating(p, pop, n_off, random_state=np.random.default_rng(int(rng.integers(1 << 30))))
        mon.ev("offspring", len(off))
        mon.ev("untouched_parents")
        mon.check(snap == repr([i.X for i in pop]), "mating:parents-changed", "the parents were changed")
        mon.check(len(off) == n_off if not dedupe else len(off) <= n_off, "mating:number", lambda: f"{len(off)} offspring, asked for {n_off} ({mode})")
        if mode == "repair":
            mon.ev("repaired", len(off))
            mon.check(all(i.X.pop("__mark__", False) for i in off), "mating:repair", "an offspring did not pass the repair")
        ids = {id(i.X) for i in off}
        mon.check(len(ids) == len(off) and not ids & {id(i.X) for i in pop}, "mating:shared", "an assignment object is shared")
        for i in off:
            w = wrong(V, i.X)
            mon.ev("assignments")
            mon.check(w is None, "mating:value", f"{w} ({mode})")
            mon.state(repr(i.X))
            if w is not None:
                continue
            for k, v in V.items():
                inherited = any(same_value(i.X[k], x[k]) for x in X)
                discrete = isinstance(v, (Binary, Choice))
                # nothing new without mutation (choices, truth values) or without any operation
                if no_m and (discrete or no_c):
                    mon.ev("inherited")
                    mon.ev("choice_inherited", isinstance(v, Choice))
                    mon.check(inherited, "mating:inherited", lambda: f"{k} = {i.X[k]!r} is from none of the parents {[x[k] for x in X][:6]}")
                elif not inherited:
                    mon.ev("mutated")
        # no operation at all: complete copies of the parents
        if no_c and no_m:
            for i in off:
                mon.check(any(all(same_value(i.X[k], x[k]) for k in V) for x in X), "mating:copy", lambda: f"{i.X} is no parent although neither crossover nor mutation applies")
        if dedupe:
            for a in range(len(off)):
                for b in range(len(off)):
                    mon.check(a == b or not equal(V, off[a].X, off[b].X), "mating:duplicate", lambda: f"two equal offspring {off[a].X}")
                mon.check(not any(equal(V, off[a].X, x) for x in X), "mating:duplicate", lambda: f"offspring {off[a].X} equals a parent")


def equal(V, a, b):
    return all(bool(a[k] == b[k]) for k in V)


def run_vector(case, mon):
    """Variables of one type: the same offspring as the vector form from the same random numbers."""
    from pymoo.core.duplicate import NoDuplicateElimination
    from pymoo.core.mating import Mating
    from pymoo.core.mixed import MixedVariableMating, MixedVariableSampling
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Binary, Integer, Real
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UX
    from pymoo.operators.mutation.bitflip import BFM
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.selection.rnd import RandomSelection
    rng = np.random.default_rng(case["seed"])
    for t in range(case["n"]):
        kind = "rib"[t % 3]
        d = int(rng.choice([1, 2, 5, 8]))
        V = {f"v{j}": variables(rng, 1, kind).popitem()[1] for j in range(d)}
        n, n_off = int(rng.choice([4, 9, 20])), int(rng.choice([1, 2, 7, 20]))
        X = [{k: value(rng, v) for k, v in V.items()} for _ in range(n)]
        pv = Problem(vars=V, n_obj=1)
        kw = {} if kind == "b" else dict(xl=np.array([v.bounds[0] for v in V.values()]), xu=np.array([v.bounds[1] for v in V.values()]))
        px = Problem(n_var=d, n_obj=1, **kw)
        c, m = {"r": (SBX(), PM()), "i": (SBX(vtype=float, repair=RoundingRepair()), PM(vtype=float, repair=RoundingRepair())), "b": (UX(), BFM())}[kind]
        s = int(rng.integers(1 << 30))
        a = MixedVariableMating(eliminate_duplicates=NoDuplicateElimination())(pv, Population.new(X=X), n_off, random_state=np.random.default_rng(s))
        b = Mating(RandomSelection(), c, m, eliminate_duplicates=NoDuplicateElimination())(px, Population.new(X=np.array([[x[k] for k in V] for x in X])), n_off, random_state=np.random.default_rng(s))
        mon.ev("vector_form", len(a))
        mon.state(kind, repr(X[:2]), s)
        A = np.array([[i.X[k] for k in V] for i in a])
        mon.eq(A, b.get("X"), f"vector:{kind}", "offspring of the dictionary form against the vector form")


def run_dup(case, mon):
    from pymoo.core.mixed import MixedVariableDuplicateElimination
    from pymoo.core.population import Population
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        V = variables(rng, int(rng.choice([1, 2, 4])))
        base = [{k: value(rng, v) for k, v in V.items()} for _ in range(int(rng.choice([1, 2, 5])))]

        def draw():
            x = dict(base[int(rng.integers(len(base)))])
            if rng.random() < 0.5:                           # differ in exactly one variable
                k = list(V)[int(rng.integers(len(V)))]
                x[k] = value(rng, V[k])
            if rng.random() < 0.3:                           # another order of the same variables
                x = {k: x[k] for k in list(x)[::-1]}
            return x
        n, m = int(rng.choice([1, 3, 8])), int(rng.choice([0, 3, 8]))
        X, O = [draw() for _ in range(n)], [draw() for _ in range(m)]
        pop = Population.new(X=X, mark=list(range(n)))
        got = MixedVariableDuplicateElimination().do(pop, *([Population.new(X=O)] if m else []))
        mon.ev("dup_pairs", n * (n - 1) // 2 + n * m)
        E = [[equal(V, a, b) for b in X] for a in X]
        mon.ev("equal_pairs", sum(E[a][b] for a in range(n) for b in range(a)))
        free = [i for i in range(n) if not any(equal(V, X[i], o) for o in O)]
        kept = [int(g.get("mark")) for g in got]
        mon.state(repr(X), repr(O))
        mon.check(set(kept) <= set(free), "dup:other", lambda: f"kept {kept}, allowed {free}")
        for i in free:
            mon.check(sum(E[i][k] for k in kept) == 1, "dup:itself", lambda: f"{sum(E[i][k] for k in kept)} occurrences of {X[i]} remain of {X}")


def run_run(case, mon):
    from pymoo.core.mixed import MixedVariableDuplicateElimination, MixedVariableGA, MixedVariableMating, MixedVariableSampling
    from pymoo.core.population import Population
    from pymoo.core.repair import Repair
    from pymoo.core.variable import Real
    rng = np.random.default_rng(case["seed"])
    algo = case["algo"]
    V = variables(rng, int(rng.choice([1, 2, 4, 7])), str(rng.choice(["ribc", "ribc", "ribc", "r", "i", "c"])))
    if algo == "optuna":                                     # the options it can store
        for k, v in V.items():
            if hasattr(v, "options") and any(isinstance(o, tuple) for o in v.options):
                v.options = ["t", "u"]
    count_types(mon, V)
    n_obj = 2 if algo == "NSGA2" else 1
    cons = int(rng.integers(2))

    class Prob(probs.P):
        def one(self, x):
            s = 0.0
            for j, k in enumerate(sorted(V)):
                z, v = x[k], V[k]
                if hasattr(v, "options"):
                    s += 0.3 * next((a for a, o in enumerate(v.options) if same_value(o, z)), -1)
                elif isinstance(z, (bool, np.bool_)):
                    s += float(z)
                else:
                    s += abs((float(z) - v.bounds[0]) / ((v.bounds[1] - v.bounds[0]) or 1.0) - 0.3 - 0.1 * (j % 3))
            return [s, abs(s - 0.5 * len(V))][:n_obj], [s - 0.6 * len(V)] * cons, None

    prob = Prob(vars=V, n_obj=n_obj, n_ieq_constr=cons, elementwise=bool(algo == "elementwise" or rng.random() < 0.5))
    given = []

    def judge(X):
        for x in X:
            mon.ev("evaluated")
            mon.ev("assignments")
            w = wrong(V, x, given)
            mon.check(w is None, f"run:{algo}:value", w)
            mon.state(repr(x))
    prob.log.on_rows = judge
    pop_size = int(rng.choice([2, 5, 12, 20]))
    kw = {}
    if algo == "odd":
        kw["n_offsprings"] = int(rng.choice([1, 3, 7]))
    if algo == "given":
        m = int(rng.choice([1, 3, pop_size, pop_size + 4]))
        X0 = [{k: value(rng, v) for k, v in V.items()} for _ in range(m)]
        if rng.random() < 0.5:
            for x in X0:
                for k, v in V.items():
                    if type(v) is Real and v.bounds[1] - v.bounds[0] >= 1:
                        x[k] = int(rng.integers(int(np.ceil(v.bounds[0])), int(np.floor(v.bounds[1])) + 1))
                        given.append(x[k])
        kw["sampling"] = Population.new(X=X0)
        mon.ev("given_start", m)
    fixed = None
    if algo == "repair":
        fixed = list(V)[0]
        to = value(rng, V[fixed])

        class Fix(Repair):
            def _do(self, problem, X, **k):
                for x in X:
                    x[fixed] = to
                return X
        kw.update(repair=Fix(), mating=MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination(), repair=Fix()))
    if algo == "NSGA2":
        from pymoo.algorithms.moo.nsga2 import NSGA2
        from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
        if rng.random() < 0.5:
            alg = MixedVariableGA(pop_size=pop_size, survival=RankAndCrowding())
        else:
            alg = NSGA2(pop_size=pop_size, sampling=MixedVariableSampling(), mating=MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination()), eliminate_duplicates=MixedVariableDuplicateElimination())
    elif algo == "optuna":
        from pymoo.algorithms.soo.nonconvex.optuna import Optuna
        alg = Optuna()
        mon.ev("optuna")
    else:
        alg = MixedVariableGA(pop_size=pop_size, **kw)
    obs.setup(prob, alg, dict(n_gen=case["n_gen"], seed=case["seed"] % 10 ** 6 + 1))
    told = []
    for it in obs.steps(alg):
        mon.ev("runs")
        for i in alg.pop:
            w = wrong(V, i.X, given)
            mon.check(w is None, f"run:{algo}:pop", w)
            if fixed is not None:
                mon.ev("repaired")
                mon.check(same_value(i.X[fixed], to), "run:repair", lambda: f"{fixed} = {i.X[fixed]!r} although the repair sets {to!r}")
        if algo == "optuna":
            told.append((dict(alg.pop[0].X), float(alg.pop[0].F[0])))
        else:
            pop = alg.pop
            start = [id(i) for i in kw["sampling"]] if "sampling" in kw else []
            for a in range(len(pop)):
                for b in range(a):
                    mon.ev("unique_pop")
                    if id(pop[a]) in start and id(pop[b]) in start:
                        continue
                    mon.check(not equal(V, pop[a].X, pop[b].X), f"run:{algo}:duplicate", lambda: f"iteration {it}: {pop[a].X} twice in the population")
    if algo == "optuna":
        # the study was told exactly what was evaluated
        tr = alg.study.trials
        done = [t for t in tr if t.state.name == "COMPLETE"]
        mon.check(len(done) == len(told) and all(set(t.params) == set(x) and all(same_value(t.params[k], x[k]) for k in x) and t.value == f for t, (x, f) in zip(done, told)),
                  "optuna:told", lambda: f"study {[(t.params, t.value) for t in done][:3]} against {told[:3]}")
    res = alg.result()
    X = res.X
    if X is not None:
        mon.ev("result")
        for x in ([X] if isinstance(X, dict) else X):
            w = wrong(V, x, given)
            mon.check(w is None, f"run:{algo}:result", w)
