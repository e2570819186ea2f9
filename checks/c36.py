"""C36: reading and writing an algorithm's parameters round-trips."""
import copy
import warnings
import numpy as np
from vlib import zoo, probs, runs

RULE = ("the parameters of every algorithm (fresh, copied, after a run) and of random object graphs (nesting, dictionaries, shared objects, cycles, inactive variables, other flags) are listed, written in random orders and read back; "
        "runs of algorithms given their parameters by set_params, by transfer from another instance and by their constructors are compared evaluation by evaluation; hyper-parameter problems are evaluated with a recording performance measure and compared with direct runs; "
        "controlled operators write the values they use into the solutions, which are compared with the values attached; distinct states are different (algorithm, parameter values) combinations")
REQUIRED = ["graph", "graph_cycle", "graph_shared", "graph_inactive", "graph_flag", "graph_class_keys", "algorithms", "written", "read", "others_kept", "one_by_one", "partial", "as_variable", "unknown", "independent", "flat", "transfer_runs", "evaluations", "constructor", "hyper", "hyper_values", "hyper_original", "hyper_optimised", "hyper_infeasible", "multi", "multi_evals", "control_random", "control_evo", "control_values", "control_runs", "after_run", "domain"]
ASSUMPTIONS = ["values are within the declared strict bounds and options", "parameter names hold no dots"]
TIMEOUT = {"quick": 200, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 136])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = [new(kind="graph", n=300 if q else 1500) for _ in range(2 if q else 10)]
    names = [n for n in zoo.names() if not zoo.Z[n].get("extra")]
    for _ in range(1 if q else 6):
        out += [new(kind="roundtrip", names=[str(e) for e in part]) for part in np.array_split(np.array(names), 12)]
        out += [new(kind="transfer", names=[str(e) for e in part], reps=1 if q else 3) for part in np.array_split(np.array(names), 16)]
    out += [new(kind="constructor", n=12 if q else 40) for _ in range(4 if q else 40)]
    out += [new(kind="default", part=i) for i in range(4)]
    out += [new(kind="hyper", n=4 if q else 12) for _ in range(6 if q else 40)]
    out += [new(kind="multi", n=5 if q else 12) for _ in range(3 if q else 20)]
    out += [new(kind="control", n=12 if q else 40) for _ in range(4 if q else 40)]
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = globals()["run_" + case["kind"]]
        if "n" in case:
            for _ in range(case["n"]):
                f(rng, mon)
        else:
            f(rng, mon, case)


def tools():
    from pymoo.core.parameters import get_params, set_params, flatten, hierarchical
    return get_params, set_params, flatten, hierarchical


def values(a, **kw):
    get_params, _, flatten, _ = tools()
    return {k: v.get() for k, v in flatten(get_params(a, **kw)).items()}


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return type(a) is type(b) and (a == b or a is b)


def same(a, b):
    return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)


def draw(rng, v, wide=False):
    """A value in the variable's domain."""
    from pymoo.core.variable import Choice, Integer, Binary
    if isinstance(v, Choice):
        o = list(v.all if wide else v.options)
        return o[int(rng.integers(len(o)))]
    if isinstance(v, Binary):
        return bool(rng.random() < 0.5)
    lo, hi = v.bounds
    if wide:
        lo, hi = v.strict[0] if v.strict[0] is not None else lo, v.strict[1] if v.strict[1] is not None else hi
    if isinstance(v, Integer):
        return int(rng.integers(lo, hi + 1))
    return float(rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi)]))


# ---------------------------------------------------------------- object graphs
class Node:
    pass


class A:
    pass


class B:
    pass


def run_graph(rng, mon):
    get_params, set_params, flatten, hierarchical = tools()
    from pymoo.core.variable import Real, Choice, Integer, Binary
    nodes, vars_ = [Node()], []
    where = {}
    for i in range(int(rng.integers(1, 9))):
        c = {} if rng.random() < 0.3 else Node()
        parent = nodes[int(rng.integers(len(nodes)))]
        key = f"n{i}"
        if isinstance(parent, dict) and rng.random() < 0.4 and A not in parent:
            key = A
            mon.ev("graph_class_keys")
        put(parent, key, c)
        nodes.append(c)
    for i in range(int(rng.integers(0, 9))):
        flag = "default" if rng.random() < 0.8 else "other"
        kw = dict(active=bool(rng.random() < 0.8), flag=flag)
        v = [lambda: Real(float(rng.random()), bounds=(0, 1), **kw), lambda: Integer(3, bounds=(1, 5), **kw), lambda: Choice("a", options=["a", "b"], **kw), lambda: Binary(True, **kw)][int(rng.integers(4))]()
        put(nodes[int(rng.integers(len(nodes)))], f"v{i}", v)
        vars_.append(v)
        if not kw["active"]:
            mon.ev("graph_inactive")
        if flag != "default":
            mon.ev("graph_flag")
    # anything else an object may hold
    for n in nodes:
        if rng.random() < 0.5:
            put(n, "x", [1, "a", None, np.arange(3), np, Node, int, len, rng][int(rng.integers(9))])
    # the same object or variable twice
    if rng.random() < 0.5 and len(nodes) > 1:
        put(nodes[int(rng.integers(len(nodes)))], "again", nodes[int(rng.integers(1, len(nodes)))])
        mon.ev("graph_shared")
    if rng.random() < 0.4 and vars_:
        put(nodes[int(rng.integers(len(nodes)))], "vagain", vars_[0])
        mon.ev("graph_shared")
    if rng.random() < 0.4:
        put(nodes[int(rng.integers(len(nodes)))], "back", nodes[0])
        mon.ev("graph_cycle")
    root = nodes[0]
    for flag, only in (("default", True), ("default", False), ("other", True)):
        want = [v for v in vars_ if v.flag == flag and (v.active or not only)]
        got = get_params(root, flag=flag, only_active=only)
        flat = flatten(got)
        key = f"graph:{flag}:{only}"
        mon.check(sorted(map(id, flat.values())) == sorted(map(id, want)), f"{key}:listed", lambda: f"{len(flat)} parameters are listed ({sorted(flat)}) instead of the {len(want)} variables", flag=flag)
        for name, v in flat.items():
            mon.check(follow(root, name) is v, f"{key}:path", lambda: f"{name} does not lead to the variable listed")
        mon.check(hierarchical(flat) == got, f"{key}:hierarchical", lambda: f"hierarchical(flatten(p)) differs from p: {hierarchical(flat)} vs {got}")
        mon.ev("flat")
        if flat:
            new = {k: draw(rng, v) for k, v in flat.items()}
            pick = [str(k) for k in rng.permutation(list(new))][:int(rng.integers(1, len(new) + 1))]
            before = {id(v): v.get() for v in vars_}
            set_params(root, hierarchical({k: new[k] for k in pick}))
            for v in vars_:
                names = [k for k in pick if flat[k] is v]
                w = new[names[0]] if names else before[id(v)]
                mon.check(eq(v.get(), w), f"{key}:set", lambda: f"after setting {pick} a variable has {v.get()!r} instead of {w!r}")
    # variables themselves
    flat = flatten(get_params(root))
    if flat:
        new = {k: Real(0.25, bounds=(0, 1)) for k in flat}
        set_params(root, hierarchical(new), as_value=False)
        mon.check(all(follow(root, k) is new[k] for k in new), "graph:as_variable", "replacing the variables does not put the new variables in place")
        mon.ev("as_variable")
    mon.state("graph", len(nodes), len(vars_), str(sorted(flat)))
    mon.ev("graph")


def put(o, k, v):
    if isinstance(o, dict):
        o[k] = v
    else:
        o.__dict__[k] = v


def follow(o, path):
    for name in path.split("."):
        data = o if isinstance(o, dict) else o.__dict__
        o = data[name] if name in data else next(v for k, v in data.items() if isinstance(k, type) and k.__name__ == name)
    return o


# ---------------------------------------------------------------- algorithms
def make(name):
    spec = runs.specs_for(name)[0]
    p = probs.make(spec)
    return p, zoo.create(name, p)


def run_roundtrip(rng, mon, case):
    get_params, set_params, flatten, hierarchical = tools()
    for name in case["names"]:
        p, a = make(name)
        a = copy.deepcopy(a)        # operators given by default belong to all instances (judged by the default cases)
        base = name.split("-")[0]
        for form in ("fresh", "copied"):
            if form == "copied":
                a = copy.deepcopy(a)
            params = get_params(a)
            flat = flatten(params)
            now = values(a)
            key = f"{base}:{form}"
            mon.ev("algorithms")
            if not flat:
                mon.check(params == {}, f"{key}:empty", "no parameters but a nested structure")
                continue
            mon.check(hierarchical(flat) == params, f"{key}:hierarchical", "hierarchical(flatten(p)) differs from p")
            for k, v in flat.items():
                lo, hi = getattr(v, "strict", (None, None))
                if v.get() is not None and hasattr(v, "strict"):
                    mon.check((lo is None or v.get() >= min(lo, 0.1)) and (hi is None or v.get() <= max(hi, 1.0)), f"{key}:domain", lambda: f"the value {v.get()} of {k} is outside its strict bounds {v.strict}")
                    mon.ev("domain")
            # all at once, one by one, some of them
            for mode in ("all", "one", "some"):
                before = values(a)
                new = {k: draw(rng, v, wide=bool(rng.random() < 0.3)) for k, v in flat.items()}
                order = [str(k) for k in rng.permutation(list(new))]
                if mode == "all":
                    set_params(a, hierarchical({k: new[k] for k in order}))
                    chosen = order
                elif mode == "one":
                    chosen = order
                    so_far = dict(before)
                    for k in order:
                        set_params(a, hierarchical({k: new[k]}))
                        so_far[k] = new[k]
                        cur = values(a)
                        mon.check(same(cur, so_far), f"{key}:one", lambda: f"setting {k} to {new[k]!r} gives {[(e, cur.get(e), so_far[e]) for e in so_far if not eq(cur.get(e), so_far[e])]}")
                    mon.ev("one_by_one", len(order))
                else:
                    chosen = order[:int(rng.integers(1, len(order) + 1))]
                    set_params(a, hierarchical({k: new[k] for k in chosen}))
                    mon.ev("partial")
                want = {**before, **{k: new[k] for k in chosen}}
                cur = values(a)
                mon.check(same(cur, want), f"{key}:{mode}", lambda: f"read back {[(k, cur.get(k)) for k in want if not eq(cur.get(k), want[k])]}, written {[(k, want[k]) for k in want if not eq(cur.get(k), want[k])]}")
                mon.ev("written", len(chosen))
                mon.ev("read", len(want))
                mon.ev("others_kept", len(want) - len(chosen))
                mon.state(name, str(sorted(want.items())))
            # a copy is independent
            b = copy.deepcopy(a)
            before = values(a)
            set_params(b, hierarchical({k: draw(rng, v) for k, v in flat.items()}))
            mon.check(same(values(a), before), f"{key}:independent", "setting the parameters of a copy changes the original")
            mon.ev("independent")
            # the original of a wrapper stays as it is, unknown names are refused
            try:
                set_params(a, {"no_such_parameter": 1})
                mon.viol(f"{key}:unknown", "an unknown parameter was accepted")
            except (KeyError, AttributeError):
                mon.ev("unknown")
            except Exception as e:
                mon.viol(f"{key}:unknown", f"an unknown parameter raises {e!r}")


def record(p, a, seed, n_gen, **kw):
    """All evaluations of a run in order."""
    from pymoo.optimize import minimize
    log = []

    class Rec:
        def __call__(self, pop):
            log.append((np.array([ind.X for ind in pop], dtype=object), pop.get("F")))
    a.evaluator = copy.copy(a.evaluator)
    a.evaluator.callback = Rec()
    res = minimize(p, a, ("n_gen", n_gen), seed=seed, verbose=False, copy_algorithm=False, **kw)
    return log, res


def equal_logs(l1, l2):
    if len(l1) != len(l2):
        return False
    for (x, f), (y, g) in zip(l1, l2):
        if x.shape != y.shape or f.shape != g.shape or not np.array_equal(f, g):
            return False
        if not all(np.all(u == v) for u, v in zip(x.ravel(), y.ravel())):
            return False
    return True


SLOW = {"PINSGA2", "Optuna"}


def run_transfer(rng, mon, case):
    """The same parameters, however they got there, give the same run."""
    get_params, set_params, flatten, hierarchical = tools()
    for name in case["names"]:
        if name in SLOW:
            continue
        for _ in range(case["reps"]):
            p, a = make(name)
            flat = flatten(get_params(a))
            if not flat:
                continue
            base = name.split("-")[0]
            new = {k: draw(rng, v) for k, v in flat.items()}
            if base == "G3PCX":
                new["n_parents"] = min(new["n_parents"], 5)
            seed = int(rng.integers(1, 10 ** 6))
            algs = []
            # all at once
            _, x = make(name)
            x = copy.deepcopy(x)
            set_params(x, hierarchical(new))
            algs.append(x)
            # in another order, each from what another instance has
            _, y = make(name)
            y = copy.deepcopy(y)
            src = values(x)
            for k in rng.permutation(list(src)):
                set_params(y, hierarchical({str(k): src[str(k)]}))
            algs.append(y)
            # a copy
            algs.append(copy.deepcopy(x))
            logs = []
            for e in algs:
                try:
                    log, res = record(p, e, seed, 4)
                except Exception as ex:
                    import traceback
                    tb = traceback.extract_tb(ex.__traceback__)[-1]
                    mon.viol(f"{base}:raises", f"with parameters in their bounds {new} the run raises {ex!r} at {tb.filename.split('/')[-1]}:{tb.lineno}")
                    break
                logs.append(log)
                mon.ev("evaluations", sum(len(f) for _, f in log))
            if len(logs) < len(algs):
                continue
            for i in (1, 2):
                mon.check(equal_logs(logs[0], logs[i]), f"{base}:transfer", lambda: f"an instance given the parameters {new} in another way makes another run ({['', 'one by one from the other instance', 'copy'][i]})")
            # still readable, unless something controls them
            if "control" not in name and base != "EPPSO":
                after = values(res.algorithm)
                mon.check(all(k in after and eq(after[k], new[k]) for k in new), f"{base}:after", lambda: f"after the run the parameters are {[(k, after.get(k), new[k]) for k in new if not eq(after.get(k), new[k])]}")
                mon.ev("after_run")
            mon.state(name, str(sorted(new.items())))
            mon.ev("transfer_runs")


def constructors(rng):
    """(name, problem class, factory by values, plain factory, parameter domain)"""
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.moo.moead import MOEAD
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.crossover.expx import ExponentialCrossover
    from pymoo.operators.crossover.binx import BinomialCrossover
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.gauss import GaussianMutation
    from vlib.zoo import refs
    u = lambda lo, hi: float(rng.uniform(lo, hi))
    kind = int(rng.integers(7))
    if kind == 0:
        v = {"mating.crossover.prob": u(0, 1), "mating.crossover.prob_var": u(0.1, 0.9), "mating.crossover.eta": u(3, 30), "mating.crossover.prob_exch": u(0, 1), "mating.crossover.prob_bin": u(0, 1), "mating.mutation.prob": u(0, 1), "mating.mutation.eta": u(3, 30)}
        cls = GA if rng.random() < 0.5 else NSGA2
        f = lambda d: cls(pop_size=10, crossover=SBX(prob=d["mating.crossover.prob"], prob_var=d["mating.crossover.prob_var"], eta=d["mating.crossover.eta"], prob_exch=d["mating.crossover.prob_exch"], prob_bin=d["mating.crossover.prob_bin"]), mutation=PM(prob=d["mating.mutation.prob"], eta=d["mating.mutation.eta"]))
        return cls.__name__ + "-sbx", "mo" if cls is NSGA2 else "so", f, v, {k: w for k, w in zip(v, (0.9, 0.5, 15, 1.0, 0.5, 0.9, 20))}
    if kind == 1:
        v = {"mating.F": u(0.4, 0.7), "mating.CR": u(0.2, 0.8), "mating.selection": str(rng.choice(["rand", "best", "target-to-best"])), "mating.n_diffs": int(rng.integers(1, 3)), "mating.crossover": str(rng.choice(["bin", "exp"])), "mating.jitter": bool(rng.random() < 0.5)}
        f = lambda d: DE(pop_size=10, variant=f"DE/{d['mating.selection']}/{d['mating.n_diffs']}/{d['mating.crossover']}", F=d["mating.F"], CR=d["mating.CR"], jitter=d["mating.jitter"])
        return "DE", "so", f, v, {"mating.F": 0.5, "mating.CR": 0.2, "mating.selection": "best", "mating.n_diffs": 1, "mating.crossover": "bin", "mating.jitter": False}
    if kind == 2:
        v = {"pop_size": int(rng.integers(20, 60)), "n_offsprings": int(rng.integers(1, 11)), "n_parents": int(rng.integers(3, 11)), "family_size": int(rng.integers(1, 11))}
        f = lambda d: G3PCX(**d)
        return "G3PCX", "so", f, v, {"pop_size": 30, "n_offsprings": 2, "n_parents": 3, "family_size": 2}
    if kind == 3:
        v = {"mating.crossover.bias": u(0.1, 0.9)}
        f = lambda d: BRKGA(n_elites=4, n_offsprings=8, n_mutants=3, bias=d["mating.crossover.bias"])
        return "BRKGA", "so", f, v, {"mating.crossover.bias": 0.7}
    if kind == 4:
        v = {"selection.prob": u(0, 1)}
        f = lambda d: MOEAD(ref_dirs=refs(2, 10), n_neighbors=4, prob_neighbor_mating=d["selection.prob"])
        return "MOEAD", "mo", f, v, {"selection.prob": 0.9}
    if kind == 5:
        v = {"mating.crossover.prob": u(0, 1), "mating.crossover.prob_exp": u(0, 1), "mating.mutation.prob": u(0, 1), "mating.mutation.sigma": u(0, 1), "mating.mutation.prob_var": u(0, 1)}
        f = lambda d: GA(pop_size=10, crossover=ExponentialCrossover(prob=d["mating.crossover.prob"], prob_exp=d["mating.crossover.prob_exp"]), mutation=GaussianMutation(prob=d["mating.mutation.prob"], sigma=d["mating.mutation.sigma"], prob_var=d["mating.mutation.prob_var"]))
        return "GA-exp", "so", f, v, {k: 0.3 for k in v}
    v = {"mating.crossover.prob": u(0, 1), "mating.crossover.eta": u(0.01, 0.3), "mating.crossover.zeta": u(0.01, 0.3)} if rng.random() < 0.5 else {"mating.crossover.prob": u(0, 1), "mating.crossover.bias": u(0, 1)}
    cx = (lambda d: PCX(prob=d["mating.crossover.prob"], eta=d["mating.crossover.eta"], zeta=d["mating.crossover.zeta"])) if len(v) == 3 else (lambda d: BinomialCrossover(bias=d["mating.crossover.bias"], prob=d["mating.crossover.prob"]))
    f = lambda d: GA(pop_size=10, crossover=cx(d), mutation=PM())
    return "GA-pcx" if len(v) == 3 else "GA-bx", "so", f, v, {k: 0.2 for k in v}


def run_constructor(rng, mon):
    """Setting a parameter has the effect of constructing with its value."""
    get_params, set_params, flatten, hierarchical = tools()
    name, kind, f, v, plain = constructors(rng)
    spec = (runs.SO_SPECS if kind == "so" else [s for s in runs.MO_SPECS if s["n_obj"] == 2])[0]
    p = probs.make(spec)
    seed = int(rng.integers(1, 10 ** 6))
    a, b = f(v), f(plain)
    have = values(a)
    mon.check(all(k in have and eq(have[k], v[k]) for k in v), f"constructor:{name}:listed", lambda: f"constructed with {v}, listed are {have}")
    b = copy.deepcopy(b)
    set_params(b, hierarchical({str(k): v[str(k)] for k in rng.permutation(list(v))}))
    try:
        l1, _ = record(p, a, seed, 5)
        l2, _ = record(p, b, seed, 5)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        mon.viol(f"constructor:{name}:raises", f"a run with {v} raises {e!r} at {tb.filename.split('/')[-1]}:{tb.lineno}")
        return
    mon.check(equal_logs(l1, l2), f"constructor:{name}", lambda: f"constructing with {v} and setting these values give different runs")
    mon.ev("evaluations", sum(len(g) for _, g in l1 + l2))
    mon.state(name, str(sorted(v.items())))
    mon.ev("constructor")


def run_default(rng, mon, case):
    """Instances made with the defaults have their own parameters."""
    get_params, set_params, flatten, hierarchical = tools()
    from vlib.zoo import refs
    import importlib
    W = refs(2, 10)
    make_ = {}
    for n, mod, cls, kw in [("GA", "soo.nonconvex.ga", "GA", {}), ("DE", "soo.nonconvex.de", "DE", {}), ("G3PCX", "soo.nonconvex.g3pcx", "G3PCX", {}), ("BRKGA", "soo.nonconvex.brkga", "BRKGA", {}), ("NSGA2", "moo.nsga2", "NSGA2", {}), ("RNSGA2", "moo.rnsga2", "RNSGA2", dict(ref_points=np.array([[0.5, 0.5]]))),
                            ("NSGA3", "moo.nsga3", "NSGA3", dict(ref_dirs=W)), ("UNSGA3", "moo.unsga3", "UNSGA3", dict(ref_dirs=W)), ("MOEAD", "moo.moead", "MOEAD", dict(ref_dirs=W)), ("AGEMOEA", "moo.age", "AGEMOEA", {}), ("AGEMOEA2", "moo.age2", "AGEMOEA2", {}),
                            ("CTAEA", "moo.ctaea", "CTAEA", dict(ref_dirs=W)), ("SMSEMOA", "moo.sms", "SMSEMOA", {}), ("RVEA", "moo.rvea", "RVEA", dict(ref_dirs=W)), ("SPEA2", "moo.spea2", "SPEA2", {}), ("CMOPSO", "moo.cmopso", "CMOPSO", {}), ("NicheGA", "soo.nonconvex.ga_niching", "NicheGA", {}),
                            ("EPPSO", "soo.nonconvex.pso_ep", "EPPSO", {})]:
        make_[n] = (lambda mod=mod, cls=cls, kw=kw: getattr(importlib.import_module("pymoo.algorithms." + mod), cls)(**kw))
    from pymoo.core.mixed import MixedVariableGA
    make_["MixedVariableGA"] = MixedVariableGA
    for n, f in list(make_.items())[case["part"]::4]:
        a, b = f(), f()
        va, vb = flatten(get_params(a)), flatten(get_params(b))
        shared = [k for k in va if va[k] is vb.get(k)]
        # the values as they are are written back: nothing else in this process sees other defaults
        mon.check(not shared, f"shared:{n}", lambda: f"two instances created with the defaults share {len(shared)} parameters ({shared[:3]}...): setting one for the first changes the second")
        mon.ev("independent")


# ---------------------------------------------------------------- hyper-parameters
def run_hyper(rng, mon):
    get_params, set_params, flatten, hierarchical = tools()
    from pymoo.algorithms.hyperparameters import HyperparameterProblem, SingleObjectiveSingleRun
    from pymoo.core.mixed import MixedVariableGA
    from pymoo.optimize import minimize
    name, kind, f, v, plain = constructors(rng)
    while kind != "so":
        name, kind, f, v, plain = constructors(rng)
    cons = bool(rng.random() < 0.4)
    spec = runs.SO_CONS[int(rng.choice([0, 3]))] if cons else runs.SO_SPECS[int(rng.integers(2))]
    p = probs.make(spec)
    alg = f(plain)
    if rng.random() < 0.5:
        # some values are given as they are
        p0 = flatten(get_params(alg))
        keep = list(p0)[0]
    before = values(alg)
    seed, gens = int(rng.integers(1, 10 ** 6)), 3
    direct = SingleObjectiveSingleRun(p, termination=("n_gen", gens), seed=seed, verbose=False)
    seen = []

    def perf(a):
        seen.append((a, values(a)))
        return direct(a)
    kw = dict(n_ieq_constr=p.n_ieq_constr, n_eq_constr=p.n_eq_constr) if cons else {}
    h = HyperparameterProblem(alg, perf, **kw)
    key = f"hyper:{name}" + (":constr" if cons else "")
    flat = flatten(get_params(alg))
    mon.check(set(h.vars) == set(flat) and all(h.vars[k] is flat[k] for k in flat), f"{key}:vars", lambda: f"the variables are {sorted(h.vars)}, the parameters {sorted(flat)}")
    for _ in range(2):
        x = {k: draw(rng, w) for k, w in flat.items()}
        if name == "G3PCX":
            x["pop_size"] = min(x["pop_size"], 40)
        seen.clear()
        try:
            out = h.evaluate(x, return_values_of=["F", "G", "H"], return_as_dictionary=True)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            mon.viol(f"{key}:raises", f"evaluating {x} raises {e!r} at {tb.filename.split('/')[-1]}:{tb.lineno}")
            return
        mon.check(len(seen) == 1 and same(seen[0][1], x), f"{key}:values", lambda: f"proposed {x}, the evaluated algorithm has {[s[1] for s in seen]}")
        mon.check(seen and seen[0][0] is not alg, f"{key}:copy", "the algorithm itself was evaluated instead of a copy")
        mon.check(same(values(alg), before), f"{key}:original", lambda: f"the algorithm now has {values(alg)} instead of {before}")
        mon.ev("hyper_values")
        mon.ev("hyper_original")
        own = copy.deepcopy(alg)
        set_params(own, hierarchical(x))
        res = minimize(p, own, ("n_gen", gens), seed=seed, verbose=False, return_least_infeasible=True)
        best = res.opt[0]
        mon.check(np.allclose(out["F"], best.F, rtol=1e-12), f"{key}:F", lambda: f"the performance is {out['F']}, running the algorithm gives {best.F}")
        if cons:
            mon.check(np.allclose(out["G"], best.G, rtol=1e-12) and np.allclose(out["H"], best.H, rtol=1e-12), f"{key}:G", lambda: f"the constraints are {out['G']}, {out['H']}, running the algorithm gives {best.G}, {best.H}")
            if best.CV[0] > 0:
                mon.ev("hyper_infeasible")
        mon.ev("hyper")
    mon.state(name, str(sorted(x.items())), cons)
    # optimising them: every proposal is within its domain and the reported one is what was evaluated
    seen.clear()
    if name == "G3PCX" or rng.random() < 0.4:
        return
    try:
        res = minimize(h, MixedVariableGA(pop_size=4), ("n_eval", 8), seed=seed, verbose=False, return_least_infeasible=True)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        mon.viol(f"{key}:raises", f"optimising the parameters raises {e!r} at {tb.filename.split('/')[-1]}:{tb.lineno}")
        return
    mon.check(len(seen) == 8, f"{key}:count", lambda: f"{len(seen)} evaluations instead of 8")
    for _, w in seen:
        for k, val in w.items():
            va = flat[k]
            ok = val in va.options if hasattr(va, "options") else va.lb <= val <= va.ub
            mon.check(ok, f"{key}:domain", lambda: f"{k} = {val!r} was proposed outside of its domain")
    same_ = lambda w: all((w[k] == res.X[k]) for k in w)
    mon.check(any(same_(w) for _, w in seen), f"{key}:best", "the reported parameters were not evaluated")
    own = copy.deepcopy(alg)
    set_params(own, hierarchical(res.X))
    r = minimize(p, own, ("n_gen", gens), seed=seed, verbose=False, return_least_infeasible=True)
    mon.check(np.allclose(r.opt[0].F, res.F, rtol=1e-12), f"{key}:reported", lambda: f"the reported parameters give {r.opt[0].F}, reported was {res.F}")
    mon.check(same(values(alg), before), f"{key}:original", "the algorithm's parameters changed while being optimised")
    mon.ev("hyper_optimised")


def run_multi(rng, mon):
    from pymoo.algorithms.hyperparameters import HyperparameterProblem, MultiRun, stats_avg_nevals, stats_single_objective_mean
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.core.termination import TerminateIfAny
    from pymoo.optimize import minimize
    from pymoo.termination.fmin import MinimumFunctionValueTermination
    from pymoo.termination.max_eval import MaximumFunctionCallTermination
    p = probs.make(runs.SO_SPECS[0])
    alg = DE(pop_size=10)
    seeds = [int(e) for e in rng.integers(1, 10 ** 6, size=int(rng.integers(1, 4)))]
    mean = bool(rng.random() < 0.5)
    term = ("n_gen", 3) if mean else TerminateIfAny(MinimumFunctionValueTermination(float(rng.choice([1e-2, 0.1, 1e-9]))), MaximumFunctionCallTermination(60))
    if rng.random() < 0.3:
        k = len(seeds)
        m1, m2 = (MultiRun(p, n_runs=k, seed=5, termination=term, func_stats=stats_single_objective_mean if mean else stats_avg_nevals) for _ in range(2)) if rng.random() < 0.0 else (MultiRun(p, n_runs=k, random_state=np.random.default_rng(5), termination=term, func_stats=stats_single_objective_mean if mean else stats_avg_nevals) for _ in range(2))
        mon.check(len(m1.seeds) == k and list(m1.seeds) == list(m2.seeds), "multi:seeds", lambda: f"{k} runs requested, seeds {list(m1.seeds)} and {list(m2.seeds)} from the same random state")
        perf, seeds = m1, [int(e) for e in m1.seeds]
    else:
        perf = MultiRun(p, seeds=list(seeds), termination=term, func_stats=stats_single_objective_mean if mean else stats_avg_nevals)
    h = HyperparameterProblem(alg, perf)
    x = {"mating.F": float(rng.uniform(0.4, 0.7)), "mating.CR": float(rng.uniform(0.2, 0.8)), "mating.selection": str(rng.choice(["rand", "best"])), "mating.n_diffs": 1, "mating.crossover": "bin", "mating.jitter": False}
    try:
        out = h.evaluate(x, return_values_of=["F"], return_as_dictionary=True)
    except Exception as e:
        mon.viol("multi:raises", f"evaluating raises {e!r}")
        return
    F = []
    for s in seeds:
        own = DE(pop_size=10, variant=f"DE/{x['mating.selection']}/1/bin", F=x["mating.F"], CR=x["mating.CR"])
        r = minimize(p, own, copy.deepcopy(term), seed=s, verbose=False)
        F.append(float(r.F[0]) if mean else float(r.algorithm.evaluator.n_eval))
    got = float(np.ravel(out["F"])[0])
    mon.check(np.isclose(got, np.mean(F), rtol=1e-12), "multi:mean" if mean else "multi:n_evals", lambda: f"the performance over seeds {seeds} is {got}, the runs give {F}")
    mon.state("multi", str(seeds), got)
    mon.ev("multi" if mean else "multi_evals")


# ---------------------------------------------------------------- parameter control
def run_control(rng, mon):
    """Controlled operators write what they use into the solutions."""
    from pymoo.algorithms.soo.nonconvex.ga import GA, comp_by_cv_and_fitness
    from pymoo.core.crossover import Crossover
    from pymoo.core.duplicate import NoDuplicateElimination
    from pymoo.core.mutation import Mutation
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Real, Integer, Choice, get
    from pymoo.operators.control import EvolutionaryParameterControl, ParameterControlMating, RandomParameterControl
    from pymoo.operators.selection.tournament import TournamentSelection
    n_off, n_par = int(rng.integers(1, 4)), int(rng.integers(2, 4))
    opts = [0.25, 0.5, 0.75]

    class Cx(Crossover):
        def __init__(self):
            super().__init__(n_par, n_off, prob=1.0)
            self.prob.active = False
            self.p = Real(0.5, bounds=(0.2, 0.8))
            self.c = Choice(0.5, options=opts)

        def _do(self, problem, X, random_state=None, **kwargs):
            _, n, d = X.shape
            p, c = get(self.p, self.c, size=n)
            Q = random_state.random((n_off, n, d))
            Q[:, :, 0] = p[None, :]
            Q[:, :, 1] = c[None, :].astype(float)
            return Q

    class Mu(Mutation):
        def __init__(self):
            super().__init__(prob=1.0)
            self.prob.active = False
            self.q = Real(0.5, bounds=(0.0, 1.0))
            self.k = Integer(2, bounds=(1, 9))

        def _do(self, problem, X, random_state=None, **kwargs):
            X = X.copy()
            q, k = get(self.q, self.k, size=len(X))
            X[:, 2], X[:, 3] = q, k / 10
            return X
    which = str(rng.choice(["random", "evo"]))
    ctl = RandomParameterControl if which == "random" else EvolutionaryParameterControl
    mating = ParameterControlMating(TournamentSelection(func_comp=comp_by_cv_and_fitness), Cx(), Mu(), control=ctl, eliminate_duplicates=NoDuplicateElimination())
    n = int(rng.integers(4, 15))
    noff = int(rng.integers(1, n + 4))

    class P(Problem):
        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = np.sum((X - 0.3) ** 2, axis=1)
    a = GA(pop_size=n, n_offsprings=noff, mating=mating, eliminate_duplicates=False)
    a.setup(P(n_var=5, xl=0, xu=1), termination=("n_gen", 5), seed=int(rng.integers(1, 10 ** 6)), verbose=False)
    names = {"crossover.p": (0, lambda v: float(v)), "crossover.c": (1, lambda v: float(v)), "mutation.q": (2, lambda v: float(v)), "mutation.k": (3, lambda v: float(v) / 10)}
    a.evaluator.eval  # the solutions are evaluated by the usual loop
    gen = 0
    while a.has_next():
        infills = a.ask()
        if gen > 0:
            for ind in infills:
                for nm, (j, g) in names.items():
                    v = ind.get("ParameterControl." + nm)
                    if not mon.check(v is not None and np.ndim(v) == 0, f"control:{which}:attached", lambda: f"{nm} attached to a solution is {v!r}"):
                        return
                    mon.check(abs(g(v) - ind.X[j]) < 1e-12, f"control:{which}:{nm}", lambda: f"the solution says {nm} = {v!r}, the operator used {ind.X[j]} (offspring per mating {n_off}, {noff} requested)")
                    ok = {"crossover.p": lambda: 0.2 <= v <= 0.8, "crossover.c": lambda: v in opts, "mutation.q": lambda: 0 <= v <= 1, "mutation.k": lambda: v == int(v) and 1 <= v <= 9}[nm]()
                    mon.check(ok, f"control:{which}:domain", lambda: f"{nm} = {v!r} is outside its domain")
                    mon.ev("control_values")
            mon.check(len(infills) == noff, f"control:{which}:count", lambda: f"{len(infills)} offspring instead of {noff}")
        a.evaluator.eval(a.problem, infills)
        a.tell(infills=infills)
        gen += 1
    mon.state(which, n, noff, n_off, n_par)
    mon.ev("control_" + which)
    mon.ev("control_runs")
