"""C09: a run can be copied, stored and resumed at any iteration; runs do not leak into each other."""
import copy
import io
import numpy as np
from vlib import obs, probs, runs, trace, zoo

RULE = ("a run is interrupted after a random number of steps by copy.deepcopy or dill (the documented ways); the copy and the original are continued - one after the other or step by step in turns - and both must behave exactly "
        "as the uninterrupted run; resume: a finished run is stored, loaded, given a longer termination and continued; pair: two runs of separate objects are stepped in turns and compared with "
        "running each alone; bystander: an algorithm object that takes no part in a (displayed) run is compared with a picture of it taken before; reuse: algorithm, termination and callback objects handed to minimize are used again and must not have changed; distinct states are (algorithm, mode, step, last vector)")
REQUIRED = ["copies", "dills", "continued_iterations", "interleaved_pairs", "resumed", "reused", "bystander_iterations"]
ASSUMPTIONS = ["the problem object can be copied and stored"]
TIMEOUT = {"quick": 300, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 109])
    # the listed finding is always tried
    out = [dict(kind="copy", algo="CMAES", spec=dict(cls="SO", n_var=4, bounds="unit", where="inside", fn="sphere"), seed=5, pop=12, n_gen=8, at=3, how=h, order="copy", archive=False) for h in ("deepcopy", "dill")]
    for rep in range(1 if tier == "quick" else 4):
        for name, spec in runs.combos(rng, 2 if tier == "quick" else 14):
            n_gen = int(rng.choice([4, 8, 12]))
            base = dict(algo=name, spec=spec, seed=int(rng.integers(0, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=n_gen)
            out.append(dict(base, kind="copy", at=int(rng.integers(0, n_gen + 1)), how=str(rng.choice(["deepcopy", "dill"])), order=str(rng.choice(["copy", "orig", "turns"])), archive=bool(rng.random() < 0.25)))
            out.append(dict(base, kind="resume", at=int(rng.integers(1, n_gen)), how=str(rng.choice(["deepcopy", "dill", "dill", "same"])), archive=bool(rng.random() < 0.25)))
            out.append(dict(base, kind="pair", seed2=int(rng.integers(0, 10 ** 6)), same_problem=bool(rng.random() < 0.5)))
            out.append(dict(base, kind="reuse"))
            out.append(dict(base, kind="bystander", verbose=bool(rng.random() < 0.7)))
    return out


def make(case, seed=None, prob=None):
    from pymoo.util.archive import Archive, MultiObjectiveArchive, SingleObjectiveArchive
    from pymoo.core.mixed import MixedVariableDuplicateElimination
    if prob is None:
        prob = probs.make(case["spec"])
    alg = zoo.create(case["algo"], prob, case["pop"])
    kw = {}
    if case.get("archive"):
        de = dict(duplicate_elimination=MixedVariableDuplicateElimination()) if case["spec"]["cls"] == "Mixed" else {}
        kw["archive"] = (MultiObjectiveArchive if prob.n_obj > 1 else SingleObjectiveArchive)(**({"max_size": 6} if prob.n_obj > 1 else {}), **de)
    obs.setup(prob, alg, dict(case, seed=case["seed"] if seed is None else seed), **kw)
    return prob, alg


def state(alg):
    s = trace.snapshot(alg)
    a = getattr(alg, "archive", None)
    if a is not None:
        s["archive"] = [trace.row(i.X) for i in a]
    return s


def step(alg):
    """One iteration; False at the end."""
    last = alg.n_iter
    for _ in range(3000):
        if not alg.has_next():
            return False
        alg.next()
        if alg.n_iter != last:
            return True
    return False


def rest(alg, prob=None):
    out = []
    while step(alg):
        out.append(state(alg))
    return out


def clone(alg, how):
    if how == "deepcopy":
        return copy.deepcopy(alg)
    import dill
    return dill.loads(dill.dumps(alg))


def run(case, mon):
    return globals()["run_" + case["kind"]](case, mon)


def run_copy(case, mon):
    name = case["algo"]
    prob, alg = make(case)
    ref = rest(alg)
    ref_rows = [trace.row(x) for x in prob.log.rows]
    ref_res = trace.result(alg.result())

    prob, alg = make(case)
    for _ in range(case["at"]):
        if not step(alg):
            break
    pre = len(prob.log.rows)
    k = len(ref) if not alg.has_next() else (alg.n_iter or 1) - 1
    other = clone(alg, case["how"])
    mon.ev({"deepcopy": "copies", "dill": "dills"}[case["how"]])
    oprob = other.problem
    A, B = [], []
    if case["order"] == "copy":
        B = rest(other); A = rest(alg)
    elif case["order"] == "orig":
        A = rest(alg); B = rest(other)
    else:
        while True:
            a, b = step(alg), step(other)
            if a:
                A.append(state(alg))
            if b:
                B.append(state(other))
            if not a and not b:
                break
    for what, S, al in (("original", A, alg), ("copy", B, other)):
        mon.ev("continued_iterations", len(S))
        d = trace.first_difference(ref[k:], S, "iteration")
        mon.check(d is None, f"continue:{what}:{case['how']}:{name}", f"the {what} ({case['how']} after {case['at']} iterations, order {case['order']}) does not continue as the uninterrupted run: {d}")
        d = trace.first_difference(ref_res, trace.result(al.result()), "result")
        mon.check(d is None, f"final:{what}:{case['how']}:{name}", f"the {what} ends with another result: {d}")
    mon.state(name, case["how"], case["at"], repr(ref_rows[-1:]))
    mon.note(algorithm=name, how=case["how"], at=case["at"], continued=len(A))


def run_resume(case, mon):
    from pymoo.optimize import minimize
    from pymoo.termination.max_gen import MaximumGenerationTermination
    name = case["algo"]
    prob, alg = make(case)
    ref = rest(alg)
    ref_res = trace.result(alg.result())
    if len(ref) < case["at"]:
        return
    prob, alg = make(dict(case, n_gen=case["at"]))
    if name in ("CMAES", "CMAES-serial"):
        return            # reads the termination when it is set up
    rest(alg)
    if case["how"] != "same":
        alg = clone(alg, case["how"])
    if name.startswith("RVEA"):
        return            # depends on the planned number of generations
    before = alg.evaluator.n_eval
    alg.termination = MaximumGenerationTermination(case["n_gen"])
    if alg.is_initialized and case["seed"] % 2:
        res = minimize(alg.problem, alg, copy_algorithm=False)
    else:
        res = alg.run()
    mon.ev("resumed")
    if name.split("+")[0] in RELATIVE:
        mon.check(alg.evaluator.n_eval > before or len(ref) == case["at"], f"resume:{name}", "the resumed run did nothing")
        return
    d = trace.first_difference(ref_res, trace.result(res), "result")
    mon.check(d is None, f"resume:{case['how']}:{name}", f"a run resumed at generation {case['at']} and continued to {case['n_gen']} differs from the uninterrupted one: {d}")
    if ref:
        d = trace.first_difference(ref[-1], state(alg), "state")
        mon.check(d is None, f"resume-state:{case['how']}:{name}", f"a run resumed at generation {case['at']} ends in another state: {d}")
    mon.state(name, "resume", case["at"], repr(ref_res))


# the course of these depends on the planned end of the run
RELATIVE = {"RVEA", "OmniOptimizer", "EpsDE", "EpsGA"}


def run_pair(case, mon):
    name = case["algo"]
    c1, c2 = case["seed"], case["seed2"]
    alone = []
    for s in (c1, c2):
        prob, alg = make(case, seed=s)
        alone.append((rest(alg), trace.result(alg.result())))
    p1, a1 = make(case, seed=c1)
    p2, a2 = make(case, seed=c2, prob=p1 if case["same_problem"] else None)
    T = [[], []]
    live = [True, True]
    rng = np.random.default_rng(case["seed2"])
    while any(live):
        j = int(rng.integers(2))
        if not live[j]:
            j = 1 - j
        a = (a1, a2)[j]
        live[j] = step(a)
        if live[j]:
            T[j].append(state(a))
    mon.ev("interleaved_pairs")
    for j in (0, 1):
        d = trace.first_difference(alone[j][0], T[j], "iteration") or trace.first_difference(alone[j][1], trace.result((a1, a2)[j].result()), "result")
        mon.check(d is None, f"leak:{name}", f"two runs stepped in turns influence each other: run {j} {d}")
    mon.state(name, "pair", c1, c2)


def run_bystander(case, mon):
    """A run (also one that displays its progress) leaves the other algorithm objects of the process alone."""
    import contextlib
    name = case["algo"]
    prob = probs.make(case["spec"])
    idle = zoo.create(name, prob, case["pop"])
    before = frozen(idle)
    S = runs.specs_for(name)
    for k, spec in enumerate((case["spec"], S[case["seed"] % len(S)])):
        p = probs.make(spec)
        alg = zoo.create(name, p, case["pop"])
        obs.setup(p, alg, dict(case, n_gen=3), verbose=case["verbose"])
        with contextlib.redirect_stdout(io.StringIO()):
            while step(alg):
                mon.ev("bystander_iterations")
        mon.check(frozen(idle) == before, f"bystander:{name}", "a run changed another algorithm object that took no part in it")
    mon.state(name, "bystander", case["seed"])


def run_reuse(case, mon):
    """Objects handed to minimize are not used up by it."""
    from pymoo.optimize import minimize
    from pymoo.termination import get_termination
    name = case["algo"]
    rng = np.random.default_rng(case["seed"])
    prob = probs.make(case["spec"])
    alg = zoo.create(name, prob, case["pop"])
    before = frozen(alg)
    from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
    from pymoo.core.termination import Termination
    T = [get_termination("n_gen", case["n_gen"]), get_termination("n_eval", case["n_gen"] * case["pop"]),
         (DefaultMultiObjectiveTermination if prob.n_obj > 1 else DefaultSingleObjectiveTermination)(n_max_gen=case["n_gen"])][int(rng.integers(3))]
    if name.startswith("RVEA"):
        T = get_termination("n_gen", case["n_gen"])
    if case["spec"]["cls"] == "Mixed":
        T = get_termination("n_gen", case["n_gen"])
    tb = frozen(T)
    pb = frozen({k: v for k, v in prob.__dict__.items() if k != "log"})
    R, traces = [], []
    for k in range(3):
        del prob.log.rows[:]
        R.append(trace.result(minimize(prob, alg, T, seed=case["seed"])))
        traces.append([trace.row(x) for x in prob.log.rows])
        mon.ev("reused")
        d = trace.first_difference(R[0], R[k], "result") or trace.first_difference(traces[0], traces[k], "evaluated")
        mon.check(d is None, f"reuse:{name}", f"run {k + 1} with the same objects differs from the first: {d}")
        if k == 0:
            # a run of another object of the same class, on another problem, in between
            S = runs.specs_for(name)
            prob2 = probs.make(S[case["seed"] % len(S)])
            minimize(prob2, zoo.create(name, prob2, case["pop"] + 3), ("n_gen", 2), seed=3)
    mon.check(frozen(alg) == before, f"algorithm-changed:{name}", "the algorithm object handed to minimize was changed by it")
    mon.check(frozen(T) == tb, f"termination-changed:{type(T).__name__}", "the termination object handed to minimize was changed by it")
    mon.check(frozen({k: v for k, v in prob.__dict__.items() if k != "log"}) == pb, f"problem-changed:{name}", "the problem was changed")
    mon.state(name, "reuse", repr(R[0]))


def frozen(o, depth=0, seen=None):
    """A structural picture of an object graph that can be compared."""
    seen = {} if seen is None else seen
    if isinstance(o, (int, float, str, bool, bytes, type(None), type)):
        return repr(o)
    if id(o) in seen:
        return "@" + str(seen[id(o)][0])
    seen[id(o)] = (len(seen), o)         # keeps the object alive, so that its id stays its own
    if depth > 12:
        return "..."
    if isinstance(o, np.ndarray):
        x = ("A", o.shape, str(o.dtype), repr(o.tolist()) if o.dtype != object else tuple(frozen(v, depth + 1, seen) for v in o.ravel()))
        d = getattr(o, "__dict__", None)
        return x + ((frozen(d, depth + 1, seen),) if d else ())
    if isinstance(o, np.random.Generator):
        return repr(o.bit_generator.state)
    if isinstance(o, dict):
        return ("D",) + tuple((repr(k), frozen(v, depth + 1, seen)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(frozen(v, depth + 1, seen) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("S",) + tuple(sorted(repr(v) for v in o))
    if callable(o) and not hasattr(o, "__dict__"):
        return str(type(o))
    if hasattr(o, "__dict__") and not callable(o) or hasattr(o, "__call__") and type(o).__module__.startswith("pymoo"):
        return (type(o).__name__, frozen(o.__dict__, depth + 1, seen))
    return str(type(o))
