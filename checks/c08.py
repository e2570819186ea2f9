"""C08: minimize, step by step, and ask-and-tell are the same run; looking at it does not change it."""
import contextlib
import io
import copy
import numpy as np
from vlib import obs, probs, runs, trace, zoo

RULE = ("one configuration is driven through minimize (baseline) and through the other interfaces - run(), the next() loop, ask/evaluate/tell with the evaluator, ask/tell with values the user computed, "
        "minimize with history, callback, display, progress bar, without copying - and the sequence of evaluated vectors, every population and optimum, and the result are compared; "
        "distinct states are (algorithm, interface, number of evaluations, last vector)")
REQUIRED = ["baselines", "interface_pairs", "vectors_compared", "iterations_compared", "mode:asktell", "mode:user", "mode:next", "mode:history", "mode:peek", "mode:verbose", "mode:nocopy", "mode:again"]
ASSUMPTIONS = ["an algorithm that ends itself is stopped at the same point through every interface"]
TIMEOUT = {"quick": 300, "thorough": 900}
MODES = ["next", "run", "asktell", "user", "history", "callback", "verbose", "peek", "nocopy", "again", "attr", "progress"]


 
def cases(tier, seed):
    rng = np.random.default_rng([seed, 108])
    out = []
    for rep in range(1 if tier == "quick" else 4):
        for name, spec in runs.combos(rng, 2 if tier == "quick" else 14):
            m = list(rng.permutation([x for x in MODES if x != "progress"])[:5 if tier == "quick" else 11])
            if rng.random() < 0.05:
                m.append("progress")
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(0, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=int(rng.choice([1, 3, 6, 10])),
                            modes=[str(x) for x in m], term=str(rng.choice(["n_gen", "n_gen", "n_eval", "tuple", "fmin"]))))
    return out


def term_of(case):
    from pymoo.termination import get_termination
    if case["term"] == "n_eval" and not case["algo"].startswith("RVEA"):
        return get_termination("n_eval", case["pop"] * case["n_gen"])
    if case["term"] == "tuple":
        return ("n_gen", case["n_gen"])
    return get_termination("n_gen", case["n_gen"])


class Recorder:
    """Snapshots after every completed iteration, taken from the outside (no callback is installed)."""

    def __init__(self, alg):
        self.alg, self.last, self.snaps = alg, alg.n_iter, []

    def look(self):
        if self.alg.n_iter != self.last:
            self.last = self.alg.n_iter
            self.snaps.append(trace.snapshot(self.alg))


def drive(case, mode):
    """Returns rows, snapshots (None if the interface does not allow to look), result, n_eval."""
    from pymoo.optimize import minimize
    from pymoo.core.callback import Callback
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from pymoo.problems.static import StaticProblem
    prob, alg = obs.build(case)
    seed, term = case["seed"], term_of(case)
    rows = lambda: [trace.row(x) for x in prob.log.rows]
    sink = io.StringIO()
    if mode in ("minimize", "history", "callback", "verbose", "nocopy", "progress", "again", "attr"):
        snaps = []

        class CB(Callback):
            def update(self, a):
                snaps.append(trace.snapshot(a))
                a.opt.get("X", "F"), a.pop.get("CV")
        kw = {}
        if mode == "history":
            kw["save_history"] = True
        if mode == "callback":
            kw["callback"] = CB()
        if mode == "verbose":
            kw["verbose"] = True
        if mode == "progress":
            kw["progress"] = True
        if mode == "nocopy":
            kw["copy_algorithm"] = False
        if mode == "attr":        # the options may also be given as attributes of the algorithm
            alg.seed, alg.termination = seed, None
        if mode == "again":       # the algorithm object has been used before
            minimize(prob, alg, ("n_gen", 2), seed=seed + 5)
            del prob.log.rows[:]
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            res = minimize(prob, alg, term, **({} if mode == "attr" else dict(seed=seed)), **kw)
        a = res.algorithm
        r, n_eval = rows(), a.evaluator.n_eval
        S = None
        if mode == "history":
            S = []
            for h in res.history:
                s = trace.snapshot(h)
                s["n_iter"] += 1       # the snapshot is taken before the counter is increased
                S.append(s)
        if mode == "callback":
            S = [dict(s, n_iter=s["n_iter"] + 1) for s in snaps]
        return r, S, trace.result(res), n_eval

    alg.setup(prob, termination=term, seed=seed)
    rec = Recorder(alg)
    if mode == "run":
        res = alg.run()
        return rows(), None, trace.result(res), alg.evaluator.n_eval
    k = 0
    while alg.has_next() and k < 100000:
        k += 1
        if mode in ("next", "peek"):
            alg.next()
            if mode == "peek" and alg.opt is not None:
                r = alg.result()
                alg.has_next(); alg.termination.has_terminated()
                repr(alg.pop.get("X", "F", "CV", "feas")); alg.termination.progress if hasattr(alg.termination, "progress") else None
                if k % 3 == 0:
                    alg.pop.get("F").sum()
                    alg.opt.new()
        else:
            infills = alg.ask()
            if infills is None:
                alg.tell()
            elif mode == "asktell":
                alg.evaluator.eval(prob, infills, algorithm=alg)
                alg.tell(infills=infills)
            else:
                from pymoo.core.individual import Individual
                new = [i for i in ([infills] if isinstance(infills, Individual) else infills) if not obs.is_evaluated(i)]
                if new:
                    prob.log.add([i.X for i in new])
                    Evaluator().eval(StaticProblem(prob, **prob.truth([i.X for i in new])), Population.create(*new))
                alg.tell(infills=infills)
        rec.look()
    return rows(), rec.snaps, trace.result(alg.result()), alg.evaluator.n_eval


def run(case, mon):
    name = case["algo"]
    base = drive(case, "minimize")
    ref = drive(case, "next")
    mon.ev("baselines")
    todo = [("next", ref)]
    for m in case["modes"]:
        if m == "next":
            continue
        if m == "user" and (case["term"] == "n_eval" or name in USER_SKIP):
            continue
        todo.append((m, None))
    for m, got in todo:
        r, S, res, n = got if got is not None else drive(case, m)
        mon.ev("interface_pairs"); mon.ev("mode:" + m)
        mon.ev("vectors_compared", min(len(r), len(base[0])))
        d = trace.first_difference(base[0], r, "evaluated")
        mon.check(d is None, f"evaluations:{m}:{name}", f"minimize and '{m}' evaluate different vectors: {d}")
        if S is not None and m != "next":
            A = ref[1]
            if m == "user":
                A, S = [dict(s, n_eval=0) for s in A], [dict(s, n_eval=0) for s in S]
            mon.ev("iterations_compared", min(len(S), len(A)))
            d = trace.first_difference(A, S, "iteration")
            mon.check(d is None, f"iterations:{m}:{name}", f"'next' and '{m}' go through different states: {d}")
        d = trace.first_difference(base[2], res, "result")
        mon.check(d is None, f"result:{m}:{name}", f"minimize and '{m}' return different results: {d}")
        if m != "user":
            mon.check(n == base[3], f"n_eval:{m}:{name}", f"minimize counts {base[3]} evaluations, '{m}' {n}")
        mon.state(name, m, len(r), repr(r[-1:]))
    mon.note(algorithm=name, modes=[m for m, _ in todo], evaluations=base[3], last=base[0][-1] if base[0] else None)


# evaluates inside its own setup or steps, so the user cannot supply all values
USER_SKIP = set()
