"""C10: callbacks, history, stamps and the displayed lines report each iteration once and in order."""
import contextlib
import io
import re
import numpy as np
from vlib import obs, probs, runs, trace, zoo

RULE = ("runs with a recording callback (as class with notify/update/__call__, as plain function, in a collection), a saved history and captured display output; the callback sequence, the log of the problem, "
        "the history - compared when it was taken and again at the end - the iteration stamps of new solutions and the printed lines and columns must tell the same story; "
        "distinct states are (algorithm, iteration, evaluations)")
REQUIRED = ["callback_calls", "history_entries", "stamps", "display_lines", "columns_compared", "collections", "terminated_by_callback"]
ASSUMPTIONS = ["a step of a steady-state algorithm that does not complete an iteration is not reported"]
TIMEOUT = {"quick": 300, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 110])
    out = []
    for rep in range(1 if tier == "quick" else 4):
        for name, spec in runs.combos(rng, 3 if tier == "quick" else 14):
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(0, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=int(rng.choice([1, 2, 5, 9])),
                            form=str(rng.choice(["update", "_update", "notify", "call", "function", "collection"])), history=bool(rng.random() < 0.5), verbose=bool(rng.random() < 0.6),
                            stop_at=int(rng.integers(1, 4)) if rng.random() < 0.15 else None))
    return out


def recorder(form, see):
    from pymoo.core.callback import Callback, CallbackCollection

    class Upd(Callback):
        def update(self, a):
            see(a)

    class Upd2(Callback):
        def _update(self, a):
            see(a)

    class Note(Callback):
        started = 0

        def initialize(self, a):
            self.started += 1

        def notify(self, a):
            assert self.started == 1, "notified without being initialised once"
            see(a)

    class Call(Callback):
        def __call__(self, a):
            see(a)
    return {"update": Upd, "_update": Upd2, "notify": Note, "call": Call, "function": lambda: see}[form]()


def deep(a):
    """Everything comparable about a snapshot."""
    s = trace.snapshot(a)
    for nm in ("pop", "opt", "off"):
        p = getattr(a, nm, None)
        s[nm + "_data"] = None if p is None else [(sorted(i.data), i.get("n_gen"), tuple(np.asarray(i.CV, float).ravel()) if obs.is_evaluated(i) else None) for i in (p if hasattr(p, "__len__") else [p])]
    s["seed"], s["random"] = a.seed, repr(a.random_state.bit_generator.state)
    return s


def run(case, mon):
    from pymoo.core.callback import CallbackCollection
    from pymoo.optimize import minimize
    name = case["algo"]
    prob, alg = obs.build(case)
    S, lens, first = [], [], {}

    def on_rows(X):
        for x in X:
            first.setdefault(obs.key_of(x), it["now"])
    it = {"now": 1}
    prob.log.on_rows = on_rows

    def see(a):
        mon.ev("callback_calls")
        k = len(S) + 1
        mon.check(a.n_iter == k and a.n_gen == k, f"number:{name}", f"call {k} of the callback sees iteration {a.n_iter} (n_gen {a.n_gen})")
        S.append(deep(a))
        lens.append((a.evaluator.n_eval, len(prob.log.rows)))
        cols.append(expected(a))
        off = a.off
        if off is not None:
            for i in (off if hasattr(off, "__len__") else [off]):
                if obs.is_evaluated(i) and first.get(obs.key_of(i.X)) == k:
                    mon.ev("stamps")
                    mon.check(i.get("n_gen") == k and i.get("n_iter") == k, f"stamp:{name}", f"a solution created in iteration {k} is stamped {i.get('n_gen')}/{i.get('n_iter')}")
        for nm, p in obs.tracked_sets(a):
            for i in p:
                g = i.get("n_gen")
                if g is not None:
                    mon.ev("stamps")
                    mon.check(1 <= g <= k, f"stamp-range:{name}", f"{nm} of iteration {k} holds a solution stamped {g}")
        it["now"] = k + 1
        mon.state(name, k, lens[-1], repr(S[-1]["pop"])[:100])
        if case["stop_at"] == k:
            a.termination.terminate()
    cols = []
    if case["form"] == "collection":
        other = []
        cb = CallbackCollection(recorder("notify", lambda a: other.append(a.n_iter)), recorder("update", see), recorder("_update", lambda a: other.append(-a.n_iter)))
    else:
        cb = recorder(case["form"], see)
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        res = minimize(prob, alg, ("n_gen", case["n_gen"]), seed=case["seed"], callback=cb, save_history=case["history"], verbose=case["verbose"])
    N = len(S)
    done = res.algorithm.n_iter - 1
    mon.check(N == done and N >= 1, f"calls:{name}", f"{N} calls of the callback, {done} completed iterations")
    mon.check(all(a[0] <= b[0] for a, b in zip(lens, lens[1:])), f"evaluations:{name}", f"evaluation counts decrease: {lens}")
    mon.check(all(a[0] == a[1] for a in lens), f"evaluations:{name}", f"(counted, real) evaluations at the callbacks: {lens}")
    if case["form"] == "collection":
        mon.ev("collections")
        mon.check(other == [s * k for k in range(1, N + 1) for s in (1, -1)], f"collection:{name}", f"members of the collection were called: {other}")
    if case["stop_at"] is not None and case["stop_at"] <= case["n_gen"] and N >= 1:
        mon.ev("terminated_by_callback")
        mon.check(N <= case["stop_at"] + 1, f"terminate:{name}", f"the run was ended by the callback in iteration {case['stop_at']} but went on to {N}")
    H = res.history
    if case["history"]:
        mon.check(len(H) == N, f"history-length:{name}", f"{len(H)} entries for {N} iterations")
        for k, (h, s) in enumerate(zip(H, S)):
            mon.ev("history_entries")
            d = trace.first_difference(s, deep(h), "snapshot")
            mon.check(d is None, f"history:{name}", f"entry {k + 1} of the history differs from what the callback saw: {d}")
        ids = {}
        for k, h in enumerate(H):
            for nm, p in obs.tracked_sets(h):
                for i in p:
                    j = ids.setdefault(id(i), k)
                    mon.check(j == k, f"history-shared:{name}", f"entries {j + 1} and {k + 1} of the history share a solution object")
    else:
        mon.check(len(H) == 0, f"history-length:{name}", f"a history of {len(H)} entries was saved without being asked for")
    if case["verbose"] and res.algorithm.output is not None:
        table(sink.getvalue(), lens, cols, name, mon)
    mon.note(algorithm=name, form=case["form"], iterations=N, evaluations=[a[0] for a in lens])


def expected(a):
    """Values of the columns whose meaning is fixed, from the exposed solutions."""
    pop, opt = a.pop, a.opt
    e = {}
    if any(not obs.is_evaluated(i) for i in pop):
        return e
    cv = np.array([float(i.cv) for i in pop])
    feas = np.array([bool(i.feas) for i in pop])
    e["cv_avg"], e["cv_min"] = float(cv.mean()), float(min(i.cv for i in opt))
    e["n_nds"] = len(opt)
    if a.problem.n_obj == 1:
        f = np.array([float(i.f) for i in pop])
        e["f_avg"] = float(f[feas].mean()) if feas.any() else None
        e["f_min"] = float(opt[0].f) if opt[0].feas else None
    return e


def table(text, lens, cols, name, mon):
    lines = text.splitlines()
    head = [l for l in lines if re.match(r"^\s*n_gen\s*\|", l)]
    mon.check(len(head) == 1, f"header:{name}", f"{len(head)} header lines")
    rows = [l for l in lines if re.match(r"^\s*\d+\s*\|", l)]
    mon.check(len(rows) == len(lens), f"lines:{name}", f"{len(rows)} lines for {len(lens)} iterations")
    if len(head) != 1:
        return
    names = [c.strip() for c in head[0].split("|")]
    for k, l in enumerate(rows[:len(lens)]):
        mon.ev("display_lines")
        v = dict(zip(names, [c.strip() for c in l.split("|")]))
        mon.check(v["n_gen"] == str(k + 1) and v["n_eval"] == str(lens[k][0]), f"line:{name}", f"line {k + 1} shows n_gen {v['n_gen']}, n_eval {v['n_eval']} instead of {k + 1}, {lens[k][0]}")
        for c, want in cols[k].items():
            if c not in v:
                continue
            mon.ev("columns_compared")
            if want is None:
                mon.check(v[c] == "-", f"column:{c}:{name}", f"line {k + 1}: {c} shows {v[c]} although there is no feasible solution")
            else:
                try:
                    ok = abs(float(v[c]) - want) <= 2e-6 * abs(want) + 1e-9
                except ValueError:
                    ok = False
                mon.check(ok, f"column:{c}:{name}", f"line {k + 1}: {c} shows {v[c]} instead of {want!r}")
