"""C06: a run stops exactly when its termination criterion first holds."""
import copy
import types
import numpy as np
from vlib import obs, probs, runs, zoo

RULE = ("run: real runs under generation, evaluation, target-value, tolerance and combined limits; at every iteration an independent reference of the criterion is evaluated on what the run "
        "exposed, and the run has to end at the first iteration at which the reference holds; seq: termination objects fed with random scripted histories of (iteration, evaluations, optimum) "
        "against the same references; distinct states are (criterion, stop iteration, history length)")
REQUIRED = ["real_runs", "iterations", "stops", "sequences", "sequence_steps", "sequence_stops", "time_runs"]
ASSUMPTIONS = ["wall-clock criteria are driven with a virtual clock"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 106])
    out = []
    for rep in range(1 if tier == "quick" else 6):
        for name, spec in runs.combos(rng, 2 if tier == "quick" else 12):
            crit = str(rng.choice(["n_gen", "n_eval", "fmin", "any", "default", "tuple"] if not name.startswith("RVEA") else ["n_gen", "n_eval"]))     # RVEA refuses others
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 12, 20])), crit=crit,
                            gen=int(rng.choice([1, 2, 5, 9, 13])), ev=int(rng.choice([1, 7, 40, 96, 160, 333])), q=float(rng.random())))
    for k in range(800 if tier == "quick" else 6000):
        out.append(dict(kind="seq", seed=int(rng.integers(1, 10 ** 9))))
    for k in range(4 if tier == "quick" else 60):
        out.append(dict(kind="time", seed=int(rng.integers(1, 10 ** 9))))
    return out


# ---------------------------------------------------------------- references: (history of observations) -> stop now?

def ref_gen(n):
    return lambda h: h[-1]["n_iter"] >= n


def ref_eval(n):
    return lambda h: h[-1]["n_eval"] >= n


def ref_fmin(t):
    return lambda h: bool(np.any((h[-1]["CV"] <= 0) & (h[-1]["F"].min(axis=1) <= t)))


def ref_feasible():
    return lambda h: bool(h[-1]["CV"].min() <= 0)


def ref_indicator(f, thr, goal):
    return lambda h: (f(h[-1]["F"]) <= thr) if goal == "minimize" else (f(h[-1]["F"]) >= thr)


def tol_trace(vals, tol, skip, unchanged):
    """1.0 at each step at which the change since the last accepted value is within the tolerance (documented behaviour of the tolerance criteria)."""
    prev, count, out, last = None, 0, [], 0.0
    for v in vals:
        if prev is None:
            p, upd = 0.0, True
        elif count > 0 and count % (skip + 1) != 0:
            p, upd = last, True
        elif unchanged(prev, v) <= tol:
            p, upd = 1.0, False
        else:
            p, upd = 0.5, True
        if upd:
            prev, count = v, count + 1
        last = p
        out.append(p)
    return out


def ref_ftol(tol, period, skip=0):
    def d(a, b):
        return np.inf if not np.isfinite(a) or not np.isfinite(b) else max(0.0, a - b)

    def f(h):
        vals = [float(o["F"][o["CV"] <= 0].min()) if np.any(o["CV"] <= 0) else np.inf for o in h]
        tr = tol_trace(vals, tol, skip, d)
        return min(tr[-period:]) >= 1.0
    return f


def windowed(vals, d, tol, period, skip):
    tr = tol_trace(vals, tol, skip, d)
    return min(tr[-period:]) >= 1.0


def mean_nearest(P, Z):
    """Mean over the points of P of the distance to the nearest point of Z."""
    return float(np.mean([min(np.sqrt(np.sum((p - z) ** 2)) for z in Z) for p in P]))


def ref_xtol(tol, period, skip=0):
    return lambda h: windowed([o["X"] for o in h], lambda a, b: mean_nearest(b, a), tol, period, skip)


def ref_moo(tol, period, skip=0):
    def d(a, b):
        if not len(a) or not len(b):
            return np.inf
        lo, hi = b.min(axis=0), b.max(axis=0)
        w = np.where(hi - lo < 1e-32, 1.0, hi - lo)
        return max(np.max(np.abs(lo - a.min(axis=0)) / w), np.max(np.abs(hi - a.max(axis=0)) / w), mean_nearest((b - lo) / w, (a - lo) / w))
    return lambda h: windowed([o["F"][o["CV"] <= 0] for o in h], d, tol, period, skip)


def ref_cvtol(tol, period, skip, when_feasible, cons):
    def f(h):
        if not cons:
            return False
        if h[-1]["CV"].min() <= 0:                      # feasible once, feasible ever after in the scripted histories
            k = [o["CV"].min() <= 0 for o in h].index(True)
            tr = tol_trace([float(o["CV"].min()) for o in h[:k]], tol, skip, lambda a, b: max(0.0, a - b)) + [float(when_feasible)] * (len(h) - k)
            return min(tr[-period:]) >= 1.0
        return windowed([float(o["CV"].min()) for o in h], lambda a, b: max(0.0, a - b), tol, period, skip)
    return f


def any_of(*r):
    return lambda h: any(x(h) for x in r)


def all_of(*r):
    return lambda h: all(x(h) for x in r)


def observe(alg):
    opt = alg.opt
    return dict(n_iter=alg.n_iter, n_eval=alg.evaluator.n_eval, F=np.array(opt.get("F"), float), CV=np.array([float(i.CV[0]) for i in opt]))


# ---------------------------------------------------------------- real runs

def run(case, mon):
    if case["kind"] == "seq":
        return seq(case, mon)
    if case["kind"] == "time":
        return timed(case, mon)
    name = case["algo"]
    from pymoo.termination import get_termination
    from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
    from pymoo.termination.collection import TerminationCollection
    from pymoo.core.termination import TerminateIfAny, TerminateIfAll
    prob, alg = obs.build(case)
    c, gen, ev = case["crit"], case["gen"], case["ev"]
    cap_gen = 60
    exact = True
    if c == "n_gen":
        term, ref = get_termination(["n_gen", "n_iter"][gen % 2], gen), ref_gen(gen)
    elif c == "tuple":
        term, ref = ("n_evals" if ev % 2 else "n_eval", ev), ref_eval(ev)
    elif c == "n_eval":
        term, ref = get_termination("n_eval", ev), ref_eval(ev)
    elif c == "fmin" and prob.n_obj == 1:
        t = [-2.5, 0.0, 0.05, 1.0, -20.0, 100.0][int(case["q"] * 6)]
        term, ref = TerminationCollection(get_termination("fmin", t), get_termination("n_gen", 25)), any_of(ref_fmin(t), ref_gen(25))
    elif c == "default":
        D = DefaultSingleObjectiveTermination if prob.n_obj == 1 else DefaultMultiObjectiveTermination
        term, ref, exact = D(n_max_gen=gen + 3, n_max_evals=ev + 50), any_of(ref_gen(gen + 3), ref_eval(ev + 50)), gen + 3 < 30
    else:
        cls = [TerminateIfAny, TerminateIfAll, TerminationCollection][int(case["q"] * 3)]
        ref = (all_of if cls is TerminateIfAll else any_of)(ref_gen(gen), ref_eval(ev))
        term = cls(get_termination("n_gen", gen), get_termination("n_eval", ev))
    if name.startswith("NRBO"):
        cap_gen = 200
    alg.setup(prob, seed=case["seed"], termination=term)
    if name.startswith("RVEA") and c in ("n_eval", "tuple"):       # converts the budget to generations
        ref = ref_gen(1 + int(np.ceil(max(0, ev - alg.pop_size) / alg.n_offsprings)))
    h, ended, k, last = [], False, 0, None
    stop_at = None
    while alg.has_next():
        n0 = alg.n_iter
        alg.next()
        k += 1
        if alg.n_iter == n0:                     # step without a completed iteration
            continue
        # n_iter was already advanced at the end of the iteration
        o = observe(alg)
        o["n_iter"] = alg.n_iter - 1
        h.append(o)
        mon.ev("iterations")
        mon.check(alg.termination.perc >= 0 and alg.termination.perc == alg.termination.perc, f"progress:{name}", f"progress {alg.termination.perc}")
        want = ref(h)
        got = not alg.has_next()
        if got and not want and "CMAES" in name and alg.termination.force_termination:
            break                                # the cma package ended the search by its own tolerances
        if want != got and (exact or want):
            mon.viol(f"stop:{c}:{name}", f"after iteration {o['n_iter']} with {o['n_eval']} evaluations the criterion {'holds' if want else 'does not hold'} but the run {'stopped' if got else 'goes on'}",
                     gen=gen, ev=ev, perc=alg.termination.perc)
            break
        if len(h) > cap_gen or k > 40000:
            break
    mon.ev("oracle_checks", len(h))
    mon.ev("real_runs")
    if not alg.has_next():
        mon.ev("stops")
        for _ in range(3):
            mon.check(not alg.has_next(), f"restart:{name}", "has_next became true again")
        mon.state(c, name, len(h))
        n_eval = alg.evaluator.n_eval
        alg.result()
        mon.check(alg.evaluator.n_eval == n_eval == len(prob.log.rows), f"after:{name}", "asking for the result evaluated something")
        if c == "n_gen" and not alg.termination.force_termination:
            mon.check(len(h) == gen, f"gens:{name}", f"{len(h)} iterations instead of {gen}")


# ---------------------------------------------------------------- scripted histories

def seq(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.termination import TerminateIfAll, TerminateIfAny, NoTermination
    from pymoo.termination import get_termination
    from pymoo.termination.collection import TerminationCollection
    from pymoo.termination.cv import UntilFeasibleTermination, ConstraintViolationTermination
    from pymoo.termination.ftol import SingleObjectiveSpaceTermination, MultiObjectiveSpaceTermination
    from pymoo.termination.indicator import IndicatorTermination
    from pymoo.termination.robust import RobustTermination
    from pymoo.termination.xtol import DesignSpaceTermination
    from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination

    rng = np.random.default_rng(case["seed"])
    multi = rng.random() < 0.3
    cons = rng.random() < 0.5
    prob = types.SimpleNamespace(n_obj=2 if multi else 1, xl=np.zeros(3), xu=np.ones(3), has_bounds=lambda: True, has_constraints=lambda: bool(cons))
    offset = float(rng.choice([0.0, -5.0, 3.0, 1e3]))

    class Ind:
        def do(self, F, **kw):
            return float(np.min(F[:, 0]))

    def robust(t, per):
        return RobustTermination(t, period=per) if per > 1 or rng.random() < 0.5 else t

    def leaf():
        k = int(rng.integers(13))
        skip = int(rng.choice([0, 0, 1, 2, 5]))
        if k == 0:
            n = int(rng.integers(1, 30)); return get_termination("n_gen", n), ref_gen(n), f"gen{n}"
        if k == 1:
            n = int(rng.integers(1, 400)); return get_termination("n_eval", n), ref_eval(n), f"eval{n}"
        if k == 2 and not multi:
            t = offset + float(rng.choice([-0.5, 0.0, 0.5, 1.0, 2.5])); return get_termination("fmin", t), ref_fmin(t), f"fmin{t}"
        if k == 3:
            return UntilFeasibleTermination(), ref_feasible(), "feasible"
        if k == 4:
            t = offset + float(rng.choice([-0.5, 0.0, 0.5, 1.0, 2.5]))
            return IndicatorTermination(Ind(), t, "minimize"), ref_indicator(lambda F: float(np.min(F[:, 0])), t, "minimize"), f"ind-min{t}"
        if k == 5:
            t = -offset + float(rng.choice([-2.5, 0.0, 0.5]))
            I = type("J", (), {"do": lambda self, F, **kw: -float(np.min(F[:, 0]))})()
            return IndicatorTermination(I, t, "maximize"), ref_indicator(lambda F: -float(np.min(F[:, 0])), t, "maximize"), f"ind-max{t}"
        if k in (6, 7) and not multi:
            tol, per = float(rng.choice([0.0, 1e-6, 0.125])), int(rng.choice([1, 3, 6]))
            return robust(SingleObjectiveSpaceTermination(tol, n_skip=skip), per), ref_ftol(tol, per, skip), f"ftol{tol}/{per}/{skip}"
        if k in (8, 9):
            tol, per = float(rng.choice([0.0, 1e-6, 0.2])), int(rng.choice([1, 3, 6]))
            return robust(DesignSpaceTermination(tol, n_skip=skip), per), ref_xtol(tol, per, skip), f"xtol{tol}/{per}/{skip}"
        if k == 10:
            tol, per, w = float(rng.choice([0.0, 1e-6, 0.3])), int(rng.choice([1, 2, 4])), bool(rng.random() < 0.5)
            return robust(ConstraintViolationTermination(tol, terminate_when_feasible=w, n_skip=skip), per), ref_cvtol(tol, per, skip, w, cons), f"cvtol{tol}/{per}/{skip}"
        if k == 11 and multi:
            tol, per = float(rng.choice([0.0, 1e-6, 0.3])), int(rng.choice([1, 3, 6]))
            return robust(MultiObjectiveSpaceTermination(tol, n_skip=skip), per), ref_moo(tol, per, skip), f"mootol{tol}/{per}/{skip}"
        return NoTermination(), (lambda h: False), "none"

    r = rng.random()
    if r < 0.5:
        term, ref, label = leaf()
    else:
        L = [leaf() for _ in range(int(rng.integers(2, 4)))]
        cls, comb = [(TerminateIfAny, any_of), (TerminateIfAll, all_of), (TerminationCollection, any_of)][int(rng.integers(3))]
        term, ref, label = cls(*[l[0] for l in L]), comb(*[l[1] for l in L]), cls.__name__ + "+".join(l[2] for l in L)
    if rng.random() < 0.12:
        g, e = int(rng.integers(2, 60)), int(rng.integers(10, 600))
        kw, xt, ct, ft, per, skip = {}, 5e-4 if multi else 1e-8, 1e-8, 5e-3 if multi else 1e-6, 50 if multi else 30, 5 if multi else 0
        if rng.random() < 0.7:
            xt, ct, ft, per = float(rng.choice([0.0, 1e-6, 0.2])), float(rng.choice([0.0, 0.3])), float(rng.choice([0.0, 1e-6, 0.3])), int(rng.choice([1, 3, 8]))
            kw = dict(xtol=xt, cvtol=ct, ftol=ft, period=per)
            if multi:
                kw["n_skip"] = skip = int(rng.choice([0, 1, 5]))
        term = (DefaultMultiObjectiveTermination if multi else DefaultSingleObjectiveTermination)(n_max_gen=g, n_max_evals=e, **kw)
        ref = any_of(ref_gen(g), ref_eval(e), ref_xtol(xt, per, skip), ref_cvtol(ct, per, skip, False, cons), (ref_moo if multi else ref_ftol)(ft, per, skip))
        label = "default"

    N = 60
    f = offset + float(rng.choice([0.5, 3.0, 10.0]))
    cv = float(rng.choice([0.0, 2.0])) if cons else 0.0
    n_eval, h = 0, []
    X = rng.random((4, 3))
    alg = types.SimpleNamespace(problem=prob, evaluator=types.SimpleNamespace(n_eval=0), n_gen=0, n_iter=0, opt=None, start_time=0)
    mon.ev("sequences")
    for it in range(1, N + 1):
        n_eval += int(rng.integers(0, 20))
        if rng.random() < 0.35:
            f = f - float(rng.choice([2.0 ** -27, 0.0625, 0.5, 2.0]))
        if cv > 0 and rng.random() < 0.3:
            cv = max(0.0, cv - float(rng.choice([0.25, 1.0])))
        m = m if it > 1 and rng.random() < 0.6 else int(rng.integers(1, 4)) if multi else 1
        if rng.random() < 0.4:
            X = np.clip(X + float(rng.choice([1e-9, 0.01, 0.3])) * rng.normal(size=X.shape), 0, 1)
        if multi:
            F = np.column_stack([f + np.arange(m) * 0.5, offset + 3 - np.arange(m) * 0.3])
        else:
            F = np.array([[f]])
        G = np.full((m, 1), cv if cv > 0 else -1.0)
        opt = Population.new("X", X[:m].copy(), "F", F, "G", G, "H", np.zeros((m, 0)))
        alg.n_gen = alg.n_iter = it
        alg.evaluator.n_eval = n_eval
        alg.opt = opt
        h.append(dict(n_iter=it, n_eval=n_eval, F=F.copy(), CV=np.full(m, cv), X=X[:m].copy()))
        term.update(alg)
        mon.ev("sequence_steps")
        want, got = bool(ref(h)), term.has_terminated()
        mon.check(term.perc >= 0, f"seq-progress:{_strip(label)}", f"progress {term.perc} is negative or undefined")
        mon.check(got == (not term.do_continue()), "seq-consistency", "has_terminated and do_continue disagree")
        if not mon.check(want == got, f"seq:{_strip(label)}", f"{label}: step {it} (n_eval {n_eval}, best {f}, violation {cv}) should{'' if want else ' not'} terminate, progress is {term.perc}"):
            break
        if got:
            mon.ev("sequence_stops")
            mon.state(label, it)
            break
    if rng.random() < 0.2 and not term.has_terminated():
        term.terminate()
        term.update(alg)
        mon.check(term.has_terminated(), "seq:forced", "terminate() did not terminate")


def _strip(l):
    import re
    return re.sub(r"[-0-9.e/]+", "", l)


def timed(case, mon):
    """Wall-clock limits, with a virtual clock that the evaluations advance."""
    import pymoo.core.algorithm as ca
    import pymoo.termination.max_time as mt
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.termination import get_termination
    rng = np.random.default_rng(case["seed"])
    clock = [1000.0]
    fake = types.SimpleNamespace(time=lambda: clock[0], perf_counter=lambda: clock[0], sleep=lambda s: None)
    old = ca.time, mt.time
    ca.time = mt.time = fake
    try:
        secs = int(rng.integers(5, 4000))
        txt = "%02d:%02d:%02d" % (secs // 3600, secs // 60 % 60, secs % 60)
        spec = [secs, float(secs), txt][int(rng.integers(3))]
        step = secs / float(rng.choice([3.0, 4.5, 7.0]))
        prob = probs.make(dict(cls="SO", n_var=2))

        def tick(X):
            clock[0] += step
        prob.log.on_rows = tick
        alg = GA(pop_size=6)
        alg.setup(prob, termination=get_termination("time", spec), seed=1)
        k = 0
        while alg.has_next() and k < 30:
            alg.next(); k += 1
            mon.ev("time_runs")
            want = clock[0] - 1000.0 >= secs
            if not mon.check(want == (not alg.has_next()), "time", f"limit {spec!r}: {clock[0] - 1000} s elapsed but the run {'goes on' if alg.has_next() else 'stopped'}"):
                break
        mon.state("time", secs, k)
    finally:
        ca.time, mt.time = old
