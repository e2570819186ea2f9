"""C37: dynamic optimisation reacts to every change it observes and drops outdated values."""
import numpy as np
from vlib import gen, obs, probs
from vlib.probs import P, bounds_of

RULE = ("D-NSGA-II (both versions) and KGB run on problems whose environment changes between iterations by a random schedule (large, small, local and vanishing changes, going back, standing still); "
        "the problem logs every row with the time of its evaluation, and after each iteration the batches of the log are read as sample, re-evaluation and offspring, the deviation of the sample is recomputed, "
        "and population, counts and survivors are compared with what that deviation demands; every run is repeated with the same seed; clocks: the time of dynamic problems is advanced by hand, by the "
        "callback and by assignment next to a counter, and the values of the shipped dynamic problems are compared with those of a fresh problem set to the same time; distinct states are different (setting, time, population)")
REQUIRED = ["iterations", "changes_detected", "changes_unseen", "no_change", "below_eps", "sample_rows", "reevaluated", "survivors", "kept_rows", "replaced_rows", "repeated_runs", "static_equal", "clock_steps",
            "shipped", "through_minimize", "kgb_changes", "mutated_rows", "share", "isolated"]
ASSUMPTIONS = ["the environment changes between iterations, never within one", "unconstrained problems with a single real-valued vector, as the algorithms demand"]


class Dyn(P):
    """Two objectives moved by a table of offsets; log.calls holds (time, X) per call."""

    def __init__(self, n_var=4, bounds="unit", how="shift", amount=0.3, period=1, **kw):
        xl, xu = bounds_of(bounds, n_var)
        super().__init__(n_var=n_var, n_obj=2, xl=xl, xu=xu, **kw)
        self.how, self.amount, self.tau, self.period = how, amount, 0, period
        self.batches = []

    def __deepcopy__(self, memo):
        return self

    def tic(self, elapsed=1):
        self.tau += elapsed

    @property
    def time(self):
        return self.tau // self.period

    def one(self, x, t=None):
        t = self.time if t is None else t
        u = (np.asarray(x, float) - self.xl) / np.where(self.xu > self.xl, self.xu - self.xl, 1.0)
        a = self.amount
        c = 0.5 + 0.4 * np.sin(1.7 * t * a) if self.how == "shift" else 0.5
        g = float(np.sum((u[1:] - c) ** 2))
        f1 = u[0] + g
        f2 = (1 - u[0]) ** 2 + g
        if self.how == "local":          # only a part of the space is affected
            f2 += a * (t % 4) if u[0] > 0.6 else 0.0
        elif self.how == "offset":       # every value moves by the same
            f1, f2 = f1 + a * (t % 5), f2 + a * (t % 5)
        elif self.how == "second":       # one objective only
            f2 += a * np.cos(t)
        elif self.how == "scale":
            f1, f2 = f1 * (1 + a * (t % 3)), f2 * (1 + a * (t % 3))
        return ([f1, f2], [], [])

    def _evaluate(self, X, out, *args, **kwargs):
        self.batches.append((self.time, np.array(X, float, copy=True)))
        super()._evaluate(X, out, *args, **kwargs)


HOWS = [("shift", 0.3), ("shift", 1.0), ("local", 0.5), ("offset", 0.2), ("offset", 1e-4), ("second", 0.4), ("second", 1e-9), ("scale", 0.5), ("none", 0.0)]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 137])
    out = []
    n = 3 if tier == "quick" else 40
    for rep in range(n):
        for algo in ("A", "B", "A", "B", "KGB"):
            for how, amount in HOWS:
                out.append(dict(kind="run", algo=algo, how=how, amount=amount, bounds=str(rng.choice(["unit", "neg", "aniso", "odd", "sym"])), n_var=int(rng.choice([2, 4, 7])),
                                pop=int(rng.choice([10, 17, 30])), detect=float(rng.choice([0.05, 0.1, 0.3, 1.0])), diversity=float(rng.choice([0.0, 0.3, 0.7, 1.0])),
                                eps=float(rng.choice([0.0, 0.0, 1e-6, 1e-3, 0.05])), n_off=[None, 5, 1][int(rng.choice([0, 0, 1, 2]))], period=int(rng.choice([1, 1, 3])),
                                n_gen=int(rng.choice([8, 15])), seed=int(rng.integers(1, 10 ** 6)), minimize=bool(rng.random() < 0.3), csize=int(rng.choice([2, 5, 9]))))
    for k in range(6 * n):
        out.append(dict(kind="share", algo="AB"[k % 2], diversity=[0.1, 0.3, 0.6][k % 3], seed=int(rng.integers(1, 10 ** 6))))
    for k in range(4 * n):
        out.append(dict(kind="static", algo=["A", "B", "KGB"][k % 3], seed=int(rng.integers(1, 10 ** 6)), detect=float(rng.choice([0.1, 0.5]))))
    for k in range(10 * n):
        out.append(dict(kind="clock", seed=int(rng.integers(1, 10 ** 9))))
    for k in range(2 * n):
        out.append(dict(kind="isolated", algo="KGB", seed=int(rng.integers(1, 10 ** 6))))
    return out


def make(case, pop=None):
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    from pymoo.algorithms.moo.kgb import KGB
    kw = dict(pop_size=case.get("pop", 20), perc_detect_change=case.get("detect", 0.1), perc_diversity=case.get("diversity", 0.3), eps=case.get("eps", 0.0))
    if case.get("n_off"):
        kw["n_offsprings"] = case["n_off"]
    if case["algo"] == "KGB":
        return KGB(c_size=case.get("csize", 5), **kw)
    return DNSGA2(version=case["algo"], **kw)


def run(case, mon):
    globals()["do_" + case["kind"]](case, mon)


def problem(case):
    p = Dyn(n_var=case.get("n_var", 4), bounds=case.get("bounds", "unit"), how=case.get("how", "shift"), amount=case.get("amount", 0.3), period=case.get("period", 1))
    p.log.cap = 200000
    return p


def do_run(case, mon):
    logs = []
    for rep in range(2):
        np.random.seed(rep + 5)
        prob = problem(case)
        drive(case, prob, mon if rep == 0 else None)
        logs.append(prob.batches)
    same = len(logs[0]) == len(logs[1]) and all(t == u and np.array_equal(a, b) for (t, a), (u, b) in zip(*logs))
    mon.check(same, f"repeat:{case['algo']}", "the same seed and the same changes gave another sequence of evaluations")
    mon.ev("repeated_runs")


def drive(case, prob, mon):
    from pymoo.optimize import minimize
    from pymoo.termination import get_termination
    alg = make(case)
    rng = np.random.default_rng(case["seed"])
    W = Watch(case, prob, mon)
    steps = [int(rng.choice([0, 1, 1, 2, 0, -1])) for _ in range(case["n_gen"] + 2)]
    if case.get("minimize"):
        from pymoo.core.callback import Callback

        class Tic(Callback):
            def __init__(self):
                super().__init__()
                self.k = 0

            def update(self, algorithm):
                W.after(algorithm)
                prob.tic(steps[self.k])
                self.k += 1
        minimize(prob, alg, ("n_gen", case["n_gen"]), seed=case["seed"], callback=Tic(), copy_algorithm=False)
        if mon:
            mon.ev("through_minimize")
        return
    alg.setup(prob, seed=case["seed"], termination=get_termination("n_gen", case["n_gen"]))
    k = 0
    while alg.has_next() and k < 500:
        alg.next()
        W.after(alg)
        prob.tic(steps[k % len(steps)])
        k += 1


def rows(A):
    return [tuple(r) for r in np.asarray(A, float).tolist()]


class Watch:
    def __init__(self, case, prob, mon):
        self.case, self.prob, self.mon = case, prob, mon
        self.seen, self.old, self.k = 0, None, 0
        self.share = []

    def after(self, alg):
        case, prob, mon = self.case, self.prob, self.mon
        B = prob.batches[self.seen:]
        self.seen = len(prob.batches)
        X, F = np.array([i.X for i in alg.pop], float), np.array([i.F for i in alg.pop], float)
        if mon is not None:
            mon.ev("iterations")
            mon.state(case["algo"], prob.time, X)
            self.judge(alg, B, X, F)
        self.old = (X.copy(), F.copy())
        self.k += 1

    def judge(self, alg, B, X, F):
        case, prob, mon = self.case, self.prob, self.mon
        a, n, t = case["algo"], case.get("pop", 20), prob.time
        mon.check(alg.evaluator.n_eval == len(prob.log.rows), f"count:{a}", f"evaluator reports {alg.evaluator.n_eval}, the problem was asked for {len(prob.log.rows)}")
        for tb, XB in B:
            bad = [prob.valid(x) for x in XB if prob.valid(x)]
            mon.check(not bad, f"bounds:{a}", lambda: bad[0])
        mon.check(len(X) == n, f"size:{a}", f"the population holds {len(X)} solutions instead of {n}")
        # values never belong to other variables, whatever the time
        if self.old is None:
            mon.eq(F, np.array([prob.one(x, t)[0] for x in X]), f"initial:{a}", "values after the initialisation")
            return
        oX, oF = self.old
        if not B:
            mon.check(False, f"no-sample:{a}", "an iteration evaluated nothing")
            return
        # ---- the sample
        sX = B[0][1]
        ns = int(np.ceil(n * case.get("detect", 0.1)))
        mon.check(len(sX) == ns, f"sample-size:{a}", f"{len(sX)} solutions were evaluated to detect a change instead of {ns}")
        byx = {}
        for x, f in zip(rows(oX), rows(oF)):
            byx.setdefault(x, set()).add(f)
        known = [byx.get(x) for x in rows(sX)]
        if not mon.check(all(v is not None for v in known), f"sample-members:{a}", "solutions sampled to detect a change are not in the population"):
            return
        mon.ev("sample_rows", len(sX))
        if any(len(v) > 1 for v in known):
            mon.ev("ambiguous")
            return
        sF = np.array([prob.one(x, t)[0] for x in sX])
        delta = float(((sF - np.array([list(v)[0] for v in known])) ** 2).mean())
        eps = case.get("eps", 0.0)
        if abs(delta - eps) <= 1e-12 * max(delta, eps) and delta != eps:
            mon.ev("ambiguous")
            return
        detected = delta > eps
        truthO = np.array([prob.one(x, t)[0] for x in oX])
        really = not np.array_equal(truthO, oF)
        mon.ev("changes_detected" if detected else "below_eps" if delta > 0 else "changes_unseen" if really else "no_change")
        R = B[1:]
        if not detected:
            mon.check(len(R) <= 1, f"needless:{a}", f"{sum(len(x) for _, x in R)} solutions were evaluated although no change was observed (deviation {delta:.3g}, threshold {eps:.3g})")
            parX, parF = oX, oF
        else:
            if a == "KGB":
                mon.ev("kgb_changes")
                ok = len(R) >= 2 and len(R[0][1]) <= case.get("csize", 5) and len(R[1][1]) == n
                R0, R = (R[1][1], R[2:]) if ok else (None, R)
            else:
                ok = len(R) >= 1 and len(R[0][1]) == n
                R0, R = (R[0][1], R[1:]) if ok else (None, R)
            if not mon.check(ok, f"not-reevaluated:{a}", f"a change was observed (deviation {delta:.3g}, threshold {eps:.3g}) but the population was not evaluated again; batches {[len(x) for _, x in B]}"):
                return
            parX, parF = R0, np.array([prob.one(x, t)[0] for x in R0])
            mon.ev("reevaluated", len(R0))
            if a in "AB":
                same = np.all(R0 == oX, axis=1)
                d = case.get("diversity", 0.3)
                mon.ev("kept_rows", int(same.sum()))
                mon.ev("replaced_rows" if a == "A" else "mutated_rows", int((~same).sum()))
                self.share.append((int((~same).sum()), len(same)))
                free = bool(np.all(prob.xu > prob.xl))
                if d == 0:
                    mon.check(bool(same.all()), f"diversity-none:{a}", f"{int((~same).sum())} solutions were replaced although no share was to be")
                if d == 1 and free:
                    if a == "A":
                        mon.check(not same.any(), f"diversity-all:{a}", f"{int(same.sum())} solutions were kept although all were to be replaced")
                    else:
                        mon.check(bool((~same).any()), f"diversity-all:{a}", "no solution was mutated although all were to be")
        offX = R[0][1] if R else np.zeros((0, prob.n_var))
        mon.check(len(R) <= 1, f"needless:{a}", f"batches {[len(x) for _, x in B]} after {'a' if detected else 'no'} change")
        mon.check(len(offX) <= (case.get("n_off") or n), f"offspring:{a}", f"{len(offX)} offspring instead of {case.get('n_off') or n}")
        mon.check(len(offX) > 0, f"no-offspring:{a}", "no offspring was evaluated")
        offF = np.array([prob.one(x, t)[0] for x in offX]).reshape(-1, 2)
        # ---- outdated values
        if detected:
            mon.eq(F, np.array([prob.one(x, t)[0] for x in X]), f"outdated:{a}", f"values in the population after a change was observed in iteration {self.k + 1}")
        # ---- survivors: the best fronts of parents and offspring
        aX, aF = np.vstack([parX, offX]), np.vstack([parF, offF])
        pool = {}
        for i, key in enumerate(zip(rows(aX), rows(aF))):
            pool.setdefault(key, []).append(i)
        taken = []
        for key in zip(rows(X), rows(F)):
            v = pool.get(key)
            if not mon.check(bool(v), f"survivor:{a}", "a solution of the new population is neither parent nor offspring of this iteration (or has other values)", x=key[0], f=key[1]):
                return
            taken.append(v.pop() if len(v) > 1 else v[0])
        mon.check(len(set(taken)) == len(taken), f"survivor-twice:{a}", "a solution survived twice")
        rank = np.zeros(len(aF), int)
        for r, fr in enumerate(gen.ref_fronts(aF)):
            rank[list(fr)] = r
        got = np.sort(rank[taken])
        want = np.sort(rank)[:len(taken)]
        mon.check(np.array_equal(got, want), f"survival:{a}", f"the ranks of the survivors are {np.bincount(got).tolist()} instead of {np.bincount(want).tolist()}")
        mon.ev("survivors", len(taken))
        mon.note(algorithm=a, deviation=delta, detected=detected, batches=[len(x) for _, x in B])


def do_share(case, mon):
    """The share of solutions replaced after changes (version A exactly binomial, B at most)."""
    from scipy.stats import binom
    c = dict(case, kind="run", how="offset", amount=0.3, pop=40, n_gen=20, detect=0.1, eps=0.0, n_var=3, bounds="sym")
    prob = problem(c)
    alg = make(c)
    from pymoo.termination import get_termination
    W = Watch(c, prob, mon)
    alg.setup(prob, seed=c["seed"], termination=get_termination("n_gen", c["n_gen"]))
    while alg.has_next():
        alg.next()
        W.after(alg)
        prob.tic()
    k, n = sum(s[0] for s in W.share), sum(s[1] for s in W.share)
    if not mon.check(n >= 10 * 40, f"changes:{case['algo']}", f"only {len(W.share)} of 19 changes were observed although all values changed"):
        return
    d = case["diversity"]
    if case["algo"] == "A":
        p = min(binom.cdf(k, n, d), binom.sf(k - 1, n, d))
        mon.check(p > 1e-9, "share:A", f"{k} of {n} solutions were replaced at a declared share of {d}")
    else:
        p = binom.sf(k - 1, n, d)
        mon.check(p > 1e-9 and k > 0, "share:B", f"{k} of {n} solutions were mutated at a declared share of {d}")
    mon.ev("share")


def do_static(case, mon):
    """Without any change the choice of how to react cannot matter."""
    logs = []
    for div, eps in ((0.0, 0.0), (1.0, 0.0), (0.5, 10.0)):
        c = dict(case, how="none", diversity=div, eps=eps, pop=16, n_gen=8)
        prob = problem(c)
        alg = make(c)
        from pymoo.termination import get_termination
        alg.setup(prob, seed=c["seed"], termination=get_termination("n_gen", c["n_gen"]))
        while alg.has_next():
            alg.next()
        logs.append(prob.batches)
    for L in logs[1:]:
        ok = len(L) == len(logs[0]) and all(np.array_equal(a[1], b[1]) for a, b in zip(L, logs[0]))
        mon.check(ok, f"static:{case['algo']}", "runs without any change differ in the settings which only matter after a change")
    mon.ev("static_equal")


def do_isolated(case, mon):
    """An object run before must not matter to a second one."""
    logs = []
    for before in (False, True):
        if before:
            p = problem(dict(case, how="shift"))
            a = make(dict(case, pop=12))
            from pymoo.termination import get_termination
            a.setup(p, seed=case["seed"] + 1, termination=get_termination("n_gen", 5))
            while a.has_next():
                a.next()
                p.tic()
        p = problem(dict(case, how="shift"))
        c = dict(case, pop=14, n_gen=6)
        a = make(c)
        from pymoo.termination import get_termination
        a.setup(p, seed=case["seed"], termination=get_termination("n_gen", 6))
        while a.has_next():
            a.next()
            p.tic()
        logs.append(p.batches)
    ok = len(logs[0]) == len(logs[1]) and all(np.array_equal(a[1], b[1]) for a, b in zip(*logs))
    mon.check(ok, f"isolated:{case['algo']}", "a run depends on another object of the same class having been run before")
    mon.ev("isolated")


def do_clock(case, mon):
    """Clock of the shipped dynamic problems against a counter; values against a fresh problem set to that time."""
    import pymoo.problems.dynamic.df as df
    from pymoo.problems.dyn import TimeSimulation
    rng = np.random.default_rng(case["seed"])
    cls = getattr(df, f"DF{int(rng.integers(1, 15))}")
    nt, taut = int(rng.choice([1, 5, 10])), int(rng.choice([1, 2, 5, 20]))
    kw = dict(nt=nt, taut=taut) if cls not in (df.DF3, df.DF4) or True else {}
    p = cls(**kw)
    tau, forced = 1, None
    X = p.xl + rng.random((4, p.n_var)) * (p.xu - p.xl)
    X0 = X.copy()
    p0 = {k: v for k, v in p.__dict__.items() if k in ("xl", "xu")}
    for step in range(12):
        op = int(rng.integers(4))
        if op == 0:
            k = int(rng.integers(1, 30))
            p.tic(k)
            tau += k
        elif op == 1:
            p.tic()
            tau += 1
        elif op == 2:
            class A:
                problem = p
            TimeSimulation().update(A)
            tau += 1
        elif rng.random() < 0.4:
            forced = float(rng.random() * 3)
            p.time = forced
        else:
            p.time = None
            forced = None
        want = forced if forced is not None else 1 / nt * (tau // taut)
        mon.check(p.time == want, f"time:{cls.__name__}", f"time {p.time} instead of {want} (tau={tau}, taut={taut}, nt={nt})")
        got = p.evaluate(X)
        q = cls(**kw)
        q.time = want
        mon.eq(got, q.evaluate(X), f"values:{cls.__name__}", f"values at time {want}", rtol=1e-12)
        mon.eq(np.vstack([p.evaluate(x) for x in X]), got, f"rows:{cls.__name__}", "rows evaluated alone", rtol=1e-12)
        mon.ev("clock_steps")
        mon.state(cls.__name__, want)
        pf, qf = p.pareto_front(n_pareto_points=20), q.pareto_front(n_pareto_points=20)
        if pf is not None and qf is not None:
            mon.eq(pf, qf, f"front:{cls.__name__}", f"front at time {want}", rtol=1e-12)
    mon.eq(X, X0, f"input:{cls.__name__}", "design matrix after the evaluations")
    mon.eq(p.xl, p0["xl"], f"bounds:{cls.__name__}", "bounds after the evaluations")
    mon.ev("shipped")
