"""C40: what a run displays and records about its own progress is true."""
import contextlib
import copy
import io

import numpy as np

from vlib import gen, obs, probs, trace

RULE = ("numbers of every size, sign and type are formatted by columns of several widths and read back; runs on problems with and without a known front (constrained, dynamic, one to three objectives, infeasible starts) print "
        "their table, are recorded by the recorders with random intervals and drive a progress bar replaced by a list; every cell, record and bar position is compared with the value computed from the exposed solutions "
        "and from the front; the same run without any of it must not differ; distinct states are different (column, shown text) and (run, iteration)")
REQUIRED = ["numbers", "cut_off", "lines", "igd", "gd", "hv", "eps", "f_gap", "dashes", "dynamic", "niches", "pso", "recorded", "skipped_records", "bar_positions", "bars_closed", "silent_equal", "user_columns"]
ASSUMPTIONS = ["columns for numbers are at least eight characters wide", "a cell shows its number rounded to the digits that fit"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 140])
    n = 4 if tier == "quick" else 80
    out = [dict(kind="format", seed=int(rng.integers(1, 10 ** 9))) for _ in range(8 * n)]
    P = ["zdt1", "zdt3", "bnh", "tnk", "dtlz2", "free2", "free3", "con2", "inf2", "dyn", "sphere", "g06", "free1", "con1", "inf1"]
    for k in range(2 * len(P) * n):
        out.append(dict(kind="table", prob=P[k % len(P)], seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([5, 10, 24])), n_gen=int(rng.choice([3, 8]))))
    for k in range(2 * len(P) * n):
        out.append(dict(kind="record", prob=P[k % len(P)], seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([5, 10, 24])), n_gen=int(rng.choice([4, 9])), nth=[None, 1, 7, 10, 25, 60][int(rng.integers(6))]))
    for k in range(14 * n):
        out.append(dict(kind="bar", seed=int(rng.integers(1, 10 ** 6)), term=["n_gen", "n_eval", "tol", "forced", "none"][k % 5]))
    return out


def run(case, mon):
    globals()["do_" + case["kind"]](case, mon)


# ------------------------------------------------------------------ numbers

def do_format(case, mon):
    from pymoo.util.display.column import Column
    rng = np.random.default_rng(case["seed"])
    for _ in range(400):
        w = int(rng.choice([8, 9, 10, 13, 13, 13, 20]))
        k = rng.choice(["float", "float", "int", "edge", "wide", "text", "none"])
        cast = [float, np.float64, np.float32][int(rng.integers(3))]
        if k == "float":
            v = cast(rng.normal() * 10.0 ** rng.integers(-8, 9))
        elif k == "wide":
            v = cast(rng.normal() * 10.0 ** rng.integers(-30, 31)) if cast is np.float32 else cast(rng.normal() * 10.0 ** rng.integers(-300, 301))
        elif k == "edge":
            v = cast(rng.choice([0.0, -0.0, 1e-5, 9.999999999999, 10.0, -10.0, 1e-6, -1e-5, 0.99999999999, 1e99, 1e100, -1e100, 1e-100, -1e-100, np.inf, -np.inf, np.nan]))
        elif k == "int":
            v = [int, np.int64][int(rng.integers(2))](rng.integers(-10 ** int(rng.integers(1, 16)), 10 ** int(rng.integers(1, 16))))
        elif k == "none":
            v = None
        else:
            v = "".join(rng.choice(list("abcde"), size=int(rng.integers(1, 25))))
        c = Column("name", width=w)
        c.set(v)
        t = c.text()
        mon.ev("numbers")
        mon.state(w, t)
        if v is None:
            mon.check(t.strip() == "-" and len(t) == w, "missing", f"a missing value is shown as {t!r}")
            mon.ev("dashes")
        elif isinstance(v, str):
            mon.check(len(t) == w and t.strip() == v[:w], "text", f"{v!r} is shown as {t!r} in a column of width {w}")
            mon.ev("cut_off", len(v) > w)
        else:
            shown(mon, "number", t, v, w)
            if isinstance(v, (int, np.integer)):
                mon.ev("cut_off", len(str(v)) > w)
            else:
                mon.check(len(t) == w, "width", f"{v!r} is shown as {t!r} in a column of width {w}")


def shown(mon, key, text, v, w):
    try:
        x = float(text)
    except ValueError:
        mon.check(False, key, f"{v!r} is shown as {text!r}")
        return
    if isinstance(v, (int, np.integer)):
        ok = x == float(v)
    elif not np.isfinite(v):
        ok = x == v or (np.isnan(x) and np.isnan(v))
    else:
        v = float(v)
        rel = 10.0 ** -(max(0, w - 9 if abs(np.log10(abs(v)) if v else 0) >= 98 else w - 7))
        ok = abs(x - v) <= 0.51 * rel * abs(v) + 1e-320 or (0.9e-5 <= v <= 10.1 and abs(x - v) <= 0.51 * 10.0 ** -(w - 3))
        if v and np.isfinite(x) and abs(v) < 1e-300:
            ok = ok or abs(x - v) <= 1e-300
    mon.check(ok, key, f"{v!r} is shown as {text!r} in a column of width {w}")


# ------------------------------------------------------------------ runs

def problem(name, rng):
    from pymoo.problems import get_problem
    if name in ("zdt1", "zdt3"):
        return get_problem(name, n_var=4)
    if name in ("bnh", "tnk"):
        return get_problem(name)
    if name == "dtlz2":
        from pymoo.problems.many.dtlz import DTLZ2
        from pymoo.util.ref_dirs import get_reference_directions

        class D2(DTLZ2):
            def _calc_pareto_front(self, ref_dirs=None):
                R = get_reference_directions("das-dennis", 3, n_partitions=4) if ref_dirs is None else ref_dirs
                return R / np.linalg.norm(R, axis=1)[:, None]
        return D2(n_var=5, n_obj=3)
    if name == "dyn":
        from pymoo.problems.dynamic.df import DF1
        return DF1(n_var=4, taut=2, nt=5)
    if name == "sphere":
        return get_problem("sphere", n_var=3)
    if name == "g06":
        return get_problem("g6")
    spec = {"free2": dict(cls="MO", n_var=4, n_obj=2, bounds="neg", fn="scaled"), "free3": dict(cls="MO", n_var=5, n_obj=3, bounds="shift", fn="dtlz2"),
            "con2": dict(cls="MO", n_var=4, n_obj=2, bounds="shift", fn="convex", cons="narrow"), "inf2": dict(cls="MO", n_var=4, n_obj=2, bounds="neg", fn="convex", cons="infeasible"),
            "free1": dict(cls="SO", n_var=4, bounds="unit", where="inside", fn="sphere"), "con1": dict(cls="SO", n_var=4, bounds="sym", where="lower", fn="sphere", cons="ieq"),
            "inf1": dict(cls="SO", n_var=3, bounds="neg", where="upper", fn="linear", cons="infeasible")}[name]
    return probs.make(spec)


def algorithm(case, prob, rng):
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.moo.sms import SMSEMOA
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.ga_niching import NicheGA
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    n = case["pop"]
    if prob.n_obj > 1:
        return [NSGA2, SMSEMOA][int(rng.integers(4) == 0)](pop_size=n)
    if prob.has_constraints():
        return [GA, DE][int(rng.integers(2))](pop_size=n)
    return [GA, DE, NicheGA, PSO][int(rng.integers(4))](pop_size=n)


def front(prob):
    try:
        return prob.pareto_front()
    except Exception:
        return None


def unit(A, lo, hi):
    A = np.array(A, float) - lo
    d = hi - lo
    A[:, d != 0] /= d[d != 0]
    return A


def igd(Z, A, plus=False):
    D = np.array([[np.sqrt(np.sum((np.maximum(a - z, 0) if plus else a - z) ** 2)) for a in A] for z in Z])
    return float(D.min(axis=1).mean())


def do_table(case, mon):
    from pymoo.core.callback import Callback
    from pymoo.optimize import minimize
    from pymoo.util.display.column import Column
    logs = []
    for verbose in (True, False):
        rng = np.random.default_rng(case["seed"])
        prob = problem(case["prob"], rng)
        alg = algorithm(case, prob, rng)
        user = rng.random() < 0.4
        V, seen = [], []
        alg.output = copy.deepcopy(alg.output)
        if user:
            alg.output.columns.append(Column("mine", width=int(rng.choice([8, 13])), func=lambda a: float(a.pop.get("F").sum()) if a.n_gen % 2 else None))

        class Cb(Callback):
            def update(self, a):
                if verbose:
                    V.append(values(a, prob, seen))
                logs_.append(np.array([np.concatenate([np.ravel(i.X), np.ravel(i.F)]) for i in a.pop], float))
                if hasattr(prob, "tic"):
                    prob.tic()
        logs_ = []
        np.random.seed(4)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            minimize(prob, alg, ("n_gen", case["n_gen"]), seed=case["seed"], verbose=verbose, display=Both(verbose, Cb()), copy_algorithm=False)
        logs.append(logs_)
        if verbose:
            table(case, mon, out.getvalue(), V, type(alg).__name__, prob, user)
        else:
            mon.check(out.getvalue() == "", f"not-silent:{type(alg).__name__}", "a silent run printed something")
    mon.check(len(logs[0]) == len(logs[1]) and all(np.array_equal(a, b) for a, b in zip(*logs)), "watching-changes", "the run with the table differs from the one without")
    mon.ev("silent_equal")


def Both(verbose, cb):
    from pymoo.util.display.display import Display

    class D(Display):
        def update(self, a, **kw):
            self.output = a.output
            super().update(a, **kw)
            cb.update(a)
    return D(None, verbose=verbose)


def values(a, prob, seen):
    """What the cells of this iteration must show."""
    opt, pop = a.opt, a.pop
    F = np.array([i.F for i in opt], float)
    feas = np.array([bool(i.FEAS[0]) for i in opt])
    F = F[feas]
    e = dict(n_gen=a.n_gen, n_eval=a.evaluator.n_eval)
    pf = front(prob)
    if prob.has_constraints():
        e["cv_min"] = float(min(float(i.CV[0]) for i in opt))
        e["cv_avg"] = float(np.mean([float(i.CV[0]) for i in pop]))
    if prob.n_obj > 1:
        e["n_nds"] = len(opt)
        if pf is not None:
            lo, hi = pf.min(axis=0), pf.max(axis=0)
            if len(F):
                Z, N = unit(pf, lo, hi), unit(F, lo, hi)
                e["igd"], e["gd"] = igd(Z, N), igd(N, Z)
                if prob.n_obj == 2:
                    e["hv"] = gen.hv(N, (np.where(hi != lo, 1.0, 0.0)))
            else:
                e.update({"igd": None, "gd": None, **({"hv": None} if prob.n_obj == 2 else {})})
        elif len(F):
            e["eps"] = change(F, seen)
            seen.append(F)
        else:
            e["eps"] = (None,)
    else:
        f = np.array([float(i.F[0]) for i in pop if bool(i.FEAS[0])])
        e["f_avg"] = float(f.mean()) if len(f) else None
        e["f_min"] = float(opt[0].F[0]) if bool(opt[0].FEAS[0]) else None
        if pf is not None:
            e["f_gap"] = e["f_min"] - float(np.ravel(pf)[0]) if e["f_min"] is not None else None
        if type(a).__name__ == "NicheGA":
            e["n_niches"] = len(opt)
        if type(a).__name__ == "PSO":
            e.update(f=a.f, w=a.w, c1=a.c1, c2=a.c2)
    if any(c.name == "mine" for c in a.output.columns):
        e["mine"] = float(np.array([i.F for i in pop]).sum()) if a.n_gen % 2 else None
    return e


def change(F, seen):
    """The allowed (kind, change) pairs with respect to any earlier front: the criterion keeps the front of the last change it found."""
    out = []
    for P in seen[::-1]:
        lo, hi = F.min(axis=0), F.max(axis=0)
        norm = np.where(hi - lo < 1e-32, 1.0, hi - lo)
        di = float(np.max(np.abs((lo - P.min(axis=0)) / norm)))
        dn = float(np.max(np.abs((hi - P.max(axis=0)) / norm)))
        df = igd(unit(F, lo, hi), unit(P, lo, hi))
        out.append(("ideal", di) if di > 0.0025 else ("nadir", dn) if dn > 0.0025 else ("f", df))
    return tuple(out)


def table(case, mon, text, V, name, prob, user):
    lines = [l for l in text.splitlines() if l.strip()]
    tag = f"{name}:{case['prob']}"
    head = [k for k, l in enumerate(lines) if l.strip().startswith("n_gen")]
    if not mon.check(len(head) == 1 and head[0] == 1 and set(lines[0]) == {"="} and set(lines[2]) == {"="}, f"header:{tag}", f"the table starts with {lines[:4]}"):
        return
    names = [c.strip() for c in lines[1].split("|")]
    width = [len(c) for c in lines[1].split(" | ")]
    rows = lines[3:]
    mon.check(len(rows) == len(V) == case["n_gen"], f"rows:{tag}", f"{len(rows)} lines for {len(V)} iterations")
    mon.check(len(set(names)) == len(names), f"names:{tag}", f"columns {names}")
    for k, (l, e) in enumerate(zip(rows, V)):
        cells = l.split(" | ")
        mon.ev("lines")
        mon.state(tag, l)
        if not mon.check([len(c) for c in cells] == width, f"layout:{tag}", f"cells of line {k + 1} have the widths {[len(c) for c in cells]}, the header {width}"):
            continue
        c = {n: (t, w) for n, t, w in zip(names, cells, width)}
        miss = [x for x in e if x not in c]
        mon.check(not miss, f"columns:{tag}", f"columns {miss} are missing in {names}")
        for x, want in e.items():
            if x not in c:
                continue
            t, w = c[x]
            if x == "eps":
                kind = c["indicator"][0].strip()
                pairs = [p for p in want if p]
                if not pairs:
                    mon.check(t.strip() == "-" and kind == "-", f"eps:{tag}", f"line {k + 1} shows the change {t!r} ({kind}) without an earlier front")
                    continue
                mon.ev("eps")
                # the first feasible front after infeasible ones has nothing to be compared with
                ok = any(kind == q and near(t, v, w) for q, v in pairs) or (t.strip() == "-" and kind == "-" and (k == 0 or V[k - 1].get("eps") in ((None,), ())))
                mon.check(ok, f"eps:{tag}", f"line {k + 1} shows the change {t.strip()} ({kind}), expected one of {pairs[:4]}")
            elif want is None:
                mon.ev("dashes")
                mon.check(t.strip() == "-", f"dash:{x}:{tag}", f"line {k + 1} shows {x} = {t.strip()} although there is nothing to show")
            else:
                mon.check(near(t, want, w), f"{x}:{tag}", f"line {k + 1} shows {x} = {t.strip()}, it is {want!r}")
                for ev in ("igd", "gd", "hv", "f_gap"):
                    if x == ev:
                        mon.ev(ev)
                if x == "n_niches":
                    mon.ev("niches")
                if x == "w":
                    mon.ev("pso")
                if x == "mine":
                    mon.ev("user_columns")
                if case["prob"] == "dyn":
                    mon.ev("dynamic")


def near(t, v, w):
    try:
        x = float(t)
    except ValueError:
        return False
    if isinstance(v, (int, np.integer)):
        return x == v
    return abs(x - v) <= 0.51 * 10.0 ** -(max(w - 8, 0)) * abs(v) + 0.51 * 10.0 ** -(w - 3) + 1e-9 * abs(v)


def do_record(case, mon):
    from pymoo.core.callback import CallbackCollection
    from pymoo.core.recorder import DefaultMultiObjectiveRecorder, DefaultSingleObjectiveRecorder
    from pymoo.optimize import minimize
    from pymoo.core.callback import Callback
    rng = np.random.default_rng(case["seed"])
    prob = problem(case["prob"], rng)
    alg = algorithm(case, prob, rng)
    if rng.random() < 0.3 and hasattr(alg, "n_offsprings") and type(alg).__name__ in ("NSGA2", "GA"):
        alg.n_offsprings = int(rng.choice([1, 3]))
    rec = (DefaultSingleObjectiveRecorder if prob.n_obj == 1 else DefaultMultiObjectiveRecorder)(nth_evals=case["nth"])
    T = []

    class Truth(Callback):
        def update(self, a):
            opt = a.opt
            feas = np.array([bool(i.FEAS[0]) for i in opt])
            F = np.array([i.F for i in opt], float)[feas]
            pf = front(prob)
            e = dict(n_evals=a.evaluator.n_eval, cv=float(min(float(i.CV[0]) for i in opt)))
            if prob.n_obj == 1:
                e["f"] = float(F.min()) if len(F) else np.inf
                e["fgap"] = e["f"] - float(pf.min()) if pf is not None else np.inf
            elif pf is not None and len(F):
                lo, hi = pf.min(axis=0), pf.max(axis=0)
                Z, N = unit(pf, lo, hi), unit(F, lo, hi)
                e["igd"], e["igd+"] = igd(Z, N), igd(Z, N, True)
            else:
                e["igd"] = e["igd+"] = np.inf
            T.append(e)

        def notify(self, a):
            pass
    order = [rec, Truth()]

    class Tic(Callback):
        def update(self, a):
            if hasattr(prob, "tic"):
                prob.tic()
    minimize(prob, alg, ("n_gen", case["n_gen"]), seed=case["seed"], callback=CallbackCollection(*order, Tic()))
    want, mark = [], None
    for e in T:
        m = None if case["nth"] is None else e["n_evals"] // case["nth"]
        if m is None or mark is None or m > mark:
            want.append(e)
            mark = m
        else:
            mon.ev("skipped_records")
    tag = case["prob"]
    if not mon.check(len(rec.data) == len(want), f"records:{tag}", f"{len(rec.data)} records for evaluations {[e['n_evals'] for e in T]} and an interval of {case['nth']}, expected {[e['n_evals'] for e in want]}"):
        return
    for g, e in zip(rec.data, want):
        mon.ev("recorded")
        mon.state("rec", tag, e["n_evals"], e["cv"])
        for k, v in e.items():
            ok = g[k] == v or abs(float(g[k]) - v) <= 1e-9 * max(1.0, abs(v))
            mon.check(ok, f"record:{k}:{tag}", f"record at {e['n_evals']} evaluations: {k} = {g[k]!r}, it was {v!r}")
    for k in want[0]:
        (col,) = rec.get(k)
        mon.check(len(col) == len(want) and all(a == g[k] or (a != a and g[k] != g[k]) for a, g in zip(col, rec.data)), f"get:{tag}", f"reading {k} back gives {np.asarray(col).tolist()}")


class Bar:
    """Stands in for the bar of alive_progress."""
    made = []

    def __init__(self, *a, **kw):
        self.pos, self.closed, self.kw = [], False, kw
        Bar.made.append(self)

    def _gen(self):
        def at(v, *a, **k):
            self.pos.append(float(v))
        yield at
        self.closed = True

    @property
    def gen(self):
        return self._gen()


def do_bar(case, mon):
    import pymoo.util.display.progress as pg
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.core.callback import Callback
    from pymoo.core.termination import NoTermination
    from pymoo.optimize import minimize
    from pymoo.termination.default import DefaultSingleObjectiveTermination
    rng = np.random.default_rng(case["seed"])
    so = case["term"] == "tol" or rng.random() < 0.5
    prob = problem("free1" if so else "zdt1", rng)
    alg = (DE if so else NSGA2)(pop_size=int(rng.choice([4, 7, 10])))
    n = int(rng.choice([1, 3, 7, 30]))
    stop = int(rng.integers(1, 6))
    term = {"n_gen": ("n_gen", n), "n_eval": ("n_eval", n * 7), "tol": DefaultSingleObjectiveTermination(period=4, n_max_gen=60), "forced": ("n_gen", 50), "none": NoTermination()}[case["term"]]
    perc = []

    class Cb(Callback):
        def update(self, a):
            if case["term"] in ("forced", "none") and a.n_gen == stop:
                a.termination.terminate()

    class See(Callback):
        pass
    from pymoo.util.display.display import Display
    old = pg.alive_bar
    Bar.made = []
    pg.alive_bar = Bar
    try:
        class D(Display):
            def update(self, a, **kw):
                super().update(a, **kw)
                perc.append(float(a.termination.perc))
        how = rng.random() < 0.5
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res = minimize(prob, alg, term, seed=case["seed"], callback=Cb(), display=D(None, progress=True), copy_algorithm=False) if how else None
            if not how:
                # the usual way; the positions are compared with the share of the budget alone
                upd = Display.update

                def spy(self, a, **kw):
                    r = upd(self, a, **kw)
                    perc.append(float(a.termination.perc))
                    return r
                Display.update = spy
                try:
                    res = minimize(prob, alg, term, seed=case["seed"], callback=Cb(), progress=True, copy_algorithm=False)
                finally:
                    Display.update = upd
    finally:
        pg.alive_bar = old
    if not mon.check(len(Bar.made) == 1, "bars", f"{len(Bar.made)} bars were opened"):
        return
    b = Bar.made[0]
    mon.check(len(b.pos) == len(perc), "bar:moves", f"the bar moved {len(b.pos)} times in {len(perc)} iterations")
    mon.check(b.closed, "bar:open", "the bar was not closed at the end of the run")
    mon.ev("bars_closed", b.closed)
    best = 0.0
    for k, (p, v) in enumerate(zip(b.pos, perc)):
        best = max(best, v)
        mon.ev("bar_positions")
        mon.state("bar", case["term"], k, p)
        mon.check(0 <= p <= 1 and abs(p - np.floor(min(best, 1.0) * 100) / 100) <= 1e-12, f"bar:{case['term']}", f"position {p} in iteration {k + 1}, the criterion is at {v} (at most {best} so far)")
        if case["term"] == "n_gen":
            mon.check(abs(v - (k + 1) / n) <= 1e-12, "bar:share", f"iteration {k + 1} of {n} counts as {v}")
    if case["term"] in ("n_gen", "n_eval", "tol"):
        mon.check(b.pos[-1:] == [1.0], f"bar:end:{case['term']}", f"the bar ends at {b.pos[-1:]} although the criterion is met")
