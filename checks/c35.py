"""C35: problem wrappers differ from the wrapped problem by the documented transformation only."""
import copy
import warnings
import numpy as np
from checks.c14 import ref_cv, a_config
from checks.c28 import Spec, build, Rec, close
from checks.c25 import scalar

RULE = ("random user problems (vectorised, element-wise, functional; with and without constraints, extra outputs and callbacks) are wrapped by random stacks of the problem wrappers (penalty, violation as objective, bounds as constraints, unit box, several to one objective, decompose, static values, line search); "
        "a composed reference model written from the documentation gives the declared sizes and the values of every row; evaluation goes through tuples, dictionaries, requested subsets, single rows, the evaluator and short optimisation runs; the wrapped problem is evaluated before and after; "
        "dynamic problems are advanced by hand and by TimeSimulation; distinct states are different (stack, problem, design) combinations")
REQUIRED = ["penalty", "objective", "objective_only", "bounds", "bounds_removed", "unit", "single", "decompose", "decompose_inplace", "static", "static_partial", "line", "nested", "rows", "inside", "outside", "feasible", "infeasible", "boundary", "subset", "alone", "evaluator", "skipped", "run",
            "inner_same", "sizes", "extra", "front", "front_points", "set_points", "unit_roundtrip", "tic", "time_formula", "time_front", "time_set", "simulation", "copied"]
ASSUMPTIONS = ["the wrapped problem has bounds where the transformation needs them", "a stack holds every wrapper class at most once (Python refuses the same class twice)", "decompositions are given their ideal and nadir points (otherwise they depend on the batch by definition)"]
TIMEOUT = {"quick": 200, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 135])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = [new(kind="stack", n=300 if q else 900) for _ in range(16 if q else 120)]
    out += [new(kind="static", n=200 if q else 600) for _ in range(3 if q else 20)]
    out += [new(kind="decompose", n=200 if q else 600) for _ in range(3 if q else 20)]
    out += [new(kind="line", n=200 if q else 600) for _ in range(2 if q else 20)]
    out += [new(kind="fronts", n=60 if q else 200) for _ in range(3 if q else 30)]
    out += [new(kind="dynamic", n=40 if q else 100) for _ in range(4 if q else 40)]
    out += [new(kind="runs", n=20 if q else 40) for _ in range(6 if q else 60)]
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            globals()["run_" + case["kind"]](rng, mon)


def slack_of(want):
    """Rounding errors are relative to the largest finite value involved."""
    return 1e-8 * (1 + max([0.0] + [float(np.abs(v[np.isfinite(v)]).max()) for v in want.values() if np.isfinite(v).any()]))


class Model:
    """What a (wrapped) problem computes: sizes, bounds and values per row."""

    def __init__(self, d, m, g, h, xl, xu, f):
        self.d, self.m, self.g, self.h, self.xl, self.xu, self.f = d, m, g, h, xl, xu, f

    def values(self, X):
        rows = [self.f(x) for x in X]
        return {k: np.array([r[i] for r in rows], float).reshape(len(X), c) for i, (k, c) in enumerate((("F", self.m), ("G", self.g), ("H", self.h)))}


def inner(rng, mon, style=None):
    spec = Spec(rng)
    spec.inf = False               # sums of infinite values of both signs depend on the order
    spec.nan = False
    style = style or str(rng.choice(["vectorised", "elementwise", "functional"]))
    rec = Rec(mon)
    p, extra = build(rng, spec, style, rec)
    kind = int(rng.integers(3))
    if kind:
        lo = rng.uniform(-3, 1, size=spec.d)
        hi = lo + 10.0 ** rng.uniform(-2, 2, size=spec.d)
        p.xl, p.xu = lo, hi
    f = lambda x: (spec.row(x, "F"), spec.row(x, "G"), spec.row(x, "H"))
    if rng.random() < 0.3:
        # constraints met with equality now and then
        spec.A["H"][:] = 0
        spec.w["H"][:] = 0
    return p, Model(spec.d, spec.m, spec.g, spec.h, p.xl.copy(), p.xu.copy(), f), extra, rec, spec, style


def a_decomposition(rng, m, zero=False):
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    name = str(rng.choice(["WeightedSum", "Tchebicheff", "ASF", "PBI"]))
    w = rng.random(m) + 0.1
    w = w / w.sum()
    ideal = rng.normal(size=m) - 5 if not zero else np.zeros(m)
    if name == "WeightedSum":
        d, kw, u = WeightedSum(), dict(weights=w), np.zeros(m)
    else:
        cls = dict(Tchebicheff=Tchebicheff, ASF=ASF, PBI=PBI)[name]
        d, kw, u = cls(), dict(weights=w, utopian_point=ideal), ideal
    return d, kw, (lambda F: scalar(name, F, w, u, {})[0])


def wrap(rng, mon, p, M, used):
    """One more wrapper: (problem, model, name) or None."""
    from pymoo.constraints.as_penalty import ConstraintsAsPenalty
    from pymoo.constraints.as_obj import ConstraintsAsObjective
    from pymoo.constraints.from_bounds import ConstraintsFromBounds
    from pymoo.problems.zero_to_one import ZeroToOne
    from pymoo.problems.multi_to_single import MultiToSingleObjective
    from pymoo.core.individual import Individual
    names = ["penalty", "objective", "single"]
    if M.xl is not None:
        names += ["bounds", "unit"]
    names = [e for e in names if e not in used]
    name = str(rng.choice(names))
    f = M.f
    if name == "penalty":
        lam = float(rng.choice([0.1, 1.0, 100.0, 0.0]))
        q = ConstraintsAsPenalty(p, penalty=lam) if lam != 0.1 or rng.random() < 0.5 else ConstraintsAsPenalty(p)
        cfg = Individual.default_config()
        g = lambda x: (lambda F, G, H: (F + lam * ref_cv(G, H, cfg), np.zeros(0), np.zeros(0)))(*f(x))
        N = Model(M.d, M.m, 0, 0, M.xl, M.xu, g)
    elif name == "objective":
        cfg = a_config(rng, M.g, M.h) if rng.random() < 0.6 else None
        ref = cfg or Individual.default_config()
        append = bool(rng.random() < 0.7)
        q = ConstraintsAsObjective(p, config=cfg, append=append) if cfg is not None or not append else ConstraintsAsObjective(p)
        g = lambda x: (lambda F, G, H: (np.append([ref_cv(G, H, ref)], F) if append else np.array([ref_cv(G, H, ref)]), np.zeros(0), np.zeros(0)))(*f(x))
        N = Model(M.d, M.m + 1 if append else 1, 0, 0, M.xl, M.xu, g)
        if not append:
            mon.ev("objective_only")
    elif name == "bounds":
        rem = bool(rng.random() < 0.4)
        q = ConstraintsFromBounds(p, remove_bonds=rem) if rem or rng.random() < 0.5 else ConstraintsFromBounds(p)
        xl, xu = M.xl, M.xu
        g = lambda x: (lambda F, G, H: (F, np.concatenate([G, xl - x, x - xu]), H))(*f(x))
        N = Model(M.d, M.m, M.g + 2 * M.d, M.h, None if rem else xl, None if rem else xu, g)
        if rem:
            mon.ev("bounds_removed")
    elif name == "unit":
        q = ZeroToOne(p)
        xl, xu = M.xl, M.xu
        g = lambda u: f(xl + np.asarray(u) * (xu - xl))
        N = Model(M.d, M.m, M.g, M.h, np.zeros(M.d), np.ones(M.d), g)
        U = rng.random((3, M.d))
        Xo = q.denormalize(U)
        mon.check(np.allclose(Xo, xl + U * (xu - xl), rtol=1e-9, atol=1e-12) and np.allclose(q.normalize(Xo), U, rtol=1e-7, atol=1e-9), "unit:roundtrip", lambda: f"denormalize/normalize do not map between the unit box and the bounds: {Xo.tolist()} for {U.tolist()}")
        mon.ev("unit_roundtrip")
    else:
        d, kw, s = a_decomposition(rng, M.m)
        q = MultiToSingleObjective(p, d, kwargs=kw)
        g = lambda x: (lambda F, G, H: (np.array([s(F)]), G, H))(*f(x))
        N = Model(M.d, 1, M.g, M.h, M.xl, M.xu, g)
    mon.ev(name)
    used.append(name)
    return q, N


def design(rng, mon, M, n):
    """Points within, on and (where nothing forbids it) outside the bounds."""
    lo = M.xl if M.xl is not None else np.full(M.d, -2.0)
    hi = M.xu if M.xu is not None else np.full(M.d, 2.0)
    X = lo + rng.random((n, M.d)) * (hi - lo)
    kind = int(rng.integers(3))
    if kind == 1:
        on = rng.random((n, M.d)) < 0.4
        X = np.where(on, np.where(rng.random((n, M.d)) < 0.5, lo, hi), X)
        mon.ev("boundary")
    elif kind == 2:
        X = lo + rng.uniform(-0.5, 1.5, size=(n, M.d)) * (hi - lo)
        mon.ev("outside")
    else:
        mon.ev("inside")
    return X


def judge(rng, mon, key, q, M, X, extra=None, rec=None):
    want = M.values(X)
    slack = slack_of(want)
    ok = lambda a, b: close(a, b, slack)
    names = ["F", "G", "H"]
    sizes = (q.n_obj, q.n_ieq_constr, q.n_eq_constr, q.n_constr, q.n_var)
    mon.check(sizes == (M.m, M.g, M.h, M.g + M.h, M.d), f"{key}:sizes", lambda: f"declares (objectives, inequalities, equalities, constraints, variables) = {sizes} instead of {(M.m, M.g, M.h, M.g + M.h, M.d)}")
    b = q.bounds()
    for v, r, t in zip(b, (M.xl, M.xu), ("lower", "upper")):
        mon.check((v is None) == (r is None) and (v is None or np.allclose(v, r, rtol=1e-12)), f"{key}:bounds", lambda: f"{t} bounds are {v}, expected {r}")
    mon.ev("sizes")
    before = X.copy()

    def judge_out(what, out, idx, ks):
        for k in ks:
            if not mon.check(k in out, f"{key}:{what}:missing", lambda: f"{k} was requested and is not in the output"):
                continue
            mon.check(ok(out[k], want[k][idx]), f"{key}:{what}:{k}", lambda: f"{k} is {np.asarray(out[k]).tolist()} of shape {np.shape(out[k])}, expected {want[k][idx].tolist()}", x=X[idx].tolist())

    allrows = np.arange(len(X))
    try:
        out = q.evaluate(X, return_values_of=list(names), return_as_dictionary=True)
        judge_out("dict", out, allrows, names)
        if extra:
            e = np.asarray(out.get("extra", np.nan), float)
            mon.check(e.shape == (len(X),) and close(e, extra(X), slack), f"{key}:extra", lambda: f"an additional output is {e.tolist()}, the wrapped problem gives {extra(X).tolist()}")
            mon.ev("extra")
        got = q.evaluate(X)
        expect = ["F"] + (["G"] if M.g else []) + (["H"] if M.h else [])
        parts = got if isinstance(got, tuple) else (got,)
        mon.check(len(parts) == len(expect), f"{key}:default", lambda: f"evaluation returns {len(parts)} values instead of {expect}")
        judge_out("default", dict(zip(expect, parts)), allrows, expect)
        ks = [str(e) for e in rng.permutation(names)[:int(rng.integers(1, 4))]]
        got = q.evaluate(X, return_values_of=list(ks))
        judge_out("subset", dict(zip(ks, got if len(ks) > 1 else [got])), allrows, ks)
        mon.ev("subset")
        i = int(rng.integers(len(X)))
        one = q.evaluate(X[i], return_values_of=list(names), return_as_dictionary=True)
        judge_out("alone", one, i, names)
        one = q.evaluate(X[i:i + 1], return_values_of=list(names), return_as_dictionary=True)
        judge_out("one_row", one, np.array([i]), names)
        mon.ev("alone")
        from pymoo.core.evaluator import Evaluator
        from pymoo.core.population import Population
        pop = Population.new(X=X.copy())
        ev = Evaluator()
        ev.eval(q, pop)
        judge_out("evaluator", {k: np.array([getattr(ind, k) for ind in pop]).reshape(len(pop), -1) if want[k].shape[1] else np.array([np.asarray(getattr(ind, k), float) for ind in pop]).reshape(len(pop), -1) for k in names}, allrows, names)
        cfg = pop[0].config
        cv = np.array([ref_cv(g, h, cfg) for g, h in zip(want["G"], want["H"])])
        mon.check(close(pop.get("CV")[:, 0], cv, slack), f"{key}:evaluator:CV", lambda: f"violations are {pop.get('CV')[:, 0].tolist()} instead of {cv.tolist()}")
        mon.ev("evaluator")
        n_calls = len(rec.calls) if rec is not None else None
        ev.eval(q, pop)
        mon.check(ev.n_eval == len(X) and (rec is None or len(rec.calls) == n_calls), f"{key}:again", lambda: f"evaluating an evaluated population again counted {ev.n_eval - len(X)} evaluations and called the problem {0 if rec is None else len(rec.calls) - n_calls} times")
        mon.ev("skipped")
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        mon.viol(f"{key}:raises", f"evaluating raises {e!r} at {tb.filename.split('/')[-1]}:{tb.lineno}")
    mon.eq(X, before, f"{key}:modified", "the design was modified")
    mon.ev("rows", len(X))
    for c in want["G"]:
        mon.ev("feasible" if np.all(c <= 0) else "infeasible")


def run_stack(rng, mon):
    p, M0, extra, rec, spec, style = inner(rng, mon)
    M, q, used, inside = M0, p, [], []
    depth = int(rng.choice([1, 1, 2, 3]))
    kept = copy.deepcopy({k: v for k, v in p.__dict__.items() if k in ("n_var", "n_obj", "n_ieq_constr", "n_eq_constr", "xl", "xu")})
    to_inner = lambda X: X
    for _ in range(depth):
        before_xl, before_xu = M.xl, M.xu
        q, M = wrap(rng, mon, q, M, used)
        if used[-1] == "unit":
            to_inner = (lambda g, lo, hi: lambda X: g(lo + X * (hi - lo)))(to_inner, before_xl, before_xu)
    if depth > 1:
        mon.ev("nested")
    key = f"{'+'.join(used)}:{style}"
    X = design(rng, mon, M, int(rng.integers(1, 8)))
    mon.state(key, X)
    if rng.random() < 0.2:
        q = copy.deepcopy(q)
        mon.ev("copied")
    judge(rng, mon, key, q, M, X, (lambda X: np.sum(to_inner(X), axis=1)) if extra else None, rec if rng.random() < 0.5 and "copied" not in key else None)
    now = {k: p.__dict__[k] for k in kept}
    mon.check(all(np.array_equal(kept[k], now[k]) for k in kept), f"{key}:inner", lambda: f"the wrapped problem has changed from {kept} to {now}")
    X = design(rng, mon, M0, 3)
    out, want = p.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True), M0.values(X)
    for k in want:
        mon.check(close(out[k], want[k]), f"{key}:inner:{k}", lambda: f"the wrapped problem now has other values for {k}")
    mon.ev("inner_same")


def run_static(rng, mon):
    """Values given from outside replace what the problem would compute."""
    from pymoo.problems.static import StaticProblem
    from pymoo.core.problem import Problem
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    p, M, extra, rec, spec, style = inner(rng, mon)
    used = []
    if rng.random() < 0.5:
        for _ in range(int(rng.integers(1, 3))):
            p, M = wrap(rng, mon, p, M, used)
    elif rng.random() < 0.4:
        p = Problem(n_var=M.d, n_obj=M.m, n_ieq_constr=M.g, n_eq_constr=M.h, xl=M.xl, xu=M.xu)
        used = ["plain"]
    key = "static:" + "+".join(used or ["direct"])
    n = int(rng.integers(1, 8))
    vals = dict(F=rng.normal(size=(n, M.m)), G=rng.normal(size=(n, M.g)), H=rng.normal(size=(n, M.h)))
    given = {k: v for k, v in vals.items() if v.shape[1] > 0 or rng.random() < 0.3}
    if rng.random() < 0.3:
        given["note"] = np.arange(n, dtype=float)
    s = StaticProblem(p, **{k: v.copy() for k, v in given.items()})
    X = design(rng, mon, M, n)
    mon.state(key, X)
    calls = len(rec.calls)
    try:
        out = s.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)
        for k in set(vals) | set(given):
            mon.check(k in out and close(out[k], given.get(k, vals.get(k))), f"{key}:{k}", lambda: f"{k} is {np.asarray(out.get(k)).tolist()}, given was {given.get(k, vals.get(k)).tolist()}")
        pop = Population.new(X=X)
        ev = Evaluator()
        ev.eval(s, pop)
        for k in given:
            got = np.array([np.asarray(ind.get(k), float) for ind in pop])
            mon.check(close(got, given[k]), f"{key}:pop:{k}", lambda: f"the population has {k} = {got.tolist()}, given was {given[k].tolist()}")
        mon.check(np.array_equal(pop.get("X"), X) and ev.n_eval == n, f"{key}:pop", lambda: f"the design changed or {ev.n_eval} evaluations are counted for {n}")
        if n > 1:
            one = StaticProblem(p, **{k: v[:1] for k, v in given.items()})
            o = one.evaluate(X[0], return_values_of=["F"])
            mon.check(close(o, vals["F"][0]), f"{key}:alone", lambda: f"a single solution has {o} instead of {vals['F'][0]}")
            mon.ev("static_partial")
    except Exception as e:
        mon.viol(f"{key}:raises", f"giving the values from outside raises {e!r}")
    mon.check(len(rec.calls) == calls, f"{key}:calls", "the problem itself was evaluated")
    mon.check((s.n_obj, s.n_ieq_constr, s.n_eq_constr, s.n_var) == (M.m, M.g, M.h, M.d), f"{key}:sizes", "other sizes are declared")
    mon.ev("static")


def run_decompose(rng, mon):
    from pymoo.problems.util import decompose
    p, M, extra, rec, spec, style = inner(rng, mon, str(np.random.default_rng(int(rng.integers(1 << 30))).choice(["vectorised", "elementwise", "functional"])))
    d, kw, s = a_decomposition(rng, M.m, zero=True)
    w = kw.pop("weights")
    rc = bool(rng.random() < 0.7)
    n_obj = p.n_obj
    key = f"decompose:{style}"
    q = decompose(p, d, w, return_copy=rc) if not rc or rng.random() < 0.5 else decompose(p, d, w)
    if rc:
        X0 = design(rng, mon, M, 3)
        mon.check(q is not p and p.n_obj == n_obj and close(p.evaluate(X0, return_values_of=["F"]), M.values(X0)["F"]), f"{key}:inner", "the original problem was changed although a copy was requested")
    else:
        mon.check(q is p, f"{key}:inplace", "a copy was returned although none was requested")
        mon.ev("decompose_inplace")
    N = Model(M.d, 1, M.g, M.h, M.xl, M.xu, lambda x: (lambda F, G, H: (np.array([s(F)]), G, H))(*M.f(x)))
    X = design(rng, mon, N, int(rng.integers(1, 8)))
    mon.state(key, X)
    judge(rng, mon, key, q, N, X)
    mon.ev("decompose")


def run_line(rng, mon):
    from pymoo.algorithms.base.line import LineSearchProblem
    from pymoo.core.individual import Individual
    p, M, extra, rec, spec, style = inner(rng, mon)
    x0 = design(rng, mon, M, 1)[0]
    x0 = np.clip(x0, M.xl, M.xu)
    dvec = rng.normal(size=M.d) * (M.xu - M.xl)
    strict = bool(rng.random() < 0.6)
    key = f"line:{style}"
    q = LineSearchProblem(p, Individual(X=x0.copy()), dvec.copy(), strict_bounds=strict)
    f = M.f
    point = lambda a: np.clip(x0 + a * dvec, M.xl, M.xu) if strict else x0 + a * dvec
    A = rng.random((int(rng.integers(1, 6)), 1)) * float(rng.choice([0.1, 1.0, 5.0]))
    want = Model(1, M.m, M.g, M.h, None, None, lambda a: f(point(float(a[0])))).values(A)
    mon.state(key, A, x0)
    try:
        out = q.evaluate(A, return_values_of=["F", "G", "H"], return_as_dictionary=True)
        one = q.evaluate(A[0], return_values_of=["F"])
    except Exception as e:
        mon.viol(f"{key}:raises", f"evaluating along a line raises {e!r}")
        return
    for k in want:
        mon.check(close(out[k], want[k], 1e-9), f"{key}:{k}", lambda: f"{k} along the line is {out[k].tolist()} expected {want[k].tolist()}", strict=strict)
    mon.check(close(one, want["F"][0], 1e-9), f"{key}:alone", lambda: f"one step gives {one} instead of {want['F'][0]}")
    P = np.array([point(float(a[0])) for a in A])
    mon.check(close(np.reshape(out["__X__"], P.shape), P, 1e-9), f"{key}:X", lambda: f"the reported points are {np.asarray(out['__X__']).tolist()} instead of {P.tolist()}")
    mon.ev("line")


CONSTRAINED = ["bnh", "g1", "g6", "g8", "srn", "mw1", "g11", "pressure_vessel"]
FREE = ["zdt1", "zdt3", "dtlz2", "sphere", "ackley", "rastrigin"]


def run_fronts(rng, mon):
    from pymoo.problems import get_problem
    from pymoo.constraints.as_penalty import ConstraintsAsPenalty
    from pymoo.constraints.as_obj import ConstraintsAsObjective
    from pymoo.constraints.from_bounds import ConstraintsFromBounds
    from pymoo.problems.zero_to_one import ZeroToOne
    name = str(rng.choice(CONSTRAINED + FREE))
    p = get_problem(name)
    if rng.random() < 0.5:
        # the wrapped problem has been asked before
        p.pareto_front(), p.ideal_point(), p.nadir_point(), p.pareto_set()
    pf, ps = p.pareto_front(), p.pareto_set()
    kind = str(rng.choice(["penalty", "objective", "bounds", "unit"]))
    key = f"front:{kind}:{name}"
    q = dict(penalty=ConstraintsAsPenalty, objective=ConstraintsAsObjective, bounds=ConstraintsFromBounds, unit=ZeroToOne)[kind](p)
    mon.state(key)
    try:
        wf, wi, wn, ws = q.pareto_front(), q.ideal_point(), q.nadir_point(), q.pareto_set()
    except Exception as e:
        mon.viol(f"{key}:raises", f"asking for the front of the wrapped {name} raises {e!r}")
        return
    if wf is not None:
        mon.check(wf.ndim == 2 and wf.shape[1] == q.n_obj, f"{key}:columns", lambda: f"the front has {wf.shape[1]} columns for {q.n_obj} objectives")
        if pf is not None and wf.shape[1] == q.n_obj:
            want = pf if kind != "objective" else np.column_stack([np.zeros(len(pf)), pf])
            mon.check(wf.shape == want.shape and close(wf[np.lexsort(wf.T[::-1])], want[np.lexsort(want.T[::-1])]), f"{key}:values", "the front is not the one of the wrapped problem")
        mon.check(wi is not None and close(wi, wf.min(axis=0)) and close(wn, wf.max(axis=0)), f"{key}:corners", lambda: f"ideal {wi} and nadir {wn} do not belong to the front with {wf.min(axis=0)} and {wf.max(axis=0)}")
        mon.ev("front_points", len(wf))
    if ws is not None and ps is not None:
        a, b = q.evaluate(ws, return_values_of=["F"]), p.evaluate(ps, return_values_of=["F", "G", "H"], return_as_dictionary=True)
        Fo = b["F"]
        if kind in ("unit", "bounds"):
            mon.check(close(a, Fo, 1e-6 * (1 + np.abs(Fo).max())), f"{key}:set", lambda: f"the Pareto set of the wrapped problem evaluates to {a[:2].tolist()} instead of {Fo[:2].tolist()}")
        elif kind == "objective":
            mon.check(close(a[:, 1:], Fo, 1e-6), f"{key}:set", "the Pareto set evaluates to other objectives")
        if kind == "unit":
            mon.check(np.all(ws >= -1e-9) and np.all(ws <= 1 + 1e-9), f"{key}:set:box", "the Pareto set is not in the unit box")
        mon.ev("set_points", len(ws))
    for a, b in ((p.pareto_front(), pf), (p.pareto_set(), ps)):
        mon.check((a is None) == (b is None) and (a is None or np.array_equal(a, b)), f"{key}:inner", "the front of the original problem has changed")
    mon.ev("front")


DYN = [f"df{i}" for i in range(1, 15) if i != 4]


def run_dynamic(rng, mon):
    from pymoo.problems import get_problem
    from pymoo.problems.dyn import TimeSimulation
    import pymoo.problems.dynamic.df as dfm
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.optimize import minimize
    name = str(rng.choice(DYN))
    nt, taut = int(rng.choice([1, 5, 10])), int(rng.choice([1, 3, 10]))
    cls = getattr(dfm, name.upper())
    key = f"dynamic:{name}"
    p = cls(nt=nt, taut=taut)
    tau = 1
    mon.check(p.tau == tau, f"{key}:start", f"starts at {p.tau}")
    ask = bool(rng.random() < 0.7)
    for _ in range(int(rng.integers(2, 7))):
        if ask:
            p.pareto_front(), p.pareto_set(), p.ideal_point()
        if rng.random() < 0.3 and p._time is None:
            e = int(rng.integers(1, 2 * taut + 2))
            p.tic(e)
            tau += e
        else:
            p.tic()
            tau += 1
        mon.ev("tic")
        t = 1 / nt * (tau // taut)
        mon.check(p.tau == tau and abs(p.time - t) <= 1e-12 * max(1, t), f"{key}:time", lambda: f"after {tau} steps the time is {p.time} (tau {p.tau}), expected {t} for nt={nt}, taut={taut}")
        mon.ev("time_formula")
        same_as(mon, rng, key, p, cls(nt=nt, taut=taut, tau=tau))
    # the time given explicitly
    t = float(rng.choice([0.0, 0.3, 1.0, 2.5]))
    p.time = t
    r = cls(nt=nt, taut=taut, time=t)
    mon.check(p.time == t and r.time == t, f"{key}:given", lambda: f"the time is {p.time} after being set to {t}")
    same_as(mon, rng, key + ":given", p, r)
    mon.ev("time_set")
    # advanced once per generation
    p = cls(nt=nt, taut=taut)
    n_gen = int(rng.integers(2, 7))
    seen = []

    class Sim(TimeSimulation):
        def update(self, algorithm):
            super().update(algorithm)
            seen.append(algorithm.problem.tau)
    before = p.tau
    res = minimize(p, NSGA2(pop_size=8), ("n_gen", n_gen), callback=Sim(), seed=int(rng.integers(1, 1000)), verbose=False, copy_algorithm=False)
    mon.check(seen == list(range(before + 1, before + n_gen + 1)), f"{key}:simulation", lambda: f"the step counter ran through {seen} in {n_gen} generations")
    mon.ev("simulation")


def same_as(mon, rng, key, p, fresh):
    X = p.xl + rng.random((4, p.n_var)) * (p.xu - p.xl)
    a, b = p.evaluate(X, return_values_of=["F"]), fresh.evaluate(X, return_values_of=["F"])
    mon.check(close(a, b), f"{key}:values", lambda: f"at time {p.time} the problem gives {a[0]}, one created for that time {b[0]}")
    f, g = p.pareto_front(), fresh.pareto_front()
    mon.check((f is None) == (g is None) and (f is None or close(f, g)), f"{key}:front", lambda: f"the front at time {p.time} is not the one of a problem created for that time")
    s, g = p.ideal_point(), fresh.ideal_point()
    mon.check((s is None) == (g is None) and (s is None or close(s, g)), f"{key}:ideal", lambda: f"the ideal point at time {p.time} is {s} instead of {g}")
    mon.ev("time_front")


def run_runs(rng, mon):
    """A wrapped problem is optimised like any other."""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.optimize import minimize
    p, M, extra, rec, spec, style = inner(rng, mon)
    q, used = p, []
    for _ in range(int(rng.integers(1, 4))):
        q0, M0 = q, M
        q, M = wrap(rng, mon, q, M, used)
    if M.xl is None:
        return
    key = f"run:{'+'.join(used)}"
    alg = NSGA2(pop_size=8) if M.m > 1 else [GA, DE][int(rng.integers(2))](pop_size=8)
    try:
        res = minimize(q, alg, ("n_gen", 4), seed=int(rng.integers(1, 10 ** 6)), verbose=False)
    except Exception as e:
        mon.viol(f"{key}:raises", f"optimising raises {e!r}")
        return
    X = np.array([ind.X for ind in res.pop])
    want = M.values(X)
    slack = slack_of(want)
    for k in want:
        got = np.array([np.asarray(ind.get(k), float) for ind in res.pop]).reshape(len(X), -1)
        mon.check(close(got, want[k], slack), f"{key}:{k}", lambda: f"the population holds {k} = {got[0].tolist()} for {X[0].tolist()}, expected {want[k][0].tolist()}")
    mon.check(res.algorithm.evaluator.n_eval == (32), f"{key}:n_eval", lambda: f"{res.algorithm.evaluator.n_eval} evaluations for 4 generations of 8")
    mon.state(key, X)
    mon.ev("run")
