"""C14: constraint violation and feasibility follow the declared constraints."""
import copy
import numpy as np
from vlib import gen, obs, probs, runs, zoo

RULE = ("individuals and populations with hostile constraint values (zeros, tolerance boundary, tiny, huge, negative, infinite slack) under every kind of violation setting (tolerance, scale, power, aggregation, "
        "relaxed feasibility, cache) go through sequences of writes, copies, resets and re-evaluations; violation and flag are recomputed from the stored values after every step; every pairwise comparison the "
        "library offers is judged on the recomputed values; runs with adaptive epsilon handling are watched; distinct states are different (G, H, setting) triples")
REQUIRED = ["sequences", "writes", "pairs", "optimum", "populations", "reevaluations", "eps_runs", "monotone"]
ASSUMPTIONS = ["constraint values are not NaN and excesses are not so small that a configured power makes them vanish"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 114])
    q = tier == "quick"
    out = [dict(kind="individual", seed=int(rng.integers(1, 10 ** 9)), n=60) for _ in range(24 if q else 300)]
    out += [dict(kind="compare", seed=int(rng.integers(1, 10 ** 9)), n=25) for _ in range(24 if q else 300)]
    out += [dict(kind="evaluate", seed=int(rng.integers(1, 10 ** 9)), n=8) for _ in range(16 if q else 150)]
    for name, spec in [x for x in runs.combos(rng, 14) if x[0] in ("EpsDE", "EpsGA")]:
        out.append(dict(kind="eps", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 16])), n_gen=int(rng.choice([5, 10, 21])), cap=20000))
    return out


VALUES = [0.0, -0.0, 1e-4, -1e-4, 1.0000001e-4, 9.9e-5, 5e-5, 1e-12, -1e-12, 0.3, -0.3, 2.0, -2.0, 1e9, -1e9, -np.inf]


def values(rng, k):
    m = rng.random()
    if m < 0.4:
        return rng.choice(VALUES[:-1], k)
    if m < 0.6:
        return rng.normal(0, 1, k)
    if m < 0.8:
        return -rng.random(k)
    return rng.choice([0.0, -1.0, 1.0], k)


def ref_part(c, cfg):
    if len(c) == 0:
        return 0.0
    d = np.where(c - cfg["eps"] > 0, c - cfg["eps"], 0.0)
    if cfg["scale"] is not None:
        d = d / cfg["scale"]
    if cfg["pow"] is not None:
        d = d ** cfg["pow"]
    nm = cfg["func"].__name__
    return float(sum(d.tolist())) if nm == "sum" else float(sum(d.tolist())) / len(d) if nm == "mean" else float(max(d.tolist()))


def ref_cv(G, H, config):
    return ref_part(np.asarray(G, float), config["cv_ieq"]) + ref_part(np.abs(np.asarray(H, float)), config["cv_eq"])


def satisfied(G, H, config):
    return bool(np.all(np.asarray(G, float) - config["cv_ieq"]["eps"] <= 0) and np.all(np.abs(np.asarray(H, float)) - config["cv_eq"]["eps"] <= 0))


def a_config(rng, ng, nh):
    from pymoo.core.individual import Individual
    c = Individual.default_config()
    if rng.random() < 0.4:
        return c
    for k, n in (("cv_ieq", ng), ("cv_eq", nh)):
        c[k]["eps"] = float(rng.choice([0.0, 1e-4, 0.1, 1.0]))
        c[k]["pow"] = [None, 1, 2, 0.5][int(rng.integers(4))]
        c[k]["scale"] = None if rng.random() < 0.5 else (float(rng.choice([0.5, 2.0, 100.0])) if rng.random() < 0.5 else rng.choice([0.5, 1.0, 10.0], n))
        c[k]["func"] = [np.sum, np.mean, np.max][int(rng.integers(3))]
    c["cv_eps"] = float(rng.choice([0.0, 0.0, 0.05, 1.0]))
    c["cache"] = bool(rng.random() < 0.6)
    return c


def look(mon, ind, what, key="value"):
    """What the individual shows against its stored constraint values."""
    G, H, c = ind.G, ind.H, ind.config
    want = ref_cv(G, H, c)
    cv = ind.CV
    if not mon.check(np.shape(cv) == (1,), f"shape:{key}", lambda: f"{what}: CV has shape {np.shape(cv)}"):
        return
    mon.check(abs(cv[0] - want) <= 1e-12 * max(1.0, abs(want)), f"cv:{key}", lambda: f"{what}: CV is {cv[0]!r} but G={G} H={H} with {c} give {want!r}")
    mon.check((cv[0] == 0) == satisfied(G, H, c) and cv[0] >= 0, f"zero:{key}", lambda: f"{what}: CV {cv[0]!r} with constraints {'satisfied' if satisfied(G, H, c) else 'violated'} G={G} H={H}")
    feas = bool(want <= c["cv_eps"])
    if abs(want - c["cv_eps"]) > 1e-13 or want == 0:
        mon.check(bool(ind.FEAS[0]) == feas and bool(ind.feas) == feas and np.shape(ind.FEAS) == (1,), f"flag:{key}", lambda: f"{what}: FEAS {ind.FEAS} with violation {want!r} and {c['cv_eps']}")
    mon.check(ind.cv == cv[0], f"cv-scalar:{key}", lambda: f"{what}: cv {ind.cv} against CV {cv}")


def run_individual(case, mon):
    from pymoo.core.individual import Individual, calc_cv, default_config
    rng = np.random.default_rng(case["seed"])
    pristine = Individual.default_config()
    for _ in range(case["n"]):
        ng, nh = int(rng.integers(0, 4)), int(rng.integers(0, 3))
        c = a_config(rng, ng, nh)
        ind = Individual(config=c) if rng.random() < 0.5 else Individual(config=c, G=values(rng, ng), H=values(rng, nh))
        others = []
        mon.ev("sequences")
        hist = []
        for _step in range(int(rng.integers(2, 9))):
            op = str(rng.choice(["G", "H", "set", "by_dict", "read", "copy", "shallow", "reset", "duplicate", "deepcopy", "cv_read", "F"]))
            hist.append(op)
            if op == "G":
                ind.G = values(rng, ng)
            elif op == "H":
                ind.H = values(rng, nh)
            elif op == "set":
                ind.set(str(rng.choice(["G"])), values(rng, ng))
            elif op == "by_dict":
                ind.set_by_dict(F=rng.random(2), H=values(rng, nh), G=values(rng, ng))
            elif op == "F":
                ind.F = rng.random(2)
            elif op == "copy":
                others.append((ind, copy.deepcopy((ind.G, ind.H)))); ind = ind.copy()
            elif op == "deepcopy":
                others.append((ind, copy.deepcopy((ind.G, ind.H)))); ind = copy.deepcopy(ind)
            elif op == "shallow":
                others.append((ind, copy.deepcopy((ind.G, ind.H)))); ind = ind.copy(deep=False)
            elif op == "reset":
                ind.reset(data=bool(rng.random() < 0.5))
            elif op == "duplicate":
                ind.duplicate("CV", "old")
            mon.ev("writes")
            if rng.random() < 0.75:
                look(mon, ind, f"after {hist}")
        look(mon, ind, f"after {hist}")
        for o, (G, H) in others:
            mon.check(np.array_equal(o.G, G) and np.array_equal(o.H, H), "original", lambda: f"writing to a copy changed the original ({hist})")
            look(mon, o, f"original after {hist}")
        mon.state(np.asarray(ind.G, float), np.asarray(ind.H, float), repr(c))

        # the function itself, one and many at once, and a worse constraint
        G, H = values(rng, ng), values(rng, nh)
        g0, h0 = G.copy(), H.copy()
        v = calc_cv(G, H, c)
        mon.eq(v, ref_cv(G, H, c), "calc_cv", "calc_cv", rtol=1e-12, atol=1e-300)
        mon.check(np.array_equal(G, g0) and np.array_equal(H, h0), "calc_cv-input", "calc_cv changed its input")
        k = int(rng.integers(1, 5))
        GG, HH = np.array([values(rng, ng) for _ in range(k)]).reshape(k, ng), np.array([values(rng, nh) for _ in range(k)]).reshape(k, nh)
        mon.eq(calc_cv(GG, HH, c), np.array([ref_cv(g, h, c) for g, h in zip(GG, HH)]), "calc_cv-rows", "calc_cv of rows", rtol=1e-12, atol=1e-300)
        mon.eq(calc_cv(G=GG), np.array([ref_cv(g, [], pristine) for g in GG]), "calc_cv-G", "calc_cv of G only", rtol=1e-12)
        if ng + nh:
            j = int(rng.integers(ng + nh))
            G2, H2 = G.copy(), H.copy()
            if j < ng:
                G2[j] += abs(rng.choice([1e-6, 0.1, 3.0]))
            else:
                H2[j - ng] += np.sign(H2[j - ng] or 1.0) * rng.choice([1e-6, 0.1, 3.0])
            w = calc_cv(G2, H2, c)
            mon.ev("monotone")
            mon.check(w >= v * (1 - 1e-12), "monotone", lambda: f"violation fell from {v} to {w} when constraint {j} of G={G} H={H} got worse ({c})")
            mon.check(not (v == 0 and not satisfied(G, H, c)), "zero:calc_cv", lambda: f"G={G} H={H} {c} violated but calc_cv is 0")
    d = Individual.default_config()
    mon.check(repr(d) == repr(pristine) and d is not pristine and d["cv_eq"] is not pristine["cv_eq"], "default", lambda: f"the default settings changed to {d}")


def run_compare(case, mon):
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population, calc_cv
    from pymoo.core.problem import Problem
    from pymoo.core.replacement import ImprovementReplacement, hierarchical_sort, is_better, parameter_less
    from pymoo.util.dominator import Dominator, get_relation
    from pymoo.util.optimum import filter_optimum
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        n, m, ng, nh = int(rng.integers(1, 14)), int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 2))
        F, _k = gen.matrix(rng, n=n, m=m)
        if len(F) != n:
            F = np.tile(F, (n, 1))
        G = np.array([values(rng, ng) for _ in range(n)]).reshape(n, ng)
        H = np.array([values(rng, nh) for _ in range(n)]).reshape(n, nh)
        c = a_config(rng, ng, nh)
        X = np.round(rng.random((n, 2)), 1)
        inds = []
        for i in range(n):
            inds.append(Individual(config=c, X=X[i].copy(), F=F[i].copy(), G=G[i].copy(), H=H[i].copy()))
        pop = Population(inds)
        cv = np.array([ref_cv(G[i], H[i], c) for i in range(n)])
        feas = cv <= c["cv_eps"]
        if np.any((np.abs(cv - c["cv_eps"]) < 1e-13) & (cv != 0)):
            continue
        mon.ev("populations")
        mon.state(G, H, repr(c))
        mon.eq(pop.get("CV"), cv[:, None], "pop-CV", "CV of a population", rtol=1e-12)
        mon.eq(pop.get("FEAS"), feas[:, None], "pop-FEAS", "FEAS of a population")
        mon.eq(pop.get("feas"), feas, "pop-feas", "feas of a population")
        mon.eq(calc_cv(pop, c), cv, "pop-calc_cv", "calc_cv of a population", rtol=1e-12)

        # the optimum of a population
        opt = filter_optimum(pop)
        mon.ev("optimum")
        if not feas.any():
            mon.check(opt is None, "optimum:none", lambda: f"no feasible solution (CV {cv}) but optimum {opt.get('CV').tolist()}")
            least = filter_optimum(pop, least_infeasible=True)
            mon.check(len(least) == 1 and least[0].CV[0] <= cv.min() + 1e-12 * max(1, cv.min()), "optimum:least", lambda: f"least infeasible has {least.get('CV').tolist()} of {cv}")
        else:
            I = [next(i for i in range(n) if pop[i] is o) for o in opt]
            ff = np.where(feas)[0]
            if m == 1:
                mon.check(len(I) == 1 and feas[I[0]] and F[I[0], 0] == F[ff, 0].min(), "optimum:best", lambda: f"optimum {I} with F {F[I, 0]} of feasible {F[ff, 0]}")
            else:
                D = obs.dom_matrix(F[ff], F[ff])
                want = sorted(ff[~D.any(axis=0)].tolist())
                mon.check(sorted(I) == want, "optimum:front", lambda: f"optimum {sorted(I)} but the feasible non-dominated ones are {want}")

        # pairwise comparisons
        for _p in range(6):
            i, j = int(rng.integers(n)), int(rng.integers(n))
            mon.ev("pairs")
            a, b = pop[i], pop[j]
            rel = get_relation(a, b)
            dom = 1 if obs.dominates(F[i], F[j]) else -1 if obs.dominates(F[j], F[i]) else 0
            want = 1 if cv[i] < cv[j] else -1 if cv[j] < cv[i] else dom
            if cv[i] == cv[j] or abs(cv[i] - cv[j]) > 1e-12 * max(1, cv[i]):
                mon.check(rel == want, "relation", lambda: f"relation {rel} of F={F[i]} CV={cv[i]} to F={F[j]} CV={cv[j]}, expected {want}")
            if m == 1:
                for eps in (0.0, 0.2):
                    want = (bool(feas[i]) and not feas[j]) or (bool(feas[i] and feas[j]) and F[j, 0] - F[i, 0] > eps) or (not feas[i] and not feas[j] and cv[j] - cv[i] > eps)
                    if abs(abs(cv[j] - cv[i]) - eps) > 1e-9 * max(1, cv[i]) or cv[i] == cv[j]:
                        mon.check(bool(is_better(a, b, eps)) == want, "is_better", lambda: f"is_better(F={F[i]} CV={cv[i]}, F={F[j]} CV={cv[j]}, {eps}) is not {want}")
        if ng == 0 and nh == 0:
            pass
        elif c["cv_eps"] == 0:
            M = Dominator.calc_domination_matrix_loop(F, np.column_stack([G, -np.ones(n)]))
            g = np.maximum(np.where(np.isfinite(G), G, -1), 0).sum(axis=1) if ng else np.zeros(n)
            for i in range(n):
                for j in range(n):
                    dom = 1 if obs.dominates(F[i], F[j]) else -1 if obs.dominates(F[j], F[i]) else 0
                    want = 0 if i == j else 1 if g[i] < g[j] else -1 if g[j] < g[i] else dom
                    if g[i] == g[j] or abs(g[i] - g[j]) > 1e-9:
                        mon.check(M[i, j] == want, "matrix", lambda: f"matrix entry {M[i, j]} for F={F[i]} G={G[i]} against F={F[j]} G={G[j]}, expected {want}")
        if m == 1 and np.isfinite(F).all() and np.abs(F).max() < 1e6 and c["cv_eps"] == 0:
            O = hierarchical_sort(F[:, 0], cv)
            key = [(cv[i] > 0, cv[i] if cv[i] > 0 else F[i, 0]) for i in O]
            ok = all(x[0] <= y[0] and (x[0] != y[0] or x[1] <= y[1] + 1e-6) for x, y in zip(key, key[1:]))
            mon.check(ok, "order", lambda: f"hierarchical order {key}")
            mon.check(sorted(O.tolist()) == list(range(n)), "order-all", "not a permutation")

            # offspring replace their counterpart only if better
            off_i = rng.permutation(n)
            offs = Population([Individual(config=c, X=rng.random(2), F=F[i].copy(), G=G[i].copy(), H=H[i].copy()) for i in off_i])
            prob = Problem(n_var=2, n_obj=1, n_ieq_constr=ng, n_eq_constr=nh)
            I = ImprovementReplacement().do(prob, pop, offs, return_indices=True)
            for k in range(n):
                o = off_i[k]
                want = bool((feas[o] and not feas[k]) or (feas[o] and feas[k] and F[o, 0] < F[k, 0]) or (not feas[o] and not feas[k] and cv[o] < cv[k]))
                if cv[o] == cv[k] or abs(cv[o] - cv[k]) > 1e-12 * max(1, cv[k]):
                    mon.check(bool(I[k]) == want, "replacement", lambda: f"offspring F={F[o]} CV={cv[o]} {'replaced' if I[k] else 'did not replace'} F={F[k]} CV={cv[k]}")
            before = [id(x) for x in pop]
            new = ImprovementReplacement().do(prob, pop, offs)
            mon.check([id(x) for x in new] == [id(offs[k]) if I[k] else id(pop[k]) for k in range(n)] and before == [id(x) for x in pop], "replaced", "the replaced population is not the old one with exactly the improvements put in")


def run_evaluate(case, mon):
    """Through the evaluator: evaluating again after the values or the problem changed."""
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    rng = np.random.default_rng(case["seed"])

    class P(Problem):
        shift = 0.0

        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = x.sum(axis=1)
            if self.n_ieq_constr:
                out["G"] = np.column_stack([x[:, j % 2] - 0.5 + self.shift for j in range(self.n_ieq_constr)])
            if self.n_eq_constr:
                out["H"] = np.column_stack([x[:, 0] - 0.5 + self.shift for j in range(self.n_eq_constr)])

    for _ in range(case["n"]):
        ng, nh = int(rng.integers(0, 3)), int(rng.integers(0, 2))
        p = P(n_var=2, n_obj=1, n_ieq_constr=ng, n_eq_constr=nh, xl=0.0, xu=1.0)
        ev = Evaluator(skip_already_evaluated=bool(rng.random() < 0.5))
        n = int(rng.integers(1, 9))
        pop = Population.new(X=np.round(rng.random((n, 2)), 1))
        cfg = a_config(rng, ng, nh)
        if rng.random() < 0.5:
            pop.apply(lambda i: setattr(i, "config", cfg))
        for k in range(4):
            what = ["evaluate", "values"][int(rng.integers(2))] if k else "evaluate"
            if what == "evaluate":
                p.shift = float(rng.choice([0.0, 0.3, -0.6, 1.0]))
                ev.eval(p, pop, skip_already_evaluated=False)
                mon.ev("reevaluations")
            else:
                pop.set("G", np.array([values(rng, ng) for _ in range(n)]).reshape(n, ng))
            for i in range(n):
                if what == "evaluate":
                    g = np.array([pop[i].X[j % 2] - 0.5 + p.shift for j in range(ng)])
                    mon.eq(pop[i].G, g, "values", "G after evaluation")
                look(mon, pop[i], f"individual {i} after {what} number {k}", "evaluated")
            mon.state(pop.get("G"), k)
        # a merged, copied, sliced population shows the same
        q = Population.merge(pop[:n // 2], pop[n // 2:]).copy()
        mon.eq(q.get("CV"), np.array([[ref_cv(i.G, i.H, i.config)] for i in pop]), "merged", "CV of a merged copy", rtol=1e-12)
    mon.ev("sequences")


def run_eps(case, mon):
    """Adaptive epsilon handling relaxes feasibility only inside the wrapped algorithm and only by the declared schedule."""
    from pymoo.core.individual import Individual
    prob, alg = obs.build(case)
    obs.setup(prob, alg, case)
    base = None
    mon.ev("eps_runs")
    truth = {}
    first = None
    now = 0.0
    for k in obs.steps(alg):
        perc, now = (now if first is not None else 0.0), alg.termination.perc     # the schedule is set before the progress of the iteration is known
        if first is None:
            pops = alg.pop
            first = alg.max_cv
            mon.check(first is not None and np.isfinite(first) and first >= 0, "eps-max", f"relaxation starts from {first}")
        want = first * max(0.0, 1 - perc / alg.perc_eps_until)
        got = alg.adapted_config["cv_eps"]
        if k > 1:
            mon.check(abs(got - want) <= 1e-9 * max(1.0, abs(want)), "eps-schedule", f"iteration {k}: allowed violation {got}, the schedule at {perc} gives {want}")
        for nm, s in (("pop", alg.pop), ("opt", alg.opt)):
            for ind in s:
                cv = ref_cv(ind.G, ind.H, Individual.default_config())
                mon.check(abs(ind.CV[0] - cv) <= 1e-12 * max(1, cv) and bool(ind.FEAS[0]) == (cv <= 0), f"eps-outside:{nm}", f"iteration {k}: outside the algorithm a solution with violation {cv} shows CV {ind.CV} FEAS {ind.FEAS}")
                mon.ev("pairs")
        mon.state(alg.pop.get("F"), k)
    last = alg.adapted_config["cv_eps"]
    mon.check(last == 0 or perc < alg.perc_eps_until, "eps-end", f"allowed violation {last} at the end of the run")


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
