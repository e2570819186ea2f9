"""C05: function evaluations are counted exactly and never repeated needlessly."""
import numpy as np
from vlib import obs, probs, runs, zoo

RULE = ("run: one run of one algorithm, the evaluator's count is compared with the problem's own log after every iteration; pre: the same with a partly pre-evaluated initial "
        "population; direct: random sequences of evaluator calls on partially evaluated populations against a reference count; non-trivial states are distinct (algorithm, count) pairs")
REQUIRED = ["iterations", "direct_calls", "skipped_individuals", "preevaluated_runs"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 105])
    out = []
    per = 3 if tier == "quick" else 40
    for rep in range(1 if tier == "quick" else 4):
        for name, spec in runs.combos(rng, per):
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 16, 25])), n_gen=int(rng.choice([3, 8, 12])),
                            mode=str(rng.choice(["next", "minimize", "asktell"]))))
    for name in ("GA", "NSGA2", "DE", "PSO", "BRKGA", "NSGA3", "SPEA2", "AGEMOEA", "SMSEMOA", "RVEA", "CTAEA", "MOEAD", "NSDE", "GDE3", "CMOPSO", "ISRES", "ES", "G3PCX", "EPPSO", "NRBO", "NicheGA", "UNSGA3", "RNSGA2", "OmniOptimizer"):
        for k in range(1 if tier == "quick" else 6):
            S = [s for s in runs.specs_for(name) if s.get("n_var", 0) > 1]
            out.append(dict(kind="pre", algo=name, spec=S[int(rng.integers(len(S)))], seed=int(rng.integers(1, 10 ** 6)), pop=15, frac=float(rng.choice([0.0, 0.4, 1.0])), n_gen=3))
    for k in range(60 if tier == "quick" else 1500):
        out.append(dict(kind="direct", seed=int(rng.integers(1, 10 ** 9))))
    return out


def run(case, mon):
    if case["kind"] == "direct":
        return direct(case, mon)
    name = case["algo"]
    prob, alg = obs.build(case)
    if case["kind"] == "pre":
        return pre(case, mon, prob, alg)
    from pymoo.optimize import minimize
    if case["mode"] == "minimize":
        counts = []

        def cb(a):
            counts.append((a.evaluator.n_eval, len(prob.log.rows)))
            mon.ev("iterations")
        res = minimize(prob, alg, ("n_gen", case["n_gen"]), seed=case["seed"], callback=cb)
        for a, b in counts:
            mon.check(a == b, f"count:{name}", f"evaluator reports {a}, the problem was asked for {b}")
            mon.state(name, a)
        mon.check(res.algorithm.evaluator.n_eval == len(prob.log.rows), f"count-end:{name}", f"{res.algorithm.evaluator.n_eval} != {len(prob.log.rows)}")
        return
    obs.setup(prob, alg, case)
    k = 0
    while alg.has_next() and k < 5000:
        if case["mode"] == "asktell" and zoo.Z[name]["asktell"]:
            inf = alg.ask()
            if inf is None:
                alg.tell()
            else:
                before, n0 = alg.evaluator.n_eval, len(prob.log.rows)
                need = sum(0 if obs.is_evaluated(i) else 1 for i in (inf if not hasattr(inf, "X") else [inf]))
                alg.evaluator.eval(prob, inf)
                mon.check(alg.evaluator.n_eval - before == need == len(prob.log.rows) - n0, f"count-ask:{name}", f"{need} unevaluated, counted {alg.evaluator.n_eval - before}, evaluated {len(prob.log.rows) - n0}")
                alg.evaluator.eval(prob, inf)      # asking again must cost nothing
                mon.check(alg.evaluator.n_eval - before == need == len(prob.log.rows) - n0, f"reevaluated:{name}", "evaluating the same solutions again was not free")
                alg.tell(infills=inf)
        else:
            alg.next()
        k += 1
        mon.ev("iterations")
        mon.state(name, alg.evaluator.n_eval)
        mon.check(alg.evaluator.n_eval == len(prob.log.rows), f"count:{name}", f"after step {k} the evaluator reports {alg.evaluator.n_eval}, the problem was asked for {len(prob.log.rows)}")
        for w, p in obs.tracked_sets(alg):
            if w in ("pop", "opt"):
                mon.check(all(obs.is_evaluated(i) for i in p), f"unevaluated:{name}", f"{w} holds unevaluated solutions after step {k}")
    mon.note(algorithm=name, n_eval=alg.evaluator.n_eval, log=len(prob.log.rows))


def pre(case, mon, prob, alg):
    """A (partly) evaluated population as sampling."""
    from pymoo.core.population import Population
    from pymoo.core.evaluator import Evaluator
    from pymoo.operators.sampling.rnd import FloatRandomSampling
    name = case["algo"]
    n = getattr(alg, "pop_size", None) or case["pop"]
    n = int(getattr(n, "value", n))
    rs = np.random.default_rng(case["seed"])
    P = FloatRandomSampling().do(prob, n, random_state=rs)
    m = int(round(case["frac"] * n))
    if m:
        Evaluator().eval(prob, P[:m])
    prob.log.rows.clear()
    alg2 = zoo.create(name, prob, case["pop"])
    if hasattr(alg2, "initialization"):
        from pymoo.core.initialization import Initialization
        alg2.initialization = Initialization(P)
    obs.setup(prob, alg2, case)
    alg2.next()
    mon.ev("preevaluated_runs")
    mon.check(alg2.evaluator.n_eval == n - m == len(prob.log.rows), f"pre:{name}", f"{n} initial solutions, {m} already evaluated: counted {alg2.evaluator.n_eval}, evaluated {len(prob.log.rows)}")
    while alg2.has_next():
        alg2.next()
        mon.check(alg2.evaluator.n_eval == len(prob.log.rows), f"pre-count:{name}", f"counted {alg2.evaluator.n_eval}, evaluated {len(prob.log.rows)}")
    mon.state(name, case["frac"], alg2.evaluator.n_eval)


def direct(case, mon):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from pymoo.core.individual import Individual
    rng = np.random.default_rng(case["seed"])
    prob = probs.make(dict(cls="MO", n_var=3, n_obj=2, fn="convex", cons=str(rng.choice(["none", "ieq", "both"])), bounds="sym"), elementwise=bool(rng.random() < 0.5))
    skip_default = bool(rng.random() < 0.8)
    cb_calls = []
    ev = Evaluator(skip_already_evaluated=skip_default, callback=lambda p: cb_calls.append(len(p)))
    X = rng.random((int(rng.integers(0, 12)), 3)) * 10 - 5
    pop = Population.new("X", X)
    returns = set(prob.truth(X)) if len(X) else set()
    model = [set() for _ in pop]      # what was evaluated for each individual
    count = 0
    for step in range(int(rng.integers(2, 8))):
        mon.ev("direct_calls")
        idx = np.flatnonzero(rng.random(len(pop)) < 0.6) if rng.random() < 0.7 else np.arange(len(pop))
        sub = pop[idx]
        vals = [["F", "G", "H"], ["F"], ["F", "G"]][int(rng.integers(3))]
        skip = None if rng.random() < 0.7 else bool(rng.random() < 0.5)
        cnt = bool(rng.random() < 0.85)
        eff = skip_default if skip is None else skip
        todo = [i for i in idx if not eff or not all(v in model[i] for v in vals)]
        n0, c0 = len(prob.log.rows), ev.n_eval
        single = len(idx) == 1 and rng.random() < 0.5
        r = ev.eval(prob, pop[idx[0]] if single else sub, skip_already_evaluated=skip, evaluate_values_of=list(vals), count_evals=cnt)
        mon.ev("skipped_individuals", len(idx) - len(todo))
        mon.check(len(prob.log.rows) - n0 == len(todo), "direct:evaluated", f"{len(todo)} of {len(idx)} had to be evaluated, {len(prob.log.rows) - n0} were", vals=vals, skip=eff)
        mon.check(ev.n_eval - c0 == (len(todo) if cnt else 0), "direct:counted", f"counted {ev.n_eval - c0} for {len(todo)} evaluations, count_evals={cnt}")
        got = [obs.key_of(x) for x in prob.log.rows[n0:]]
        mon.check(got == [obs.key_of(pop[i].X) for i in todo], "direct:order", "other rows were evaluated than the missing ones, or in another order")
        mon.check(isinstance(r, Individual) == single, "direct:type", f"returned {type(r)}")
        for i in todo:
            model[i] |= set(vals) | set(returns)      # everything the problem returned is known from now on
        for i in idx:
            t = prob.truth([pop[i].X])
            for v in vals:
                if v in t:
                    mon.check(np.allclose(getattr(pop[i], v), t[v][0]), "direct:value", f"{v} = {getattr(pop[i], v)} expected {t[v][0]}")
            mon.check(set(vals) <= pop[i].evaluated, "direct:flag", f"evaluated = {pop[i].evaluated} after asking for {vals}")
        mon.state(case["seed"], step, len(todo))
    mon.check(len(cb_calls) >= 2, "direct:callback", "evaluator callback not called")
