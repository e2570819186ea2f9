"""C02: the reported optimum is feasible-first and mutually non-dominated."""
import numpy as np
from vlib import obs, probs, runs, zoo

RULE = ("one case = one run of one algorithm on one problem (half of them constrained, many with ties or an infeasible start) with a seed; the oracle "
        "recomputes dominance and feasibility of the reported optimum against the population after every iteration and against the final result; "
        "non-trivial states are distinct (algorithm, objective matrix of the optimum) pairs")
REQUIRED = ["iterations", "iters_feasible", "iters_all_infeasible", "results_with_solution", "results_without_solution", "least_infeasible_results"]
ASSUMPTIONS = ["RVEA reports its whole population and NicheGA one representative per niche by design: only membership is judged for them"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 102])
    out = []
    per = 4 if tier == "quick" else 40
    for rep in range(1 if tier == "quick" else 5):
        for name, spec in runs.combos(rng, per):
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 16, 24])),
                            n_gen=int(rng.choice([5, 9, 15])), least=bool(rng.random() < 0.5)))
    return out


def feas_cv(pop):
    cv = np.array([float(np.asarray(i.CV).ravel()[0]) for i in pop])
    return cv <= 0, cv


def judge(mon, name, z, prob, pop, opt, it, what="opt"):
    F = np.array([i.F for i in opt], float)
    mon.state(name, F)
    mon.ev("iterations")
    if pop is None or len(pop) == 0:
        return
    pop = [i for i in pop if obs.is_evaluated(i)]
    PF = np.array([i.F for i in pop], float)
    pf, pcv = feas_cv(pop)
    of, ocv = feas_cv(opt)
    kind = z["opt"]
    if kind in ("all", "niche"):
        return
    if pf.any():
        mon.ev("iters_feasible")
        mon.check(of.all(), f"infeasible-optimum:{name}", lambda: f"{what} at iteration {it}: {int((~of).sum())} of {len(opt)} reported solutions are infeasible although {int(pf.sum())} of {len(pop)} solutions are feasible")
        FF = PF[pf]
        if kind == "loose":
            return
        if prob.n_obj == 1:
            mon.check(F[:, 0].max() <= FF[:, 0].min(), f"not-best:{name}", lambda: f"{what} at iteration {it}: reported F = {F[:, 0]} but the population holds {FF[:, 0].min()}")
        else:
            D = obs.dom_matrix(FF, F[of])
            mon.check(not D.any(), f"dominated-by-population:{name}", lambda: f"{what} at iteration {it}: {F[of][D.any(axis=0)][:2]} dominated by {FF[D.any(axis=1)][:2]}")
            D = obs.dom_matrix(F[of], F[of])
            mon.check(not D.any(), f"mutually-dominated:{name}", lambda: f"{what} at iteration {it}: {F[of][D.any(axis=0)][:2]} dominated inside the reported set")
    else:
        mon.ev("iters_all_infeasible")
        if not of.any():
            mon.check(ocv.min() <= pcv.min() + 1e-12, f"least-infeasible:{name}", lambda: f"{what} at iteration {it}: violation {ocv.min()} reported but {pcv.min()} is in the population")


def run(case, mon):
    name = case["algo"]
    z = zoo.Z[name]
    prob, alg = obs.build(case)
    obs.setup(prob, alg, case, return_least_infeasible=case["least"])
    evaluated = set()
    nlog = 0
    for it in obs.steps(alg):
        for r in prob.log.rows[nlog:]:
            evaluated.add(obs.key_of(r))
        nlog = len(prob.log.rows)
        opt = alg.opt
        if opt is None or len(opt) == 0:
            mon.viol(f"empty-optimum:{name}", f"no optimum after iteration {it}")
            continue
        for ind in opt:
            mon.check(obs.key_of(ind.X) in evaluated, f"not-evaluated:{name}", lambda: f"optimum at iteration {it} holds X = {ind.X}, which the problem never saw")
            mon.check(obs.is_evaluated(ind), f"no-values:{name}", "an optimum member has no values")
        judge(mon, name, z, prob, alg.pop, opt, it)
    res = alg.result()
    allF, allc = None, None
    t = prob.truth(prob.log.rows)
    cv = probs.cv_of(t)
    pop_feas = feas_cv(alg.pop)[0].any()
    opt_feas = feas_cv(alg.opt)[0]
    mon.check(res.success == bool(opt_feas.any()), f"success-flag:{name}", f"success = {res.success}, feasible optimum: {opt_feas.any()}")
    mon.check(isinstance(res.message, str) and len(res.message) > 0, f"message:{name}", f"message = {res.message!r}")
    if z["opt"] not in ("all", "niche"):
        mon.check(not (pop_feas and not res.success), f"success-missing:{name}", "the population is feasible but the result is a failure")
    mon.check(not (res.success and not (cv <= 0).any()), f"success-false:{name}", "success although nothing evaluated was feasible")
    if opt_feas.any():
        mon.ev("results_with_solution")
        mon.check(res.X is not None and res.F is not None, f"result-missing:{name}", "feasible optimum but nothing is reported")
    elif case["least"]:
        mon.ev("least_infeasible_results")
        mon.check(res.X is not None, f"least-missing:{name}", "the least infeasible solution was requested but nothing is reported")
        if res.X is not None:
            c = np.atleast_1d(np.asarray(res.CV, float).ravel())
            want = feas_cv(alg.pop)[1].min()
            mon.check(c.min() <= want + 1e-12 and len(c) == 1, f"least-infeasible-result:{name}", f"result violation {c}, the population holds {want}")
    else:
        mon.ev("results_without_solution")
        for nm in ("X", "F", "CV", "opt"):
            mon.check(getattr(res, nm) is None, f"reports-infeasible:{name}", f"nothing feasible but result.{nm} is reported")
    mon.note(algorithm=name, spec=case["spec"], final_F=res.F, success=res.success, message=res.message)
