"""C01: every exposed solution carries the true evaluation of its variables."""
import numpy as np
from vlib import obs, probs, runs, zoo
from vlib.mon import same

RULE = ("one case = one run of one algorithm on one problem from the zoo with a seed; after every iteration the monitor re-evaluates "
        "(with an independent copy of the objective function) every solution in pop/off/opt/archive, and at the end the result and every history "
        "snapshot; a state is non-trivial if it is a distinct evaluated (algorithm, X) pair that was re-evaluated")
REQUIRED = ["individuals_reevaluated", "history_individuals", "result_rows"]
ASSUMPTIONS = ["objective functions are pure", "default constraint configuration (equality tolerance 1e-4)"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 101])
    per = 3 if tier == "quick" else 40
    reps = 1 if tier == "quick" else 4
    out = []
    for rep in range(reps):
        for name, spec in runs.combos(rng, per):
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([10, 16, 21])),
                            n_gen=int(rng.choice([6, 9, 14])), least=bool(rng.random() < 0.5), hist=bool(rng.random() < 0.5),
                            archive=bool(rng.random() < 0.3)))
    for name in ("Golden", "Exp"):
        out.append(dict(kind="uni", algo=name, seed=int(rng.integers(1, 10 ** 6))))
    return out


def audit(mon, prob, where, inds, alg_name, it, counter="individuals_reevaluated"):
    inds = [i for i in inds if obs.is_evaluated(i)]
    if not inds:
        return
    t = obs.truth_of(prob, inds)
    cv = probs.cv_of(t)
    for k, ind in enumerate(inds):
        mon.ev(counter)
        mon.state(alg_name, obs.key_of(ind.X))
        for nm in ("F", "G", "H"):
            want = t.get(nm)
            got = np.asarray(getattr(ind, nm), dtype=float)
            if want is None:
                if got.size:
                    mon.viol(f"extra:{nm}:{alg_name}", f"{where} at iteration {it}: {nm} = {got} but the problem has none")
                continue
            if got.shape != want[k].shape or not np.allclose(got, want[k], rtol=1e-9, atol=1e-12):
                mon.viol(f"value:{nm}:{alg_name}", f"{where} at iteration {it}: {nm} = {got} but evaluating X = {ind.X} gives {want[k]}", where=where, it=it)
        c = np.asarray(ind.CV, dtype=float)
        if c.shape != (1,) or abs(c[0] - cv[k]) > 1e-9 * max(1, abs(cv[k])):
            mon.viol(f"cv:{alg_name}", f"{where} at iteration {it}: CV = {c} but the constraints give {cv[k]}", where=where, it=it)
        if bool(ind.FEAS[0]) != bool(cv[k] <= 0) and abs(cv[k]) > 1e-12:
            mon.viol(f"feas:{alg_name}", f"{where} at iteration {it}: FEAS = {ind.FEAS} with violation {cv[k]}")
        mon.ev("oracle_checks", 3)


def audit_result(mon, prob, res, name):
    if res.opt is None:
        for nm in ("X", "F", "G", "H", "CV"):
            mon.check(getattr(res, nm) is None, f"result-none:{name}", f"no optimum but {nm} is reported")
        return
    opt = res.opt
    X = res.X if isinstance(res.X, (np.ndarray, list)) else np.array([res.X], dtype=object)
    single = prob.n_obj == 1 and len(opt) == 1
    rows = {}
    for nm in ("F", "G", "H", "CV"):
        a = np.asarray(getattr(res, nm), float)
        rows[nm] = a[None, :] if single else a
    xs = [res.X] if single else list(X)
    mon.check(len(xs) == len(opt), f"result-len:{name}", f"{len(xs)} rows of X for {len(opt)} optima")
    if len(xs) != len(opt):
        return
    t = prob.truth(xs)
    mon.ev("result_rows", len(xs))
    for nm in ("F", "G", "H"):
        want = t.get(nm)
        if want is None:
            want = np.zeros((len(xs), 0))
        mon.check(rows[nm].shape == want.shape and np.allclose(rows[nm], want, rtol=1e-9, atol=1e-12), f"result:{nm}:{name}",
                  lambda: f"result {nm} = {rows[nm]} but evaluating result X gives {want}")
    mon.check(np.allclose(rows["CV"][:, 0], probs.cv_of(t), rtol=1e-9), f"result:CV:{name}", lambda: f"{rows['CV']} vs {probs.cv_of(t)}")
    for k, ind in enumerate(opt):
        mon.check(obs.key_of(ind.X) == obs.key_of(xs[k]), f"result-align:{name}", f"row {k} of result X is not the optimum's X")


def run(case, mon):
    if case["kind"] == "uni":
        return uni(case, mon)
    name = case["algo"]
    prob, alg = obs.build(case)
    kw = dict(save_history=case["hist"], return_least_infeasible=case["least"])
    if case["archive"]:
        from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
        from pymoo.core.mixed import MixedVariableDuplicateElimination
        de = dict(duplicate_elimination=MixedVariableDuplicateElimination()) if case["spec"]["cls"] == "Mixed" else {}
        kw["archive"] = (SingleObjectiveArchive if prob.n_obj == 1 else MultiObjectiveArchive)(**de)
    obs.setup(prob, alg, case, **kw)
    seen_final = None
    for it in obs.steps(alg):
        for where, pop in obs.tracked_sets(alg):
            audit(mon, prob, where, pop, name, it)
    res = alg.result()
    audit_result(mon, prob, res, name)
    for h_it, h in enumerate(res.history or [], 1):
        for where in ("pop", "off", "opt"):
            p = getattr(h, where, None)
            if p is not None and not hasattr(p, "__len__"):   # a single individual
                p = [p]
            if p is not None and len(p):
                audit(mon, prob, "history." + where, p, name, h_it, "history_individuals")
    mon.note(algorithm=name, evaluations=len(prob.log.rows), iterations=len(res.history or []), result_F=res.F)


def uni(case, mon):
    from pymoo.algorithms.soo.univariate.golden import GoldenSectionSearch
    from pymoo.algorithms.soo.univariate.exp import ExponentialSearch
    rng = np.random.default_rng(case["seed"])
    for b in ("unit", "shift", "neg", "big"):
        for fn in ("sphere", "neg", "linear"):
            prob = probs.make(dict(cls="SO", n_var=1, bounds=b, where="inside", fn=fn))
            prob.log.cap = 3000
            from pymoo.core.individual import Individual
            alg = GoldenSectionSearch() if case["algo"] == "Golden" else ExponentialSearch()
            alg.setup(prob, termination=("n_iter", 25), seed=int(rng.integers(1000)))
            for it in obs.steps(alg):
                for where, pop in obs.tracked_sets(alg):
                    audit(mon, prob, where, pop, case["algo"], it)
            audit_result(mon, prob, alg.result(), case["algo"])
