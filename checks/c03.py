"""C03: the best solution found is never lost."""
import numpy as np
from vlib import obs, probs, runs, zoo

RULE = ("one case = one run of an elitist single-objective algorithm or a rank-and-crowding multi-objective algorithm on one problem with a seed; the monitor tracks the "
        "reported optimum after every iteration against the running best of everything the problem evaluated; non-trivial states are distinct improvements seen")
REQUIRED = ["iterations", "improvements", "ideal_checks", "final_best_checks"]
RC = {"NSGA2", "NSGA2-steady", "NSGA2-lhs-bounce", "MixedNSGA2", "NSGA2-pcd", "NSGA2-ce"}
ASSUMPTIONS = ["objective values are deterministic"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 103])
    out = []
    per = 6 if tier == "quick" else 40
    for rep in range(1 if tier == "quick" else 6):
        for name, spec in runs.combos(rng, per, which=lambda z: z["so"] and z["opt"] == "best" or z["name"] in RC or (z["mo"] and z["name"].startswith("NSGA2-") and z.get("variant") and z["name"] not in ("NSGA2-constr", "NSGA2-mnn", "NSGA2-2nn"))):
            out.append(dict(kind="so" if zoo.Z[name]["so"] else "mo", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([10, 16, 25])),
                            n_gen=int(rng.choice([8, 15, 30])) if tier == "quick" else int(rng.choice([10, 30, 60]))))
    return out


def quality(F, cv):
    return (max(cv, 0.0), F if cv <= 0 else 0.0)


def worse(a, b):
    """a strictly worse than b beyond rounding"""
    if a[0] > b[0] + 1e-12 * max(1, abs(b[0])):
        return True
    if a[0] < b[0]:
        return False
    return a[1] > b[1] + 1e-12 * max(1, abs(b[1]))


def run(case, mon):
    name = case["algo"]
    prob, alg = obs.build(case)
    obs.setup(prob, alg, case, return_least_infeasible=True)
    best = None
    ideal = None
    for it in obs.steps(alg):
        mon.ev("iterations")
        if prob.n_obj == 1:
            o = min((quality(float(i.F[0]), float(np.asarray(i.CV).ravel()[0])) for i in alg.opt))
            if best is not None:
                mon.check(not worse(o, best), f"lost:{name}", lambda: f"iteration {it}: the reported optimum (violation, objective) went from {best} to {o}")
                if worse(best, o):
                    mon.ev("improvements"); mon.state(name, it, o)
            best = o if best is None or not worse(o, best) else best
        else:
            if len(alg.pop) < 2 * prob.n_obj:
                continue
            fs = np.array([i.F for i in alg.pop if float(np.asarray(i.CV).ravel()[0]) <= 0], float)
            if len(fs) == 0:
                mon.check(ideal is None, f"feasible-lost:{name}", lambda: f"iteration {it}: no feasible solution left")
                continue
            z = fs.min(axis=0)
            if ideal is not None:
                mon.ev("ideal_checks")
                mon.check(np.all(z <= ideal + 1e-12 * np.maximum(1, np.abs(ideal))), f"extreme-lost:{name}", lambda: f"iteration {it}: best values per objective went from {ideal} to {z}")
                if np.any(z < ideal):
                    mon.ev("improvements"); mon.state(name, it, z)
            ideal = z if ideal is None else np.minimum(z, ideal)
    res = alg.result()
    if prob.n_obj == 1 and len(prob.log.rows):
        t = prob.truth(prob.log.rows)
        cv = probs.cv_of(t)
        k = min(range(len(cv)), key=lambda i: quality(t["F"][i, 0], cv[i]))
        want = quality(t["F"][k, 0], cv[k])
        got = quality(float(np.atleast_1d(np.asarray(res.F, float).ravel())[0]), float(np.atleast_1d(np.asarray(res.CV, float).ravel())[0]))
        mon.ev("final_best_checks")
        mon.check(not worse(got, want), f"final:{name}", lambda: f"the result has (violation, objective) {got} but {want} was evaluated")
        mon.note(algorithm=name, spec=case["spec"], best=got, evaluated=len(cv))
