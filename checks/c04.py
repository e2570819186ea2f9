"""C04: only points of the declared search space are ever evaluated."""
import numpy as np
from vlib import obs, probs, runs, zoo

RULE = ("one case = one run of one algorithm (default and variant operators, local and line searches) on one problem with hostile bounds (negative, anisotropic, "
        "1e6-sized, degenerate, drawn at random, optimum on the boundary); the monitor sits in the problem and judges every design vector at the moment of evaluation; "
        "non-trivial states are distinct evaluated vectors")
REQUIRED = ["points_judged", "points_on_bound"]
ASSUMPTIONS = ["bounds are judged exactly (for mixed variables up to a relative rounding of 1e-12)"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 104])
    out = []
    per = 5 if tier == "quick" else 40
    for rep in range(1 if tier == "quick" else 6):
        for name, spec in runs.combos(rng, per):
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 16, 25])),
                            n_gen=int(rng.choice([6, 15, 25]))))
        # bounds nobody can hit exactly: rounding shows where a step is limited by a factor only
        for name in zoo.names(so=True):
            if "real" not in zoo.Z[name]["var"]:
                continue
            many = 60 if name.split("+")[0] in ("NelderMead", "PatternSearch", "DIRECT") else 2
            for k in range(many if tier == "quick" else 3 * many):
                n_var = int(rng.choice([2, 3, 4]))
                out.append(dict(kind="run", algo=name, spec=dict(cls="SO", n_var=n_var, bounds=f"r{int(rng.integers(10 ** 6))}", where=str(rng.choice(["lower", "upper", "mixed"])), fn=str(rng.choice(["linear", "linear", "sphere", "abs"]))),
                                seed=int(rng.integers(1, 10 ** 6)), pop=10, n_gen=60 if many > 2 else 15))
        for name in ("Golden", "Exp", "Quadr", "NelderMead", "PatternSearch"):
            for b in ("unit", "sym", "shift", "neg", "big"):
                for fn, where in (("sphere", "inside"), ("linear", "lower"), ("neg", "upper"), ("abs", "mixed"), ("rastrigin", "inside")):
                    if name == "PatternSearch" and fn == "abs":
                        continue
                    out.append(dict(kind="uni", algo=name, spec=dict(cls="SO", n_var=1, bounds=b, where=where, fn=fn), seed=int(rng.integers(1, 10 ** 6)), n_gen=30))
    return out


def run(case, mon):
    name = case["algo"]
    if case["kind"] == "uni":
        prob = probs.make(case["spec"])
        prob.log.cap = 3000
        from pymoo.algorithms.soo.univariate.golden import GoldenSectionSearch
        from pymoo.algorithms.soo.univariate.exp import ExponentialSearch
        from pymoo.algorithms.soo.univariate.quadr_interp import QuadraticInterpolationSearch
        from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
        from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
        alg = {"Golden": GoldenSectionSearch, "Exp": ExponentialSearch, "Quadr": QuadraticInterpolationSearch, "NelderMead": NelderMead, "PatternSearch": PatternSearch}[name]()
    else:
        prob, alg = obs.build(case)

    def judge(X):
        for x in X:
            mon.ev("points_judged")
            why = prob.valid(x)
            if why is not None:
                mon.viol(f"outside:{name}", f"iteration {alg.n_iter}: {why}", x=x)
            mon.state(obs.key_of(x))
            if isinstance(x, np.ndarray) and x.dtype != object and prob.xl is not None and not isinstance(prob.xl, dict):
                mon.ev("points_on_bound", bool(np.any((x == prob.xl) | (x == prob.xu))))
        mon.ev("oracle_checks", len(X))
    prob.log.on_rows = judge
    obs.setup(prob, alg, case)
    for it in obs.steps(alg, 60):
        pop = alg.pop
        if pop is not None:
            for ind in pop:
                why = prob.valid(ind.X)
                mon.check(why is None, f"population-outside:{name}", lambda: f"iteration {it}: {why}")
    mon.note(algorithm=name, spec=case["spec"], evaluated=len(prob.log.rows))
