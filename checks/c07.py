"""C07: a fixed seed fixes the whole run, and global random state is left alone."""
import copy
import json
import os
import random
import subprocess
import sys
import numpy as np
from vlib import obs, probs, runs, trace, zoo

RULE = ("run: the same configuration and seed run twice in one process with different global random states and other runs in between; the sequence of evaluated design vectors, the populations "
        "and the result must be identical and the global generators unchanged; proc: the same in separate processes with different hash seeds; op: seeded operators, samplings, selections, survivals "
        "and reference-direction generators called twice; distinct states are (algorithm, number of evaluated vectors, last vector)")
REQUIRED = ["pairs", "vectors_compared", "operator_pairs", "process_pairs", "global_state_checks"]
ASSUMPTIONS = ["the objective function itself is deterministic"]
TIMEOUT = {"quick": 300, "thorough": 900}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 107])
    out = []
    for rep in range(1 if tier == "quick" else 5):
        for name, spec in runs.combos(rng, 2 if tier == "quick" else 14):
            out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.choice([0, 1, rng.integers(0, 10 ** 6), 2 ** 31 - 1], p=[0.15, 0.05, 0.75, 0.05])), pop=int(rng.choice([8, 13, 20])), n_gen=int(rng.choice([4, 8, 15])),
                            g=int(rng.integers(1, 10 ** 6))))
    for k in range(25 if tier == "quick" else 400):
        out.append(dict(kind="op", seed=int(rng.integers(1, 10 ** 9))))
    names = zoo.names()
    for k in range(1 if tier == "quick" else 4):
        perm = [names[i] for i in rng.permutation(len(names))]
        for part in np.array_split(np.array(perm), 4):
            out.append(dict(kind="proc", algos=[str(a) for a in part], seed=int(rng.integers(1, 10 ** 6))))
    return out


def one(case):
    prob, alg = obs.build(case)
    obs.setup(prob, alg, case)
    snaps = []
    for it in obs.steps(alg):
        snaps.append(trace.snapshot(alg))
    return [trace.row(x) for x in prob.log.rows], snaps, trace.result(alg.result())


def fmt_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


class Frozen:
    """Checks that neither global generator was read (which advances it) nor reseeded."""

    def __init__(self, mon, key, g):
        self.mon, self.key, self.g = mon, key, g

    def __enter__(self):
        np.random.seed(self.g % (2 ** 32)); random.seed(self.g)
        self.before = fmt_state()

    def __exit__(self, t, v, tb):
        if t is None:
            a = fmt_state()
            self.mon.ev("global_state_checks")
            self.mon.check(a[0] == self.before[0], f"numpy-global:{self.key}", "numpy's global random state was used or changed")
            self.mon.check(a[1] == self.before[1], f"python-global:{self.key}", "Python's global random state was used or changed")


def run(case, mon):
    if case["kind"] == "op":
        return ops(case, mon)
    if case["kind"] == "proc":
        return proc(case, mon)
    name = case["algo"]
    # modules imported on demand may use the global generators, so everything is loaded before
    other = dict(case, seed=case["seed"] + 1, n_gen=2)
    one(other)
    with Frozen(mon, name, case["g"]):
        a = one(case)
    # something else in between
    one(other)
    np.random.rand(3)
    with Frozen(mon, name, case["g"] + 77):
        b = one(case)
    mon.ev("pairs")
    mon.ev("vectors_compared", min(len(a[0]), len(b[0])))
    d = trace.first_difference(a[0], b[0], "evaluated") or trace.first_difference(a[1], b[1], "iteration") or trace.first_difference(a[2], b[2], "result")
    mon.check(d is None, f"differs:{name}", f"two runs with seed {case['seed']} differ: {d}")
    mon.state(name, len(a[0]), repr(a[0][-1:]))
    mon.note(algorithm=name, evaluated=len(a[0]), last=a[0][-1] if a[0] else None)


# ------------------------------------------------------------------ other processes

CHILD = """
import json, sys, hashlib, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
from vlib import ext
ext.install()
from checks import c07
out = {}
for case in json.load(sys.stdin):
    try:
        r = repr(c07.one(case))
        out[case["algo"]] = [hashlib.sha256(r.encode()).hexdigest(), len(r)]
    except Exception as e:
        out[case["algo"]] = ["exception %s %s" % (type(e).__name__, e), 0]
sys.stderr.write("RESULT" + json.dumps(out))
"""


def proc(case, mon):
    jobs = []
    for j, a in enumerate(case["algos"]):
        S = runs.specs_for(a)
        s = S[(case["seed"] + j) % len(S)]
        jobs.append(dict(kind="run", algo=a, spec=s, seed=case["seed"] + j, pop=10, n_gen=4))
    res = []
    for hs in ("1", "271828"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        order = jobs if hs == "1" else jobs[::-1]
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD], input=json.dumps(order), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=280,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        if "RESULT" not in r.stderr:
            mon.inconclusive.append("the child process gave no answer: " + r.stderr[-500:])
            return
        res.append(json.loads(r.stderr.split("RESULT")[-1]))
    for a in case["algos"]:
        mon.ev("process_pairs")
        mon.state("proc", a, res[0][a][0])
        mon.check(res[0][a] == res[1][a], f"process:{a}", f"separate processes with the same seed differ: {res[0][a]} {res[1][a]}")


# ------------------------------------------------------------------ operators

def ops(case, mon):
    from pymoo.core.population import Population
    from pymoo.core.evaluator import Evaluator
    from pymoo.operators.crossover.dex import DEX
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.mutation.rm import ChoiceRandomMutation
    from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding, ConstrRankAndCrowding
    from pymoo.util.ref_dirs import get_reference_directions
    from pymoo.util.ref_dirs.reduction import ReductionBasedReferenceDirectionFactory
    from pymoo.util.ref_dirs.misc import project_onto_unit_simplex_recursive
    from pymoo.util.randomized_argsort import randomized_argsort
    o = zoo._ops("")
    rng = np.random.default_rng(case["seed"])
    sd = int(rng.integers(0, 10 ** 6))
    n = int(rng.integers(4, 14))

    def fixed_rng(s, f):
        return f(np.random.default_rng(s))

    def pair(key, f):
        """f(seed) must give the same twice, whatever the global state."""
        f(sd + 1)
        with Frozen(mon, key, int(rng.integers(10 ** 6))):
            a = f(sd)
        with Frozen(mon, key, int(rng.integers(10 ** 6))):
            b = f(sd)
        mon.ev("operator_pairs")
        a, b = np.asarray(a, dtype=object).tolist() if not isinstance(a, np.ndarray) else a.tolist(), np.asarray(b, dtype=object).tolist() if not isinstance(b, np.ndarray) else b.tolist()
        mon.check(repr(a) == repr(b), f"op:{key}", f"two calls with the same seed differ: {str(a)[:200]} / {str(b)[:200]}")
        mon.state(key, sd, repr(a)[:200])

    real = probs.make(dict(cls="MO", n_var=5, bounds=str(rng.choice(["unit", "neg", "shift"])), fn="convex", cons="ieq"))
    binp, intp, perm = probs.make(dict(cls="Bin", n_var=9)), probs.make(dict(cls="Int", n_var=5)), probs.make(dict(cls="Perm", n_var=8))
    R = np.random.default_rng

    pair("FloatRandomSampling", lambda s: o["FloatRandomSampling"]()(real, n, random_state=R(s)).get("X"))
    pair("LHS", lambda s: o["LHS"]()(real, n, random_state=R(s)).get("X"))
    pair("LHS-seed", lambda s: o["LHS"]().do(real, n, seed=s).get("X"))
    pair("FloatRandomSampling-seed", lambda s: o["FloatRandomSampling"]().do(real, n, seed=s).get("X"))
    pair("LHS-criterion", lambda s: o["LHS"](iterations=5)(real, n, random_state=R(s)).get("X"))
    pair("BinaryRandomSampling", lambda s: o["BinaryRandomSampling"]()(binp, n, random_state=R(s)).get("X"))
    pair("IntegerRandomSampling", lambda s: o["IntegerRandomSampling"]()(intp, n, random_state=R(s)).get("X"))
    pair("PermutationRandomSampling", lambda s: o["PermutationRandomSampling"]()(perm, n, random_state=R(s)).get("X"))

    P = o["FloatRandomSampling"]()(real, 12, random_state=R(sd + 1))
    Evaluator().eval(real, P)
    B = o["BinaryRandomSampling"]()(binp, 12, random_state=R(sd + 1))
    Q = o["PermutationRandomSampling"]()(perm, 12, random_state=R(sd + 1))

    def mate(op, problem, pop):
        def f(s):
            r = R(s)
            parents = [[pop[i] for i in r.choice(len(pop), op.n_parents, replace=False)] for _ in range(6)]
            return op(problem, parents, random_state=r).get("X")
        return f
    for k in ("SBX", "UniformCrossover", "HUX", "ExponentialCrossover", "SinglePointCrossover", "TwoPointCrossover", "BX", "SPX", "NoCrossover"):
        pair(k, mate(o[k](), real, P))
    pair("PCX", mate(PCX(), real, P))
    for v in (dict(), dict(jitter=True), dict(variant="exp"), dict(at_least_once=False), dict(F=None) if False else dict()):
        pair("DEX" + str(v), mate(DEX(**v), real, P))
    for k in ("UniformCrossover", "HUX"):
        pair(k + "-bin", mate(o[k](), binp, B))
    for k in ("OrderCrossover", "ERX"):
        pair(k, mate(o[k](), perm, Q))
    for k, prob, pop in (("PM", real, P), ("GaussianMutation", real, P), ("BitflipMutation", binp, B), ("InversionMutation", perm, Q)):
        for kw in (dict(), dict(prob=1.0)):
            pair(k, lambda s, k=k, prob=prob, pop=pop, kw=kw: o[k](**kw)(prob, pop, random_state=R(s), inplace=False).get("X"))
    pair("GaussianMutation-wide", lambda s: o["GaussianMutation"](sigma=3.0, prob=1.0, prob_var=1.0)(real, P, random_state=R(s), inplace=False).get("X"))
    pair("RandomSelection", lambda s: o["RandomSelection"]()(real, P, 7, 3, random_state=R(s), to_pop=False))
    from pymoo.algorithms.moo.nsga2 import binary_tournament
    from pymoo.operators.selection.tournament import TournamentSelection
    from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness
    from pymoo.algorithms.moo.nsga3 import comp_by_cv_then_random
    P2 = RankAndCrowding().do(real, P, n_survive=12, random_state=R(1))

    class A:
        tournament_type = "comp_by_dom_and_crowding"
        survival = RankAndCrowding()

        def __init__(self, r=None):
            self.random_state = r

    for fn, nm in ((binary_tournament, "nsga2"), (comp_by_cv_then_random, "nsga3")):
        pair("Tournament-" + nm, lambda s, fn=fn: fixed_rng(s, lambda r: TournamentSelection(func_comp=fn)(real, P2, 9, 2, random_state=r, to_pop=False, algorithm=A(r))))
    for nm, S in (("RankAndCrowding", lambda: RankAndCrowding()), ("RankAndCrowding-mnn", lambda: RankAndCrowding(crowding_func="mnn")), ("ConstrRankAndCrowding", lambda: ConstrRankAndCrowding())):
        def f(s, S=S):
            pop = Population.create(*[copy.deepcopy(i) for i in P])
            return S().do(real, pop, n_survive=5, random_state=R(s)).get("X")
        pair(nm, f)
    tie = np.array([1.0, 1, 2, 2, 2, 0, 0, 1])
    pair("randomized_argsort", lambda s: randomized_argsort(tie, order="descending", random_state=R(s)))
    pair("repair-inverse", lambda s: InversePenaltyOutOfBoundsRepair().repair_out_of_bounds(real, P.get("X") + 0.8 * (real.xu - real.xl) * np.sign(P.get("X") - np.median(P.get("X"))), P=P.get("X"), random_state=R(s)))
    pair("refdirs-energy", lambda s: get_reference_directions("energy", 3, 9, seed=s, n_iter=30) if False else get_reference_directions("energy", 3, 9, seed=s))
    pair("refdirs-reduction", lambda s: get_reference_directions("reduction", 3, 11, seed=s, n_sample_points=300))
    pair("refdirs-red", lambda s: ReductionBasedReferenceDirectionFactory(3, 7, kmeans=False, n_sample_points=200, seed=s).do())
