"""Stepping an algorithm and looking at what it exposes."""
import re
import numpy as np
from vlib import zoo, probs
from vlib.mon import Stop


def build(case, **extra):
    prob = probs.make(case["spec"], **extra)
    prob.log.cap = case.get("cap", 60000)
    alg = zoo.create(case["algo"], prob, case.get("pop", 16))
    # a third of the runs use other values of the declared parameters than the defaults
    if case.get("params", case.get("seed", 0) % 3 == 1):
        alg = other_params(alg, case["algo"], case.get("seed", 0))
    return prob, alg


# parameters that change what an algorithm promises rather than how well it searches
KEEP_PARAMS = {"G3PCX": ("n_parents", "family_size")}      # (a family larger than the population does not exist)


def other_params(alg, name, seed):
    """A copy of the algorithm with its declared parameters drawn from their bounds and options.
    (A copy because the operators given by default are shared by all instances: a known finding of C36.)"""
    import copy
    from pymoo.core.parameters import flatten, get_params, hierarchical, set_params
    rng = np.random.default_rng([seed, 36])
    alg = copy.deepcopy(alg)
    new = {}
    for k, v in flatten(get_params(alg)).items():
        if k in KEEP_PARAMS.get(re.split("[-+]", name)[0], ()) or rng.random() < 0.3:
            continue
        if "nox" in name and k.endswith("prob_var"):
            continue        # neither crossover nor mutation: no offspring exist and the run ends by itself
        new[k] = draw(rng, v)
    if new:
        set_params(alg, hierarchical(new))
    return alg


def draw(rng, v, wide=False):
    """A value in the variable's domain."""
    from pymoo.core.variable import Binary, Choice, Integer
    if isinstance(v, Choice):
        o = list(v.all if wide else v.options)
        return o[int(rng.integers(len(o)))]
    if isinstance(v, Binary):
        return bool(rng.random() < 0.5)
    lo, hi = v.bounds
    if wide:
        lo, hi = v.strict[0] if v.strict[0] is not None else lo, v.strict[1] if v.strict[1] is not None else hi
    if isinstance(v, Integer):
        return int(rng.integers(lo, hi + 1))
    return float(rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi)]))


def setup(prob, alg, case, **kw):
    from pymoo.termination import get_termination
    kw.setdefault("termination", get_termination("n_gen", case.get("n_gen", 10)))
    alg.setup(prob, seed=case.get("seed", 1), **kw)
    return alg


def steps(alg, limit=10000):
    """Yields the iteration number after every completed iteration (a step of a steady-state
    algorithm that does not complete an iteration is not yielded)."""
    k, last = 0, alg.n_iter
    while alg.has_next() and k < limit * 50:
        alg.next()
        if alg.n_iter != last:
            last = alg.n_iter
            k += 1
            yield k
            if k >= limit:
                return


def X_of(pop):
    """List of design vectors (rows or dictionaries)."""
    return [ind.X for ind in pop]


def is_evaluated(ind):
    return ind.evaluated is not None and "F" in ind.evaluated


def truth_of(prob, inds):
    return prob.truth([i.X for i in inds])


def tracked_sets(alg):
    out = []
    for nm in ("pop", "off", "opt", "archive"):
        p = getattr(alg, nm, None)
        if p is not None and not hasattr(p, "__len__"):      # a single individual
            p = [p]
        if p is not None and len(p) > 0:
            out.append((nm, p))
    return out


def dominates(a, b):
    return bool(np.all(a <= b) and np.any(a < b))


def dom_matrix(A, B):
    """D[i, j]: A[i] dominates B[j]."""
    A, B = np.asarray(A, float), np.asarray(B, float)
    le = np.all(A[:, None, :] <= B[None, :, :], axis=2)
    lt = np.any(A[:, None, :] < B[None, :, :], axis=2)
    return le & lt


def key_of(x):
    if isinstance(x, dict):
        return repr(sorted((k, str(v)) for k, v in x.items()))
    a = np.asarray(x)
    if a.dtype == object:
        return repr(a.tolist())
    return a.astype(float).tobytes()
