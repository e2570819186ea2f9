"""Problem/algorithm combinations shared by the checks that observe whole runs."""
import numpy as np
from vlib import zoo

SO_SPECS = [
    dict(cls="SO", n_var=4, bounds="unit", where="inside", fn="sphere"),
    dict(cls="SO", n_var=3, bounds="shift", where="mixed", fn="rastrigin"),
    dict(cls="SO", n_var=2, bounds="neg", where="upper", fn="neg"),
    dict(cls="SO", n_var=5, bounds="aniso", where="lower", fn="abs"),
    dict(cls="SO", n_var=3, bounds="sym", where="inside", fn="plateau"),
    dict(cls="SO", n_var=4, bounds="degen", where="inside", fn="sphere"),
    dict(cls="SO", n_var=3, bounds="big", where="lower", fn="linear"),
    dict(cls="SO", n_var=1, bounds="shift", where="inside", fn="sphere"),
    dict(cls="SO", n_var=3, bounds="odd", where="mixed", fn="linear"),
    dict(cls="SO", n_var=2, bounds="odd", where="upper", fn="neg"),
]
SO_CONS = [
    dict(cls="SO", n_var=4, bounds="sym", where="lower", fn="sphere", cons="ieq"),
    dict(cls="SO", n_var=3, bounds="unit", where="inside", fn="neg", cons="narrow"),
    dict(cls="SO", n_var=3, bounds="shift", where="mixed", fn="plateau", cons="ceq"),
    dict(cls="SO", n_var=3, bounds="neg", where="upper", fn="linear", cons="infeasible"),
    dict(cls="SO", n_var=3, bounds="unit", where="inside", fn="rastrigin", cons="both"),
    dict(cls="SO", n_var=3, bounds="odd", where="lower", fn="linear", cons="tiny"),
    dict(cls="SO", n_var=4, bounds="unit", where="lower", fn="sphere", cons="tiny"),
]
MO_SPECS = [
    dict(cls="MO", n_var=5, n_obj=2, bounds="unit", fn="zdt1"),
    dict(cls="MO", n_var=4, n_obj=2, bounds="neg", fn="scaled"),
    dict(cls="MO", n_var=5, n_obj=3, bounds="shift", fn="dtlz2"),
    dict(cls="MO", n_var=4, n_obj=2, bounds="sym", fn="plateau"),
    dict(cls="MO", n_var=4, n_obj=2, bounds="degen", fn="convex"),
    dict(cls="MO", n_var=3, n_obj=2, bounds="aniso", fn="single"),
    dict(cls="MO", n_var=6, n_obj=4, bounds="unit", fn="dtlz2"),
    dict(cls="MO", n_var=4, n_obj=3, bounds="odd", fn="scaled"),
]
MO_CONS = [
    dict(cls="MO", n_var=4, n_obj=2, bounds="unit", fn="zdt1", cons="ieq"),
    dict(cls="MO", n_var=4, n_obj=2, bounds="shift", fn="convex", cons="narrow"),
    dict(cls="MO", n_var=5, n_obj=3, bounds="unit", fn="dtlz2", cons="ceq"),
    dict(cls="MO", n_var=4, n_obj=2, bounds="neg", fn="convex", cons="infeasible"),
    dict(cls="MO", n_var=4, n_obj=2, bounds="sym", fn="plateau", cons="both"),
    dict(cls="MO", n_var=4, n_obj=2, bounds="odd", fn="convex", cons="tiny"),
]
OTHER = {
    ("bin", 1): [dict(cls="Bin", n_var=10), dict(cls="Bin", n_var=12, cons="ieq")],
    ("bin", 2): [dict(cls="Bin", n_var=10, n_obj=2), dict(cls="Bin", n_var=12, n_obj=3, cons="ieq")],
    ("int", 1): [dict(cls="Int", n_var=4), dict(cls="Int", n_var=5, cons="ieq", degen=True)],
    ("int", 2): [dict(cls="Int", n_var=4, n_obj=2), dict(cls="Int", n_var=5, n_obj=2, cons="ieq", lo=-20, hi=-3)],
    ("perm", 1): [dict(cls="Perm", n_var=8), dict(cls="Perm", n_var=9, cons="ieq")],
    ("perm", 2): [dict(cls="Perm", n_var=8, n_obj=2), dict(cls="Perm", n_var=9, n_obj=2, cons="ieq")],
    ("mixed", 1): [dict(cls="Mixed", which="all"), dict(cls="Mixed", which="realint", cons="ieq"), dict(cls="Mixed", which="discrete"), dict(cls="Mixed", which="onlyreal")],
    ("mixed", 2): [dict(cls="Mixed", which="all", n_obj=2), dict(cls="Mixed", which="realint", cons="ieq", n_obj=2), dict(cls="Mixed", which="discrete", n_obj=2)],
}

# combinations an algorithm does not claim to support (documented or asserted in the code)
SKIP = {
    ("G3PCX", "n_var=1"), ("CMAES", "n_var=1"), ("SimpleCMAES", "n_var=1"), ("CMAES-serial", "n_var=1"),
}


def specs_for(name):
    z = zoo.Z[name]
    out = []
    for var in z["var"]:
        if var == "real":
            if z["so"]:
                out += SO_SPECS + (SO_CONS if z["cons"] == "yes" else [])
            if z["mo"]:
                out += MO_SPECS + (MO_CONS if z["cons"] == "yes" else [])
        else:
            out += OTHER[(var, 1 if z["so"] else 2)]
    return [s for s in out if not skip(name, s)]


def skip(name, s):
    if s.get("n_var") == 1 and (name, "n_var=1") in SKIP:
        return True
    if name == "PINSGA2" and s.get("n_obj", 2) > 3:
        return True         # cost only: fitting a value function takes tens of seconds
    if name == "CMAES-serial" and s.get("bounds") == "degen":
        return True         # the cma package itself refuses xl = xu when the space is not rescaled
    return False


def spec_id(s):
    return "-".join(str(v) for k, v in s.items())


def combos(rng, per_algo, which=None, **req):
    """A deterministic selection of (algorithm, problem) pairs: every algorithm, several problems each."""
    out = []
    for name in zoo.names(**req):
        if which and not which(zoo.Z[name]):
            continue
        S = specs_for(name)
        k = min(len(S), per_algo)
        idx = rng.permutation(len(S))[:k]
        for i in sorted(idx):
            out.append((name, S[i]))
    return out
