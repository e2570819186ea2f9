"""Catalogue of the shipped problems: how to create one with random parameters, and random designs for it."""
import importlib
import numpy as np

SINGLE = {"ackley": "n", "cantilevered_beam": "", "griewank": "n", "himmelblau": "", "pressure_vessel": "", "rastrigin": "n", "rosenbrock": "n2", "schwefel": "n", "sphere": "n", "zakharov": "n"}
SINGLE.update({f"g{i}": "" for i in range(1, 25)})
SINGLE["g2"] = SINGLE["g3"] = "n2"
MULTI = {"bnh": "", "carside": "", "kursawe": "", "osy": "", "srn": "", "tnk": "", "truss2d": "", "welded_beam": ""}
MULTI.update({f"ctp{i}": "" for i in range(1, 9)})
MULTI.update({f"dascmop{i}": "diff" for i in range(1, 10)})
MULTI.update({f"mw{i}": "mwmo" if i in (4, 8, 14) else "mw" for i in range(1, 15)})
MULTI.update({f"zdt{i}": "n2" for i in (1, 2, 3, 4, 6)})
MULTI["zdt5"] = "zdt5"
MANY = {k: "dtlz" for k in ("dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz5", "dtlz6", "dtlz7", "dtlz1^-1", "convex_dtlz2", "convex_dtlz4", "sdtlz1", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4",
                              "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3")}
MANY.update({f"wfg{i}": "wfg" for i in range(1, 10)})
MANY.update({f"zcat{i}": "zcat" for i in range(1, 21)})
DYN = {f"df{i}": "df" for i in range(1, 15)}
DYN.update({f"cec:{c}": "cec" for c in ("FDA2DEB", "FDA4", "FDA5", "DIMP2", "dMOP2", "dMOP3", "HE2", "HE7", "HE9")})
DYN.update({f"misc:{c}": "" for c in ("FDA2_deb", "DMOP2", "DIMP2b", "HE2b", "HE7b", "HE9b")})
EXTRA = {"knapsack": "", "mknapsack": "", "tsp": "", "flowshop": "", "mm1": "n", "mm2": "n", "smm": "", "clutch": "", "csi": "", "wrm": "", "omnitest": "", "sympart": "", "sympartrot": ""}
ALL = {**SINGLE, **MULTI, **MANY, **DYN, **EXTRA}


def params(rng, name):
    """Random keyword arguments (plain values: they are part of replayable cases)."""
    kind = ALL[name]
    I = lambda a, b: int(rng.integers(a, b))
    if kind == "n":
        return dict(n_var=I(1, 8))
    if kind == "n2":
        return dict(n_var=I(2, 9))
    if kind == "mw":
        return {} if rng.random() < 0.4 else dict(n_var=I(3, 20))
    if kind == "mwmo":
        m = I(2, 5)
        return dict(n_obj=m) if rng.random() < 0.5 else dict(n_obj=m, n_var=m + I(1, 12))
    if kind == "diff":
        return dict(d=I(1, 17))
    if kind == "zdt5":
        return dict(m=I(2, 12), n=I(2, 7), normalize=bool(rng.random() < 0.5))
    if kind == "dtlz":
        m = I(2, 6)
        return dict(n_obj=m, n_var=m + I(0, 9))
    if kind == "wfg":
        m = I(2, 5)
        k = 4 if m == 2 else 2 * (m - 1)
        return dict(n_obj=m, n_var=k + 2 * I(1, 6), k=k)
    if kind == "zcat":
        m = I(2, 6)
        return dict(n_obj=m, n_var=m + I(0, 9), complicated_pareto_set=bool(rng.random() < 0.5), level=I(1, 7), bias=bool(rng.random() < 0.5), imbalance=bool(rng.random() < 0.5))
    if kind == "df":
        return dict(n_var=I(3, 12), nt=I(1, 12), taut=I(1, 12), tau=I(1, 60))
    if kind == "cec":
        n = 30 if name == "cec:HE2" else I(8, 16)
        return dict(n_var=n, nt=I(1, 12), taut=I(1, 12), tau=I(1, 60))
    if name.startswith("misc:"):
        return dict(nt=I(1, 12), taut=I(1, 12))
    if name in ("knapsack", "mknapsack", "tsp", "flowshop"):
        return dict(n=I(3, 12), m=I(2, 5), seed=I(1, 10 ** 6))
    if name == "omnitest":
        return dict(n_var=I(2, 6))
    if name == "sympart":
        return {} if rng.random() < 0.5 else dict(length=float(rng.random() + 0.5), v_dist=float(5 + 5 * rng.random()), h_dist=float(5 + 5 * rng.random()))
    if name == "sympartrot":
        return {} if rng.random() < 0.5 else dict(length=float(rng.random() + 0.5), v_dist=float(5 + 5 * rng.random()), h_dist=float(5 + 5 * rng.random()), angle=float(rng.normal()))
    return {}


def wide_params(rng, name):
    """Like params, with the further parameters of the constructors set at times."""
    kw = params(rng, name)
    if rng.random() < 0.4:
        return kw
    I = lambda a, b: int(rng.integers(a, b))
    if name == "ackley":
        kw.update(a=float(rng.uniform(1, 30)), b=float(rng.uniform(0.05, 1)), c=float(rng.uniform(1, 10)))
    elif name == "rastrigin":
        kw.update(A=float(rng.uniform(1, 20)))
    elif name == "ctp1":
        kw.update(n_var=I(2, 7), n_ieq_constr=I(1, 7))
    elif name.startswith("ctp"):
        kw.update(n_var=I(2, 7))
        if name not in ("ctp6", "ctp8"):        # these set their own bounds
            kw.update(option=str(rng.choice(["linear", "multimodal"])))
    elif name.startswith("dascmop"):
        kw.update(d=[float(rng.choice([0, rng.random(), 1])) for _ in range(3)])
    elif name == "dtlz4":
        kw.update(alpha=I(1, 150))
    elif name == "sdtlz1":
        kw.update(scale_factor=float(rng.choice([2, 3.5, 5, 0.5])))
    elif name in ("c1dtlz3", "c2dtlz2"):
        kw.update(r=float(rng.uniform(0.1, 1) * (10 if name == "c1dtlz3" else 1)))
    elif name.startswith("wfg"):
        m = kw["n_obj"]
        k = (m - 1) * I(1, 5)
        k = k if k >= 4 else 4 if m in (2, 3) else 2 * (m - 1)
        odd = name not in ("wfg2", "wfg3") and rng.random() < 0.5
        kw.update(k=k, n_var=k + 2 * I(1, 5) + odd)
    return kw


def create(name, **kw):
    from pymoo.problems import get_problem
    mod = lambda m, c: getattr(importlib.import_module(f"pymoo.problems.{m}"), c)
    if name.startswith("dascmop"):
        return get_problem(name, kw["d"] if isinstance(kw["d"], int) else tuple(kw["d"]))
    if name.startswith("cec:"):
        return mod("dynamic.cec2015", name[4:])(**kw)
    if name.startswith("misc:"):
        return mod("dynamic.misc", name[5:])(**kw)
    if name == "knapsack":
        return mod("single.knapsack", "create_random_knapsack_problem")(kw["n"], seed=kw["seed"])
    if name == "mknapsack":
        return mod("single.knapsack", "create_random_knapsack_problem")(kw["n"], variant="multi", seed=kw["seed"])
    if name == "tsp":
        return mod("single.traveling_salesman", "create_random_tsp_problem")(kw["n"], seed=kw["seed"])
    if name == "flowshop":
        return mod("single.flowshop_scheduling", "create_random_flowshop_problem")(kw["m"], kw["n"], seed=kw["seed"])
    cls = {"mm1": ("single.multimodal", "MultiModalSimple1"), "mm2": ("single.multimodal", "MultiModalSimple2"), "smm": ("single.simple", "SimpleMultiModal01"),
           "clutch": ("multi.clutch", "Clutch"), "csi": ("multi.csi", "CSI"), "wrm": ("multi.wrm", "WRM"), "omnitest": ("multi.omnitest", "OmniTest"), "sympart": ("multi.sympart", "SYMPART"), "sympartrot": ("multi.sympart", "SYMPARTRotated")}
    if name in cls:
        return mod(*cls[name])(**kw)
    return get_problem(name, **kw)


def designs(rng, name, problem, n, edges=True):
    """Random designs in the search space (with some variables exactly at their bounds)."""
    d = problem.n_var
    if name in ("tsp", "flowshop"):
        return np.array([rng.permutation(d) for _ in range(n)]).reshape(n, d)
    xl, xu = problem.xl, problem.xu
    if problem.vtype in (int, bool):
        X = rng.integers(xl.astype(int), xu.astype(int) + 1, (n, d))
        return X.astype(bool) if problem.vtype is bool and rng.random() < 0.5 else X
    if name == "zdt5":
        return rng.integers(0, 2, (n, d)).astype(float)
    X = xl + rng.random((n, d)) * (xu - xl)
    if edges and rng.random() < 0.5:
        at = rng.random((n, d))
        X = np.where(at < 0.1, xl, np.where(at > 0.9, xu, X))
    return np.clip(X, xl, xu)
