"""C23: the compiled and the Python version of a function are interchangeable."""
import numpy as np
from vlib import gen, kernels, mon as M, obs, runs, zoo

RULE = ("streams of calls (18 families of matrices, no rows, one row, memory layouts, all numbers to remove, read from integers too) are answered by the compiled and by the Python version of every function offered in both, through load_function and "
        "directly, and compared; arguments are compared before and after, and results must not share memory with them; whole runs with compiled and with Python functions and the same seed are compared; distinct states are different results")
REQUIRED = ["pairs", "arguments", "runs", "run_generations", "modes"]
ASSUMPTIONS = ["options offered by both versions (stopping after n_stop_if_ranked only exists compiled)", "where rounding may decide which of two equally crowded points is pruned next, values are not compared"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 123])
    q = tier == "quick"
    out = [dict(kind="stream", seed=int(rng.integers(1, 10 ** 9)), n=500) for _ in range(24 if q else 300)]
    for name in zoo.names():
        if name in RUNS or not q and not name.startswith(("GA-", "NSGA2-perm", "NSGA2-bin", "NSGA2-int")):
            S = runs.specs_for(name)
            for i in rng.permutation(len(S))[:2 if q else 6]:
                out.append(dict(kind="run", algo=name, spec=S[int(i)], seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=6 if q else 15, cap=20000))
    out.append(dict(kind="modes"))
    return out


RUNS = ["NSGA2", "NSGA2-pcd", "NSGA2-mnn", "NSGA2-2nn", "NSGA3", "UNSGA3", "RNSGA3", "CTAEA", "ISRES", "SRES", "MOEAD", "ParallelMOEAD", "GDE3MNN", "GDE32NN", "GDE3PCD", "NSDER", "AGEMOEA", "SMSEMOA", "SPEA2"]


def fronts(r):
    r = [sorted(int(i) for i in f) for f in r]
    while r and not r[-1]:
        r = r[:-1]
    return r




def run_stream(case, mon):
    from checks import c12
    from pymoo.functions import load_function
    rng = np.random.default_rng(case["seed"])
    k = 0
    for name, args, kw in kernels.calls(rng, nan=False):
        k += 1
        if k > case["n"]:
            break
        try:
            py, cy = load_function(name, "python"), load_function(name, "cython")
        except Exception:
            mon.viol(f"load:{name}", f"{name} cannot be loaded in both versions")
            return
        kw.pop("n_stop_if_ranked", None)
        if name == "fast_best_order_sort":
            continue
        before = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        got = {}
        for mode, fn in (("python", py), ("cython", cy)):
            try:
                got[mode] = kernels.invoke(fn, name, args, kw)
            except Exception as e:
                got[mode] = e
            mon.ev("arguments")
            mon.check(all(M.same(a, b) for a, b in zip(args, before)), f"modified:{name}:{mode}", lambda: f"{mode} {name} changes its arguments")
            for r in (got[mode] if isinstance(got[mode], tuple) else (got[mode],)):
                if isinstance(r, np.ndarray) and any(np.shares_memory(r, a) for a in args if isinstance(a, np.ndarray)):
                    mon.viol(f"shared:{name}:{mode}", f"the result of {mode} {name} shares the memory of an argument")
        a, b = got["python"], got["cython"]
        mon.ev("pairs")
        mon.ev("pair:" + name)
        desc = lambda: f"{name} {[getattr(x, 'shape', x) for x in args]} {kw}: python {M.short(a, 200)}, compiled {M.short(b, 200)}"
        if isinstance(a, Exception) or isinstance(b, Exception):
            mon.check(isinstance(a, Exception) and isinstance(b, Exception), f"error:{name}", desc)
            continue
        if name == "find_non_dominated":
            ok = sorted(int(i) for i in a) == sorted(int(i) for i in b)
        elif "sort" in name:
            ok = fronts(a) == fronts(b)
        elif name in ("calc_mnn", "calc_2nn", "calc_pcd"):
            F = np.asarray(args[0], float)
            ok = M.same(a, np.asarray(b), rtol=1e-6, atol=1e-12)
            if not ok and len(F):
                # differences of rounding may decide about what is pruned; the distance between infinities is undefined
                ref = None if not np.isfinite(F).all() else c12.ref_pcd(F, max(kw["n_remove"], 0)) if name == "calc_pcd" else c12.ref_nn(F, max(kw["n_remove"], 0), F.shape[1] if name == "calc_mnn" else 2)
                if ref is None:
                    mon.ev("undecided")
                    continue
        elif name == "stochastic_ranking":
            ok = M.same(np.asarray(a), np.asarray(b))
        else:
            A, B = np.asarray(a, float), np.asarray(b, float)
            scale = max(1.0, float(np.max(np.abs(np.where(np.isfinite(args[0]), args[0], 0)), initial=0)))
            ok = A.shape == B.shape and (not np.isfinite(args[0]).all() or bool(np.all((np.abs(A - B) <= 1e-9 * scale) | (np.isnan(A) & np.isnan(B)))))
        mon.check(ok, f"differ:{name}", desc, args=[np.asarray(x) for x in args])
        if k % 7 == 0:
            mon.state(name, M.short(b, 2000))


def run_run(case, mon):
    """The same seed with both versions."""
    import pymoo.functions as P
    ld = P.FunctionLoader.get_instance()
    out = {}
    used = {}
    orig = P.FunctionLoader.load
    for mode in ("cython", "python"):
        seen = []

        def load(self, func_name=None, mode=None):
            seen.append(func_name)
            return orig(self, func_name, mode)
        P.FunctionLoader.load = load
        ld.mode = mode
        try:
            prob, alg = obs.build(case)
            obs.setup(prob, alg, case)
            tr = []
            for _ in obs.steps(alg):
                tr.append([obs_pop(p) for _, p in obs.tracked_sets(alg)])
            out[mode], used[mode] = tr, seen
        finally:
            ld.mode = "auto"
            P.FunctionLoader.load = orig
    mon.ev("runs")
    for f in set(used["python"]):
        mon.ev("used:" + f)
    a, b = out["cython"], out["python"]
    for g, (x, y) in enumerate(zip(a, b)):
        mon.ev("run_generations")
        if not mon.check(len(x) == len(y) and all(close(u, v) for u, v in zip(x, y)), f"run:{case['algo']}", f"{case['algo']} differs in generation {g + 1} without compiled functions"):
            break
        mon.state(case["algo"], g, repr(x)[:300])
    mon.check(len(a) == len(b), f"run:{case['algo']}:length", f"{len(a)} generations with compiled functions, {len(b)} in Python")


def obs_pop(p):
    return [(repr(i.X) if isinstance(i.X, dict) else np.array(i.X), np.array(i.F)) for i in p]


def close(u, v):
    if len(u) != len(v):
        return False
    for (x1, f1), (x2, f2) in zip(u, v):
        if isinstance(x1, str) or isinstance(x2, str):
            if x1 != x2:
                return False
        elif not M.same(x1, x2, rtol=1e-7, atol=1e-9):
            return False
        if not M.same(f1, f2, rtol=1e-6, atol=1e-9):
            return False
    return True


def run_modes(case, mon):
    """load_function: names, modes, and what "auto" means."""
    import pymoo.functions as P
    mon.check(P.is_compiled(), "modes:compiled", "the extensions are there but not found")
    names = P.get_functions()
    for n in names:
        py = P.load_function(n, "python")
        mon.check("compiled" not in py.__module__, f"modes:{n}:python", f"{n} in Python comes from {py.__module__}")
        try:
            cy = P.load_function(n, "cython")
        except Exception as e:
            mon.viol(f"modes:{n}:cython", f"{n} cannot be loaded compiled: {e!r}")
            continue
        mon.check(getattr(cy, "__module__", "") == getattr(P.load_function(n), "__module__", ""), f"modes:{n}:auto", f"the default version of {n} is not the compiled one")
        mon.ev("modes")
    try:
        P.load_function("no_such_function")
        mon.viol("modes:unknown", "an unknown function is loaded")
    except Exception:
        pass
    mon.state("modes", sorted(names))


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
