"""Runs a stream of kernel calls in a process with an instrumented build (or under valgrind) and prints what it saw.

usage: kernel_child.py FOLDER SEED N MODE     FOLDER: directory with the .so files
"""
import hashlib, importlib, json, sys
import numpy as np


def leak(mods, seed, n):
    """Bytes still allocated by malloc after n more calls of the same kind, per function."""
    import ctypes, gc
    from vlib import kernels

    class Info(ctypes.Structure):
        _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Info

    def used():
        gc.collect()
        i = libc.mallinfo2()
        return i.uordblks + i.hblkhd
    rng = np.random.default_rng(seed)
    res, done = {}, {}
    for name, args, kw in kernels.calls(rng, nan=False, empty=False):
        if len(args[0]) < 5 or done.get(name, 0) >= 3:
            if len(done) == len([k for k in kernels.MOD if k != "best_order_sort"]) and min(done.values()) >= 3:
                break
            continue
        fn = getattr(mods[kernels.MOD[name]], name)
        for _ in range(50):
            kernels.invoke(fn, name, args, kw)
        a = used()
        for _ in range(n):
            kernels.invoke(fn, name, args, kw)
        res[name] = max(res.get(name, 0), used() - a)
        done[name] = done.get(name, 0) + 1
    print("RESULT " + json.dumps({"calls": sum(done.values()) * n, "growth": res, "by": done, "shapes": sum(done.values())}), flush=True)


def runs(spec):
    """Whole runs of algorithms on top of the instrumented kernels."""
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from vlib import kernels, obs
    import pymoo.functions as P
    counts = {}
    cls = P.FunctionLoader
    orig = cls.load

    def load(self, func_name=None, mode=None):
        counts[func_name] = counts.get(func_name, 0) + 1
        return orig(self, func_name, mode)
    cls.load = load
    out = {"calls": 0, "by": counts, "runs": 0, "errors": []}
    for c in json.loads(spec):
        print("CALL", json.dumps(c), file=sys.stderr, flush=True)
        try:
            prob, alg = obs.build(c)
            obs.setup(prob, alg, c)
            for _ in obs.steps(alg):
                pass
            out["runs"] += 1
        except IndexError as e:
            import traceback
            out["errors"].append([c["algo"], traceback.format_exc()[-1500:]])
    out["calls"] = sum(counts.values())
    out["shapes"] = out["runs"]
    print("RESULT " + json.dumps(out), flush=True)


def main():
    folder, seed, n, mode = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    from vlib import ext, kernels
    if folder != "-":
        ext.redirect(folder)
    if mode == "runs":
        return runs(sys.argv[5])
    mods = {m: importlib.import_module("pymoo.functions.compiled." + m) for m in set(kernels.MOD.values())}
    if mode == "leak":
        return leak(mods, seed, n)
    rng = np.random.default_rng(seed)
    out = {"calls": 0, "exceptions": {}, "by": {}, "bounds": [], "hash": [], "folder": next(iter(mods.values())).__file__, "shapes": 0}
    shapes = set()
    for name, args, kw in kernels.calls(rng, nan=True):
        fn = getattr(mods[kernels.MOD[name]], name)
        shapes.add((name, tuple(a.shape for a in args if isinstance(a, np.ndarray)), tuple(a.strides for a in args if isinstance(a, np.ndarray)), str(kw.get("n_remove")), kw.get("strategy")))
        # what the call is goes to stderr first, so that a report can be attributed
        if mode != "hash":
            print("CALL", json.dumps({"name": name, "shape": [list(getattr(a, "shape", [])) for a in args], "kw": {k: str(v)[:80] for k, v in kw.items()}, "nr": out["calls"]}), file=sys.stderr, flush=True)
        try:
            r = kernels.invoke(fn, name, args, kw)
            out["hash"].append(hashlib.sha256(repr([np.asarray(x, float).tolist() for x in (r if isinstance(r, (tuple, list)) else [r])]).encode()).hexdigest()[:12])
        except IndexError as e:
            out["bounds"].append({"name": name, "error": str(e), "shape": [list(getattr(a, "shape", [])) for a in args], "kw": {k: str(v)[:80] for k, v in kw.items()}, "nr": out["calls"]})
            out["hash"].append("IndexError")
        except Exception as e:
            k = f"{name}:{type(e).__name__}"
            out["exceptions"][k] = out["exceptions"].get(k, 0) + 1
            out["hash"].append(type(e).__name__)
        out["by"][name] = out["by"].get(name, 0) + 1
        out["calls"] += 1
        if out["calls"] >= n:
            break
    out["shapes"] = len(shapes)
    print("RESULT " + json.dumps(out), flush=True)


if __name__ == "__main__":
    main()
