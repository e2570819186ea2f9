"""C22: the compiled kernels never leave their buffers, whatever they are called with."""
import json, os, pathlib, re, subprocess, sys
import numpy as np
from vlib import ext

RULE = ("streams of calls of all eleven compiled functions (18 families of matrices, NaN where an order is not needed, no rows, one row, six memory layouts, all numbers to remove) run in processes whose kernels are rebuilt from the "
        "current sources with AddressSanitizer and UndefinedBehaviorSanitizer, with bounds-checked memory views and checked containers, under valgrind (uninitialised values), and with freed memory filled with different patterns (results must not "
        "depend on it); algorithms run on top of the instrumented kernels; the memory still allocated after thousands of calls is measured; distinct states are different (function, shape, layout, options)")
REQUIRED = ["asan_calls", "bounds_calls", "valgrind_calls", "perturb_calls", "leak_calls", "runs_asan", "runs_bounds"]
ASSUMPTIONS = ["gcc 13 sanitizers and glibc containers", "memory used by Python and numpy themselves is not instrumented"]
TIMEOUT = {"quick": 300, "thorough": 1800}

SAN = ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer")
ALGOS = ["NSGA2", "NSGA2-pcd", "NSGA2-mnn", "NSGA2-2nn", "NSGA3", "UNSGA3", "CTAEA", "ISRES", "SRES", "AGEMOEA", "MOEAD", "SMSEMOA", "SPEA2", "GDE3", "NSDER", "RVEA", "GDE32NN", "NSDE", "GDE3MNN", "GDE3PCD", "RNSGA3", "BRKGA", "OmniOptimizer"]
N = {"quick": dict(asan=(6, 2500), bounds=(6, 4000), valgrind=(1, 500), perturb=(2, 3000), leak=(1, 1500)),
     "thorough": dict(asan=(24, 25000), bounds=(24, 40000), valgrind=(6, 4000), perturb=(8, 30000), leak=(4, 6000))}


def checked(name, txt):
    """Turns the checks of memory views on, wherever the source turns them off."""
    return re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", re.sub(r"@cython\.boundscheck\(\s*False\s*\)", "@cython.boundscheck(True)", txt))


def build(kind):
    if kind == "asan":
        return str(ext.build("asan", cflags=("-O1", "-g") + SAN, lflags=SAN[:1]))
    if kind == "bounds":
        return str(ext.build("bounds", cflags=("-O1", "-g", "-D_GLIBCXX_DEBUG"), directives={"boundscheck": True, "initializedcheck": True}, transform=checked))
    return os.environ.get("VERIF_EXT_DIR") or ("-" if ext.in_tree_is_current() else str(ext.build("plain")))


def cases(tier, seed):
    rng = np.random.default_rng([seed, 122])
    from vlib import runs, zoo
    folder = {k: build(k) for k in ("asan", "bounds", "plain")}
    out = []
    for kind, (k, n) in N[tier].items():
        for _ in range(k):
            out.append(dict(kind=kind, n=n, seed=int(rng.integers(1, 10 ** 9))))
    spec = []
    have = [a for a in ALGOS if a in zoo.names()]
    for name in have * (1 if tier == "quick" else 4):
        s = runs.specs_for(name)
        if s:
            spec.append(dict(algo=name, spec=s[int(rng.integers(len(s)))], seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=5 if tier == "quick" else 12, cap=20000))
    for kind in ("asan", "bounds"):
        for p in np.array_split(np.arange(len(spec)), 2):
            out.append(dict(kind="runs", build=kind, spec=[spec[i] for i in p]))
    order = {"valgrind": 0, "runs": 1, "asan": 2, "leak": 3}
    return sorted(out, key=lambda c: order.get(c["kind"], 9))


def lib(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True).stdout.strip()


def child(folder, case, mode, extra=None, prefix=(), env=None, arg=None):
    e = dict(os.environ, **(env or {}))
    cmd = list(prefix) + [sys.executable, "-W", "ignore", "-m", "vlib.kernel_child", folder, str(case.get("seed", 1)), str(case.get("n", 1)), mode] + ([arg] if arg else [])
    p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=str(ext.VERIF), errors="replace")
    last = [l for l in p.stderr.splitlines() if l.startswith("CALL ")]
    last = json.loads(last[-1][5:]) if last else {}
    err = "\n".join(l for l in p.stderr.splitlines() if not l.startswith("CALL "))
    res = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
    return p.returncode, (json.loads(res[-1][7:]) if res else None), last, err


def observed(mon, kind, r):
    mon.ev(kind + "_calls", r["calls"])
    for k, v in r["by"].items():
        mon.ev(f"{kind}:{k}", v)
    mon.ev("oracle_checks", r["calls"])


def san_env():
    return {"LD_PRELOAD": " ".join(lib(l) for l in ("libasan.so", "libubsan.so", "libstdc++.so")), "PYTHONMALLOC": "malloc",
            "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:exitcode=77:detect_stack_use_after_return=1:strict_init_order=1:max_allocation_size_mb=8000", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}


def first(err):
    m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]{0,120}|Error: [^\n]{0,120}|Assertion [^\n]{0,120}|Conditional jump[^\n]*|Use of uninitialised[^\n]*|Invalid (?:read|write)[^\n]*)", err)
    return m.group(1) if m else err[-200:]


def crashed(mon, kind, rc, r, last, err):
    """True if the process reported something or died."""
    if rc == 0 and r is not None:
        return False
    if "MemoryError" in err or rc == -9:
        mon.inconclusive.append(f"{kind}: the process ran out of memory")
        return True
    ours = rc in (77, 9) or rc < 0
    if not ours:
        raise RuntimeError(f"the instrumented process ended with {rc}: {err[-1500:]}")
    what = last.get("name") or last.get("algo")
    mon.viol(f"{kind}:{what}:{re.sub('[^A-Za-z]+', '-', first(err))[:60]}", f"{kind} build: {first(err)} in {what} called with {json.dumps(last)[:300]}", report=err[:3000])
    return True


def run_asan(case, mon):
    rc, r, last, err = child(build("asan"), case, "asan", env=san_env())
    if not crashed(mon, "asan", rc, r, last, err):
        observed(mon, "asan", r)
        mon.note(asan=r["by"])
        states(mon, case, r)


def states(mon, case, r):
    for i in range(r["shapes"]):
        mon.state(case.get("seed"), i)


def bounds_errors(mon, r):
    for b in r["bounds"]:
        mon.viol(f"bounds:{b['name']}", f"{b['name']} called with {b['shape']} {b['kw']}: {b['error']}")


def run_bounds(case, mon):
    rc, r, last, err = child(build("bounds"), case, "bounds")
    if not crashed(mon, "bounds", rc, r, last, err):
        observed(mon, "bounds", r)
        bounds_errors(mon, r)
        states(mon, case, r)


def run_valgrind(case, mon):
    rc, r, last, err = child(build("plain"), case, "valgrind", prefix=["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--num-callers=8"], env={"PYTHONMALLOC": "malloc"})
    if rc == 9 and ".so" in err and not any(m in err for m in KERNELS(err)):
        mon.inconclusive.append("valgrind reports an error outside of the kernels: " + first(err))
        return
    if not crashed(mon, "valgrind", rc, r, last, err):
        observed(mon, "valgrind", r)
        states(mon, case, r)


def KERNELS(err):
    return ["pymoo/functions/compiled", "__pyx_", ".cache/ext-"]


def run_perturb(case, mon):
    got = []
    for fill in (None, "85", "170"):
        rc, r, last, err = child(build("plain"), case, "hash", env={"MALLOC_PERTURB_": fill} if fill else {})
        if rc != 0 or r is None:
            return crashed(mon, "perturb", rc, r, {"name": "stream"}, err)
        got.append(r["hash"])
        observed(mon, "perturb", r)
    for i, t in enumerate(zip(*got)):
        if len(set(t)) > 1:
            mon.viol("perturb", f"call {i} of the stream with seed {case['seed']} depends on the contents of freed memory")
            break
    states(mon, case, r)


def run_leak(case, mon):
    rc, r, last, err = child(build("plain"), case, "leak")
    if rc != 0 or r is None:
        return crashed(mon, "leak", rc, r, {"name": "leak"}, err)
    observed(mon, "leak", r)
    for k, v in r["growth"].items():
        mon.check(v < 16 * case["n"], f"leak:{k}", lambda: f"{v} bytes more are allocated after {case['n']} further calls of {k}")
    mon.note(growth=r["growth"])


def run_runs(case, mon):
    k = case["build"]
    rc, r, last, err = child(build(k), {}, "runs", env=san_env() if k == "asan" else {}, arg=json.dumps(case["spec"]))
    if not crashed(mon, f"runs-{k}", rc, r, last, err):
        mon.ev(f"runs_{k}", r["runs"])
        for f, v in r["by"].items():
            mon.ev(f"loaded:{f}", v)
        for algo, tb in r["errors"]:
            mon.viol(f"runs:{algo}", f"{algo} on bounds-checked kernels: {tb[-300:]}")
        mon.state(k, json.dumps(case["spec"])[:4000])


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
