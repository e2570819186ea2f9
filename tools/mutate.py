"""Random small changes to pymoo, to find out which ones no check notices.

mutate.py run N SEED [FILE-SUBSTRING...]   N mutants (one per function at most), each in a scratch copy, against the quick checks of the properties anchored on the file
Results are appended to /tmp/mut/log.jsonl; survivors have caught == null."""
import ast, concurrent.futures as cf, glob, json, os, pathlib, random, shutil, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path(os.environ.get("MUT_SRC", "/repo"))
OUT = pathlib.Path("/tmp/mut")
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.Pow: ["*"], ast.Mod: ["//"], ast.FloorDiv: ["/"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any", "minimum": "maximum", "maximum": "minimum", "floor": "ceil", "ceil": "floor", "logical_and": "logical_or",
         "logical_or": "logical_and", "sum": "mean", "mean": "sum", "zeros": "ones", "ones": "zeros", "vstack": "vstack", "argsort": "argsort"}


def seg(lines, n):
    return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)


def candidates(text):
    tree = ast.parse(text)
    out = []
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def func_of(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef,)):
                return n
        return None

    def skip(n):
        m = n
        while m in parents:
            if isinstance(m, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)) or isinstance(m, ast.arg):
                return True
            if isinstance(m, ast.Call) and getattr(m.func, "id", "") in ("print",):
                return True
            m = parents[m]
        return False

    def src(n):
        return ast.get_source_segment(text, n)
    for n in ast.walk(tree):
        f = func_of(n)
        if f is None or skip(n):
            continue
        fn = f.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                out.append((fn, n, f"{src(n.left)} {op} {src(n.comparators[0])}"))
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                out.append((fn, n, f"{src(n.left)} {op} {src(n.right)}"))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((fn, n, op.join("(" + src(v) + ")" for v in n.values)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            if not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)):
                out.append((fn, n, "(" + src(n.operand) + ")"))
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n), (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
            v = n.value
            if isinstance(v, bool):
                out.append((fn, n, str(not v)))
            elif isinstance(v, int):
                out.append((fn, n, str(v + 1)))
                if v:
                    out.append((fn, n, str(v - 1)))
            elif isinstance(v, float):
                out.append((fn, n, repr(v * 2 if v else 1.0)))
        elif isinstance(n, (ast.Name, ast.Attribute)):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if nm in NAMES and NAMES[nm] != nm and isinstance(parents.get(n), ast.Call) and parents[n].func is n:
                out.append((fn, n, src(n)[:-len(nm)] + NAMES[nm]))
        elif isinstance(n, ast.If):
            out.append((fn, n.test, "True"))
            out.append((fn, n.test, "False"))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
                out.append((fn, n, "pass"))
    return out


def apply(text, n, new):
    lines = text.splitlines(keepends=True)
    b = [l.encode() for l in lines]
    pre = b"".join(b[:n.lineno - 1]) + b[n.lineno - 1][:n.col_offset]
    post = b[n.end_lineno - 1][n.end_col_offset:] + b"".join(b[n.end_lineno:])
    par = b"(" + new.encode() + b")" if isinstance(n, (ast.BinOp, ast.BoolOp, ast.Compare)) else new.encode()
    return (pre + par + post).decode()


def anchors():
    A = {}
    for l in (V / "properties.jsonl").read_text().splitlines():
        d = json.loads(l)
        for p in d["anchors"]["files"] + [w for m in d["anchors"]["mechanism"] for w in m["where"].split(":")[0].split(", ")]:
            for f in glob.glob(str(SRC / p), recursive=True):
                if f.endswith(".py"):
                    A.setdefault(os.path.relpath(f, SRC), set()).add(d["id"])
    return A


EXTRA = {"pymoo/algorithms/": ["C01", "C03", "C04", "C05", "C07", "C09", "C13", "C02", "C40", "C10", "C36"]}
SKIP_FILES = ("visualization/video", "visualization/app", "vendor", "docs", "config.py", "matlab", "__init__")


def checks_for(f, A):
    c = sorted(A.get(f, []))
    if not c or f.startswith("pymoo/algorithms/"):
        for k, v in EXTRA.items():
            if f.startswith(k):
                c += [x for x in v if x not in c]
    return c


COST = {}


def one(job):
    k, f, fn, line, old, new, text, checks = job
    R = OUT / f"w{k % WORKERS}"
    (R / f).write_text(text)
    res = dict(file=f, func=fn, line=line, old=old, new=new, checks=checks, caught=None, err=[])
    t = time.time()
    try:
        p = subprocess.run([PY, "-c", "import pymoo.algorithms.moo.nsga2, importlib; importlib.import_module(%r)" % f[:-3].replace("/", ".")], cwd=R, env=dict(os.environ, PYTHONPATH=str(R)), capture_output=True, text=True, timeout=60)
        if p.returncode:
            res["caught"] = "import"
            return res
        for c in checks:
            e = dict(os.environ, VERIF_REPO=str(R), VERIF_JOBS="2")
            try:
                p = subprocess.run(["nice", "timeout", "300", "./run", c, "--jobs", "2", "--fast"] if False else ["nice", "timeout", "300", "./run", c, "--jobs", "2"], cwd=OUT / f"v{k % WORKERS}", env=e, capture_output=True, text=True)
            except Exception as ex:
                res["err"].append(repr(ex))
                continue
            if p.returncode == 1:
                res["caught"] = c
                res["what"] = next((l.strip() for l in p.stdout.splitlines() if l.startswith("   ")), "")[:200]
                break
            if p.returncode not in (0, 1):
                res["err"].append(f"{c}:{p.returncode}")
        return res
    finally:
        (R / f).write_text((SRC / f).read_text())
        res["seconds"] = round(time.time() - t)
        with open(OUT / "log.jsonl", "a") as fo:
            fo.write(json.dumps(res) + "\n")
        print(res["caught"] or "SURVIVED", f"{f}:{line} {fn}: {old[:60]!r} -> {new[:60]!r}", res["err"], res["seconds"], flush=True)


def worker(w, jobs):
    for j in jobs:
        one((w,) + j[1:])


if __name__ == "__main__":
    n, seed = int(sys.argv[2]), int(sys.argv[3])
    subs = sys.argv[4:]
    WORKERS = int(os.environ.get("MUT_WORKERS", "4"))
    random.seed(seed)
    OUT.mkdir(exist_ok=True)
    A = anchors()
    files = [os.path.relpath(f, SRC) for f in glob.glob(str(SRC / "pymoo/**/*.py"), recursive=True)]
    files = [f for f in files if not any(s in f for s in SKIP_FILES) and (not subs or any(s in f for s in subs))]
    pool = []
    for f in files:
        text = (SRC / f).read_text()
        ch = checks_for(f, A)
        if not ch:
            continue
        by = {}
        for c in candidates(text):
            by.setdefault(c[0], []).append(c)
        for fn, L in by.items():
            pool.append((f, fn, text, ch, L))
    random.shuffle(pool)
    jobs = []
    while len(jobs) < n and pool:
        for f, fn, text, ch, L in pool:
            if len(jobs) >= n:
                break
            c = random.choice(L)
            try:
                m = apply(text, c[1], c[2])
                ast.parse(m)
            except SyntaxError:
                continue
            jobs.append((len(jobs), f, fn, c[1].lineno, ast.get_source_segment(text, c[1]), c[2], m, ch))
    for w in range(WORKERS):
        for nm, s in (("w", SRC), ("v", V)):
            d = OUT / f"{nm}{w}"
            if d.exists():
                shutil.rmtree(d)
            if nm == "w":
                subprocess.run(["cp", "-a", str(s), str(d)], check=True)
            else:
                d.mkdir()
                for x in ("checks", "vlib", "run", "known_findings.json", "properties.jsonl", "cache", "build", ".cache"):
                    if (s / x).exists():
                        subprocess.run(["cp", "-a", str(s / x), str(d)], check=True)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(lambda w: worker(w, jobs[w::WORKERS]), range(WORKERS)))
