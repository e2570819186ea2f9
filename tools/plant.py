"""Plants bugs: reads definition files (python, calling bug(...)) and writes seeded/<id>/; `plant.py make FILE`, `plant.py try ID...`.

try: applies the patch in a scratch copy of /repo, runs the demonstration with and without it and the property's quick check with it."""
import json, os, pathlib, re, shutil, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
S = pathlib.Path(os.environ.get("SEEDREPO", "/tmp/seedrepo"))
R = os.environ.get("SEEDSRC", "/repo")
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def refresh():
    if not S.exists():
        sh(f"cp -a {R} {S}")
    sh(f"git fetch -q {R} HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- . && git clean -fdq", cwd=S)
    sh(f"cp {R}/pymoo/functions/compiled/*.so pymoo/functions/compiled/; cp {R}/pymoo/functions/compiled/*.cpp pymoo/functions/compiled/", cwd=S)


def bug(id, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new)"""
    refresh()
    for f, old, new in edits:
        p = S / f
        t = p.read_text()
        assert t.count(old) == 1, f"{id}: {t.count(old)} occurrences in {f} of {old!r}"
        p.write_text(t.replace(old, new))
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    diff = subprocess.run("git diff", shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout
    assert diff, id
    (d / "patch.diff").write_text(diff)
    # every removed line has to be a line of the original repository
    base = subprocess.run("git rev-list --max-parents=0 HEAD", shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout.split()[0]
    cur, ok = None, 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            cur = l[6:]
            orig = subprocess.run(["git", "show", f"{base}:{cur}"], cwd=S, stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif l.startswith("-"):
            if l[1:] not in orig:
                print(f"{id}: line not in the original repository: {l}")
            else:
                ok += 1
    if not ok:
        print(f"{id}: NO ORIGINAL LINE CHANGED")
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nPYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    sh("git checkout -q -- .", cwd=S)


def attempt(id, seeds=("1",), tier="quick"):
    refresh()
    d = V / "seeded" / id
    meta = json.loads((d / "meta.json").read_text())
    a = sh(f"bash {d}/demo.sh", cwd=S)
    sh(f"git apply {d}/patch.diff", cwd=S)
    if ".pyx" in (d / "patch.diff").read_text() or ".pxd" in (d / "patch.diff").read_text():
        r = sh(f"{PY} setup.py build_ext --inplace", cwd=S)
        if r.returncode:
            print(r.stdout[-2000:])
    b = sh(f"bash {d}/demo.sh", cwd=S)
    out = []
    for s in seeds:
        t = time.time()
        r = sh(f"./run {meta['property']} --tier {tier}", cwd=V, env=dict(os.environ, VERIF_REPO=str(S), VERIF_SEED=s))
        out.append((r.returncode, f"VIOLATION property={meta['property']}" in r.stdout, round(time.time() - t), r.stdout))
    sh("git checkout -q -- .", cwd=S)
    ok = a.returncode == 0 and b.returncode != 0
    print(f"{id:32s} {meta['property']} demo {'ok' if ok else 'BAD %s %s' % (a.returncode, b.returncode)}  " + "  ".join("caught" if o[0] == 1 and o[1] else f"MISSED({o[0]})" for o in out) + f"  {out[0][2] if out else 0}s", flush=True)
    if not ok:
        print(a.stdout[-1500:], "\n---\n", b.stdout[-1500:])
    for o in out:
        if o[0] == 1:
            print("      " + "\n      ".join([l[:220] for l in o[3].splitlines() if not l.startswith(("VIOL", "KNOWN"))][:2]))
        elif o[0] not in (0, 1):
            print(o[3][-1500:])
    note(id, demo="ok" if ok else "bad", caught=[("caught" if o[0] == 1 and o[1] else f"missed({o[0]})") for o in out][0], seconds=out[0][2])
    return ok, out


def note(id, **kw):
    """Remembers what was observed in tools/seeded.json (used by gen_design.py)."""
    import fcntl
    f = V / "tools" / "seeded.json"
    lock = open("/tmp/seeded.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    d = json.loads(f.read_text()) if f.exists() else {}
    d.setdefault(id, {}).update(kw)
    d = {k: d[k] for k in sorted(d) if (V / "seeded" / k).exists()}
    f.write_text(json.dumps(d, indent=0) + "\n")


def stable(id, unit=False):
    """The repository's own stable tests with the planted bug (a copy of test.sh for the scratch repository)."""
    refresh()
    sh(f"git apply {V}/seeded/{id}/patch.diff", cwd=S)
    t = pathlib.Path("/opt/vp/test.sh").read_text()
    t = t.replace("cd /repo ", f"cd {S} ").replace("PYTHONPATH=/opt/vp/plugins", f"PYTHONPATH={S}:/opt/vp/plugins").replace("/opt/vp/reports", f"{S}-reports")
    t = re.sub(r"if ! bash /opt/vp/build.sh.*?\nfi\n", f"/opt/venv/bin/python setup.py build_ext --inplace > /dev/null 2>&1\n", t, flags=re.S)
    if unit:
        t = re.sub(r"^DISPLAY=.*?^MPLBACKEND=Agg run unit", "EXAMPLES= DOCS=\nMPLBACKEND=Agg run unit", t, flags=re.S | re.M).replace("-n 3", "-n 2")
    pathlib.Path(f"{S}-test.sh").write_text(t)
    sh(f"bash {S}-test.sh {S}-out.json", cwd=S)
    res = json.loads(pathlib.Path(f"{S}-out.json").read_text())
    base = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"]
    passed = set(res["passed"])
    miss = [b for b in base if b not in passed and not (unit and b.startswith(("tests.test_docs", "tests.test_examples")))]
    print(f"{id:32s} stable tests {'ok' if not miss else 'FAIL ' + str(miss[:6])}", flush=True)
    note(id, stable=("ok (unit tests)" if unit else "ok") if not miss else miss[:6])
    sh("git checkout -q -- . && git clean -fdq", cwd=S)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    elif sys.argv[1] in ("stable", "unit"):
        for i in sys.argv[2:]:
            stable(i, sys.argv[1] == "unit")
    else:
        ids = sys.argv[2:] or sorted(p.name for p in (V / "seeded").iterdir())
        for i in ids:
            attempt(i)
