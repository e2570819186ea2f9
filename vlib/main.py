"""Runs one check: cases in forked workers, verdict, evidence, replay files, known findings.

exit 0  held on everything explored (listed findings may have been reproduced)
exit 1  VIOLATION property=<id> replay=<path>
exit 3  inconclusive / error of the check
"""
import argparse, collections, fnmatch, hashlib, importlib, json, multiprocessing as mp, os, pathlib, queue, re, signal, sys, time, traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent


def load_known(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text())["findings"] if e["property"] == pid and e.get("status", "open") == "open"]


def stable_hash(obj):
    return int(hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12], 16)


def case_key(case):
    for k in ("kind", "algo", "name"):
        pass
    return ":".join(str(case[k]) for k in ("kind", "algo", "prob", "name") if case.get(k) is not None)


COVERED = None


def cover():
    """With VERIF_COVER=<directory>: note the lines of the package that are executed (each only once)."""
    global COVERED
    if COVERED is None:
        COVERED = set()
        root, m = str(pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))) + "/pymoo/", sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, "verif")

        def line(code, no):
            if code.co_filename.startswith(root):
                COVERED.add((code.co_filename[len(root):], no))
            return m.DISABLE
        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)
    return COVERED


def run_case(mod, case):
    """Runs one case and returns a plain dictionary."""
    if not os.environ.get("VERIF_COVER"):
        return run_case_(mod, case)
    done = len(cover())
    r = run_case_(mod, case)
    if len(COVERED) > done:
        (pathlib.Path(os.environ["VERIF_COVER"]) / f"{os.getpid()}.json").write_text(json.dumps(sorted(COVERED)))
    return r


def run_case_(mod, case):
    """Runs one case and returns a plain dictionary."""
    import numpy as np
    import warnings
    from vlib.mon import Mon, Stop
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    mon = Mon(case)
    np.random.seed((stable_hash(case) + 17) % (2 ** 32))
    t0 = time.time()
    harness_error = None
    try:
        mod.run(case, mon)
    except Stop as e:
        pass
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        root = str(pathlib.Path(os.environ.get("VERIF_REPO", "/repo")))
        frames = [f for f in tb if f.filename.startswith(root + "/pymoo")]
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        own = bool(tb) and tb[-1].filename.startswith(str(VERIF / "checks"))      # raised by a monitor that was called back
        if frames and not own and getattr(mod, "EXCEPTIONS_ARE_VIOLATIONS", True):
            f = frames[-1]
            rel = f.filename[len(root) + 1:]
            mon.viol(f"exception:{type(e).__name__}:{case_key(case)}",
                     f"the operation failed on valid input with {type(e).__name__}: {e} at {rel}:{f.lineno} ({f.name})", traceback=txt)
        else:
            harness_error = txt
    return {"case": case, "violations": mon.violations, "counts": dict(mon.counts), "states": list(mon.states)[:20000],
            "sample": mon.sample, "inconclusive": mon.inconclusive, "error": harness_error, "wall": time.time() - t0}


def _worker(modname, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = sys.modules[modname]
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_SHOW"):
        os.dup2(devnull, 1)
    while True:
        try:
            item = inq.recv()
        except EOFError:
            return
        if item is None:
            return
        i, case = item
        outq.send((i, run_case(mod, case)))


class Pool:
    """Forked workers, one case at a time each; a dead worker is reported with its signal."""

    def __init__(self, modname, n):
        self.ctx = mp.get_context("fork")
        self.modname, self.n = modname, n
        self.w = []

    def _spawn(self):
        a, b = self.ctx.Pipe()
        c, d = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(self.modname, b, c))
        p.start()
        b.close(); c.close()
        return {"p": p, "in": a, "out": d, "job": None, "t": None}

    def run(self, cases, timeout, soft_budget):
        from multiprocessing.connection import wait
        t0 = time.time()
        todo = collections.deque(enumerate(cases))
        results, skipped = {}, 0
        workers = [self._spawn() for _ in range(min(self.n, len(cases)))]
        try:
            while True:
                for k, w in enumerate(workers):
                    if w is not None and w["job"] is None and todo:
                        if time.time() - t0 > soft_budget:
                            skipped += len(todo); todo.clear(); break
                        i, c = todo.popleft()
                        w["in"].send((i, c)); w["job"], w["t"] = (i, c), time.time()
                busy = [w for w in workers if w and w["job"] is not None]
                if not busy:
                    break
                ready = wait([w["out"] for w in busy], timeout=1.0)
                for k, w in enumerate(workers):
                    if w is None or w["job"] is None:
                        continue
                    if w["out"] in ready:
                        try:
                            i, r = w["out"].recv()
                            results[i] = r; w["job"] = None
                            continue
                        except EOFError:
                            w["p"].join()
                            i, c = w["job"]
                            results[i] = self._dead(c, f"worker died with exit code {w['p'].exitcode}", w["p"].exitcode)
                            workers[k] = self._spawn()
                    elif time.time() - w["t"] > timeout:
                        w["p"].kill(); w["p"].join()
                        i, c = w["job"]
                        results[i] = dict(self._dead(c, "", 0), violations=[], inconclusive=[f"watchdog: case still running after {timeout} s"])
                        workers[k] = self._spawn()
        finally:
            for w in workers:
                if w is None:
                    continue
                try:
                    w["in"].send(None)
                except Exception:
                    pass
            for w in workers:
                if w is None:
                    continue
                w["p"].join(2)
                if w["p"].is_alive():
                    w["p"].kill(); w["p"].join()
        return results, skipped

    @staticmethod
    def _dead(c, msg, code):
        v = []
        if code is not None and code < 0 and -code in (4, 6, 7, 8, 11):
            v = [{"key": f"crash:signal{-code}:{case_key(c)}", "msg": msg, "data": {}}]
        inc = [] if v else [msg]
        return {"case": c, "violations": v, "counts": {}, "states": [], "sample": {}, "inconclusive": inc, "error": None, "wall": 0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only cases whose JSON contains this text")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    from vlib import ext
    try:
        build = ext.install()
        modname = "checks." + a.pid.lower()
        mod = importlib.import_module(modname)
        import pymoo
        root = os.environ.get("VERIF_REPO", "/repo")
        assert pymoo.__file__.startswith(root + "/"), f"wrong pymoo: {pymoo.__file__}"
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={a.pid} the check could not start")
        return 3

    if a.replay:
        r = json.loads(pathlib.Path(a.replay).read_text())
        cases = [r["case"]]
    else:
        try:
            cases = list(mod.cases(tier, a.seed))
        except Exception as e:
            traceback.print_exc()
            print(f"ERROR property={a.pid} no cases")
            return 3
        if a.only:
            pat = a.only.split("&&")
            cases = [c for c in cases if all(p in json.dumps(c) for p in pat)]
        if a.limit:
            cases = cases[:a.limit]
    timeout = getattr(mod, "TIMEOUT", {}).get(tier, 240 if tier == "quick" else 900)
    soft = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3600)
    jobs = getattr(mod, "JOBS", a.jobs)
    if jobs == 0:
        results, skipped = {i: run_case(mod, c) for i, c in enumerate(cases)}, 0
    else:
        results, skipped = Pool(modname, min(a.jobs, jobs)).run(cases, timeout, soft)

    known = load_known(a.pid)
    counts, states, kinds = collections.Counter(), set(), collections.Counter()
    viol, findings, inconclusive, errors, samples = [], collections.OrderedDict(), [], [], []
    for i in sorted(results):
        r = results[i]
        counts.update(r["counts"])
        states.update(r["states"])
        kinds[str(r["case"].get("kind", "case"))] += 1
        inconclusive += [(r["case"], m) for m in r["inconclusive"]]
        if r["error"]:
            errors.append((r["case"], r["error"]))
        for v in r["violations"]:
            e = next((e for e in known if fnmatch.fnmatchcase(v["key"], e["key"])), None)
            if e is not None:
                findings.setdefault(e["key"], (e, v, 0))
                findings[e["key"]] = (e, v, findings[e["key"]][2] + 1)
            else:
                viol.append((r["case"], v))
        if r["sample"] and len(samples) < 6 and all(s.get("kind") != r["case"].get("kind") for s in samples):
            samples.append({"kind": r["case"].get("kind"), "case": r["case"], "observed": r["sample"]})
    if not samples:
        samples = [{"case": results[i]["case"], "counts": results[i]["counts"]} for i in sorted(results)[:3]]

    wall = time.time() - t0
    if not a.replay and not a.only and not a.limit:
        ev = {"property": a.pid, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
              "coverage": {"evaluations": len(results), "distinct_nontrivial": len(states), "rule": mod.RULE, "samples": samples,
                           "cases_by_kind": dict(kinds), "observed": dict(sorted(counts.items())),
                           "cases_skipped_by_budget": skipped, "kernel_build": str(build),
                           "known_findings_reproduced": {k: n for k, (e, v, n) in findings.items()},
                           "inconclusive": len(inconclusive)},
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(viol)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{a.pid}.json").write_text(json.dumps(ev, indent=1, default=str))

    for k, (e, v, n) in findings.items():
        print(f"KNOWN-FINDING: property={a.pid} {e['title']} ({n} occurrences, e.g. {v['msg'][:200]})")

    if viol:
        (VERIF / "replays").mkdir(exist_ok=True)
        seen = collections.Counter()
        for c, v in viol:
            seen[v["key"]] += 1
            if seen[v["key"]] > 1 or len(seen) > 15 or (a.v and len(seen) > 2):
                continue
            h = "%012x" % stable_hash([c, v["key"]])
            f = VERIF / "replays" / f"{a.pid}-{h}.json"
            f.write_text(json.dumps({"property": a.pid, "seed": a.seed, "tier": tier, "case": c, "violation": v}, indent=1, default=str))
            print(f"VIOLATION property={a.pid} replay={f}")
            print(f"   {v['key']}: {v['msg'][:600]}")
            if a.v:
                print(json.dumps(c), json.dumps({k: x for k, x in v["data"].items() if k != "traceback"})[:1500])
        if a.v:
            for k, n in seen.items():
                m = next(v["msg"] for c, v in viol if v["key"] == k)
                print(f"  #{n:4d} {k}  {m[:260]}")
        print(f"{len(viol)} violations, {len(seen)} distinct keys, {len(results)} cases, {wall:.1f} s")
        return 1
    if errors:
        for c, e in errors[:3]:
            print("HARNESS ERROR in case", json.dumps(c, default=str)[:500]); print(e)
        print(f"ERROR property={a.pid} {len(errors)} cases ended in an error of the harness")
        return 3
    if inconclusive:
        for c, m in inconclusive[:5]:
            print("INCONCLUSIVE", m, json.dumps(c, default=str)[:500])
        return 3
    need = getattr(mod, "REQUIRED", [])
    missing = [k for k in need if counts.get(k, 0) == 0]
    if not a.replay and not a.only and not a.limit and (missing or not results):
        print(f"INCONCLUSIVE property={a.pid} monitors never reached: {missing}")
        return 3
    print(f"OK property={a.pid} tier={tier} seed={a.seed} cases={len(results)} distinct={len(states)} "
          f"checks={counts.get('oracle_checks', 0)} skipped={skipped} wall={wall:.1f}s")
    slow = sorted(results.values(), key=lambda r: -r["wall"])[:3]
    if a.v:
        print(dict(counts))
        for s in slow:
            print("slow", round(s["wall"], 1), json.dumps(s["case"])[:200])
    return 0


if __name__ == "__main__":
    sys.exit(main())
