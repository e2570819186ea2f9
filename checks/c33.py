"""C33: parallel evaluation returns every result once, in its own row."""
import collections
import copy
import os
import pickle
import shutil
import tempfile
import time
import warnings
import numpy as np
from pymoo.core.problem import ElementwiseProblem

RULE = ("batches of solutions with random evaluation times, repeated rows and failing rows are evaluated through every runner (loop, thread pools, forked and spawned process pools, joblib backends and return modes, dask, executors, ray in the thorough tier) and through schedulers which run the tasks in adversarial orders; "
        "every evaluation is written to a log shared by threads and processes and carries a unique number into its result; the log, the results and the exceptions are compared with the rows asked for; problems with runners are copied and pickled; whole runs are compared with sequential ones; distinct states are different (runner, completion order) pairs")
REQUIRED = ["batches", "rows", "logged", "reordered", "processes", "threads", "exceptions", "recovered", "repeated_rows", "copied", "pickled", "runs_compared", "evaluators", "optional", "looped", "threadpool", "pool", "joblib", "dask", "executor", "permuting", "empty", "single", "kwargs", "dictionary_x"]
ASSUMPTIONS = ["evaluations are deterministic; dask may evaluate identical rows of one batch only once", "a worker process is not killed", "the problem can be pickled if processes are used"]
TIMEOUT = {"quick": 200, "thorough": 900}


class Fail(Exception):
    def __init__(self, row):
        super().__init__(row)
        self.row = row


class Par(ElementwiseProblem):
    """Logs (row id, unique token, worker) of every evaluation in a file opened for appending."""

    def __init__(self, path, n_obj=2, n_ieq=1, n_eq=1, delay=0.0, fail=(), optional=False, vars=None, **kw):
        kw = dict(kw, vars=vars) if vars is not None else dict(kw, n_var=3, xl=-10.0, xu=1e6)
        super().__init__(n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, **kw)
        self.path, self.delay, self.fail, self.optional = path, delay, tuple(fail), optional

    def row(self, x):
        return [float(x[k]) for k in sorted(x)] if isinstance(x, dict) else [float(v) for v in x]

    def _evaluate(self, x, out, *args, **kwargs):
        v = self.row(x)
        if self.delay:
            time.sleep(self.delay * ((int(v[0] * 7919) * 2654435761) % 97) / 97)
        token = int.from_bytes(os.urandom(6), "big")
        import threading
        line = f"{v[0]!r} {token} {os.getpid()} {threading.get_ident()}\n".encode()
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        os.write(fd, line)
        os.close(fd)
        if int(v[0]) in self.fail:
            raise Fail(int(v[0]))
        out.update(truth(self, v, kwargs.get("shift", 0.0)))
        out["token"] = token
        if self.optional and int(v[0]) % 3 == 0:
            out["extra"] = v[0]


def truth(p, v, shift=0.0):
    r = {"F": [v[0] * (j + 1) + v[1] + shift for j in range(p.n_obj)]}
    if p.n_ieq_constr:
        r["G"] = [v[1] - j - v[2] for j in range(p.n_ieq_constr)]
    if p.n_eq_constr:
        r["H"] = [v[2] * (j + 1) for j in range(p.n_eq_constr)]
    return r


class Permuting:
    """A starmap which runs the tasks in an order of its own and possibly hands over the results lazily."""

    def __init__(self, rng, how):
        self.rng, self.how = rng, how

    def __call__(self, f, args):
        args = [tuple(a) for a in args]
        I = np.arange(len(args))[::-1] if self.how == "reverse" else self.rng.permutation(len(args))
        res = [None] * len(args)
        for i in I:
            res[i] = f(*args[i])
        if self.how == "generator":
            return (r for r in res)
        return tuple(res) if self.how == "tuple" else res


class FakeClient:
    """Futures of a client, completed in an order of its own once the first result is asked for."""

    def __init__(self, rng):
        self.rng, self.todo = rng, []

    def submit(self, f, *args, **kw):
        fut = FakeFuture(self, f, args, {k: v for k, v in kw.items() if k not in ("pure", "key", "workers", "retries")})
        self.todo.append(fut)
        return fut

    def complete(self):
        todo, self.todo = self.todo, []
        for i in self.rng.permutation(len(todo)):
            todo[i].go()

    def gather(self, futures, errors="raise", **kw):
        out = []
        for f in futures:
            try:
                out.append(f.result())
            except Exception:
                if errors != "skip":
                    raise
        return out

    def map(self, f, *its, **kw):
        return [self.submit(f, *a) for a in zip(*its)]


class FakeFuture:
    def __init__(self, client, f, args, kw):
        self.client, self.f, self.args, self.kw, self.done = client, f, args, kw, False

    def go(self):
        self.done, self.out, self.err = True, None, None
        try:
            self.out = self.f(*self.args, **self.kw)
        except Exception as e:
            self.err = e

    def result(self, *a, **k):
        if not self.done:
            self.client.complete()
        if self.err is not None:
            raise self.err
        return self.out


RUNNERS = ["looped", "thread1", "thread4", "thread8", "threadcontext", "pool2", "pool4", "spawn", "executor-thread", "executor-process", "joblib1", "joblib-threading", "joblib-loky", "joblib-multiprocessing", "joblib-generator", "joblib-unordered", "joblib-batch",
           "dask-fake", "dask", "permute-random", "permute-reverse", "permute-generator", "permute-tuple", "function"]


class Runner:
    """A runner together with the resources it needs."""

    def __init__(self, name, rng):
        from multiprocessing.pool import ThreadPool
        import multiprocessing as mp
        from pymoo.core.problem import LoopedElementwiseEvaluation
        from pymoo.parallelization import DaskParallelization, JoblibParallelization, StarmapParallelization
        self.name, self.close, self.processes, self.kind = name, lambda: None, False, name.split("-")[0].rstrip("0123456789")
        if name == "looped":
            self.r = LoopedElementwiseEvaluation()
        elif name.startswith("thread"):
            p = ThreadPool(8 if name == "threadcontext" else int(name[6:]))
            self.r, self.close, self.kind = StarmapParallelization(p.starmap), p.terminate, "threadpool"
        elif name.startswith("pool") or name == "spawn":
            p = mp.get_context("spawn" if name == "spawn" else "fork").Pool(2 if name == "spawn" else int(name[4:]))
            self.r, self.close, self.processes, self.kind = StarmapParallelization(p.starmap), p.terminate, True, "pool"
        elif name.startswith("executor"):
            from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
            ex = ThreadPoolExecutor(4) if name.endswith("thread") else ProcessPoolExecutor(3, mp_context=mp.get_context("fork"))
            self.r, self.close, self.processes = StarmapParallelization(Starmap(ex)), ex.shutdown, name.endswith("process")
        elif name.startswith("joblib"):
            kw = {"joblib1": dict(n_jobs=1), "joblib-threading": dict(n_jobs=4, backend="threading"), "joblib-loky": dict(n_jobs=2), "joblib-multiprocessing": dict(n_jobs=3, backend="multiprocessing"),
                  "joblib-generator": dict(n_jobs=3, backend="threading", return_as="generator", pre_dispatch="2*n_jobs"), "joblib-unordered": dict(n_jobs=4, backend="threading", return_as="generator_unordered"),
                  "joblib-batch": dict(n_jobs=3, backend="threading", batch_size=3)}[name]
            self.r, self.processes = JoblibParallelization(**kw), name in ("joblib-loky", "joblib-multiprocessing")
            if name == "joblib-loky":
                from joblib.externals.loky import get_reusable_executor
                self.close = lambda: get_reusable_executor().shutdown(wait=True, kill_workers=True)
        elif name == "dask-fake":
            self.r = DaskParallelization(FakeClient(rng))
        elif name == "dask":
            import dask  # noqa: F401
            import logging
            from dask.distributed import Client
            logging.getLogger("distributed").setLevel(logging.CRITICAL)
            logging.getLogger("distributed.worker").setLevel(logging.CRITICAL)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c = Client(processes=False, n_workers=1, threads_per_worker=4, dashboard_address=None)
            self.r, self.close = DaskParallelization(c), c.close
        elif name.startswith("permute"):
            self.r, self.kind = StarmapParallelization(Permuting(rng, name.split("-")[1])), "permuting"
        elif name == "ray":
            import ray
            ray.init(num_cpus=3, include_dashboard=False, log_to_driver=False, configure_logging=False, object_store_memory=80 * 1024 * 1024)
            from pymoo.parallelization import RayParallelization
            self.r, self.close, self.processes = RayParallelization(), ray.shutdown, True
        else:
            self.r = lambda f, X: [f(x) for x in X]           # any callable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Starmap:
    def __init__(self, ex):
        self.ex = ex

    def __call__(self, f, args):
        futs = [self.ex.submit(f, *a) for a in args]
        return [f.result() for f in futs]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 133])
    q = tier == "quick"
    new = lambda **kw: dict(seed=int(rng.integers(1, 10 ** 9)), **kw)
    out = []
    for rep in range(2 if q else 8):
        for r in RUNNERS:
            if r in ("spawn",) and q and rep:
                continue
            out.append(new(kind="batch", runner=r, n=(3 if r in ("spawn", "joblib-loky", "dask") else 8) if q else 20))
    if not q:
        out += [new(kind="batch", runner="ray", n=6)]
    for r in ("looped", "thread4", "pool2", "joblib-threading", "joblib-multiprocessing", "dask-fake", "permute-random", "executor-thread"):
        out += [new(kind="run", runner=r, algo=str(a)) for a in rng.choice(["GA", "NSGA2", "DE", "PSO", "CMAES", "NSGA3"], size=2 if q else 6, replace=False)]
    out += [new(kind="copy", n=1) for _ in range(1 if q else 4)]
    return out


def run(case, mon):
    d = tempfile.mkdtemp(prefix="c33-")
    try:
        {"batch": run_batch, "run": run_run, "copy": run_copy}[case["kind"]](case, mon, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def new_log(d):
    p = os.path.join(d, f"log{len(os.listdir(d))}")
    open(p, "w").close()
    return p


def read(path):
    out = []
    for line in open(path):
        a = line.split()
        out.append((float(a[0]), int(a[1]), int(a[2]), int(a[3])))
    return out


def root(e):
    """The exception of the evaluation behind what the caller got."""
    seen = []
    while e is not None and e not in seen:
        if isinstance(e, Fail):
            return e
        seen.append(e)
        e = getattr(e, "cause", None) or e.__cause__ or e.__context__
    return None


def run_batch(case, mon, d):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from pymoo.core.variable import Real
    rng = np.random.default_rng(case["seed"])
    name = case["runner"]
    try:
        R = Runner(name, rng)
    except Exception as e:
        if name in ("ray",):                                  # needs services the machine may not offer
            mon.note(not_started=f"{name}: {e!r}")
            return
        raise
    with R:
        mon.ev(R.kind)
        for t in range(case["n"]):
            n = int(rng.choice([1, 2, 3, 7, 16, 40]))
            cfg = dict(n_obj=int(rng.choice([1, 2, 3])), n_ieq=int(rng.choice([0, 1, 2])), n_eq=int(rng.choice([0, 1])))
            mon.ev("single", n == 1)
            path = new_log(d)
            ids = rng.permutation(1000)[:n].astype(float)
            if n > 2 and rng.random() < 0.3:
                ids[-1] = ids[0]
            X = np.column_stack([ids, np.sin(ids) * 5, np.cos(ids) * 3])
            mon.ev("repeated_rows", len(set(ids)) < n)
            delay = float(rng.choice([0.0, 0.003, 0.02])) if n < 40 else 0.0
            fail = tuple(int(i) for i in rng.choice(ids, size=min(n, int(rng.choice([1, 2, n]))), replace=False)) if rng.random() < 0.3 else ()
            opt = bool(rng.random() < 0.3)
            asdict = bool(rng.random() < 0.15)
            kw = dict(vars={c: Real(bounds=(-10.0, 1e6)) for c in "abc"}) if asdict else {}
            if asdict:
                mon.ev("dictionary_x")
                Xin = np.array([dict(a=x[0], b=x[1], c=x[2]) for x in X])
            else:
                Xin = X
            p = Par(path, delay=delay, fail=fail, optional=opt, elementwise_runner=R.r, **cfg, **kw)
            snap = copy.deepcopy(Xin)
            mon.ev("batches")
            mon.ev("rows", n)
            shift = 0.0
            if fail:
                pop = Population.new(X=Xin)
                ev = Evaluator()
                err = None
                try:
                    if rng.random() < 0.5:
                        ev.eval(p, pop)
                    else:
                        p.evaluate(Xin)
                except Exception as e:
                    err = e
                e = root(err)
                mon.ev("exceptions")
                mon.check(err is not None, f"lost:{name}", lambda: f"rows {fail} failed, but no exception arrived")
                mon.check(err is None or (e is not None and int(e.row) in fail) or any(f"{i}" in str(err) for i in fail), f"exception:{name}", lambda: f"rows {fail} failed, but the caller got {err!r}")
                mon.check(all(not i.evaluated for i in pop), f"half:{name}", "solutions are marked as evaluated although the evaluation failed")
                # (tasks of the failed batch might still be running and write to its log)
                path = new_log(d)
                p = Par(path, delay=delay, optional=opt, elementwise_runner=R.r, **cfg, **kw)
                mon.ev("recovered")
            mode = int(rng.integers(3))
            if mode == 0 or asdict:
                pop = Population.new(X=Xin)
                ev = Evaluator()
                ev.eval(p, pop)
                mon.ev("evaluators")
                out = {k: pop.get(k) for k in ("F", "G", "H", "token")}
                if opt:
                    out["extra"] = pop.get("extra")
                mon.check(ev.n_eval == n, f"n_eval:{name}", lambda: f"{ev.n_eval} evaluations counted for {n}")
            elif mode == 1:
                out = p.evaluate(Xin, return_as_dictionary=True)
            else:
                shift = 2.5
                p.requires_kwargs = True
                out = p.evaluate(Xin, return_as_dictionary=True, shift=shift)
                mon.ev("kwargs")
            mon.check(repr(snap) == repr(Xin), f"x-changed:{name}", "the design vectors were changed")
            log = read(path)
            mon.ev("logged", len(log))
            mon.ev("processes", len({l[2] for l in log} - {os.getpid()}))
            mon.ev("threads", len({l[3] for l in log}) > 1)
            order = [l[0] for l in log]
            mon.ev("reordered", order != list(ids))
            mon.state(name, repr(order))
            want = collections.Counter(ids.tolist())
            got = collections.Counter(order)
            if name == "dask":
                ok = set(got) == set(want) and all(1 <= got[k] <= want[k] for k in want)
            else:
                ok = got == want
            mon.check(ok, f"once:{name}", lambda: f"rows asked for {dict(want - got)} too rarely and {dict(got - want)} too often evaluated")
            T = {k: np.array([truth(p, p.row(x), shift)[k] for x in Xin], float).reshape(n, -1) for k in ("F", "G", "H") if (k == "F" or (k == "G" and p.n_ieq_constr) or (k == "H" and p.n_eq_constr))}
            for k in T:
                mon.eq(np.asarray(out[k], float), T[k], f"rows:{name}", f"{k} of {n} rows")
            tok = [int(v) for v in np.ravel(out["token"])]
            by = {l[1]: l[0] for l in log}
            mon.check(len(tok) == n and all(by.get(a) == i for a, i in zip(tok, ids)), f"token:{name}", "a result is not that of an evaluation of its row")
            if name != "dask":
                mon.check(len(set(tok)) == n, f"token:{name}", "the result of one evaluation is used twice")
            if opt and "extra" in out:
                mon.ev("optional")
                ex = list(np.ravel(out["extra"]))
                good = len(ex) == n and all((e is not None and float(e) == i) if int(i) % 3 == 0 else (e is None or np.isnan(float(e))) for e, i in zip(ex, ids))
                mon.check(good, f"optional:{name}", lambda: f"values set for only some of the rows {ids.tolist()}: {ex}")
        # no rows
        p = Par(new_log(d), elementwise_runner=R.r)
        got = list(R.r(abs, [])) if name not in ("ray",) else []
        mon.ev("empty")
        mon.check(got == [], f"empty:{name}", f"result of no tasks: {got}")


def run_run(case, mon, d):
    """A run evaluated in parallel equals the sequential one."""
    from pymoo.optimize import minimize
    from vlib import zoo
    rng = np.random.default_rng(case["seed"])
    name = case["runner"]
    res, logs = [], []
    seed, pop, gens = int(rng.integers(1, 10 ** 6)), int(rng.choice([6, 11, 20])), int(rng.choice([3, 6]))
    delay = float(rng.choice([0.0, 0.001]))
    for par in (False, True):
        with Runner(name if par else "looped", rng) as R:
            path = new_log(d)
            p = Box(path, n_obj=2 if case["algo"].startswith("NSGA") else 1, n_ieq=1, n_eq=0, delay=delay, elementwise_runner=R.r)
            r = minimize(p, zoo.create(case["algo"], p, pop), ("n_gen", gens), seed=seed, save_history=bool(par and case["seed"] % 2 and name not in ("never",)), verbose=False)
            res.append(r)
            logs.append(read(path))
    a, b = res
    mon.ev("runs_compared")
    mon.state(name, case["algo"], repr([l[0] for l in logs[1]])[:500])
    mon.check(collections.Counter(l[0] for l in logs[0]) == collections.Counter(l[0] for l in logs[1]), f"run:evaluations:{name}", lambda: f"{len(logs[0])} evaluations sequentially, {len(logs[1])} in parallel")
    for k in ("X", "F", "G", "CV"):
        mon.eq(getattr(b.pop, "get")(k).astype(float), a.pop.get(k).astype(float), f"run:{k}:{name}", f"{case['algo']}: population in parallel against sequential")
    mon.check(a.algorithm.evaluator.n_eval == b.algorithm.evaluator.n_eval == len(logs[1]), f"run:n_eval:{name}", lambda: f"{a.algorithm.evaluator.n_eval}, {b.algorithm.evaluator.n_eval}, evaluated {len(logs[1])}")
    for r in res:
        T = [truth(r.problem, i.X.tolist()) for i in r.pop]
        mon.eq(r.pop.get("F"), np.array([t["F"] for t in T]), f"run:values:{name}", "objectives of the final population")


class Box(Par):
    def __init__(self, path, **kw):
        super().__init__(path, **kw)
        self.xl, self.xu = np.array([0.0, -2.0, -1.0]), np.array([50.0, 2.0, 1.0])


def run_copy(case, mon, d):
    """Problems with runners are copied and pickled without their pool."""
    import dill
    rng = np.random.default_rng(case["seed"])
    X = np.column_stack([np.arange(5.0), np.ones(5), np.zeros(5)])
    for name in RUNNERS:
        if name in ("spawn", "dask", "joblib-loky", "function"):
            continue
        with Runner(name, rng) as R:
            p = Par(new_log(d), elementwise_runner=R.r)
            want = p.evaluate(X, return_as_dictionary=True)
            for how, f in (("deepcopy", copy.deepcopy), ("copy", copy.copy), ("pickle", lambda z: pickle.loads(pickle.dumps(z))), ("dill", lambda z: dill.loads(dill.dumps(z)))):
                try:
                    c = f(p)
                except Exception as e:
                    mon.check(False, f"copy:{how}:{name}", f"{how} of a problem evaluated by {name} failed: {e!r}")
                    continue
                mon.ev("copied" if "copy" in how else "pickled")
                mon.check((c.n_var, c.n_obj, c.n_ieq_constr) == (p.n_var, p.n_obj, p.n_ieq_constr) and np.array_equal(c.xl, p.xl), f"copy:{how}:{name}", "the copy is not the same problem")
                # what does not need a pool goes on working; all others do after they got one
                if R.kind not in ("looped", "joblib"):
                    c.elementwise_runner = R.r
                got = c.evaluate(X, return_as_dictionary=True)
                for k in ("F", "G", "H"):
                    mon.eq(got[k], want[k], f"copy:{how}:{name}", f"{k} of the copy")
            # the original keeps its pool
            mon.eq(p.evaluate(X, return_as_dictionary=True)["F"], want["F"], f"copy:original:{name}", "the original after copying")
