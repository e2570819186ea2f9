"""C39: the learned preference agrees with the ranking it was fitted to, and steers the search as defined."""
import io
import sys

import numpy as np

RULE = ("value functions are fitted to random points with random rankings (consistent with a hidden linear or curved utility, arbitrary, with ties, two to six points, two to four objectives, all solvers) and every accepted fit is "
        "recomputed by its formula and compared with the ranking; the preference relation is compared with its definition for random values around the reference value, in both directions and any order; "
        "PINSGA2 runs with scripted decision makers (hidden utilities, arbitrary, all-equal and contradicting answers; pairwise, absolute and typed on the keyboard) and each question, refit, reset and ranking of the "
        "population is checked; distinct states are different (setting, points, ranking)")
REQUIRED = ["fits", "accepted", "representable", "ties", "strict_pairs", "tied_pairs", "permuted", "inputs_checked", "pairs", "value_pairs", "single_row", "questions", "silent_iterations", "fitted", "refits", "resets", "ranked_populations",
            "preferred_pairs", "rankings", "absolute", "keyboard", "infeasible_start", "comparators"]
ASSUMPTIONS = ["solvers satisfy equalities up to 1e-4 and inequalities up to 1e-6 relative to the values", "a decision maker's answers are taken as they are, in the order they are asked for"]

SOLVERS = [("linear", "trust-constr"), ("poly", "trust-constr"), ("linear", "SLSQP"), ("poly", "SLSQP"), ("linear", "ES"), ("poly", "ES"), ("linear", "GA")]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 139])
    out = []
    n = 1 if tier == "quick" else 14
    for k in range(70 * n):
        vf, method = SOLVERS[int(rng.choice([0, 0, 1, 2, 2, 3, 3]))]
        out.append(dict(kind="fit", vf=vf, method=method, seed=int(rng.integers(1, 10 ** 9))))
    for k in range(5 * n):
        vf, method = SOLVERS[4 + k % 3]
        out.append(dict(kind="fit", vf=vf, method=method, seed=int(rng.integers(1, 10 ** 9))))
    for k in range(60 * n):
        out.append(dict(kind="dominate", seed=int(rng.integers(1, 10 ** 9))))
    for k in range(40 * n):
        out.append(dict(kind="rank", seed=int(rng.integers(1, 10 ** 9))))
    for k in range(18 * n):
        out.append(dict(kind="run", seed=int(rng.integers(1, 10 ** 9)), dm=["utility", "random", "equal", "liar", "utility", "coarse"][k % 6], vf=["linear", "linear", "poly"][k % 3],
                        how=["pairwise", "pairwise", "absolute", "typed"][int(rng.choice([0, 0, 1, 2, 3]))], method=["trust-constr", "SLSQP"][int(rng.choice([0, 0, 1]))], con=[None, None, None, "none", "ieq", "eq"][k % 6] if k < 12 else None))
    return out


def run(case, mon):
    globals()["do_" + case["kind"]](case, mon)


# ------------------------------------------------------------------ the functions by their formulas

def linear(P, w):
    return np.array([sum(float(p[i]) * float(w[i]) for i in range(len(w))) for p in np.atleast_2d(P)])


def terms(P, x):
    P = np.atleast_2d(P)
    M = P.shape[1]
    k = np.asarray(x[:M * M], float).reshape(M, M)
    S = np.zeros((len(P), M))
    for a, p in enumerate(P):
        for m in range(M):
            # equation (5): the weights of term m are rotated through the objectives
            S[a, m] = sum(p[i] * k[m][(i - m) % M] for i in range(M)) + 2 * x[M * M + m]
    return S


def poly(P, x):
    return np.prod(terms(P, x), axis=1)


def fit(vf, method, P, ranks):
    from pymoo.util import value_functions as mvf
    f = mvf.create_linear_vf if vf == "linear" else mvf.create_poly_vf
    return f(P, ranks, method=method, **({} if method in ("ES", "GA") else dict(max_iter=400)))


def judge_fit(mon, tag, vf, P, ranks, res, delta=0.1, eps_max=1000):
    """The checks on one returned fit; returns whether it was accepted."""
    M = P.shape[1]
    mon.ev("fits")
    if not res.fit:
        return False
    mon.ev("accepted")
    x, ep = np.asarray(res.params, float), float(res.epsilon)
    n_k = M if vf == "linear" else M * M
    mon.check(len(x) == (M if vf == "linear" else M * M + M), f"params:{tag}", f"{len(x)} coefficients for {M} objectives")
    vals = linear(P, x) if vf == "linear" else poly(P, x)
    scale = size = float(np.abs(vals).max()) + 1e-12
    if vf == "poly":
        S = terms(P, x)
        K = np.asarray(x[:M * M], float).reshape(M, M)
        size = float(np.prod([np.abs(P).max() * K[m].sum() + 2 * abs(x[M * M + m]) for m in range(M)]))     # before the terms cancel
        scale = max(scale, size * 1e-3)
        mon.check(S.min() >= -1e-5 * max(1.0, np.abs(S).max()), f"negative-term:{tag}", f"an accepted function has the term {S.min():.4g} at a ranked point")
    atol = 1e-9 * max(scale, size)
    got = np.ravel(res.vf(P))
    mon.eq(got, vals, f"formula:{tag}", "values of the function", rtol=1e-9, atol=atol)
    mon.eq(np.array([float(np.ravel(res.vf(p))[0]) for p in P]), vals, f"formula-single:{tag}", "values of single points", rtol=1e-9, atol=atol)
    mon.check(x[:n_k].min() >= -1e-9 and x[:n_k].max() <= 1 + 1e-6, f"coefficients:{tag}", f"coefficients between {x[:n_k].min()} and {x[:n_k].max()}")
    for m in range(1 if vf == "linear" else M):
        s = float(x[m * M:(m + 1) * M].sum())
        mon.check(abs(s - 1) <= 2e-4, f"sum:{tag}", f"the coefficients of a term sum up to {s}")
    mon.check(-1e-9 <= ep <= eps_max * (1 + 1e-9), f"epsilon:{tag}", f"accepted with epsilon {ep}")
    tol = 2e-5 * max(1.0, scale)
    r = np.asarray(ranks)
    for a in range(len(r)):
        for b in range(len(r)):
            if r[a] < r[b]:
                mon.ev("strict_pairs")
                mon.check(vals[a] - vals[b] >= -tol - delta * ep * (len(r) - 2), f"order:{tag}",
                          lambda: f"point ranked {r[a]} has the value {vals[a]:.8g}, the one ranked {r[b]} {vals[b]:.8g} (epsilon {ep:.6g})")
    groups = [np.where(r == k)[0] for k in sorted(set(r.tolist()))]
    for g, h in zip(groups[:-1], groups[1:]):     # neighbours: the distance that was demanded, between some of them
        d = max(float(vals[a] - vals[b]) for a in g for b in h)
        mon.check(d >= ep - tol, f"distance:{tag}", lambda: f"neighbouring ranks differ by {d:.8g}, the fit claims {ep:.8g}")
    for g in groups:
        if len(g) > 1:
            mon.ev("tied_pairs")
            d = float(np.ptp(vals[g]))
            mon.check(d <= delta * ep * (len(g) - 1) + tol, f"tie:{tag}", lambda: f"points of the same rank differ by {d:.8g}, allowed {delta * ep:.8g} per pair")
    return True


def points(rng, many=False):
    M, n = int(rng.choice([2, 2, 3, 4])), int(rng.choice([2, 3, 4, 5, 6]))
    if many and rng.random() < 0.35:
        n = int(rng.integers(9, 13))
    scale = 10.0 ** rng.integers(-1, 3)
    P = rng.random((n, M))
    if rng.random() < 0.5:      # on a front
        P = P / P.sum(axis=1, keepdims=True)
    P = -P * scale
    how = rng.choice(["linear", "curved", "random"], p=[0.5, 0.35, 0.15])
    w = rng.random(M) + 0.05
    w /= w.sum()
    u = P @ w if how == "linear" else -np.sqrt(((w * (P - P.max(axis=0))) ** 2).sum(axis=1)) if how == "curved" else rng.random(n)
    ranks = (np.argsort(np.argsort(-u)) + 1)
    if rng.random() < 0.3:      # the DM does not distinguish two of them
        k = int(rng.integers(1, n))
        ranks = np.where(ranks > k, ranks - 1, ranks)
    return P, ranks.tolist()


def do_fit(case, mon):
    rng = np.random.default_rng(case["seed"])
    vf, method = case["vf"], case["method"]
    tag = f"{vf}:{method}"
    P, ranks = points(rng, many=(vf, method) == ("linear", "SLSQP"))
    if vf == "poly" and method in ("ES", "trust-constr") and P.shape[1] > 3:
        P = P[:, :3]
    P0, r0 = P.copy(), list(ranks)
    mon.state(tag, P, ranks)
    if len(set(ranks)) < len(ranks):
        mon.ev("ties")
    np.random.seed(3)
    res = fit(vf, method, P, ranks)
    mon.check(np.array_equal(P, P0) and ranks == r0, f"input:{tag}", f"the ranks {r0} given by the caller became {ranks}" if ranks != r0 else "the points given by the caller were changed")
    mon.ev("inputs_checked")
    P, ranks = P0, r0
    ok = judge_fit(mon, tag, vf, P, ranks, res)
    # linear fits with separable rankings exist always, and they are linear programs
    if vf == "linear" and method in ("trust-constr", "SLSQP") and len(set(ranks)) == len(ranks):
        best = lp(P, ranks)
        if best is not None and best < -1e-6 * np.abs(P).max():
            mon.check(not ok, f"impossible:{tag}", f"no weights reproduce the ranking (best distance {best:.4g}) but a fit was accepted")
        elif method == "SLSQP" and best is not None and best > 2e-3 + 2e-3 * np.abs(P).max():
            mon.check(ok, f"not-fitted:{tag}", lambda: f"weights with the distance {best:.4g} between neighbouring ranks exist but no function was found")
            mon.ev("representable")
        if ok and best is not None and best > (0.01 + 2e-3 * np.abs(P).max() if method == "SLSQP" else -np.inf):
            mon.check(abs(res.epsilon - min(best, 1000)) <= 0.05 * max(abs(best), 1e-9) + 2e-3 * np.abs(P).max(), f"not-widest:{tag}", f"distance {res.epsilon:.6g}, the largest possible is {best:.6g}")
            mon.ev("optimal_fits")
    if len(set(ranks)) == len(ranks) and method in ("trust-constr", "SLSQP", "ES"):
        perm = rng.permutation(len(P))
        np.random.seed(4)
        res2 = fit(vf, method, P[perm].copy(), [ranks[i] for i in perm])
        mon.check(bool(res2.fit) == bool(res.fit) and (res.params is None or np.array_equal(np.asarray(res.params), np.asarray(res2.params))), f"permuted:{tag}",
                  "listing the same points and ranks in another order gave another function")
        mon.ev("permuted")
    if ok:
        from pymoo.util.value_functions import make_vf_comparator
        o = np.argsort(ranks, kind="stable")
        comp = make_vf_comparator(res.vf, P[o[1]])
        v = np.array([float(np.ravel(res.vf(p))[0]) for p in P])
        for i in range(len(P)):
            want = -1 if v[o[1]] > v[i] else 1 if v[o[1]] < v[i] else 0
            mon.check(comp(P[i]) == want, f"comparator:{vf}", f"comparator gives {comp(P[i])} for the value {v[i]} against {v[o[1]]}")
        mon.ev("comparators")


def lp(P, ranks):
    from scipy.optimize import linprog
    o = np.argsort(ranks, kind="stable")
    P = np.asarray(P, float)[o]
    M = P.shape[1]
    A = np.array([np.append(-(a - b), 1.0) for a, b in zip(P[:-1], P[1:])])
    r = linprog(np.append(np.zeros(M), -1.0), A_ub=A, b_ub=np.zeros(len(A)), A_eq=[np.append(np.ones(M), 0.0)], b_eq=[1.0], bounds=[(0, 1)] * M + [(-1000, 1000)])
    return float(r.x[-1]) if r.success else None


# ------------------------------------------------------------------ the preference relation

class Res:
    def __init__(self, vf):
        self.vf = vf


class Alg:
    def __init__(self, vf=None, v2=None):
        self.vf_res, self.v2 = (Res(vf) if vf is not None else None), v2


def relation(a, b, va=None, vb=None, v2=None):
    """1 if a is preferred, -1 if b is, 0 otherwise."""
    if v2 is not None:
        if va > v2 > vb:
            return 1
        if va < v2 < vb:
            return -1
    le, ge = all(p <= q for p, q in zip(a, b)), all(p >= q for p, q in zip(a, b))
    return 0 if le == ge else (1 if le else -1)


def do_dominate(case, mon):
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
    from pymoo.util.vf_dominator import VFDominator
    rng = np.random.default_rng(case["seed"])
    n, m, M = int(rng.choice([1, 2, 7, 15])), int(rng.choice([1, 3, 9])), int(rng.choice([2, 3]))
    F, G = rng.random((n, M)), rng.random((m, M))
    style = rng.choice(["plain", "grid", "front", "far"])
    if style == "grid":         # equal values and duplicates
        F, G = np.round(F * 3), np.round(G * 3)
    elif style == "front":
        F, G = F / F.sum(axis=1, keepdims=True), G / G.sum(axis=1, keepdims=True)
    elif style == "far":
        F, G = (F - 0.5) * 1e4, (G - 0.5) * 1e4
    w = rng.random(M)
    kind = rng.choice(["none", "linear", "cubic"])

    def vf(P):
        v = np.squeeze(np.matmul(P, w))
        return v if kind == "linear" else v ** 3
    both = np.vstack([F, G])
    value = [float(vf(-x)) for x in both]
    v2 = None if kind == "none" else float(rng.choice([np.median(value), value[0], value[-1], max(value) + 1, min(value) - 1, rng.normal() * np.ptp(value)]))
    D = VFDominator(Alg(None if kind == "none" else vf, v2))
    mon.state(str(kind), F, G, v2)
    near = v2 is not None and any(0 < abs(v - v2) <= 1e-12 * max(abs(v2), 1e-300) for v in value)
    if near:
        return
    if n == 1 or m == 1:
        mon.ev("single_row")
    A = D.calc_domination_matrix(F.copy())
    B = D.calc_domination_matrix(F.copy(), G.copy())

    def val(x):
        return None if v2 is None else float(vf(-x))

    def exact(x):
        return v2 is not None and abs(val(x) - v2) <= 1e-12 * max(abs(v2), 1e-300)
    skip = [exact(x) for x in F]
    for name, R, Q in (("self", A, F), ("cross", B, G)):
        mon.check(np.shape(R) == (n, len(Q)), f"shape:{name}", f"shape {np.shape(R)} for {n} and {len(Q)} solutions")
        for i in range(n):
            for j in range(len(Q)):
                if skip[i] or exact(Q[j]):      # rounding decides
                    continue
                want = relation(F[i], Q[j], val(F[i]), val(Q[j]), v2)
                mon.ev("pairs")
                if v2 is not None and want != relation(F[i], Q[j]):
                    mon.ev("value_pairs")
                mon.check(R[i, j] == want, f"relation:{name}:{kind}", lambda: f"{F[i].tolist()} against {Q[j].tolist()} (values {val(F[i])}, {val(Q[j])}, reference {v2}): {R[i, j]} instead of {want}")
    mon.check(np.array_equal(A, -A.T), f"asymmetric:{kind}", "the relation depends on the order of the two solutions")
    perm = rng.permutation(n)
    mon.check(np.array_equal(D.calc_domination_matrix(F[perm]), A[np.ix_(perm, perm)]), f"order:{kind}", "the relation depends on the order of the solutions")
    if kind != "none" and np.all(w >= 0) and not any(skip):
        fronts = NonDominatedSorting(dominator=D).do(F)
        rank = np.full(n, -1)
        for k, fr in enumerate(fronts):
            rank[np.asarray(fr, int)] = k
        for j in range(n):
            best = [rank[i] for i in range(n) if A[i, j] == 1]
            mon.check(rank[j] == (max(best) + 1 if best else 0), f"fronts:{kind}", lambda: f"solution {j} is in front {rank[j]} although the ones preferred to it are in {sorted(best)}")
        mon.ev("sorted_fronts")


# ------------------------------------------------------------------ rankings

def dense(u, tol=0.0):
    levels = []
    for v in sorted(u, reverse=True):
        if not levels or levels[-1] - v > tol:
            levels.append(v)
    return [next(k for k, l in enumerate(levels) if l - v <= tol) + 1 for v in u]


class Typed:
    """Stands in for the keyboard and the screen."""

    def __init__(self, answers):
        self.answers, self.prompts = answers, []

    def __call__(self, prompt=""):
        self.prompts.append(prompt)
        return self.answers(prompt) if callable(self.answers) else self.answers.pop(0)


class typing_dm:
    def __init__(self, answers):
        self.typed = Typed(answers)

    def __enter__(self):
        import builtins
        self.old, self.out = builtins.input, sys.stdout
        builtins.input, sys.stdout = self.typed, io.StringIO()
        self.screen = sys.stdout
        return self

    def __exit__(self, *a):
        import builtins
        builtins.input, sys.stdout = self.old, self.out


def do_rank(case, mon):
    from pymoo.algorithms.moo.pinsga2 import PINSGA2
    rng = np.random.default_rng(case["seed"])
    n, M = int(rng.integers(2, 8)), int(rng.choice([2, 3]))
    F = np.round(rng.random((n, M)), 6)
    F = np.unique(F, axis=0)
    n = len(F)
    u = {tuple(f): float(rng.integers(0, max(2, n - 1))) if rng.random() < 0.6 else float(rng.random() * n) for f in F}
    signs = np.array([1.0] * M) if rng.random() < 0.5 else np.array([float(rng.choice([-1, 1])) for _ in range(M)])
    asked = []

    def dm(pair):
        a, b = [tuple((np.asarray(p) * signs).tolist()) for p in pair]
        asked.append((a, b))
        if rng.random() < 0.1:
            return str(rng.choice(["", "x", "ab", "1"]))
        return str(rng.choice(["a", " A ", "a "])) if u[a] > u[b] else str(rng.choice(["b", "B"])) if u[a] < u[b] else "c"
    with typing_dm([]) as T:
        ranks = PINSGA2._get_pairwise_ranks(F.copy(), signs, dm=dm)
    mon.ev("rankings")
    mon.ev("questions_pairwise", len(asked))
    mon.state("rank", F, sorted(u.values()))
    mon.check(all(a in u and b in u and a != b for a, b in asked), "question:unknown", "the decision maker was asked about something else than the given solutions")
    want = dense([u[tuple(f)] for f in F])
    mon.check(list(ranks) == want, "pairwise", lambda: f"the answers imply the ranks {want}, the result is {list(ranks)}")
    # typed as text, in the format of the prompt and separated by blanks
    perm = (rng.permutation(n) + 1).tolist()
    for text in (" ".join(map(str, perm)), ", ".join(map(str, perm))):
        bad = [t for t in ("", " ".join(["0"] * n), " ".join([str(n + 1)] * n), " ".join(map(str, perm[:-1]))) if rng.random() < 0.4]
        with typing_dm(bad + [text]) as T:
            try:
                got = PINSGA2._get_ranks(F.copy(), signs)
            except Exception as e:
                mon.check(False, "typed:raises", f"the input {bad + [text]} raised {e!r}")
                continue
        mon.check(list(got) == perm, "typed", f"typed {bad + [text]} for {n} solutions, understood as {list(got)}")
        mon.ev("keyboard")
        shown = T.screen.getvalue() + "".join(T.typed.prompts)
        mon.check(all(str(f * signs) in shown for f in F), "typed:shown", "a solution to be ranked was not presented")


# ------------------------------------------------------------------ runs

def do_run(case, mon):
    from pymoo.algorithms.moo.pinsga2 import PINSGA2, AutomatedDM
    from pymoo.util import value_functions as mvf
    rng = np.random.default_rng(case["seed"])
    con = str(rng.choice(["none", "none", "none", "ieq", "eq"]))
    con = case.get("con") or con
    prob = make_problem(case, rng, con)
    M = prob.n_obj
    tau, eta, pop = int(rng.choice([1, 3, 5])), int(rng.choice([2, 3, 4, 5])), int(rng.choice([10, 20]))
    how = case["how"]
    w = rng.random(M) + 0.05
    asked, fits = [], []
    tag = f"{how}"

    def utility(f):
        f = np.asarray(f, float)
        if case["dm"] == "coarse":
            return float(np.round(-(f @ w), 1))
        return float(-(f @ w)) if case["dm"] != "liar" else float(f @ w)
    arbitrary = np.random.default_rng(case["seed"] + 1)

    def answer(pair):
        if case["dm"] == "equal":
            return "c"
        if case["dm"] == "random":
            return str(arbitrary.choice(["a", "b", "c"]))
        a, b = utility(pair[0]), utility(pair[1])
        return "a" if a > b else "b" if a < b else "c"

    class DM(AutomatedDM):
        def makeDecision(self, F):
            F = np.asarray(F)
            if how == "absolute":
                note(F)
                r = np.array(dense([utility(f) for f in F])) if case["dm"] not in ("random", "equal") else np.ones(len(F), int) if case["dm"] == "equal" else arbitrary.permutation(len(F)) + 1
                asked[-1]["ranks"] = np.array(r)
                return np.array(r)
            return answer(F)

        def makePairwiseDecision(self, F):
            note(np.asarray(F))
            r = super().makePairwiseDecision(F)
            asked[-1]["ranks"] = np.array(r)
            return r

    state = dict(alg=None)

    def note(F):
        alg = state["alg"]
        asked.append(dict(F=np.array(F, float), gen=alg.n_gen, pop=np.array([i.F for i in alg.pop]), rank=[i.get("rank") for i in alg.pop], feas=[bool(i.FEAS[0]) for i in alg.pop]))

    old = mvf.create_linear_vf, mvf.create_poly_vf

    def spy(f, name):
        def g(P, ranks, *a, **kw):
            P0, r0 = np.array(P), list(ranks)
            res = f(P, ranks, *a, **kw)
            fits.append(dict(P=P0, ranks=r0, res=res, vf=name, gen=state["alg"].n_gen))
            return res
        return g
    ask_pairs = PINSGA2._get_pairwise_ranks
    alg = PINSGA2(pop_size=pop, tau=tau, eta=eta, vf_type=case["vf"], opt_method=case["method"], vf_max_iter=150, ranking_type="absolute" if how == "absolute" else "pairwise", automated_dm=None if how == "typed" else DM())
    state["alg"] = alg
    mvf.create_linear_vf, mvf.create_poly_vf = spy(old[0], "linear"), spy(old[1], "poly")

    def typed_ranks(F, signs, dm=None):
        note(np.asarray(F))
        r = ask_pairs(F, signs, dm=dm)
        asked[-1]["ranks"] = np.array(r)
        return r

    def keyboard(prompt):
        a, b = [np.array([float(t) for t in line.split("]", 1)[1].strip(" []").split()]) for line in prompt.replace("\n ", " ").splitlines() if line.startswith(("[a]", "[b]"))]
        return answer([a, b])
    try:
        if how == "typed":
            PINSGA2._get_pairwise_ranks = staticmethod(typed_ranks)
        with typing_dm(keyboard) as T:
            alg.setup(prob, seed=case["seed"] % 100000, termination=("n_gen", int(rng.choice([7, 12]))))
            while alg.has_next():
                before, v2, nq, nf = alg.vf_res, alg.v2, len(asked), len(fits)
                alg.next()
                judge(case, mon, prob, alg, tag, tau, eta, before, v2, asked[nq:], fits[nf:])
    finally:
        mvf.create_linear_vf, mvf.create_poly_vf = old
        PINSGA2._get_pairwise_ranks = staticmethod(ask_pairs)
    if how == "absolute":
        mon.ev("absolute")


def make_problem(case, rng, con):
    from pymoo.core.problem import Problem
    M = int(rng.choice([2, 2, 3]))
    c = rng.random((M, 4))
    lim = {"none": None, "ieq": 1.2, "eq": 0.25}[con]

    class Q(Problem):
        def __init__(self):
            super().__init__(n_var=4, n_obj=M, n_ieq_constr=0 if lim is None else 1, xl=np.zeros(4), xu=np.ones(4))

        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = ((X[:, None, :] - c[None]) ** 2).sum(axis=2)
            if lim is not None:
                out["G"] = np.abs(X).sum(axis=1) - lim
    return Q()


def judge(case, mon, prob, alg, tag, tau, eta, before, v2, asked, fits):
    F = np.array([i.F for i in alg.pop], float)
    feas = np.array([bool(i.FEAS[0]) for i in alg.pop])
    rank = [i.get("rank") for i in alg.pop]
    mon.state(case["dm"], tag, F)
    first = F[np.array([r == 0 for r in rank], bool)] if len(F) else F
    if not feas.any():
        mon.ev("infeasible_start")
        mon.check(not asked, f"asked:infeasible:{tag}", "the decision maker was asked although no solution is feasible")
        return
    # ---- the population is ranked by the preference known when it was selected
    Ff, rf = F[feas], np.array([-1 if r is None else int(r) for r, k in zip(rank, feas) if k])
    if before is not None:
        V = np.array([float(np.ravel(before.vf(-f))[0]) for f in Ff])
        clear = np.abs(V - v2) > 1e-9 * max(1.0, np.abs(V).max())
    else:
        V, clear = [None] * len(Ff), np.ones(len(Ff), bool)
    vv = v2 if before is not None else None
    R = np.array([[relation(a, b, va, vb, vv) if k and l else relation(a, b) if not (k or l) and before is None else 9 for b, vb, l in zip(Ff, V, clear)] for a, va, k in zip(Ff, V, clear)])
    mon.ev("ranked_populations")
    for j in range(len(Ff)):
        for i in range(len(Ff)):
            if R[i, j] == 1:
                if vv is not None and relation(Ff[i], Ff[j]) != 1:
                    mon.ev("preferred_pairs")
                mon.check(rf[i] < rf[j], f"rank:{tag}", lambda: f"{Ff[i].tolist()} is preferred to {Ff[j].tolist()} but ranked {rf[i]} and {rf[j]} (values {V[i]}, {V[j]}, reference {vv})")
        if rf[j] > 0 and np.all(R[:, j] != 9) and np.all(clear):
            mon.check(any(R[i, j] == 1 and rf[i] == rf[j] - 1 for i in range(len(Ff))), f"rank-needless:{tag}", f"nothing in the front before is preferred to a solution ranked {rf[j]}")
    # ---- the questions
    gen = alg.n_gen - 1      # the counter is already at the next iteration
    due = gen % tau == 0
    distinct = np.unique(first, axis=0)
    if not due:
        mon.ev("silent_iterations")
        mon.check(not asked, f"asked:early:{tag}", f"the decision maker was asked in iteration {gen}, every {tau} was agreed")
        mon.check(alg.vf_res is before and alg.v2 == v2, f"changed:{tag}", "the preference changed without asking")
        return
    mon.check(len(asked) <= 1, f"asked:twice:{tag}", "more than one ranking in an iteration")
    if not asked:
        mon.check(len(distinct) < 2 or min(eta, len(first)) < 2 or len(np.unique(alg.eta_F, axis=0)) < 2, f"asked:never:{tag}", f"iteration {gen}: nothing was asked about {len(distinct)} different solutions")
        mon.check(alg.vf_res is None and alg.v2 is None, f"stale:{tag}", "the preference is kept although it was to be removed")
        return
    A = asked[0]
    S, r = A["F"], np.asarray(A["ranks"])
    mon.ev("questions")
    known = {tuple(f) for f in first.tolist()}
    mon.check(len({tuple(s) for s in S.tolist()}) == len(S) and 2 <= len(S) <= eta, f"shown:{tag}", f"{len(S)} solutions ({len({tuple(s) for s in S.tolist()})} different) were shown, at most {eta} are wanted")
    mon.check(all(tuple(s) in known for s in S.tolist()), f"shown-foreign:{tag}", "a solution shown to the decision maker is not in the first front")
    if not mon.check(bool(fits), f"not-learned:{tag}", "the answers were not used"):
        return
    # ---- the first attempt uses exactly the answers, the others drop the second best
    left = list(range(len(S)))
    ranks = [int(x) for x in r]
    for k, ft in enumerate(fits):
        want = np.array([-S[i] for i in left])
        mon.check(np.array_equal(ft["P"], want) and list(ft["ranks"]) == ranks, f"{'learned' if k == 0 else 'refit'}:{tag}",
                  lambda: f"attempt {k + 1} uses {ft['P'].tolist()} ranked {ft['ranks']}; the answers demand {want.tolist()} ranked {ranks}")
        judge_fit(mon, f"run:{ft['vf']}:{case['method']}", ft["vf"], ft["P"], ft["ranks"], ft["res"])
        if k:
            mon.ev("refits")
        if ft["res"].fit:
            mon.check(k == len(fits) - 1, f"fit-ignored:{tag}", "an accepted fit was dropped")
            mon.check(alg.vf_res is ft["res"], f"fit-unused:{tag}", "the accepted function is not the one in use")
            o = np.argsort(ranks, kind="stable")
            second = float(np.ravel(ft["res"].vf(-S[left[o[1]]]))[0])
            mon.check(alg.v2 == second, f"reference:{tag}", lambda: f"the reference value is {alg.v2}, the second best of {ranks} has {second}")
            best = float(np.ravel(ft["res"].vf(-S[left[o[0]]]))[0])
            mon.ev("fitted")
            return
        if len(left) == 2:
            mon.check(k == len(fits) - 1 and alg.vf_res is None and alg.v2 is None, f"not-reset:{tag}", "no function fits the answers but the preference was not removed")
            mon.ev("resets")
            return
        o = int(np.argsort(ranks, kind="stable")[1])
        gone = ranks[o]
        del left[o], ranks[o]
        ranks = [x - 1 if x > gone else x for x in ranks]
    mon.check(False, f"gave-up:{tag}", "fitting stopped before a function was found or the preference was removed")
