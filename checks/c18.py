"""C18: parent selection follows its documented rule."""
import numpy as np
from checks.c13 import MODES, make_pop
from checks.c15 import binom_ok, uniform_counts
from vlib import gen, obs, probs, runs, zoo

RULE = ("every selection and every comparison x populations (feasible, infeasible, mixed, ties, equal values, infinite crowding) x numbers of selections and parents x index or individual form; every winner is judged against every "
        "loser by the documented order written down separately; how often each individual enters a tournament is counted exactly; ties and random choices are judged for fairness on fixed seeds (alarm only below 1e-7); "
        "every selection inside algorithm runs is recorded with its contestants and judged the same way; distinct states are different (selection, population) pairs")
REQUIRED = ["selections", "tournaments", "decided", "tied", "distributions", "in_run", "infeasible_contests", "targets"]
ASSUMPTIONS = ["populations have at least as many members as a tournament or mating needs; attributes used by a comparison are set"]

CMP = ["nsga2", "nsga2dom", "ga", "nsga3", "unsga3", "clearing", "sms", "spea", "ctaea", "age"]
OTHER = ["random", "neighborhood", "omni", "elite", "des", "fill", "compare", "restricted"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 118])
    q = tier == "quick"
    out = []
    for nm in CMP + OTHER:
        for _ in range(2 if q else 25):
            out.append(dict(kind="direct", name=nm, seed=int(rng.integers(1, 10 ** 9)), n=12))
    for nm in CMP + ["random", "elite", "neighborhood", "compare", "des", "pressure"]:
        for _ in range(1 if q else 6):
            out.append(dict(kind="dist", name=nm, seed=int(rng.integers(1, 10 ** 9))))
    for name, spec in runs.combos(rng, 1 if q else 6):
        out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=4 if q else 12, cap=20000))
    for _ in range(12 if q else 100):
        out.append(dict(kind="targets", seed=int(rng.integers(1, 10 ** 9))))
    return out


class Alg:
    """What a comparison reads from the algorithm."""

    def __init__(self, rs, t="comp_by_rank_and_crowding"):
        self.random_state, self.tournament_type = rs, t


def scalar(v):
    return float(np.ravel(v)[0])


def beats(nm, a, b):
    """1: a has to win, -1: b has to win, 0: both may win. The documented orders."""
    ca, cb = scalar(a.CV), scalar(b.CV)

    def lower(x, y):
        return 1 if x < y else -1 if x > y else 0

    if nm == "age":
        return lower(-a.get("n_gen"), -b.get("n_gen"))
    dom = 1 if obs.dominates(a.F, b.F) else -1 if obs.dominates(b.F, a.F) else 0
    if nm == "ctaea":
        if ca <= 0 and cb <= 0:
            return dom
        return 1 if ca <= 0 else -1 if cb <= 0 else 0
    if ca > 0 or cb > 0:
        return lower(ca, cb)
    if nm == "nsga2":
        return lower(a.get("rank"), b.get("rank")) or -lower(a.get("crowding"), b.get("crowding"))
    if nm == "nsga2dom":
        return dom or -lower(a.get("crowding"), b.get("crowding"))
    if nm == "ga":
        return lower(scalar(a.F), scalar(b.F))
    if nm == "nsga3":
        return 0
    if nm == "unsga3":
        if a.get("niche") != b.get("niche"):
            return 0
        return lower(a.get("rank"), b.get("rank")) or lower(a.get("dist_to_niche"), b.get("dist_to_niche"))
    if nm == "clearing":
        return lower(a.get("iter"), b.get("iter")) or lower(a.get("rank"), b.get("rank"))
    if nm == "sms":
        return dom
    if nm == "spea":
        return lower(scalar(a.get("SPEA_F")), scalar(b.get("SPEA_F")))
    raise KeyError(nm)


def functions():
    from pymoo.algorithms.moo.ctaea import comp_by_cv_dom_then_random
    from pymoo.algorithms.moo.nsga2 import binary_tournament
    from pymoo.algorithms.moo.nsga3 import comp_by_cv_then_random
    from pymoo.algorithms.moo.sms import cv_and_dom_tournament
    from pymoo.algorithms.moo.spea2 import spea_binary_tournament
    from pymoo.algorithms.moo.unsga3 import comp_by_rank_and_ref_line_dist
    from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness
    from pymoo.algorithms.soo.nonconvex.ga_niching import comp_by_cv_and_clearing_fitness
    from pymoo.operators.control import age_binary_tournament
    return {"nsga2": binary_tournament, "nsga2dom": binary_tournament, "ga": comp_by_cv_and_fitness, "nsga3": comp_by_cv_then_random, "unsga3": comp_by_rank_and_ref_line_dist,
            "clearing": comp_by_cv_and_clearing_fitness, "sms": cv_and_dom_tournament, "spea": spea_binary_tournament, "ctaea": comp_by_cv_dom_then_random, "age": age_binary_tournament}


def population(rng, nm, n=None, mode=None):
    m = 1 if nm in ("ga", "clearing") else int(rng.integers(2, 4))
    F, _ = gen.matrix(rng, str(rng.choice(["random", "int", "dups", "equal", "tiny", "neg", "huge"])), n=int(n or rng.choice([2, 3, 5, 9, 20])), m=m)
    pop, problem, cv = make_pop(rng, F, mode or str(rng.choice(MODES)))
    k = len(pop)
    pop.set("rank", [int(v) for v in rng.integers(0, 3, k)])
    pop.set("crowding", [float(v) for v in rng.choice([0.0, 0.5, 1.5, np.inf], k)])
    pop.set("niche", [int(v) for v in rng.integers(0, 3, k)])
    pop.set("dist_to_niche", [float(v) for v in rng.choice([0.0, 0.1, 0.4], k)])
    pop.set("iter", [int(v) for v in rng.integers(1, 4, k)])
    pop.set("SPEA_F", [float(v) for v in rng.choice([0.2, 0.7, 1.0, 3.5], k)])
    pop.set("n_gen", [int(v) for v in rng.integers(1, 4, k)])
    return pop, problem, cv


def judge(mon, nm, pop, P, S, key):
    """Every winner took part and is not worse than its opponent by the documented order."""
    for (a, b), s in zip(P, S):
        mon.ev("tournaments")
        if not mon.check(s == a or s == b, key + ":contestant", lambda: f"{s} wins a tournament between {a} and {b}"):
            return
        r = beats(nm, pop[int(a)], pop[int(b)])
        if scalar(pop[int(a)].CV) > 0 or scalar(pop[int(b)].CV) > 0:
            mon.ev("infeasible_contests")
        mon.ev("decided" if r else "tied")
        w, l = (a, b) if s == a else (b, a)
        if not mon.check(r == 0 or s == (a if r == 1 else b), key + ":order",
                         lambda: f"{nm}: individual CV={scalar(pop[int(l)].CV)} F={pop[int(l)].F} rank={pop[int(l)].get('rank')} crowding={pop[int(l)].get('crowding')} lost against CV={scalar(pop[int(w)].CV)} F={pop[int(w)].F} rank={pop[int(w)].get('rank')} crowding={pop[int(w)].get('crowding')}"):
            return


def even(mon, I, n, key):
    """Drawn by whole passes over the population: counts differ by at most one."""
    c = np.bincount(np.asarray(I).ravel(), minlength=n)
    mon.check(len(c) == n and c.max() - c.min() <= 1, key + ":even", lambda: f"individuals are drawn {c.tolist()} times")
    full = len(np.ravel(I)) // n
    for k in range(full):
        mon.check(np.array_equal(np.sort(np.ravel(I)[k * n:(k + 1) * n]), np.arange(n)), key + ":pass", "a pass over the population does not contain everyone once")
    if n >= 20 and full > 1:                                    # two equal permutations of 20: one in 10^18
        mon.ev("passes", full)
        R = {tuple(np.ravel(I)[k * n:(k + 1) * n].tolist()) for k in range(full)}
        mon.check(len(R) == full, key + ":independent", lambda: f"only {len(R)} of {full} passes over the population differ")


def run_direct(case, mon):
    from pymoo.core.population import Population
    from pymoo.operators.selection.des import DES
    from pymoo.operators.selection.rnd import RandomSelection, fast_fill_random
    from pymoo.operators.selection.tournament import TournamentSelection, compare
    rng = np.random.default_rng(case["seed"])
    nm = case["name"]
    for t in range(case["n"]):
        many = rng.random() < 0.2
        pop, problem, cv = population(rng, nm, n=int(rng.integers(20, 30))) if many else population(rng, nm)
        n = len(pop)
        n_select, n_parents = int(rng.choice([1, 2, 5, 17])), int(rng.choice([1, 2, 3]))
        if many:
            n_select = int(rng.integers(60, 200))
        s = int(rng.integers(1 << 40))
        rs = np.random.default_rng(s)
        before = [(np.array(i.X), np.array(i.F)) for i in pop]
        mon.ev("selections")
        if nm in CMP:
            f = functions()[nm]
            rec = []

            def spy(pop_, P, **kw):
                S = f(pop_, P, **kw)
                rec.append((np.array(P), np.array(S)))
                return S
            sel = TournamentSelection(func_comp=spy)
            kw = dict(algorithm=Alg(rs, "comp_by_dom_and_crowding" if nm == "nsga2dom" else "comp_by_rank_and_crowding"))
            form = rng.random() < 0.5
            R = sel(problem, pop, n_select, n_parents, to_pop=form, random_state=rs, **kw)
            P, S = rec[0]
            mon.check(P.shape == (n_select * n_parents, 2) and S.size == len(P), f"{nm}:tournaments", lambda: f"{len(P)} tournaments for {n_select} x {n_parents} parents")
            judge(mon, nm, pop, P, S.ravel(), nm)
            even(mon, P, n, nm)
            shape(mon, nm, pop, R, n_select, n_parents, form)
            I = S.reshape(n_select, n_parents)
            if form:
                mon.check(all(R[i, j] is pop[int(I[i, j])] for i in range(n_select) for j in range(n_parents)), f"{nm}:winners", "the individuals returned are not the winners")
            else:
                mon.eq(R, I, f"{nm}:winners", "the indices returned are not the winners")
            # the comparison itself on every pair, in both orders
            A = np.array([(a, b) for a in range(n) for b in range(n) if a != b])
            if len(A):
                judge(mon, nm, pop, A, np.ravel(f(pop, A, random_state=rs, **kw)), nm + ":pair")
        elif nm == "random":
            I = RandomSelection()(problem, pop, n_select, n_parents, to_pop=False, random_state=rs)
            shape(mon, nm, pop, I, n_select, n_parents, False)
            even(mon, I, n, nm)
            R = RandomSelection()(problem, pop, n_select, n_parents, random_state=np.random.default_rng(s))
            mon.check(all(R[i, j] is pop[int(I[i, j])] for i in range(n_select) for j in range(n_parents)), "random:form", "indices and individuals differ for the same random state")
        elif nm == "neighborhood":
            from pymoo.algorithms.moo.moead import NeighborhoodSelection
            T = int(rng.integers(1, n + 1))
            N = np.array([rng.permutation(n)[:T] for _ in range(n_select)])
            k = int(rng.integers(1, T + 1))
            pr = float(rng.choice([0.0, 0.7, 1.0]))
            I = NeighborhoodSelection(prob=pr).do(problem, pop, n_select, k, to_pop=False, neighbors=N, random_state=rs)
            shape(mon, nm, pop, I, n_select, k, False)
            mon.check(all(len(set(r)) == k for r in I.tolist()), "neighborhood:distinct", "a mating holds an individual twice")
            if pr == 1.0:
                mon.check(all(set(r) <= set(N[i].tolist()) for i, r in enumerate(I.tolist())), "neighborhood:inside", lambda: f"parents {I.tolist()} outside of the neighbourhoods {N.tolist()}")
        elif nm == "omni":
            from pymoo.algorithms.moo.nsga2 import binary_tournament
            from pymoo.algorithms.moo.omni import NeighborBasedTournamentSelection
            rec = []

            def spy(pop_, P, **kw):
                S = binary_tournament(pop_, P, **kw)
                rec.append((np.array(P), np.ravel(S)))
                return S
            alg = Alg(rs)
            R = NeighborBasedTournamentSelection(func_comp=spy)(problem, pop, n_select, n_parents, algorithm=alg, random_state=rs)
            P, S = rec[0]
            shape(mon, nm, pop, R, n_select, n_parents, True)
            judge(mon, "nsga2", pop, P, S, nm)
            X = pop.get("X")
            w = X.max(axis=0) - X.min(axis=0)
            Xn = (X - X.min(axis=0)) / np.where(w == 0, 1, w)
            per = n // 2
            for k in range(0, len(P), per):
                Q = P[k:k + per]
                mon.check(len(set(Q.ravel().tolist())) == Q.size, "omni:once", "an individual competes twice in one pass")
                gone = set()
                for a, b in Q.tolist():
                    gone.add(a)
                    rest = [j for j in range(n) if j not in gone]
                    dist = ((Xn[rest] - Xn[a]) ** 2).sum(axis=1)
                    mon.check(((Xn[b] - Xn[a]) ** 2).sum() <= dist.min() + 1e-12, "omni:nearest", "the opponent is not the nearest remaining individual")
                    gone.add(b)
        elif nm == "elite":
            from pymoo.algorithms.soo.nonconvex.brkga import EliteBiasedSelection
            ty = np.array(["elite"] * max(1, n // 3) + ["non_elite"] * (n - max(1, n // 3)), dtype=object)[rng.permutation(n)]
            pop.set("type", list(ty))
            I = EliteBiasedSelection().do(problem, pop, n_select, 2, to_pop=False, random_state=rs)
            shape(mon, nm, pop, I, n_select, 2, False)
            mon.check(np.all(ty[I[:, 0]] == "elite"), "elite:first", "the first parent is not an elite")
            mon.check(np.all(ty[I[:, 1]] == "non_elite") or not np.any(ty == "non_elite"), "elite:second", "the second parent is an elite although others exist")
        elif nm == "des":
            v = str(rng.choice(["rand", "best", "ranked", "current-to-best", "current-to-rand"]))
            pop, problem, cv = population(rng, nm, n=int(rng.choice([8, 12, 20])))
            n = len(pop)
            before = [(np.array(i.X), np.array(i.F)) for i in pop]
            k = 6 if v.startswith("current") else int(rng.choice([4, 6]))
            I = DES(v).do(problem, pop, n, k, to_pop=False, random_state=rs)
            shape(mon, nm, pop, I, n, k, False)
            mon.check(np.array_equal(I[:, 0], np.arange(n)), "des:target", "row i does not start with its target i")
            if v in ("rand", "ranked"):
                mon.check(all(len(set(r)) == k for r in I.tolist()), f"des:{v}:distinct", lambda: f"a row holds an individual twice: {[r for r in I.tolist() if len(set(r)) < k][:2]}")
            elif v == "best":
                mon.check(np.all(I[:, 1] == 0) and all(len(set(r[2:])) == k - 2 and not set(r[2:]) & set(r[:2]) for r in I.tolist()), "des:best", "the base is not the best, or a difference repeats an individual")
            elif v == "current-to-best":
                mon.check(np.all(I[:, 1] == np.arange(n)) and np.all(I[:, 2] == 0) and np.all(I[:, 3] == np.arange(n)), "des:current-to-best", "not from the current individual towards the best")
            else:
                mon.check(np.all(I[:, 1] == np.arange(n)) and np.all(I[:, 3] == np.arange(n)) and np.all(I[:, 2] != np.arange(n)), "des:current-to-rand", "not from the current individual towards another one")
            if v.startswith("current"):
                mon.check(all(r[4] not in r[:4] and r[5] not in r[:5] for r in I.tolist()), f"des:{v}:distinct", "the last parents repeat another one")
            if v == "ranked":
                rk = np.array([i.get("rank") for i in pop])
                R = rk[I[:, 1:]]
                mon.check(np.all(R[:, 0] <= R[:, 1:].min(axis=1)), "des:ranked", lambda: f"the base of a ranked mating is not its best ranked member: {R[:3]}")
                mon.check(np.all(R[:, 1::2] <= R[:, 2::2]), "des:ranked:direction", lambda: f"a ranked difference points from better to worse: {R[:3]}")
        elif nm == "fill":
            N = int(rng.choice([5, 8, 30, 100]))
            rows, cols = int(rng.choice([1, 4, N - 1, N, 3 * N])), int(rng.integers(1, 4))
            X = np.full((rows, cols), -1)
            own = rng.integers(0, N, (rows, 1)) if rng.random() < 0.6 else None
            c = list(range(cols)) if rng.random() < 0.6 else list(range(1, cols))
            Y = fast_fill_random(X, N, columns=c, Xp=own, n_max_attempts=200, random_state=rs)
            if c:
                Z = Y[:, c]
                mon.check(np.all(Z >= 0) and np.all(Z < N), "fill:range", lambda: f"values outside 0..{N - 1}: {Z}")
                mon.check(all(len(set(r)) == len(r) for r in Z.tolist()) and (own is None or not np.any(Z == own)), "fill:distinct", lambda: f"a row repeats an index: {Z.tolist()[:5]} itself {None if own is None else own.ravel()[:5]}")
            mon.check(len(c) == cols or np.all(Y[:, 0] == -1), "fill:columns", "a column that was not asked for is changed")
        elif nm == "compare":
            a, b = float(rng.integers(0, 3)), float(rng.integers(0, 3))
            for meth, sg in (("smaller_is_better", 1), ("larger_is_better", -1)):
                r = compare("a", a, "b", b, meth, random_state=rs)
                mon.check(r == ("a" if sg * a < sg * b else "b" if sg * a > sg * b else None), "compare:order", lambda: f"{meth}: {a} against {b} gives {r}")
                r = compare("a", a, "b", b, meth, return_random_if_equal=True, random_state=rs)
                mon.check(r in ("a", "b") and (a == b or r == ("a" if sg * a < sg * b else "b")), "compare:random", lambda: f"{meth}: {a} against {b} gives {r}")
        elif nm == "restricted":
            from pymoo.algorithms.moo.ctaea import RestrictedMating, comp_by_cv_dom_then_random
            k = int(rng.choice([4, 6, 10]))
            H, problem, cv = population(rng, "ctaea", n=2 * k)
            pop, before, rec = H, [(np.array(i.X), np.array(i.F)) for i in H], []

            def spy(pop_, P, **kw):
                S = comp_by_cv_dom_then_random(pop_, P, **kw)
                rec.append((np.array(P), np.ravel(S)))
                return S
            I = RestrictedMating(func_comp=spy).do(problem, H, n_select, 2, to_pop=False, random_state=rs)
            shape(mon, nm, H, I, n_select, 2, False)
            P, S = rec[0]
            judge(mon, "ctaea", H, P, S, nm)
            r = gen.ref_rank(H.get("F"))
            pc, pd = (r[:k] == 0).mean(), (r[k:] == 0).mean()
            first = I[:, 0] >= k
            mon.check(np.all(first == (pc <= pd)), "restricted:first", lambda: f"first parents come from {'DA' if first.any() else 'CA'} although the share of non-dominated is {pc:.2f} in CA and {pd:.2f} in DA")
        mon.state(nm, np.array([f for _, f in before]), n_select, n_parents)
        mon.check(all(np.array_equal(i.X, x) and np.array_equal(i.F, f) for i, (x, f) in zip(pop, before)), f"{nm}:changed", "selection changed an individual")


def shape(mon, nm, pop, R, n_select, n_parents, form):
    R = np.asarray(R)
    if mon.check(R.shape == (n_select, n_parents), f"{nm}:shape", lambda: f"shape {R.shape}, asked for {n_select} x {n_parents}"):
        if form:
            ids = {id(i) for i in pop}
            mon.check(all(id(x) in ids for x in R.ravel()), f"{nm}:members", "an individual is returned which is not in the population")
        else:
            mon.check(R.dtype.kind in "iu" and np.all(R >= 0) and np.all(R < len(pop)), f"{nm}:members", "an index outside of the population is returned")


def run_dist(case, mon):
    from pymoo.operators.selection.des import DES
    from pymoo.operators.selection.rnd import RandomSelection
    from pymoo.operators.selection.tournament import TournamentSelection, compare
    rng = np.random.default_rng(case["seed"])
    rs = np.random.default_rng(int(rng.integers(1 << 40)))
    nm = case["name"]
    mon.ev("distributions")
    mon.state("dist", nm, case["seed"])
    if nm in CMP:
        # equal contestants win equally often, from either side, feasible or not
        for mode in ("none", "all_infeasible"):
            pop, problem, cv = population(rng, nm, n=4, mode=mode)
            a, b = pop[0], pop[1]
            for k in ("F", "G"):
                b.set(k, np.array(a.get(k)))
            for k in ("rank", "crowding", "niche", "dist_to_niche", "iter", "SPEA_F", "n_gen"):
                b.set(k, a.get(k))
            P = np.tile([[0, 1], [1, 0]], (600, 1))
            S = np.ravel(functions()[nm](pop, P, algorithm=Alg(rs), random_state=rs))
            k0, f0 = int((S == 0).sum()), int((S == P[:, 0]).sum())
            mon.check(binom_ok(k0, 1200, 0.5) and binom_ok(f0, 1200, 0.5), f"{nm}:tie", lambda: f"{mode}: of 1200 ties one individual wins {k0}, the first contestant wins {f0}")
    elif nm == "pressure":
        # the winner of k random members: rank r wins with the exact share
        pop, problem, cv = population(rng, "ga", n=12, mode="none")
        for i in range(12):
            pop[i].set("F", np.array([float(i)]))
        for k in (2, 3, 4):
            sel = TournamentSelection(func_comp=lambda pop, P, **kw: P.min(axis=1)[:, None], pressure=k)
            c = np.zeros(12)
            for _ in range(300):
                c += np.bincount(np.ravel(sel(problem, pop, 12, 1, to_pop=False, random_state=rs)), minlength=12)
            from math import comb
            p = np.array([comb(11 - r, k - 1) / comb(12, k) for r in range(12)])
            e = c.sum() * p
            mon.check(np.all(np.abs(c - e) <= 6.5 * np.sqrt(c.sum() * p * (1 - p)) + 1), "pressure:share", lambda: f"tournaments of {k}: {c.tolist()} wins, expected {np.round(e, 1).tolist()}")
    elif nm == "random":
        pop, problem, cv = population(rng, nm, n=5)
        c = np.zeros((5, 5))
        for _ in range(1500):
            I = RandomSelection()(problem, pop, 2, 2, to_pop=False, random_state=rs)
            for r in I:
                c[r[0], r[1]] += 1
        mon.check(np.all(np.diag(c) == 0), "random:same", "an individual is mated with itself within a pass")
        uniform_counts(mon, "random:pairs", c[~np.eye(5, dtype=bool)], "pairs")
    elif nm == "elite":
        from pymoo.algorithms.soo.nonconvex.brkga import EliteBiasedSelection
        pop, problem, cv = population(rng, nm, n=9)
        pop.set("type", ["elite"] * 3 + ["non_elite"] * 6)
        I = EliteBiasedSelection().do(problem, pop, 3000, 2, to_pop=False, random_state=rs)
        uniform_counts(mon, "elite:uniform", np.bincount(I[:, 0], minlength=9)[:3], "elites")
        uniform_counts(mon, "elite:uniform", np.bincount(I[:, 1], minlength=9)[3:], "others")
    elif nm == "neighborhood":
        from pymoo.algorithms.moo.moead import NeighborhoodSelection
        pop, problem, cv = population(rng, nm, n=20)
        N = np.tile(np.arange(4), (2000, 1))
        I = NeighborhoodSelection(prob=0.7).do(problem, pop, 2000, 2, to_pop=False, neighbors=N, random_state=rs)
        inside = int(np.all(I < 4, axis=1).sum())
        p = 0.7 + 0.3 * (4 * 3) / (20 * 19)
        mon.check(binom_ok(inside, 2000, p), "neighborhood:prob", lambda: f"{inside} of 2000 matings lie in the neighbourhood, probability {p:.3f}")
        J = I[np.all(I < 4, axis=1)]
        uniform_counts(mon, "neighborhood:uniform", np.bincount(J[:, 0], minlength=4), "neighbours")
    elif nm == "compare":
        k = sum(compare(0, 1.0, 1, 1.0, "smaller_is_better", return_random_if_equal=True, random_state=rs) for _ in range(1000))
        mon.check(binom_ok(int(k), 1000, 0.5), "compare:tie", lambda: f"the second of two equal values wins {k} of 1000")
    elif nm == "des":
        pop, problem, cv = population(rng, nm, n=6)
        c = np.zeros((6, 6))
        for _ in range(800):
            for r in DES("rand").do(problem, pop, 6, 3, to_pop=False, random_state=rs):
                c[r[0], r[1]] += 1
        mon.check(np.all(np.diag(c) == 0), "des:self", "the base is the target")
        for i in range(6):
            uniform_counts(mon, "des:uniform", np.delete(c[i], i), f"bases of target {i}")


def run_run(case, mon):
    """The tournaments of real runs."""
    import sys
    from pymoo.core.selection import Selection
    from pymoo.operators.selection.tournament import TournamentSelection
    prob, alg = obs.build(case)
    names = {id(f): k for k, f in functions().items() if k != "nsga2dom"}
    classes = set()

    def sub(c):
        for s in c.__subclasses__():
            classes.add(s)
            sub(s)
    sub(Selection)
    orig = {}

    def wrap(f):
        def do(self, problem, pop, n_select, n_parents, to_pop=True, *a, **kw):
            rec, fc = [], self.__dict__.get("func_comp")
            if fc is not None:
                def spy(pop_, P, *b, **k):
                    S = fc(pop_, P, *b, **k)
                    rec.append((pop_, np.array(P), np.ravel(S)))
                    return S
                self.func_comp = spy
            try:
                R = f(self, problem, pop, n_select, n_parents, to_pop, *a, **kw)
            finally:
                if fc is not None:
                    self.func_comp = fc
            mon.ev("in_run")
            mon.ev("selections")
            nm = type(self).__name__
            if isinstance(R, np.ndarray):
                shape(mon, "run:" + nm, pop, R, n_select, n_parents, R.dtype == object)
            loose = case["algo"].startswith(("Omni", "PINSGA2"))
            for pop_, P, S in rec:
                k = names.get(id(fc))
                if k == "nsga2" and getattr(kw.get("algorithm"), "tournament_type", None) == "comp_by_dom_and_crowding":
                    k = "nsga2dom"
                if k is None or loose and k.startswith("nsga2"):
                    continue
                judge(mon, k, pop_, P, S, "run:" + nm)
                if type(self) is TournamentSelection and len(pop_) == len(pop):
                    even(mon, P, len(pop), "run:" + nm)
                mon.state(case["algo"], P)
            return R
        return do
    for c in classes | {Selection}:
        if "do" in c.__dict__:
            orig[c] = c.__dict__["do"]
            c.do = wrap(orig[c])
    try:
        obs.setup(prob, alg, case)
        for _ in obs.steps(alg):
            pass
    finally:
        for c, f in orig.items():
            c.do = f


def run_targets(case, mon):
    """Differential evolution that creates fewer trials than it has members: every member is a target again and again.
    Each new point is better than all before it, so a member stays only as long as it is not chosen."""
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.core.problem import Problem
    rng = np.random.default_rng(case["seed"])
    n = int(rng.integers(6, 20))
    k = int(rng.integers(1, n))
    n_var = int(rng.integers(2, 5))

    class Better(Problem):
        def __init__(self):
            super().__init__(n_var=n_var, n_obj=1, xl=-1.0, xu=1.0)
            self.count = 0

        def _evaluate(self, X, out, *args, **kw):
            out["F"] = -(self.count + 1.0 + np.arange(len(X)))[:, None]
            self.count += len(X)
    var = str(rng.choice(["DE/rand/1/bin", "DE/rand/1/exp", "DE/rand/2/bin"] if n > 6 else ["DE/rand/1/bin"]))
    alg = DE(pop_size=n, n_offsprings=k, variant=var, CR=0.9, F=0.7)
    alg.setup(Better(), seed=case["seed"] % 1000, termination=("n_gen", 10 ** 6))
    alg.next()
    old = list(alg.pop)                  # (kept alive so that identities stay unique)
    first = {id(e) for e in old}
    T = int(np.ceil(32 / -np.log(1 - k / n))) if k < n else 40
    done = 0
    for _ in range(T):
        before = [id(e) for e in alg.pop]
        keep = list(alg.pop)
        alg.next()
        after = [id(e) for e in alg.pop]
        changed = sum(a != b for a, b in zip(before, after))
        mon.check(len(after) == n and changed <= k, "targets:many", lambda: f"{changed} of {n} members replaced by {k} trials")
        done += changed
        del keep
    left = sum(id(e) in first for e in alg.pop)
    mon.ev("targets", T)
    mon.check(left == 0, "targets:never", lambda: f"{left} of {n} members were never a target in {T} iterations with {k} trials each (each would be missed with probability {np.exp(-32):.0e})")
    mon.check(done >= 0.9 * k * T, "targets:lost", lambda: f"only {done} of {k * T} better trials replaced their target")
    mon.state("targets", n, k, var, done)


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)
