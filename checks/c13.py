"""C13: survivors are selected by the declared criterion."""
import numpy as np
from vlib import gen, obs, runs, zoo

RULE = ("populations of 17 families of objective values x 6 mixes of feasibility x sizes are handed to every survival strategy; survivors are judged against the declared order (feasible first, fronts, "
        "own criterion of the last front recomputed); the survival calls inside algorithm runs are judged by the common rules; distinct states are different (population, number of survivors) pairs")
REQUIRED = ["survivals", "splits", "infeasible_added", "criterion", "in_run", "replacements", "stochastic"]
ASSUMPTIONS = ["objective values are finite", "RVEA keeps one solution per direction and is only asked for members of the population and the smallest penalized distance"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 113])
    out = [dict(kind="direct", seed=int(rng.integers(1, 10 ** 9)), n=14 if tier == "quick" else 60) for _ in range(32 if tier == "quick" else 400)]
    out += [dict(kind="single", seed=int(rng.integers(1, 10 ** 9)), n=30) for _ in range(16 if tier == "quick" else 150)]
    for name, spec in runs.combos(rng, 1 if tier == "quick" else 6):
        out.append(dict(kind="run", algo=name, spec=spec, seed=int(rng.integers(1, 10 ** 6)), pop=int(rng.choice([8, 13, 20])), n_gen=6 if tier == "quick" else 20, cap=20000))
    return out


class Prob:
    """What a survival asks its problem for."""

    def __init__(self, n_obj, n_ieq, n_eq, n_var=3):
        from pymoo.core.problem import Problem
        self.p = Problem(n_var=n_var, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, xl=0.0, xu=1.0)


def make_pop(rng, F, mode, n_var=3):
    from pymoo.core.population import Population
    n = len(F)
    X = rng.random((n, n_var))
    if mode == "none":
        return Population.new(X=X, F=F.copy()), Prob(F.shape[1], 0, 0, n_var).p, np.zeros(n)
    if mode == "eq":
        H = rng.choice([0.0, 5e-5, -5e-5, 2e-4, -0.3, 1.0], (n, 1))
        G = gen.ieq(rng, n, "mixed")[:, :1]
        cv = np.maximum(G, 0).sum(axis=1) + np.maximum(np.abs(H) - 1e-4, 0).sum(axis=1)
        return Population.new(X=X, F=F.copy(), G=G, H=H), Prob(F.shape[1], 1, 1, n_var).p, cv
    G = gen.ieq(rng, n, mode)
    return Population.new(X=X, F=F.copy(), G=G), Prob(F.shape[1], 2, 0, n_var).p, np.maximum(G, 0).sum(axis=1)


MODES = ["none", "mixed", "all_feasible", "all_infeasible", "one_feasible", "ties", "eq"]


def pos(pop, surv):
    h = {id(x): i for i, x in enumerate(pop)}
    return [h.get(id(s), -1) for s in surv]


def basic(mon, nm, pop, surv, k, cv, exact=True):
    """Distinct members, the number asked for, feasible before infeasible. Returns indices."""
    I = pos(pop, surv)
    mon.ev("survivals")
    if not mon.check(-1 not in I and len(set(I)) == len(I), f"members:{nm}", lambda: f"{nm}: survivors {I} are not distinct members of the population"):
        return None
    if exact and not mon.check(len(I) == min(k, len(pop)), f"number:{nm}", lambda: f"{nm}: {len(I)} survivors of {len(pop)} instead of {k}"):
        return None
    if exact:
        n_feas = int((cv <= 0).sum())
        got = int((cv[I] <= 0).sum())
        mon.check(got == min(n_feas, len(I)), f"feasibility:{nm}", lambda: f"{nm}: {got} of {n_feas} feasible solutions survive among {len(I)}")
        inf = [i for i in I if cv[i] > 0]
        if inf:
            mon.ev("infeasible_added")
            out = [cv[i] for i in range(len(pop)) if i not in set(I)]
            if out and not nm.startswith(("Constr", "CADA")):
                mon.check(max(cv[inf]) <= min(c for c in out) + 1e-12 if min(out) > 0 else False, f"violation:{nm}", lambda: f"{nm}: an infeasible solution with violation {max(cv[inf])} was kept and one with {min(out)} dropped")
    return I


def fronts_respected(mon, nm, F, cv, I, rank=None):
    """No solution of a later front kept while one of an earlier front is dropped (among the feasible ones). Returns (kept, dropped) of the split front."""
    feas = np.where(cv <= 0)[0]
    if len(feas) == 0:
        return None
    r = np.full(len(F), -1)
    r[feas] = gen.ref_rank(F[feas])
    S = set(I)
    kept = [i for i in feas if i in S]
    drop = [i for i in feas if i not in S]
    if drop and kept:
        mon.check(max(r[kept]) <= min(r[drop]), f"fronts:{nm}", lambda: f"{nm}: a solution of front {max(r[kept])} was kept and one of front {min(r[drop])} dropped", F=F)
    if rank is not None:
        bad = [i for i in kept if rank[i] != r[i]]
        mon.check(not bad, f"rank:{nm}", lambda: f"{nm}: solution {bad[0]} has rank {rank[bad[0]]} instead of {r[bad[0]]}", F=F)
    if drop and kept:
        k = min(r[drop])
        a, b = [i for i in kept if r[i] == k], [i for i in drop if r[i] == k]
        if a and b:
            mon.ev("splits")
            return k, a, b, [i for i in feas if r[i] == k]
    return None


def strategies(m, rng):
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding, ConstrRankAndCrowding
    from pymoo.algorithms.moo.nsga2 import RankAndCrowdingSurvival
    from pymoo.algorithms.moo.nsga3 import ReferenceDirectionSurvival
    from pymoo.algorithms.moo.spea2 import SPEA2Survival
    from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival
    from pymoo.algorithms.moo.age import AGEMOEASurvival
    from pymoo.algorithms.moo.age2 import AGEMOEA2Survival
    from pymoo.algorithms.moo.rnsga2 import RankAndModifiedCrowdingSurvival
    from pymoo.algorithms.moo.rnsga3 import AspirationPointSurvival
    from pymoo.algorithms.moo.omni import OmniOptimizerSurvival
    from pymoo.algorithms.moo.rvea import APDSurvival
    from pymoo.algorithms.moo.cmopso import CrowdingDistanceTournamentSurvival
    out = {"RankAndCrowding": RankAndCrowding(), "RankAndCrowdingSurvival": RankAndCrowdingSurvival(), "Constr": ConstrRankAndCrowding(),
           "RC-ce": RankAndCrowding(crowding_func="ce"), "RC-pcd": RankAndCrowding(crowding_func="pcd"), "RC-mnn": RankAndCrowding(crowding_func="mnn"), "RC-2nn": RankAndCrowding(crowding_func="2nn"), "SPEA2": SPEA2Survival(), "SPEA2-norm": SPEA2Survival(normalize=True),
           "CMOPSO": CrowdingDistanceTournamentSurvival()}
    if m >= 2:
        rd = zoo.refs(m)
        out.update({"NSGA3": ReferenceDirectionSurvival(rd), "AGE": AGEMOEASurvival(), "AGE2": AGEMOEA2Survival(), "Omni": OmniOptimizerSurvival(),
                    "RNSGA2": RankAndModifiedCrowdingSurvival(rng.random((2, m)), 0.001, np.ones(m) / m, str(rng.choice(["front", "ever", "no"])), False),
                    "RNSGA3": AspirationPointSurvival(rng.random((2, m)), zoo.refs(m)), "RVEA": APDSurvival(rd)})
    if 2 <= m <= 4:
        out["SMS"] = LeastHypervolumeContributionSurvival()
    return out


def run(case, mon):
    {"direct": direct, "single": single, "run": in_run}[case["kind"]](case, mon)


def direct(case, mon):
    rng = np.random.default_rng(case["seed"])
    kinds = [k for k in gen.KINDS if k not in ("inf", "single", "tiny")]
    for _ in range(case["n"]):
        F, kind = gen.matrix(rng, kind=str(rng.choice(kinds)), n=int(rng.choice([1, 2, 3, 5, 8, 14, 22, 40])), mmax=4)
        n, m = F.shape
        mode = str(rng.choice(MODES))
        k = int(rng.choice([1, max(1, n // 3), max(1, n // 2), max(1, n - 1), n, n + 3]))
        for nm, S in strategies(m, rng).items():
            pop, prob, cv = make_pop(rng, F, mode)
            feas = cv <= 0
            if nm in ("AGE", "AGE2", "RNSGA2", "RNSGA3", "RVEA", "SMS", "SPEA2-norm") and kind in ("equal", "constcol", "huge", "mixedscale", "chain", "nearly", "binary", "int", "twocol_tie", "dups"):
                if rng.random() < 0.5:
                    continue
            kw = dict(n_gen=3, n_max_gen=10) if nm == "RVEA" else {}
            args = dict(n_survive=k, random_state=np.random.default_rng(int(rng.integers(10 ** 6))), **kw)
            X0 = [i.X.copy() for i in pop]
            with np.errstate(all="ignore"):
                try:
                    surv = S.do(prob, pop, **args)
                except Exception as e:
                    mon.viol(f"raises:{nm}", f"{nm} of {kind} {F.shape}, {mode}, {k} survivors raised {type(e).__name__}: {e}", F=F)
                    continue
            mon.state(F, k, mode)
            mon.check(all(np.array_equal(i.F, f) for i, f in zip(pop, F)) and all(np.array_equal(i.X, x) for i, x in zip(pop, X0)), f"modified:{nm}", f"{nm} modified the solutions")
            I = basic(mon, nm, pop, surv, k, cv, exact=nm != "RVEA")
            if I is None:
                continue
            if nm == "RVEA":
                rvea(mon, S, pop, F, cv, I, prob)
                continue
            if nm in ("Constr",) and mode != "none":
                constr(mon, pop, cv, I)
            if nm in ("SPEA2", "SPEA2-norm"):
                spea2(mon, nm, pop, F, cv, I, k)
                continue
            if nm == "CMOPSO":
                continue
            if nm == "Omni":
                omni(mon, S, pop, F, cv, I)
                continue
            rank = {i: pop[i].get("rank") for i in I}
            sp = fronts_respected(mon, nm, F, cv, I, rank)
            if sp is None:
                continue
            fr, kept, drop, members = sp
            if nm in ("RankAndCrowding", "RankAndCrowdingSurvival", "Constr", "RC-ce", "RC-pcd", "RC-mnn", "RC-2nn", "RNSGA2"):
                c = {i: pop[i].get("crowding") for i in members}
                mon.ev("criterion")
                mon.check(min(c[i] for i in kept) >= max(c[i] for i in drop), f"crowding:{nm}", lambda: f"{nm}: kept a solution with crowding {min(c[i] for i in kept)} and dropped one with {max(c[i] for i in drop)}", F=F)
                if nm in ("RankAndCrowding", "RankAndCrowdingSurvival", "Constr"):
                    from checks.c12 import ref_cd, close
                    w = ref_cd(F[members]) if len(members) > 2 else np.full(len(members), np.inf)
                    mon.check(close([c[i] for i in members], w), f"crowding-value:{nm}", lambda: f"{nm}: crowding {[c[i] for i in members]} instead of {w}", F=F)
            elif nm == "NSGA3":
                nsga3(mon, pop, I, members, kept, drop)
            elif nm == "SMS":
                sms(mon, F, cv, I, members, kept, k)
            mon.note(strategy=nm, mode=mode, survivors=I, F=F)


def constr(mon, pop, cv, I):
    """Infeasible solutions survive by the fronts of their violations, then by the sum of them."""
    inf = np.where(cv > 0)[0]
    keep = [i for i in inf if i in set(I)]
    drop = [i for i in inf if i not in set(I)]
    if not keep or not drop:
        return
    C = np.array([np.concatenate([np.maximum(pop[i].G, 0), np.abs(pop[i].H)]) for i in inf])
    r = dict(zip(inf, gen.ref_rank(C)))
    mon.ev("criterion")
    a, b = max(r[i] for i in keep), min(r[i] for i in drop)
    mon.check(a <= b, "fronts:violations", lambda: f"an infeasible solution of front {a} of the violations was kept and one of front {b} dropped")
    if a == b:
        x, y = max(cv[i] for i in keep if r[i] == a), min(cv[i] for i in drop if r[i] == a)
        mon.check(x <= y + 1e-12, "violation:Constr", lambda: f"violation {x} kept and {y} dropped in the same front")


def omni(mon, S, pop, F, cv, I):
    feas = np.where(cv <= 0)[0]
    if len(feas) == 0:
        return
    G = F[feas]
    eps = S.delta * (G.max(axis=0) - G.min(axis=0))
    le = np.all(G[:, None] <= G[None], axis=2)
    by = np.any(G[:, None] + eps < G[None], axis=2)
    D = le & by
    left, r, k = np.ones(len(feas), bool), np.zeros(len(feas), int), 0
    while left.any():
        f = left & ~(D & left[:, None]).any(axis=0)
        r[f] = k
        left &= ~f
        k += 1
    R = dict(zip(feas, r))
    kept, drop = [i for i in feas if i in set(I)], [i for i in feas if i not in set(I)]
    for i in kept:
        if not mon.check(pop[i].get("rank") == R[i], "rank:Omni", lambda: f"rank {pop[i].get('rank')} instead of {R[i]}", F=F):
            return
    if kept and drop:
        mon.check(max(R[i] for i in kept) <= min(R[i] for i in drop), "fronts:Omni", "a later front was kept", F=F)
        k = min(R[i] for i in drop)
        a, b = [pop[i].get("crowding") for i in kept if R[i] == k], [pop[i].get("crowding") for i in drop if R[i] == k]
        if a and b:
            mon.ev("criterion")
            mon.check(min(a) >= max(b), "crowding:Omni", lambda: f"kept crowding {min(a)} and dropped {max(b)}", F=F)


def spea2(mon, nm, pop, F, cv, I, k):
    feas = np.where(cv <= 0)[0]
    if len(feas) == 0:
        return
    G = F[feas]
    D = obs.dom_matrix(G, G)
    S = D.sum(axis=1)
    R = (D * S[:, None]).sum(axis=0)
    nd = set(feas[~D.any(axis=0)].tolist())
    ks = min(k, len(feas))
    kept = [i for i in I if i in set(feas.tolist())]
    raw = {i: r for i, r in zip(feas.tolist(), R)}
    bad = [i for i in feas.tolist() if pop[i].get("SPEA_R") != raw[i]]
    mon.check(not bad, f"raw:{nm}", lambda: f"raw fitness {pop[bad[0]].get('SPEA_R')} instead of {raw[bad[0]]}", F=F)
    mon.ev("criterion")
    if len(nd) <= ks:
        mon.check(nd <= set(kept), f"non-dominated:{nm}", "a non-dominated solution was dropped though there was room", F=F)
        drop = [i for i in feas.tolist() if i not in set(kept)]
        rest = [i for i in kept if i not in nd]
        if nm == "SPEA2" and rest and drop:
            dist = np.sqrt(((G[:, None] - G[None]) ** 2).sum(axis=2))
            np.fill_diagonal(dist, np.inf)
            kk = min(int(np.sqrt(len(feas))), len(feas) - 1)
            fit = dict(zip(feas.tolist(), R + 1 / (np.sort(dist, axis=1)[:, kk] + 2)))
            a, b = max(fit[i] for i in rest), min(fit[i] for i in drop)
            mon.check(a <= b + 1e-9 * max(1.0, abs(b)), f"fitness:{nm}", lambda: f"fitness {a} kept and {b} dropped", F=F)
    else:
        mon.check(set(kept) <= nd, f"non-dominated:{nm}", "a dominated solution was kept while a non-dominated one was dropped", F=F)
        if nm == "SPEA2":
            mon.ev("splits")
            loc = {i: j for j, i in enumerate(feas.tolist())}
            left = sorted(nd)
            dist = np.sqrt(((G[:, None] - G[None]) ** 2).sum(axis=2))
            np.fill_diagonal(dist, np.inf)
            while len(left) > ks:
                J = [loc[i] for i in left]
                V = np.sort(dist[np.ix_(J, J)], axis=1)
                o = np.lexsort(V.T[::-1])
                a, b = V[o[0]], V[o[1]]
                first = np.where(~np.isclose(a[:-1], b[:-1], rtol=1e-9, atol=1e-300))[0]
                if len(first) == 0 or abs(b[first[0]] - a[first[0]]) < 1e-9 * abs(b[first[0]]) or not np.array_equal(a[:first[0]], b[:first[0]]):
                    return
                left.pop(int(o[0]))
            mon.check(set(left) == set(kept), f"truncation:{nm}", lambda: f"truncation keeps {sorted(kept)} instead of {left}", F=F)


def nsga3(mon, pop, I, members, kept, drop):
    """Balance of the niches: nothing is taken from a crowded niche while a less crowded one has candidates."""
    niche = {i: int(pop[i].get("niche")) for i in set(I) | set(members)}
    dist = {i: float(pop[i].get("dist_to_niche")) for i in members}
    sp = set(members)
    feas = [i for i in I if np.all(pop[i].CV <= 0)]
    pre, post = {}, {}
    for i in feas:
        post[niche[i]] = post.get(niche[i], 0) + 1
        if i not in sp:
            pre[niche[i]] = pre.get(niche[i], 0) + 1
    mon.ev("criterion")
    for d in {niche[i] for i in drop}:
        for t in {niche[i] for i in kept}:
            mon.check(post.get(d, 0) >= post[t] - 1, "niches:NSGA3", lambda: f"niche {d} has {post.get(d, 0)} solutions and candidates left, but niche {t} was filled to {post[t]}")
    for t in {niche[i] for i in kept}:
        if pre.get(t, 0) == 0:
            a = min(dist[i] for i in kept if niche[i] == t)
            b = [dist[i] for i in drop if niche[i] == t]
            mon.check(not b or a <= min(b) + 1e-12, "closest:NSGA3", lambda: f"the closest solution ({min(b)}) of the empty niche {t} was dropped and one with {a} kept")


def sms(mon, F, cv, I, members, kept, k):
    feas = np.where(cv <= 0)[0]
    z, w = F[feas].min(axis=0), F[feas].max(axis=0)
    if np.any(w - z < 1e-9 * np.maximum(1, np.abs(w))) or len(members) > 14:
        return
    N = (F - z) / (w - z)
    ref = np.full(F.shape[1], 11.0)
    left = list(members)
    while len(left) > len(kept):
        tot = gen.hv(N[left], ref)
        c = np.array([tot - gen.hv(N[[j for j in left if j != i]], ref) for i in left])
        o = np.argsort(c)
        if c[o[1]] - c[o[0]] < 1e-9 * tot:
            return
        left.pop(int(o[0]))
    mon.ev("criterion")
    mon.check(set(left) == set(kept), "contribution:SMS", lambda: f"keeps {sorted(kept)} instead of {sorted(left)}", F=F)


def rvea(mon, S, pop, F, cv, I, prob):
    """One survivor for each direction with feasible solutions: the one with the smallest penalized distance."""
    feas = np.where(cv <= 0)[0]
    if len(feas) == 0 or len(feas) < 1:
        return
    G = F[feas] - F[feas].min(axis=0)
    d = np.maximum(np.linalg.norm(G, axis=1), 1e-64)
    V = S.ref_dirs / np.linalg.norm(S.ref_dirs, axis=1)[:, None]
    with np.errstate(invalid="ignore"):
        ang = np.arccos(np.clip((G / d[:, None]) @ V.T, -1, 1))
    cos = V @ V.T
    np.fill_diagonal(cos, -np.inf)
    gamma = np.arccos(np.clip(cos.max(axis=1), -1, 1))
    srt = np.sort(ang, axis=1)
    if np.any(srt[:, 1] - srt[:, 0] < 1e-6):
        return
    niche = ang.argmin(axis=1)
    M = F.shape[1] if F.shape[1] > 2 else 1.0
    apd = d * (1 + M * (3 / 10) ** 2.0 * ang[np.arange(len(d)), niche] / gamma[niche])
    want = set()
    for t in set(niche):
        J = np.where(niche == t)[0]
        a = np.sort(apd[J])
        if len(a) > 1 and a[1] - a[0] < 1e-9 * max(1, a[1]):
            return
        want.add(int(feas[J[apd[J].argmin()]]))
    mon.ev("criterion")
    kept = {i for i in I if cv[i] <= 0}
    mon.check(kept == want, "apd:RVEA", lambda: f"keeps {sorted(kept)} instead of {sorted(want)}", F=F)


# ------------------------------------------------------------------ one objective

def single(case, mon):
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    from pymoo.algorithms.soo.nonconvex.ga_niching import EpsilonClearingSurvival
    from pymoo.algorithms.soo.nonconvex.sres import StochasticRankingSurvival
    from pymoo.algorithms.soo.nonconvex.brkga import EliteSurvival
    from pymoo.algorithms.soo.nonconvex.nrbo import FitnessSurvival as NRBOFitness
    from pymoo.core.survival import ToReplacement, split_by_feasibility
    from pymoo.core.replacement import ImprovementReplacement, is_better
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        n = int(rng.choice([1, 2, 3, 6, 11, 25]))
        F = (rng.random((n, 1)) * 10 - 5) if rng.random() < 0.5 else rng.integers(-2, 3, (n, 1)).astype(float)
        mode = str(rng.choice(MODES))
        k = int(rng.choice([1, max(1, n // 2), n, n + 2]))
        pop, prob, cv = make_pop(rng, F, mode)
        f = F[:, 0]
        order = sorted(range(n), key=lambda i: (cv[i], f[i]))       # violation first
        mon.state(F, cv, k)
        for nm, S in (("Fitness", FitnessSurvival()), ("NRBO", NRBOFitness())):
            surv = S.do(prob, pop, n_survive=k)
            I = basic(mon, nm, pop, surv, k, cv)
            if I is None:
                continue
            mon.ev("criterion")
            key = [(cv[i], f[i]) for i in I]
            mon.check(key == [(cv[i], f[i]) for i in order[:k]], f"best:{nm}", lambda: f"{nm} keeps {key} instead of {[(cv[i], f[i]) for i in order[:k]]}")
            rk = [pop[i].get("rank") for i in range(n)]
            mon.check(sorted(rk) == list(range(n)) and all((cv[a], f[a]) <= (cv[b], f[b]) for a in range(n) for b in range(n) if rk[a] < rk[b]), f"rank:{nm}", lambda: f"ranks {rk} of (violation, objective) {list(zip(cv, f))}")
            J = S.do(prob, pop, n_survive=k, return_indices=True)
            mon.check([(cv[i], f[i]) for i in J] == key, f"indices:{nm}", "the indices do not belong to the survivors")
        fe, inf = split_by_feasibility(pop, sort_infeas_by_cv=True, sort_feas_by_obj=True)
        mon.check(set(fe) == set(np.where(cv <= 0)[0]) and set(inf) == set(np.where(cv > 0)[0]), "split", "feasible and infeasible solutions are mixed up")
        mon.check(np.all(np.diff(f[fe]) >= 0) and np.all(np.diff(cv[inf]) >= 0), "split-order", "the parts are not sorted")

        # clearing
        eps = float(rng.choice([0.05, 0.3, 1.0]))
        kk = min(k, n)
        surv = EpsilonClearingSurvival(eps).do(prob, pop, n_survive=k)
        I = basic(mon, "Clearing", pop, surv, k, np.zeros(n))
        if I is not None:
            X = np.array([i.X for i in pop])
            ordered = list(FitnessSurvival().do(prob, pop, n_survive=n))
            o = pos(pop, ordered)
            left, sel = list(o), []
            cleared = set()
            amb = False
            while len(sel) < kk:
                rem = [i for i in o if i not in cleared and i not in sel]
                if not rem:
                    cleared = set()
                    rem = [i for i in o if i not in sel]
                b = rem[0]
                sel.append(b)
                dist = np.linalg.norm(X - X[b], axis=1)
                amb |= bool(np.any(np.abs(dist - eps) < 1e-9))
                cleared |= {i for i in range(n) if dist[i] < eps}
            if not amb:
                mon.ev("criterion")
                mon.check([(cv[i], f[i]) for i in I] == [(cv[i], f[i]) for i in sel], "clearing", lambda: f"clearing keeps {I} instead of {sel}")

        # stochastic ranking
        for PR in (0.0, 0.45, 1.0):
            surv = StochasticRankingSurvival(PR).do(prob, pop, n_survive=k, random_state=np.random.default_rng(1))
            mon.ev("stochastic")
            I = basic(mon, "SRES", pop, surv, k, np.zeros(n))
            if I is None:
                continue
            if PR == 0.0 or (cv <= 0).all():
                mon.check([(cv[i], f[i]) for i in I] == [(cv[i], f[i]) for i in sorted(range(n), key=lambda i: (cv[i], f[i] if cv[i] <= 0 else 0))[:k]] or
                          ([cv[i] for i in I] == sorted(cv)[:k] and [f[i] for i in I if cv[i] <= 0] == sorted(f[cv <= 0])[:k]), "stochastic:0", lambda: f"without randomness: {[(cv[i], f[i]) for i in I]}")
            elif PR == 1.0:
                mon.check([f[i] for i in I] == sorted(f)[:k], "stochastic:1", lambda: f"objective only: {[f[i] for i in I]} instead of {sorted(f)[:k]}")

        # elites
        ne = int(rng.integers(1, n + 1))
        surv = EliteSurvival(ne).do(prob, pop, n_survive=n)
        I = basic(mon, "BRKGA", pop, surv, n, cv)
        if I is not None:
            el = sorted((cv[i], f[i]) for i in I if pop[i].get("type") == "elite")
            mon.check(el == [(cv[i], f[i]) for i in order[:ne]], "elites", lambda: f"elites {el} instead of {[(cv[i], f[i]) for i in order[:ne]]}")

        # replacement
        off, _, cv2 = make_pop(rng, np.where(rng.random((n, 1)) < 0.3, F, rng.integers(-2, 3, (n, 1)).astype(float)), mode)
        same = rng.random(n) < 0.2
        for i in np.where(same)[0]:
            off[i].X = pop[rng.integers(n)].X.copy()
        g = off.get("F")[:, 0]
        XP = [i.X.tobytes() for i in pop]
        XO = [i.X.tobytes() for i in off]
        want = []
        for i in range(n):
            if cv[i] > 0 and cv2[i] > 0:
                b = cv2[i] < cv[i]
            elif cv[i] > 0 or cv2[i] > 0:
                b = cv[i] > 0
            else:
                b = g[i] < f[i]
            want.append(bool(b and XO[i] not in XP and XO[i] not in XO[:i]))
        before = list(pop)
        ret = ImprovementReplacement().do(prob, pop, off, return_indices=True)
        mon.ev("replacements")
        got = [bool(b) for b in ret]
        ok = [i for i in range(n) if XO[i] not in XO[:i] and XO.count(XO[i]) == 1]
        mon.check(all(got[i] == want[i] for i in ok), "replacement", lambda: f"replaced {got} instead of {want}", cv=cv, cv2=cv2, f=f, g=g)
        new = ImprovementReplacement().do(prob, pop, off)
        mon.check(all(a is b for a, b in zip(pop, before)), "replacement-inplace", "the population was modified though a copy was asked for")
        mon.check(all((a is off[i]) if got[i] else (a is pop[i]) for i, a in enumerate(new)), "replacement-result", "the new population does not follow the replacement")
        for i in range(n):
            b = cv2[i] < cv[i] if (cv[i] > 0 and cv2[i] > 0) else (cv[i] > 0 if (cv[i] > 0 or cv2[i] > 0) else g[i] < f[i])
            mon.check(is_better(off[i], pop[i]) == bool(b), "is_better", lambda: f"is_better of {(cv2[i], g[i])} and {(cv[i], f[i])}")
        P2 = pop.copy()
        new = ToReplacement(FitnessSurvival()).do(prob, P2, off, n_survive=n, random_state=np.random.default_rng(1))
        for i in range(n):
            a, b = (cv2[i], g[i]), (cv[i], f[i])
            if a != b:
                mon.check((new[i] is off[i]) == (a < b), "to-replacement", lambda: f"{(b)} against offspring {(a)}: {'offspring' if new[i] is off[i] else 'parent'} survived")


# ------------------------------------------------------------------ inside runs

def in_run(case, mon):
    from pymoo.core.survival import Survival
    orig = Survival.do
    name = case["algo"]
    EXACT = {"RankAndCrowding", "RankAndCrowdingSurvival", "ReferenceDirectionSurvival", "SPEA2Survival", "LeastHypervolumeContributionSurvival", "AGEMOEASurvival", "AGEMOEA2Survival",
             "RankAndModifiedCrowdingSurvival", "AspirationPointSurvival", "FitnessSurvival", "CrowdingDistanceTournamentSurvival", "ConstrRankAndCrowding", "OmniOptimizerSurvival"}
    FRONT = {"RankAndCrowding", "RankAndCrowdingSurvival", "ReferenceDirectionSurvival", "LeastHypervolumeContributionSurvival", "AGEMOEASurvival", "AGEMOEA2Survival", "RankAndModifiedCrowdingSurvival", "AspirationPointSurvival", "ConstrRankAndCrowding"}

    def do(self, problem, pop, *args, **kwargs):
        ret = orig(self, problem, pop, *args, **kwargs)
        nm = type(self).__name__
        if nm in EXACT and len(pop) and not kwargs.get("return_indices") and all(obs.is_evaluated(i) for i in pop):
            k = kwargs.get("n_survive")
            k = len(pop) if k is None else k
            cv = np.array([float(np.asarray(i.CV).ravel()[0]) for i in pop]) if problem.has_constraints() else np.zeros(len(pop))
            mon.ev("in_run")
            I = basic(mon, f"{nm}@{name}", pop, ret, k, cv if nm != "ConstrRankAndCrowding" else np.minimum(cv, cv > 0), True) if nm != "ConstrRankAndCrowding" else pos(pop, ret)
            if I is not None and nm in FRONT and getattr(getattr(self, "nds", None), "dominator", None) is None:
                F = np.array([i.F for i in pop], float)
                fronts_respected(mon, f"{nm}@{name}", F, cv, I)
                mon.state(F, k)
        return ret

    Survival.do = do
    try:
        prob, alg = obs.build(case)
        obs.setup(prob, alg, case)
        for _ in obs.steps(alg):
            pass
    finally:
        Survival.do = orig
