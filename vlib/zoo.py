"""The algorithms under observation: how to build them, and what each promises.

tags  so/mo            number of objectives
      var              variable types ("real", "int", "bin", "perm", "mixed")
      cons             handles constraints ("yes"), or refuses/ignores them ("no")
      opt              meaning of the reported optimum: "best" (one objective), "pareto" (non-dominated part of the
                       population), "refdir"/"subset" (a subset of it), "archive" (own archive), "all", "niche"
      elitist          the reported optimum never gets worse
      pop              a population size parameter is respected exactly
      asktell          follows infill/advance
"""
import numpy as np


def refs(n_obj, n=12):
    from pymoo.util.ref_dirs import get_reference_directions
    p = {2: 11, 3: 4, 4: 3, 5: 2}.get(n_obj, 2)
    return get_reference_directions("das-dennis", n_obj, n_partitions=p)


Z = {}


def reg(name, so=False, mo=False, var=("real",), cons="yes", opt=None, elitist=False, asktell=True, **kw):
    def deco(f):
        Z[name] = dict(name=name, make=f, so=so, mo=mo, var=var, cons=cons, opt=opt or ("best" if so and not mo else "pareto"),
                       elitist=elitist, asktell=asktell, **kw)
        return f
    return deco


# ------------------------------------------------------------------ single objective

@reg("GA", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.ga import GA
    return GA(pop_size=n)


def _ops(kind):
    from pymoo.operators.crossover.binx import BX
    from pymoo.operators.crossover.dex import DEX
    from pymoo.operators.crossover.erx import ERX
    from pymoo.operators.crossover.expx import ExponentialCrossover
    from pymoo.operators.crossover.hux import HUX
    from pymoo.operators.crossover.nox import NoCrossover
    from pymoo.operators.crossover.ox import OrderCrossover
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.crossover.pntx import PointCrossover, SinglePointCrossover, TwoPointCrossover
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.spx import SPX
    from pymoo.operators.crossover.ux import UniformCrossover
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.mutation.gauss import GaussianMutation
    from pymoo.operators.mutation.inversion import InversionMutation
    from pymoo.operators.mutation.nom import NoMutation
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.rm import ChoiceRandomMutation
    from pymoo.operators.repair.bounce_back import BounceBackOutOfBoundsRepair
    from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.repair.to_bound import ToBoundOutOfBoundsRepair
    from pymoo.operators.sampling.lhs import LHS
    from pymoo.operators.sampling.rnd import BinaryRandomSampling, FloatRandomSampling, IntegerRandomSampling, PermutationRandomSampling
    from pymoo.operators.selection.rnd import RandomSelection
    return locals()


def ga_variant(p, n, xover, mut, multi, **kw):
    o = _ops("")
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.moo.nsga2 import NSGA2
    cls = NSGA2 if multi else GA
    X = {"sbx": lambda: o["SBX"](), "sbx_all": lambda: o["SBX"](prob=1.0, prob_var=1.0, eta=1), "ux": lambda: o["UniformCrossover"](),
         "hux": lambda: o["HUX"](), "exp": lambda: o["ExponentialCrossover"](), "spx": lambda: o["SinglePointCrossover"](),
         "2px": lambda: o["TwoPointCrossover"](), "bx": lambda: o["BX"](), "dex": lambda: o["DEX"](), "pcx": lambda: o["PCX"](),
         "nox": lambda: o["NoCrossover"](), "ox": lambda: o["OrderCrossover"](), "erx": lambda: o["ERX"](),
         "sbxint": lambda: o["SBX"](vtype=float, repair=o["RoundingRepair"]()), "spx2": lambda: o["SPX"]()}[xover]()
    M = {"pm": lambda: o["PM"](), "pm_all": lambda: o["PM"](prob=1.0, prob_var=1.0, eta=2), "gauss": lambda: o["GaussianMutation"](), "bitflip": lambda: o["BitflipMutation"](),
         "gauss_wide": lambda: o["GaussianMutation"](sigma=0.9, prob_var=0.9), "inv": lambda: o["InversionMutation"](), "nom": lambda: o["NoMutation"](),
         "pmint": lambda: o["PM"](vtype=float, repair=o["RoundingRepair"]())}[mut]()
    return cls(pop_size=n, crossover=X, mutation=M, **kw)


def _reg_variants():
    real = [("sbx_all", "pm_all"), ("ux", "pm"), ("hux", "gauss"), ("exp", "gauss_wide"), ("spx", "pm"), ("2px", "gauss"),
            ("dex", "pm"), ("pcx", "pm"), ("nox", "pm_all"), ("bx", "pm")]
    for multi in (False, True):
        base = "NSGA2" if multi else "GA"
        for x, m in real:
            reg(f"{base}-{x}-{m}", so=not multi, mo=multi, elitist=not multi, variant=True)(
                lambda p, n, x=x, m=m, multi=multi: ga_variant(p, n, x, m, multi))
        for x, m in [("2px", "bitflip"), ("ux", "bitflip"), ("hux", "bitflip"), ("spx", "bitflip"), ("nox", "bitflip"), ("bx", "bitflip")]:
            reg(f"{base}-bin-{x}", so=not multi, mo=multi, var=("bin",), elitist=not multi, variant=True)(
                lambda p, n, x=x, m=m, multi=multi: ga_variant(p, n, x, m, multi, sampling=_ops("")["BinaryRandomSampling"]()))
        for x, m in [("sbxint", "pmint"), ("ux", "pmint"), ("hux", "pmint")]:
            reg(f"{base}-int-{x}", so=not multi, mo=multi, var=("int",), elitist=not multi, variant=True)(
                lambda p, n, x=x, m=m, multi=multi: ga_variant(p, n, x, m, multi, sampling=_ops("")["IntegerRandomSampling"]()))
        for x, m in [("ox", "inv"), ("erx", "inv"), ("nox", "inv")]:
            reg(f"{base}-perm-{x}", so=not multi, mo=multi, var=("perm",), elitist=not multi, variant=True)(
                lambda p, n, x=x, m=m, multi=multi: ga_variant(p, n, x, m, multi, sampling=_ops("")["PermutationRandomSampling"]()))


_reg_variants()


@reg("GA-steady", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.ga import GA
    return GA(pop_size=n, n_offsprings=1)


@reg("GA-nodup", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.ga import GA
    return GA(pop_size=n, eliminate_duplicates=False, n_offsprings=n // 2)


@reg("NSGA2-lhs-bounce", mo=True)
def _(p, n):
    o = _ops("")
    from pymoo.algorithms.moo.nsga2 import NSGA2
    return NSGA2(pop_size=n, sampling=o["LHS"](), repair=o["BounceBackOutOfBoundsRepair"]())


@reg("DE", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.de import DE
    return DE(pop_size=n)


for _i, _v in enumerate(["DE/rand/1/bin", "DE/best/2/bin", "DE/target-to-best/1/exp", "DE/rand/2/exp"]):
    @reg("DE-" + _v.replace("/", "_"), so=True, elitist=True, variant=True)
    def _(p, n, _v=_v):
        from pymoo.algorithms.soo.nonconvex.de import DE
        return DE(pop_size=n, variant=_v, CR=0.7, F=0.9)


@reg("DE-control", so=True, elitist=True, variant=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.operators.control import EvolutionaryParameterControl
    return DE(pop_size=n, control=EvolutionaryParameterControl)


def _controlled(n, which):
    from pymoo.algorithms.soo.nonconvex.ga import GA, comp_by_cv_and_fitness
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.operators.control import EvolutionaryParameterControl, ParameterControlMating, RandomParameterControl
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.selection.tournament import TournamentSelection
    sel = TournamentSelection(func_comp=comp_by_cv_and_fitness)
    m = ParameterControlMating(sel, SBX(), PM(), control=EvolutionaryParameterControl if which == "evo" else RandomParameterControl, eliminate_duplicates=DefaultDuplicateElimination())
    return GA(pop_size=n, mating=m)


@reg("GA-control-evo", so=True, elitist=True, variant=True)
def _(p, n):
    return _controlled(n, "evo")


@reg("GA-control-random", so=True, elitist=True, variant=True)
def _(p, n):
    return _controlled(n, "random")


@reg("PSO", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    return PSO(pop_size=n)


@reg("PSO-plain", so=True, elitist=True, variant=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    return PSO(pop_size=n, adaptive=False, pertube_best=False, initial_velocity="zero", w=0.7)


@reg("EPPSO", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO
    return EPPSO(pop_size=n)


@reg("ES", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.es import ES
    return ES(n_offsprings=n, pop_size=max(2, n // 5))


@reg("SRES", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.sres import SRES
    return SRES(n_offsprings=n, pop_size=max(2, n // 5))


@reg("ISRES", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.isres import ISRES
    return ISRES(n_offsprings=n, pop_size=max(2, n // 5))


@reg("BRKGA", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    return BRKGA(n_elites=max(2, n // 3), n_offsprings=n, n_mutants=max(1, n // 4))


@reg("G3PCX", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    return G3PCX(pop_size=n)


@reg("EpsDE", so=True, opt="pop")
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
    return AdaptiveEpsilonConstraintHandling(DE(pop_size=n), perc_eps_until=0.5)


@reg("EpsGA", so=True, opt="pop")
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
    return AdaptiveEpsilonConstraintHandling(GA(pop_size=n), perc_eps_until=0.5)


@reg("NRBO", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.nrbo import NRBO
    return NRBO(pop_size=n, max_iteration=15)


@reg("NelderMead", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
    return NelderMead()


@reg("PatternSearch", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
    return PatternSearch()


@reg("CMAES", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
    return CMAES(pop_size=max(4, n // 2))


@reg("CMAES-serial", so=True, elitist=True, variant=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
    return CMAES(pop_size=max(4, n // 2), parallelize=False, normalize=False, sigma=0.3)


@reg("SimpleCMAES", so=True, elitist=False)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.cmaes import SimpleCMAES
    return SimpleCMAES()


@reg("DIRECT", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.direct import DIRECT
    return DIRECT()


@reg("RandomSearch", so=True, elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.random_search import RandomSearch
    return RandomSearch(n_points_per_iteration=n)


@reg("NicheGA", so=True, opt="niche")
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.ga_niching import NicheGA
    return NicheGA(pop_size=n)


# ------------------------------------------------------------------ multi objective

@reg("NSGA2", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.nsga2 import NSGA2
    return NSGA2(pop_size=n)


for _c in ("pcd", "ce", "mnn", "2nn"):
    @reg("NSGA2-" + _c, mo=True, variant=True)
    def _(p, n, _c=_c):
        from pymoo.algorithms.moo.nsga2 import NSGA2
        from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
        return NSGA2(pop_size=n, survival=RankAndCrowding(crowding_func=_c))


@reg("NSGA2-constr", mo=True, variant=True)
def _(p, n):
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.operators.survival.rank_and_crowding import ConstrRankAndCrowding
    return NSGA2(pop_size=n, survival=ConstrRankAndCrowding())


@reg("NSGA2-steady", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.nsga2 import NSGA2
    return NSGA2(pop_size=n, n_offsprings=3)


@reg("RNSGA2", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.rnsga2 import RNSGA2
    return RNSGA2(np.vstack([np.full(p.n_obj, 0.3), np.linspace(0.1, 0.7, p.n_obj)]), pop_size=n)


@reg("NSGA3", mo=True, opt="refdir")
def _(p, n):
    from pymoo.algorithms.moo.nsga3 import NSGA3
    return NSGA3(refs(p.n_obj))


@reg("UNSGA3", mo=True, opt="refdir")
def _(p, n):
    from pymoo.algorithms.moo.unsga3 import UNSGA3
    return UNSGA3(refs(p.n_obj), pop_size=n + 3)


@reg("RNSGA3", mo=True, opt="refdir")
def _(p, n):
    from pymoo.algorithms.moo.rnsga3 import RNSGA3
    return RNSGA3(np.vstack([np.full(p.n_obj, 0.3), np.linspace(0.1, 0.7, p.n_obj)]), pop_per_ref_point={2: 8, 3: 10}.get(p.n_obj, 20 if p.n_obj == 4 else 15), mu=0.1)


@reg("MOEAD", mo=True, cons="no")
def _(p, n):
    from pymoo.algorithms.moo.moead import MOEAD
    return MOEAD(refs(p.n_obj), n_neighbors=5)


@reg("ParallelMOEAD", mo=True, cons="no")
def _(p, n):
    from pymoo.algorithms.moo.moead import ParallelMOEAD
    return ParallelMOEAD(refs(p.n_obj), n_neighbors=5)


@reg("AGEMOEA", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.age import AGEMOEA
    return AGEMOEA(pop_size=n)


@reg("AGEMOEA2", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.age2 import AGEMOEA2
    return AGEMOEA2(pop_size=n)


@reg("CTAEA", mo=True, opt="subset")
def _(p, n):
    from pymoo.algorithms.moo.ctaea import CTAEA
    return CTAEA(refs(p.n_obj))


@reg("SMSEMOA", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.sms import SMSEMOA
    return SMSEMOA(pop_size=n)


@reg("RVEA", mo=True, opt="all")
def _(p, n):
    from pymoo.algorithms.moo.rvea import RVEA
    return RVEA(refs(p.n_obj))


@reg("SPEA2", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.spea2 import SPEA2
    return SPEA2(pop_size=n)


@reg("DNSGA2", mo=True, cons="no")
def _(p, n):
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    return DNSGA2(pop_size=n)


@reg("KGB", mo=True, cons="no")
def _(p, n):
    from pymoo.algorithms.moo.kgb import KGB
    return KGB(pop_size=n)


@reg("PINSGA2", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.pinsga2 import PINSGA2, AutomatedDM

    class DM(AutomatedDM):
        def __init__(self):
            super().__init__()

        def makeDecision(self, F):
            return F[:, 0].argsort(kind="stable")

        def makePairwiseDecision(self, F):
            return self.makeDecision(F)
    return PINSGA2(pop_size=n, automated_dm=DM(), tau=4, eta=3)


@reg("MOPSO_CD", mo=True, opt="archive")
def _(p, n):
    from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
    return MOPSO_CD(pop_size=n, archive_size=20)


@reg("CMOPSO", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.cmopso import CMOPSO
    return CMOPSO(pop_size=n)


@reg("GDE3", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.gde3 import GDE3
    return GDE3(pop_size=n)


for _c in ("GDE3MNN", "GDE32NN", "GDE3PCD"):
    @reg(_c, mo=True, variant=True)
    def _(p, n, _c=_c):
        import pymoo.algorithms.moo.gde3 as m
        return getattr(m, _c)(pop_size=n)


@reg("NSDE", mo=True)
def _(p, n):
    from pymoo.algorithms.moo.nsde import NSDE
    return NSDE(pop_size=n)


for _c in ("to-bounds", "midway", "rand-init"):
    @reg("NSDE-" + _c, mo=True, variant=True)
    def _(p, n, _c=_c):
        from pymoo.algorithms.moo.nsde import NSDE
        return NSDE(pop_size=n, variant="DE/current-to-rand/1/bin" if _c == "midway" else "DE/best/2/exp" if _c == "rand-init" else "DE/ranked/1/bin",
                    de_repair=_c, F=(0.4, 1.2), CR=0.9)


@reg("NSDER", mo=True, opt="refdir")
def _(p, n):
    from pymoo.algorithms.moo.nsder import NSDER
    return NSDER(refs(p.n_obj))


@reg("OmniOptimizer", mo=True, opt="loose")
def _(p, n):
    from pymoo.algorithms.moo.omni import OmniOptimizer
    return OmniOptimizer(pop_size=n)


# ------------------------------------------------------------------ mixed variables

@reg("MixedGA", so=True, var=("mixed",), elitist=True)
def _(p, n):
    from pymoo.core.mixed import MixedVariableGA
    return MixedVariableGA(pop_size=n)


@reg("MixedNSGA2", mo=True, var=("mixed",))
def _(p, n):
    from pymoo.core.mixed import MixedVariableGA
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
    return MixedVariableGA(pop_size=n, survival=RankAndCrowding())


@reg("Optuna", so=True, var=("mixed",), elitist=True)
def _(p, n):
    from pymoo.algorithms.soo.nonconvex.optuna import Optuna
    return Optuna()


# ------------------------------------------------------------------ options other than the defaults

def _extra(name, path, so=False, **tags):
    """path: module.Class of pymoo.algorithms; the decorated function gives the keyword arguments"""
    def deco(f):
        def make(p, n):
            import importlib
            mod, cls = path.rsplit(".", 1)
            kw = dict(f(p, n))
            args = kw.pop("args", ())
            return getattr(importlib.import_module("pymoo.algorithms." + mod), cls)(*args, **kw)
        reg(name, so=so, mo=not so, variant=True, extra=True, **tags)(make)
        return f
    return deco


_S = "soo.nonconvex."
_rp = lambda p: np.vstack([np.full(p.n_obj, 0.3), np.linspace(0.1, 0.7, p.n_obj)])


def _swarm(**kw):
    from pymoo.algorithms.soo.nonconvex.pso_ep import Swarm
    return Swarm(**kw)


_extra("EPPSO+ring", _S + "pso_ep.EPPSO", so=True, elitist=True)(lambda p, n: dict(pop_size=n, topology="ring", init_V="random"))
_extra("EPPSO+random", _S + "pso_ep.EPPSO", so=True, elitist=True)(lambda p, n: dict(pop_size=n, topology="random", swarm=_swarm(V_max=None)))
_extra("EPPSO+adaptive", _S + "pso_ep.EPPSO", so=True, elitist=True)(lambda p, n: dict(pop_size=n, topology="random-adaptive", init_V="random"))
_extra("DE+line", _S + "de.DE", so=True, elitist=True)(lambda p, n: dict(pop_size=n, variant="DE/rand/1/line", F=0.9, CR=0.9, jitter=True))
_extra("DE+hypercube", _S + "de.DE", so=True, elitist=True)(lambda p, n: dict(pop_size=n, variant="DE/target-to-best/2/hypercube", F=0.6, CR=1.0))
_extra("DE+few", _S + "de.DE", so=True, elitist=True)(lambda p, n: dict(pop_size=n, n_offsprings=max(2, n // 3)))
_extra("DE+one", _S + "de.DE", so=True, elitist=True)(lambda p, n: dict(pop_size=n, n_offsprings=1, variant="DE/rand/1/bin"))
_extra("ES+size", _S + "es.ES", so=True, elitist=True)(lambda p, n: dict(pop_size=max(2, n // 4), rule=0.2))
_extra("ES+nogamma", _S + "es.ES", so=True, elitist=True)(lambda p, n: dict(n_offsprings=n, pop_size=max(2, n // 4), gamma=None, phi=0.5))
_extra("SRES+PF", _S + "sres.SRES", so=True, elitist=True)(lambda p, n: dict(n_offsprings=2 * n, PF=0.2))
_extra("ISRES+opt", _S + "isres.ISRES", so=True, elitist=True)(lambda p, n: dict(n_offsprings=2 * n, gamma=0.5, alpha=0.6))
_extra("BRKGA+opt", _S + "brkga.BRKGA", so=True, elitist=True)(lambda p, n: dict(n_elites=max(2, n // 4), n_offsprings=n // 2, n_mutants=n // 2, bias=0.5, eliminate_duplicates=True))
_extra("G3PCX+opt", _S + "g3pcx.G3PCX", so=True, elitist=True)(lambda p, n: dict(pop_size=n, n_offsprings=4, n_parents=4, family_size=3))
_extra("NicheGA+best", _S + "ga_niching.NicheGA", so=True, elitist=True)(lambda p, n: dict(pop_size=n, norm_niche_size=0.2, norm_by_dim=True, return_all_opt=False))
_extra("NicheGA+wide", _S + "ga_niching.NicheGA", so=True, opt="niche")(lambda p, n: dict(pop_size=n, norm_niche_size=0.5, n_offsprings=3))
_extra("PSO+random", _S + "pso.PSO", so=True, elitist=True)(lambda p, n: dict(pop_size=n, w=0.5, c1=1.0, c2=3.0, max_velocity_rate=1.5, pertube_best=False))
_extra("NRBO+opt", _S + "nrbo.NRBO", so=True, elitist=True)(lambda p, n: dict(pop_size=n, max_iteration=5, deciding_factor=1.0))
_extra("NelderMead+default", _S + "nelder.NelderMead", so=True, elitist=True)(lambda p, n: dict(init_simplex_scale=0.4, func_params=__import__("pymoo.algorithms.soo.nonconvex.nelder", fromlist=["x"]).default_params))
_extra("PatternSearch+opt", _S + "pattern.PatternSearch", so=True, elitist=True)(lambda p, n: dict(init_delta=0.6, init_rho=0.9, step_size=0.5))
_extra("DIRECT+opt", _S + "direct.DIRECT", so=True, elitist=True)(lambda p, n: dict(eps=0.0, penalty=10.0, n_max_candidates=3, n_max_archive=20, archive_reduct=0.5))
_extra("GA+nsome", _S + "ga.GA", so=True, elitist=True)(lambda p, n: dict(pop_size=n, n_offsprings=3 * n))
_extra("MOEAD+ws", "moo.moead.MOEAD", cons="no")(lambda p, n: dict(ref_dirs=refs(p.n_obj), n_neighbors=30, decomposition=_dec("weighted_sum", "WeightedSum"), prob_neighbor_mating=0.0))
_extra("MOEAD+asf", "moo.moead.MOEAD", cons="no")(lambda p, n: dict(ref_dirs=refs(p.n_obj), n_neighbors=3, decomposition=_dec("pbi", "PBI", theta=1.0), prob_neighbor_mating=1.0))
_extra("ParallelMOEAD+tch", "moo.moead.ParallelMOEAD", cons="no")(lambda p, n: dict(args=(refs(p.n_obj),), n_neighbors=4, decomposition=_dec("tchebicheff", "Tchebicheff"), prob_neighbor_mating=0.5))
_extra("SMSEMOA+raw", "moo.sms.SMSEMOA")(lambda p, n: dict(pop_size=n, normalize=False, n_offsprings=1))
_extra("SMSEMOA+half", "moo.sms.SMSEMOA")(lambda p, n: dict(pop_size=n, n_offsprings=max(2, n // 2)))
_extra("RVEA+opt", "moo.rvea.RVEA", opt="all")(lambda p, n: dict(ref_dirs=refs(p.n_obj), alpha=0.5, adapt_freq=0.5, pop_size=n + 1))
_extra("AGEMOEA+few", "moo.age.AGEMOEA")(lambda p, n: dict(pop_size=n, n_offsprings=3))
_extra("AGEMOEA2+few", "moo.age2.AGEMOEA2")(lambda p, n: dict(pop_size=n, n_offsprings=5))
_extra("SPEA2+few", "moo.spea2.SPEA2")(lambda p, n: dict(pop_size=n, n_offsprings=3))
_extra("SPEA2+norm", "moo.spea2.SPEA2")(lambda p, n: dict(pop_size=n, survival=__import__("pymoo.algorithms.moo.spea2", fromlist=["x"]).SPEA2Survival(normalize=True)))
_extra("NSGA3+few", "moo.nsga3.NSGA3", opt="refdir")(lambda p, n: dict(ref_dirs=refs(p.n_obj), pop_size=n + 20, n_offsprings=4))
_extra("UNSGA3+few", "moo.unsga3.UNSGA3", opt="refdir")(lambda p, n: dict(ref_dirs=refs(p.n_obj), n_offsprings=6))
_extra("RNSGA2+ever", "moo.rnsga2.RNSGA2")(lambda p, n: dict(args=(_rp(p),), pop_size=n, epsilon=0.05, normalization="ever", weights=np.linspace(0.2, 0.8, p.n_obj), extreme_points_as_reference_points=True))
_extra("RNSGA2+none", "moo.rnsga2.RNSGA2")(lambda p, n: dict(args=(_rp(p),), pop_size=n, epsilon=0.5, normalization="no"))
_extra("DNSGA2+B", "moo.dnsga2.DNSGA2", cons="no")(lambda p, n: dict(pop_size=n, version="B", perc_detect_change=0.5, perc_diversity=0.6))
_extra("KGB+opt", "moo.kgb.KGB", cons="no")(lambda p, n: dict(pop_size=n, perc_detect_change=0.3, perc_diversity=0.5, c_size=4, save_ps=False))
_extra("MOPSO_CD+opt", "moo.mopso_cd.MOPSO_CD", opt="archive")(lambda p, n: dict(pop_size=n, w=0.3, c1=1.0, c2=2.5, max_velocity_rate=0.1, archive_size=5))
_extra("CMOPSO+opt", "moo.cmopso.CMOPSO")(lambda p, n: dict(pop_size=n, max_velocity_rate=0.7, elite_size=3, initial_velocity="zero", mutation_rate=1.0))
_extra("GDE3+opt", "moo.gde3.GDE3")(lambda p, n: dict(pop_size=n, variant="DE/best/2/exp", CR=0.9, F=0.4, gamma=None))
_extra("NSDER+opt", "moo.nsder.NSDER", opt="refdir")(lambda p, n: dict(ref_dirs=refs(p.n_obj), pop_size=n + 10, variant="DE/best/1/exp", CR=0.3, F=(0.2, 0.9)))
_extra("OmniOptimizer+opt", "moo.omni.OmniOptimizer", opt="loose")(lambda p, n: dict(pop_size=n, delta=0.1, obj_crowding=False, var_crowding=True))
_extra("OmniOptimizer+obj", "moo.omni.OmniOptimizer", opt="loose")(lambda p, n: dict(pop_size=n, delta=0.0, obj_crowding=True, var_crowding=False))


def _dec(mod, cls, **kw):
    import importlib
    return getattr(importlib.import_module("pymoo.decomposition." + mod), cls)(**kw)


def names(**req):
    out = []
    for k, z in Z.items():
        if all((v in z[q] if q == "var" else z.get(q) == v) for q, v in req.items()):
            out.append(k)
    return out


def create(name, problem, pop=16):
    return Z[name]["make"](problem, pop)
