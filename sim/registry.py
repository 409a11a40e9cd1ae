"""What can be simulated: every algorithm of the library with generated configurations and problems.

`gen(rng, name)` yields a JSON-able scenario spec {algo, cfg, problem, seed}; `build(spec)` turns it into a
(problem, algorithm) pair. Everything is rebuilt from the spec, nothing is shared between two builds except
what the library itself shares (its default-argument singletons)."""
import numpy as np

from pymoo.core.repair import Repair
from sim import problems as P


def choice(r, *opts):
    return r.choice(list(opts))


# ------------------------------------------------------------------------------------------------
# operators
# ------------------------------------------------------------------------------------------------

WARM = {"pop": None}        # the population handed to `sampling` by scenarios that start from given designs


class Snap(Repair):
    """A user's repair: designs lie on a grid (so that different offsprings become equal)."""

    def __init__(self, n=8):
        super().__init__()
        self.n = n

    def _do(self, problem, X, **kwargs):
        xl, xu = problem.bounds()
        return np.clip(xl + np.round((X - xl) / np.where(xu > xl, xu - xl, 1.0) * self.n) / self.n * (xu - xl), xl, xu)


def make_op(s):
    """s = [name, kwargs]"""
    if s is None:
        return None
    if s[0] == "@warm":
        return WARM["pop"]
    name, kw = s[0], dict(s[1]) if len(s) > 1 else {}
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UX
    from pymoo.operators.crossover.pntx import PointCrossover, SinglePointCrossover, TwoPointCrossover
    from pymoo.operators.crossover.hux import HUX
    from pymoo.operators.crossover.dex import DEX
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.crossover.expx import ExponentialCrossover
    from pymoo.operators.crossover.binx import BinomialCrossover
    from pymoo.operators.crossover.erx import ERX
    from pymoo.operators.crossover.ox import OrderCrossover
    from pymoo.operators.crossover.nox import NoCrossover
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.gauss import GM
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.mutation.inversion import InversionMutation
    from pymoo.operators.mutation.rm import ChoiceRandomMutation
    from pymoo.operators.mutation.nom import NoMutation
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.repair.bounce_back import BounceBackOutOfBoundsRepair
    from pymoo.operators.repair.to_bound import ToBoundOutOfBoundsRepair
    from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
    from pymoo.operators.repair.vtype import TypeRepair
    from pymoo.operators.sampling.rnd import (FloatRandomSampling, IntegerRandomSampling, BinaryRandomSampling,
                                              PermutationRandomSampling)
    from pymoo.operators.sampling.lhs import LHS
    from pymoo.operators.selection.rnd import RandomSelection
    from pymoo.operators.selection.tournament import TournamentSelection
    T = dict(locals(), Snap=Snap)
    if kw.pop("_round", False):
        kw["repair"] = RoundingRepair()
        kw["vtype"] = float
    if kw.get("vtype") == "int":
        kw["vtype"] = int
    return T[name](**kw)


def gen_real_ops(r):
    """(crossover, mutation, sampling) for bounded real variables."""
    xo = choice(r, None, None,
                ["SBX", {"eta": choice(r, 3, 15, 30), "prob": choice(r, 0.5, 0.9, 1.0)}],
                ["SBX", {"prob_var": 0.9, "prob_bin": choice(r, 0.0, 1.0), "prob_exch": choice(r, 0.0, 1.0)}],
                ["UX", {}], ["SinglePointCrossover", {}], ["TwoPointCrossover", {}], ["HUX", {}],
                ["PointCrossover", {"n_points": 2}],
                ["ExponentialCrossover", {}], ["BinomialCrossover", {}],
                ["DEX", {"variant": choice(r, "bin", "exp"), "F": choice(r, None, 0.5),
                         "jitter": choice(r, True, False), "n_diffs": 1}],
                ["PCX", {}])
    mu = choice(r, None, None, ["PM", {"eta": choice(r, 3, 20, 50), "prob": choice(r, 0.5, 1.0)}],
                ["PM", {"at_least_once": True}], ["PM", {"prob_var": 0.9}],
                ["GM", {"sigma": choice(r, 0.01, 0.2, 0.9)}], ["GM", {"prob_var": 0.9}], ["NoMutation", {}])
    sa = choice(r, None, None, ["FloatRandomSampling", {}], ["LHS", {}],
                ["LHS", {"smooth": False, "iterations": 3}])
    return xo, mu, sa


def gen_repair(r):
    return choice(r, None, None, None, ["ToBoundOutOfBoundsRepair", {}], ["BounceBackOutOfBoundsRepair", {}], ["Snap", {"n": choice(r, 4, 20, 1000)}])


def gen_disc_ops(r, kind):
    if kind == "bin":
        return (choice(r, ["UX", {}], ["TwoPointCrossover", {}], ["HUX", {}], ["SinglePointCrossover", {}]),
                ["BitflipMutation", choice(r, {}, {"prob_var": 0.4})], ["BinaryRandomSampling", {}])
    if kind == "perm":
        return (choice(r, ["OrderCrossover", {}], ["OrderCrossover", {"shift": True}], ["ERX", {}]),
                ["InversionMutation", {"prob": choice(r, 1.0, 0.6)}], ["PermutationRandomSampling", {}])
    return (choice(r, ["SBX", {"_round": True}], ["UX", {}], ["TwoPointCrossover", {}],
                   ["SBX", {"_round": True, "prob": 1.0, "eta": 3.0}]),
            choice(r, ["PM", {"_round": True}], ["PM", {"_round": True, "prob_var": 0.9}],
                   ["GM", {"_round": True, "sigma": 0.2}]),
            ["IntegerRandomSampling", {}])


# ------------------------------------------------------------------------------------------------
# problems
# ------------------------------------------------------------------------------------------------

def gen_problem(r, n_obj=1, vtype="real", constr=True, eq=False, n_var=None, fixed_ok=False, builtin=True):
    if vtype == "real" and builtin and r.random() < 0.18:
        if n_obj == 1:
            opts = [("sphere", {"n_var": 3}), ("rastrigin", {"n_var": 2}), ("ackley", {"n_var": 3}), ("himmelblau", {}),
                    ("rosenbrock", {"n_var": 3}), ("griewank", {"n_var": 2})]
            if constr:
                opts += [("g1", {}), ("g4", {}), ("g6", {}), ("g8", {})]
        elif n_obj == 2:
            opts = [("zdt1", {"n_var": 4}), ("zdt3", {"n_var": 4}), ("zdt4", {"n_var": 4}), ("zdt6", {"n_var": 4}),
                    ("kursawe", {})]
            if constr:
                opts += [("bnh", {}), ("osy", {}), ("tnk", {}), ("welded_beam", {}), ("truss2d", {})]
        else:
            opts = [("dtlz1", {"n_var": 5, "n_obj": 3}), ("dtlz2", {"n_var": 5, "n_obj": 3}),
                    ("dtlz7", {"n_var": 5, "n_obj": 3})]
            if constr:
                opts += [("c1dtlz1", {"n_var": 5, "n_obj": 3}), ("c2dtlz2", {"n_var": 5, "n_obj": 3})]
        name, pkw = r.choice(opts)
        return {"kind": "builtin", "name": name, "pkw": pkw, "elementwise": choice(r, False, False, True)}
    s = {"kind": "sim", "fseed": r.randrange(10 ** 6), "n_var": n_var or r.randint(2, 5), "n_obj": n_obj,
         "vtype": vtype, "elementwise": choice(r, False, False, True)}
    if vtype == "real":
        s["bounds"] = choice(r, "unit", "unit", "sym", "asym", "neg", "offs", "huge", "tiny")
        if fixed_ok and r.random() < 0.1:
            s["fixed_dim"] = True
    elif vtype == "perm":
        s["n_var"] = r.randint(4, 8)
    elif vtype == "bin":
        s["n_var"] = r.randint(6, 12)
    else:
        s["n_var"] = r.randint(2, 5)
    if constr and r.random() < 0.45:
        s["n_ieq"] = r.randint(1, 2)
        s["cmode"] = choice(r, "some", "some", "tight", "never", "always")
        if eq and r.random() < 0.3:
            s["n_eq"] = 1
    if r.random() < 0.2:
        s["plateau"] = True
    return s


# ------------------------------------------------------------------------------------------------
# algorithms
# ------------------------------------------------------------------------------------------------

def ref_dirs(n_obj, n_part):
    from pymoo.util.ref_dirs import get_reference_directions
    return get_reference_directions("das-dennis", n_obj, n_partitions=n_part)


class A:
    """One entry of the registry."""

    def __init__(self, name, n_obj, gen, make, vtypes=("real",), constr=True, eq=False, **traits):
        self.name, self.n_obj, self.gen, self.make = name, n_obj, gen, make
        self.vtypes, self.constr, self.eq, self.traits = vtypes, constr, eq, traits


REG = {}


def reg(name, n_obj, gen, make, **kw):
    REG[name] = A(name, n_obj, gen, make, **kw)


def _ga_gen(lo=6, hi=14, ops=True, repair=True, off=True, dup=True):
    def g(r, vt):
        c = {"pop_size": r.randint(lo, hi)}
        if off and r.random() < 0.4:
            c["n_offsprings"] = choice(r, 1, 2, 3, c["pop_size"], c["pop_size"] + 3)
        if vt == "real":
            if ops:
                xo, mu, sa = gen_real_ops(r)
                if xo:
                    c["crossover"] = xo
                if mu:
                    c["mutation"] = mu
                if sa:
                    c["sampling"] = sa
                if repair:
                    rp = gen_repair(r)
                    if rp:
                        c["repair"] = rp
        elif vt != "mixed":
            c["crossover"], c["mutation"], c["sampling"] = gen_disc_ops(r, vt)
        if dup and r.random() < 0.15:
            c["eliminate_duplicates"] = False
        return c
    return g


OPKEYS = ("crossover", "mutation", "sampling", "repair", "initial")


def kw(c):
    return {k: (make_op(v) if k in OPKEYS else v) for k, v in c.items() if not k.startswith("_")}


def _make(path, cls, **fixed):
    def m(c, prob):
        import importlib
        k = kw(c)
        for a, b in fixed.items():
            k.setdefault(a, b)
        return getattr(importlib.import_module(path), cls)(**k)
    return m


def _reg_soo():
    S = "pymoo.algorithms.soo.nonconvex."
    reg("GA", 1, _ga_gen(), _make(S + "ga", "GA"), vtypes=("real", "real", "int", "bin", "perm"), eq=True,
        elitist=True, dedup=True, fixed_pop=True)

    def de(r, vt):
        c = {"pop_size": r.randint(7, 14)}
        if r.random() < 0.35:
            # everything left to the variant's own defaults: parameter control is on
            c["variant"] = None
            if r.random() < 0.5:
                c["jitter"] = True
        else:
            c["variant"] = "DE/%s/%d/%s" % (choice(r, "rand", "best", "target-to-best"), choice(r, 1, 2),
                                            choice(r, "bin", "exp", "line", "hypercube"))
            c["CR"] = choice(r, 0.2, 0.9)
            c["F"] = choice(r, 0.3, 0.9)
            if r.random() < 0.3:
                c["jitter"] = True
        if r.random() < 0.3:
            c["n_offsprings"] = c["pop_size"]
        if r.random() < 0.5:
            c["sampling"] = choice(r, ["LHS", {}], ["FloatRandomSampling", {}])
        if r.random() < 0.3:
            c["control"] = choice(r, "evo", "rand")
        return c

    def mk_de(c, prob):
        from pymoo.algorithms.soo.nonconvex.de import DE
        from pymoo.operators.control import EvolutionaryParameterControl, RandomParameterControl
        k = kw(c)
        if "control" in k:
            k["control"] = {"evo": EvolutionaryParameterControl, "rand": RandomParameterControl}[k["control"]]
        return DE(**k)
    reg("DE", 1, de, mk_de, eq=True, elitist=True, fixed_pop=True)

    def pso(r, vt):
        c = {"pop_size": r.randint(5, 12)}
        if r.random() < 0.4:
            c["adaptive"] = choice(r, True, False)
        if r.random() < 0.4:
            c["pertube_best"] = choice(r, True, False)
        if r.random() < 0.3:
            c["initial_velocity"] = choice(r, "random", "zero")
        if r.random() < 0.3:
            c["w"], c["c1"], c["c2"] = choice(r, 0.4, 0.9), choice(r, 1.0, 2.5), choice(r, 1.0, 2.5)
        if r.random() < 0.3:
            c["max_velocity_rate"] = choice(r, 0.05, 0.5, 1.0)
        if r.random() < 0.5:
            c["sampling"] = choice(r, ["LHS", {}], ["FloatRandomSampling", {}])
        return c
    reg("PSO", 1, pso, _make(S + "pso", "PSO"), elitist=True)
    reg("EPPSO", 1, lambda r, vt: {"pop_size": r.randint(6, 12)}, _make(S + "pso_ep", "EPPSO"), constr=False)

    def es(r, vt):
        c = {"n_offsprings": r.randint(10, 21), "rule": choice(r, 1 / 3, 1 / 7)}
        if r.random() < 0.3:
            c["pop_size"] = r.randint(2, 4)
        return c
    reg("ES", 1, es, _make(S + "es", "ES"), fixed_pop=True)
    reg("SRES", 1, es, _make(S + "sres", "SRES"))
    reg("ISRES", 1, es, _make(S + "isres", "ISRES"))

    def cma(r, vt):
        c = {"sigma": choice(r, 0.1, 0.5)}
        if r.random() < 0.5:
            c["pop_size"] = r.randint(4, 9)
        if r.random() < 0.3:
            c["restarts"] = choice(r, 1, 2)
            c["tolfun"] = 1e-3
        if r.random() < 0.2:
            c["normalize"] = False
        if r.random() < 0.2:
            c["parallelize"] = False
        if r.random() < 0.15:
            c["bipop"] = True
            c["restarts"] = 2
        return c
    reg("CMAES", 1, cma, _make(S + "cmaes", "CMAES"), loop=True, pop_is_sample=True, constr=False)
    reg("SimpleCMAES", 1, lambda r, vt: {"sigma": choice(r, 0.1, 0.4)}, _make(S + "cmaes", "SimpleCMAES"), loop=True, pop_is_sample=True,
        constr=False)
    reg("BIPOPCMAES", 1, lambda r, vt: {"restarts": choice(r, 1, 2), "tolfun": 1e-2}, _make(S + "cmaes", "BIPOPCMAES"),
        loop=True, pop_is_sample=True, constr=False)

    def local(r, vt):
        c = {"n_sample_points": r.randint(3, 8)}
        return c
    reg("NelderMead", 1, local, _make(S + "nelder", "NelderMead"), loop=True, elitist=True, constr=False)

    def patt(r, vt):
        c = {"n_sample_points": r.randint(3, 8)}
        if r.random() < 0.5:
            c["init_delta"] = choice(r, 0.05, 0.25, 0.6)
            c["step_size"] = choice(r, 0.5, 1.0, 2.0)
        return c
    reg("PatternSearch", 1, patt, _make(S + "pattern", "PatternSearch"), loop=True, elitist=True)

    def direct(r, vt):
        c = {}
        if r.random() < 0.4:
            c = {"n_max_candidates": choice(r, 2, 5), "n_max_archive": choice(r, 15, 40)}
        return c
    reg("DIRECT", 1, direct, _make(S + "direct", "DIRECT"), norng=True, pop_is_sample=True)
    reg("NRBO", 1, lambda r, vt: {"pop_size": r.randint(5, 10), "deciding_factor": choice(r, 0.2, 0.6, 0.9),
                                  "max_iteration": choice(r, 5, 20)}, _make(S + "nrbo", "NRBO"), elitist=True)

    def g3(r, vt):
        c = {"pop_size": r.randint(6, 12)}
        if r.random() < 0.4:
            c["n_offsprings"], c["family_size"] = choice(r, 2, 3, 4), choice(r, 2, 3)
        return c
    reg("G3PCX", 1, g3, _make(S + "g3pcx", "G3PCX"))

    def niche(r, vt):
        c = _ga_gen(8, 14, off=False)(r, vt)
        c.pop("eliminate_duplicates", None)
        c["norm_niche_size"] = choice(r, 0.05, 0.2)
        if r.random() < 0.3:
            c["norm_by_dim"] = True
        if r.random() < 0.3:
            c["return_all_opt"] = False
        return c
    reg("NicheGA", 1, niche, _make(S + "ga_niching", "NicheGA"))

    def brkga(r, vt):
        c = {"n_elites": r.randint(3, 5), "n_offsprings": r.randint(5, 8), "n_mutants": r.randint(2, 4),
             "bias": choice(r, 0.5, 0.7, 0.9)}
        if r.random() < 0.5:
            c["eliminate_duplicates"] = True
        return c
    reg("BRKGA", 1, brkga, _make(S + "brkga", "BRKGA"), elitist=True)
    reg("RandomSearch", 1, lambda r, vt: {"n_points_per_iteration": r.randint(2, 9)},
        _make(S + "random_search", "RandomSearch"), elitist=True)

    def mixed(r, vt):
        c = {"pop_size": r.randint(6, 12)}
        if r.random() < 0.4:
            c["n_offsprings"] = choice(r, 1, 2, 3, 7)
        return c
    reg("MixedVariableGA", 1, mixed, _make("pymoo.core.mixed", "MixedVariableGA"), vtypes=("mixed",), elitist=True,
        dedup=True)

    def mk_mixed_mo(c, prob):
        from pymoo.core.mixed import MixedVariableGA
        from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
        return MixedVariableGA(survival=RankAndCrowding(), **kw(c))
    reg("MixedVariableGA-MO", 2, mixed, mk_mixed_mo, vtypes=("mixed",), dedup=True)
    reg("Optuna", 1, lambda r, vt: {}, _make(S + "optuna", "Optuna"), vtypes=("mixed",), constr=False, slow=True)

    def eps(r, vt):
        return {"inner": choice(r, "GA", "DE"), "pop_size": r.randint(8, 12), "perc_eps_until": choice(r, 0.3, 0.6)}

    def mk_eps(c, prob):
        from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
        from pymoo.algorithms.soo.nonconvex.ga import GA
        from pymoo.algorithms.soo.nonconvex.de import DE
        inner = {"GA": GA, "DE": DE}[c["inner"]](pop_size=c["pop_size"])
        return AdaptiveEpsilonConstraintHandling(inner, perc_eps_until=c["perc_eps_until"])
    reg("AdaptiveEpsilon", 1, eps, mk_eps, meta=True)

    def uni(r, vt):
        return {}
    reg("GoldenSection", 1, uni, _make("pymoo.algorithms.soo.univariate.golden", "GoldenSectionSearch"),
        vtypes=("uni",), constr=False, norng=True, univariate=True)
    reg("QuadraticInterpolation", 1, uni,
        _make("pymoo.algorithms.soo.univariate.quadr_interp", "QuadraticInterpolationSearch"),
        vtypes=("uni",), constr=False, norng=True, univariate=True)


def _reg_moo():
    M = "pymoo.algorithms.moo."
    V = ("real", "real", "real", "int", "bin", "perm")
    reg("NSGA2", (2, 2, 3), _ga_gen(), _make(M + "nsga2", "NSGA2"), vtypes=V, eq=True, dedup=True, fixed_pop=True)

    def nsga2x(r, vt):
        c = _ga_gen()(r, vt)
        c["_crowd"] = choice(r, "cd", "pcd", "ce", "mnn", "2nn")
        c["_constr"] = choice(r, False, True)
        return c

    def mk_nsga2x(c, prob):
        from pymoo.algorithms.moo.nsga2 import NSGA2
        from pymoo.operators.survival.rank_and_crowding import RankAndCrowding, ConstrRankAndCrowding
        cls = ConstrRankAndCrowding if c["_constr"] else RankAndCrowding
        return NSGA2(survival=cls(crowding_func=c["_crowd"]), **kw(c))
    reg("NSGA2-survival", (2, 3), nsga2x, mk_nsga2x, dedup=True, fixed_pop=True)

    def nsga3(r, vt):
        c = _ga_gen(10, 14)(r, vt)
        c["_part"] = choice(r, 3, 4)
        return c

    def mk3(path, cls):
        def m(c, prob):
            k = kw(c)
            rd = ref_dirs(prob.n_obj, c["_part"] if prob.n_obj > 2 else c["_part"] * 2)
            k["pop_size"] = max(k.pop("pop_size"), len(rd))
            if c.get("_popnone"):
                k.pop("pop_size")
            import importlib
            return getattr(importlib.import_module(M + path), cls)(ref_dirs=rd, **k)
        return m
    reg("NSGA3", (2, 3), nsga3, mk3("nsga3", "NSGA3"), vtypes=V, eq=True, dedup=True, fixed_pop=True)
    reg("UNSGA3", (2, 3), nsga3, mk3("unsga3", "UNSGA3"), dedup=True, fixed_pop=True)

    def rnsga2(r, vt):
        c = _ga_gen()(r, vt)
        c["epsilon"] = choice(r, 0.001, 0.1)
        c["normalization"] = choice(r, "front", "no", "ever")
        c["extreme_points_as_reference_points"] = choice(r, False, True)
        return c

    def mk_rnsga2(c, prob):
        from pymoo.algorithms.moo.rnsga2 import RNSGA2
        k = kw(c)
        return RNSGA2(ref_points=np.array([[0.5] * prob.n_obj, [0.1] + [0.6] * (prob.n_obj - 1)]), **k)
    reg("RNSGA2", (2, 3), rnsga2, mk_rnsga2, dedup=True, fixed_pop=True)

    def rnsga3(r, vt):
        return {"pop_per_ref_point": choice(r, 3, 6, 10), "mu": choice(r, 0.05, 0.1)}

    def mk_rnsga3(c, prob):
        from pymoo.algorithms.moo.rnsga3 import RNSGA3
        return RNSGA3(ref_points=np.array([[0.3] * prob.n_obj, [0.1] + [0.6] * (prob.n_obj - 1)]), **kw(c))
    reg("RNSGA3", (2, 3), rnsga3, mk_rnsga3, dedup=True, fixed_pop=True)

    def moead(r, vt):
        c = {"_part": choice(r, 3, 4), "n_neighbors": choice(r, 3, 5), "prob_neighbor_mating": choice(r, 0.5, 0.9)}
        c["_dec"] = choice(r, None, "pbi", "tche")
        xo, mu, sa = gen_real_ops(r)
        if mu:
            c["mutation"] = mu
        if sa:
            c["sampling"] = sa
        return c

    def mk_moead(cls):
        def m(c, prob):
            import pymoo.algorithms.moo.moead as mod
            k = kw(c)
            rd = ref_dirs(prob.n_obj, c["_part"] if prob.n_obj > 2 else 2 * c["_part"])
            if c["_dec"] == "pbi":
                from pymoo.decomposition.pbi import PBI
                k["decomposition"] = PBI()
            elif c["_dec"] == "tche":
                from pymoo.decomposition.tchebicheff import Tchebicheff
                k["decomposition"] = Tchebicheff()
            return getattr(mod, cls)(ref_dirs=rd, **k)
        return m
    reg("MOEAD", (2, 3), moead, mk_moead("MOEAD"), constr=False, loop=True, fixed_pop=True)
    reg("ParallelMOEAD", (2, 3), moead, mk_moead("ParallelMOEAD"), constr=False, fixed_pop=True)

    reg("AGEMOEA", (2, 3), _ga_gen(), _make(M + "age", "AGEMOEA"), dedup=True, fixed_pop=True)
    reg("AGEMOEA2", (2, 3), _ga_gen(), _make(M + "age2", "AGEMOEA2"), dedup=True, fixed_pop=True)

    def ctaea(r, vt):
        c = _ga_gen(off=False, dup=False, ops=False)(r, vt)
        c.pop("pop_size")
        c["_part"] = choice(r, 3, 4)
        return c

    def mk_ctaea(c, prob):
        from pymoo.algorithms.moo.ctaea import CTAEA
        return CTAEA(ref_dirs=ref_dirs(prob.n_obj, c["_part"] if prob.n_obj > 2 else 2 * c["_part"]), **kw(c))
    reg("CTAEA", (2, 3), ctaea, mk_ctaea, dedup=True)
    reg("SMSEMOA", (2, 2, 3), _ga_gen(6, 10), _make(M + "sms", "SMSEMOA"), dedup=True, fixed_pop=True)
    reg("SPEA2", (2, 3), _ga_gen(), _make(M + "spea2", "SPEA2"), dedup=True, fixed_pop=True)

    def rvea(r, vt):
        c = _ga_gen(ops=False)(r, vt)
        c.pop("eliminate_duplicates", None)
        c["_part"] = choice(r, 3, 4)
        c["alpha"] = choice(r, 1.0, 2.0)
        c["adapt_freq"] = choice(r, 0.1, 0.34)
        return c
    reg("RVEA", (2, 3), rvea, mk3("rvea", "RVEA"), dedup=True, needs_ngen=True)

    def omni(r, vt):
        c = _ga_gen(off=False)(r, vt)
        c["delta"] = choice(r, 0.001, 0.1)
        return c
    reg("OmniOptimizer", 2, omni, _make(M + "omni", "OmniOptimizer"), dedup=True, fixed_pop=True)

    def mopso(r, vt):
        return {"pop_size": r.randint(6, 12), "archive_size": choice(r, 5, 20)}
    reg("MOPSO_CD", (2, 3), mopso, _make(M + "mopso_cd", "MOPSO_CD"), constr=False, own_term=True)

    def cmopso(r, vt):
        c = {"pop_size": r.randint(6, 12), "elite_size": choice(r, 3, 6), "mutation_rate": choice(r, 0.1, 0.5, 1.0),
             "initial_velocity": choice(r, "random", "zero")}
        rp = gen_repair(r)
        if rp:
            c["repair"] = rp
        return c
    reg("CMOPSO", (2, 3), cmopso, _make(M + "cmopso", "CMOPSO"), fixed_pop=True)

    def nsde(r, vt):
        c = {"pop_size": r.randint(8, 14), "CR": choice(r, 0.3, 0.9)}
        c["variant"] = "DE/%s/%d/%s" % (choice(r, "rand", "best", "current-to-best", "current-to-rand", "ranked",
                                               "rand-to-best"), choice(r, 1, 1, 2), choice(r, "bin", "exp"))
        c["F"] = choice(r, None, 0.5)
        c["de_repair"] = choice(r, "bounce-back", "midway", "rand-init", "to-bounds")
        return c

    def drop(fn, *keys):
        def g(r, vt):
            c = fn(r, vt)
            for k in keys:
                c.pop(k, None)
            return c
        return g
    reg("NSDE", (2, 3), nsde, _make(M + "nsde", "NSDE"), fixed_pop=True)
    reg("GDE3", (2, 3), nsde, _make(M + "gde3", "GDE3"), fixed_pop=True)
    reg("GDE3MNN", 3, nsde, _make(M + "gde3", "GDE3MNN"), fixed_pop=True)
    reg("GDE32NN", 3, nsde, _make(M + "gde3", "GDE32NN"), fixed_pop=True)
    reg("GDE3PCD", 2, nsde, _make(M + "gde3", "GDE3PCD"), fixed_pop=True)

    def nsder(r, vt):
        c = nsde(r, vt)
        c["_part"] = choice(r, 3, 4)
        return c
    reg("NSDER", (2, 3), nsder, mk3("nsder", "NSDER"), fixed_pop=True)

    def pins(r, vt):
        return {"pop_size": r.randint(6, 9), "tau": choice(r, 2, 3), "eta": 2, "vf_type": choice(r, "linear", "poly"),
                "vf_max_iter": 15, "opt_method": choice(r, "trust-constr", "SLSQP"),
                "ranking_type": choice(r, "pairwise", "absolute")}

    def mk_pins(c, prob):
        from pymoo.algorithms.moo.pinsga2 import PINSGA2
        from sim.dm import SumDM
        k = kw(c)
        return PINSGA2(automated_dm=SumDM(k["ranking_type"]), **k)
    reg("PINSGA2", 2, pins, mk_pins, constr=False, slow=True, dedup=True, own_term=True)

    def eps(r, vt):
        return {"pop_size": r.randint(8, 12), "perc_eps_until": choice(r, 0.3, 0.6)}

    def mk_eps(c, prob):
        from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
        from pymoo.algorithms.moo.nsga2 import NSGA2
        return AdaptiveEpsilonConstraintHandling(NSGA2(pop_size=c["pop_size"]), perc_eps_until=c["perc_eps_until"])
    reg("AdaptiveEpsilon-MO", 2, eps, mk_eps, meta=True)


def _reg_dyn():
    M = "pymoo.algorithms.moo."

    def dn(r, vt):
        return {"pop_size": r.randint(8, 12), "version": choice(r, "A", "B"),
                "perc_diversity": choice(r, 0.3, 0.6), "perc_detect_change": choice(r, 0.1, 0.3)}
    reg("DNSGA2", 2, dn, _make(M + "dnsga2", "DNSGA2"), vtypes=("dyn",), constr=False, dynamic=True, fixed_pop=True,
        evaluates_in_advance=True)

    def kgb(r, vt):
        return {"pop_size": r.randint(8, 12), "perc_detect_change": choice(r, 0.1, 0.3),
                "perc_diversity": choice(r, 0.3, 0.5), "c_size": choice(r, 3, 6)}

    def mk_kgb(c, prob):
        from pymoo.algorithms.moo.kgb import KGB
        a = KGB(**kw(c))
        a.nr_rand_solutions = 40
        return a
    reg("KGB", 2, kgb, mk_kgb, vtypes=("dyn",), constr=False, dynamic=True, slow=True, evaluates_in_advance=True)


_reg_soo()
_reg_moo()
_reg_dyn()

NAMES = sorted(REG)
DYNAMIC = [n for n in NAMES if REG[n].traits.get("dynamic")]
STATIC = [n for n in NAMES if n not in DYNAMIC]


# constructors that take `sampling` / `initial`
TAKES_SAMPLING = sorted(set(NAMES) - {"CMAES", "SimpleCMAES", "BIPOPCMAES", "NelderMead", "PatternSearch", "DIRECT", "RNSGA3",
                                      "RandomSearch", "Optuna", "GoldenSection", "QuadraticInterpolation", "AdaptiveEpsilon",
                                      "AdaptiveEpsilon-MO", "KGB", "EPPSO", "PINSGA2", "BRKGA"})
TAKES_INITIAL = ["CMAES", "SimpleCMAES", "BIPOPCMAES", "NelderMead", "PatternSearch"]


def trait(name, t):
    return bool(REG[name].traits.get(t))


def gen(r, name, **over):
    """A random scenario for algorithm `name`."""
    a = REG[name]
    vt = over.get("vtype") or r.choice(list(a.vtypes))
    n_obj = a.n_obj if isinstance(a.n_obj, int) else r.choice(list(a.n_obj))
    cfg = a.gen(r, vt)
    constr = a.constr and over.get("constr", True)
    if vt == "mixed":
        p = {"kind": "mixed", "fseed": r.randrange(10 ** 6), "n_obj": n_obj, "elementwise": choice(r, True, False),
             "shape": "optuna" if name == "Optuna" and r.random() < 0.3 else choice(r, "full", "nochoice")}
        if constr and r.random() < 0.4:
            p["n_ieq"], p["cmode"] = 1, choice(r, "some", "tight", "never")
    elif vt == "dyn":
        p = {"kind": "dyn", "fseed": r.randrange(10 ** 6), "n_var": r.randint(3, 5), "n_obj": n_obj,
             "bounds": choice(r, "unit", "sym", "asym"), "elementwise": choice(r, False, True)}
    elif vt == "uni":
        p = {"kind": "sim", "fseed": r.randrange(10 ** 6), "n_var": 1, "n_obj": 1, "vtype": "real",
             "bounds": choice(r, "unit", "sym", "neg", "offs")}
    else:
        p = gen_problem(r, n_obj, vt, constr=constr, eq=a.eq, builtin=over.get("builtin", True),
                        fixed_ok=over.get("fixed_ok", False))
    if p.get("elementwise") is not None and "elementwise" in over:
        p["elementwise"] = over["elementwise"]
    if name in ("GDE3MNN", "GDE32NN"):
        pass
    return {"algo": name, "cfg": cfg, "problem": p, "seed": r.randrange(1, 10 ** 6)}


def make_problem(spec, tag="p", **extra):
    return P.build(spec["problem"], tag=tag, **extra)


def make_algorithm(spec, prob):
    return REG[spec["algo"]].make(spec["cfg"], prob)
