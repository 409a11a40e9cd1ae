"""Everything the simulations touch, imported once before forking."""
import importlib

import pymoo.optimize  # noqa: F401
from sim import adversary, drive, kernel, legs, problems, registry, seams  # noqa: F401

for _m in (
    "pymoo.algorithms.soo.nonconvex.ga", "pymoo.algorithms.soo.nonconvex.de", "pymoo.algorithms.soo.nonconvex.pso",
    "pymoo.algorithms.soo.nonconvex.pso_ep", "pymoo.algorithms.soo.nonconvex.es", "pymoo.algorithms.soo.nonconvex.sres",
    "pymoo.algorithms.soo.nonconvex.isres", "pymoo.algorithms.soo.nonconvex.cmaes",
    "pymoo.algorithms.soo.nonconvex.nelder", "pymoo.algorithms.soo.nonconvex.pattern",
    "pymoo.algorithms.soo.nonconvex.direct", "pymoo.algorithms.soo.nonconvex.nrbo",
    "pymoo.algorithms.soo.nonconvex.g3pcx", "pymoo.algorithms.soo.nonconvex.ga_niching",
    "pymoo.algorithms.soo.nonconvex.brkga", "pymoo.algorithms.soo.nonconvex.random_search",
    "pymoo.algorithms.soo.nonconvex.optuna", "pymoo.algorithms.soo.univariate.golden",
    "pymoo.algorithms.soo.univariate.quadr_interp", "pymoo.algorithms.moo.nsga2", "pymoo.algorithms.moo.nsga3",
    "pymoo.algorithms.moo.unsga3", "pymoo.algorithms.moo.rnsga2", "pymoo.algorithms.moo.rnsga3",
    "pymoo.algorithms.moo.moead", "pymoo.algorithms.moo.age", "pymoo.algorithms.moo.age2",
    "pymoo.algorithms.moo.ctaea", "pymoo.algorithms.moo.sms", "pymoo.algorithms.moo.spea2",
    "pymoo.algorithms.moo.rvea", "pymoo.algorithms.moo.omni", "pymoo.algorithms.moo.mopso_cd",
    "pymoo.algorithms.moo.cmopso", "pymoo.algorithms.moo.nsde", "pymoo.algorithms.moo.nsder",
    "pymoo.algorithms.moo.gde3", "pymoo.algorithms.moo.pinsga2", "pymoo.algorithms.moo.kgb",
    "pymoo.algorithms.moo.dnsga2", "pymoo.constraints.eps", "pymoo.core.mixed",
    "pymoo.problems", "pymoo.problems.single", "pymoo.problems.multi", "pymoo.problems.many",
    "pymoo.util.ref_dirs", "pymoo.operators.sampling.lhs", "pymoo.operators.control", "pymoo.util.running_metric",
    "pymoo.termination.default", "pymoo.termination.max_time", "pymoo.termination.ftol", "pymoo.termination.xtol",
    "pymoo.termination.cv", "pymoo.termination.robust", "pymoo.termination.indicator", "pymoo.termination.fmin",
    "pymoo.termination.collection", "pymoo.termination.delta", "pymoo.indicators.hv", "pymoo.indicators.igd",
    "dill", "cloudpickle", "pickle", "copy", "optuna", "cma", "scipy.optimize", "scipy.stats", "scipy.spatial",
    "sklearn.naive_bayes",
):
    try:
        importlib.import_module(_m)
    except Exception:       # a module that went away is a matter for the runs, not for the preloader
        pass


def _compile():
    """Have the just-in-time compiled helpers compiled before forking (a matter of speed only)."""
    import numpy as np
    try:
        from pymoo.algorithms.moo import age, age2
        F = np.random.default_rng(1).random((6, 2))
        age.find_corner_solutions(F.copy())
        age.point_2_line_distance(F, np.zeros(2), np.ones(2))
        age.AGEMOEASurvival.minkowski_distances(F, F[:1].copy(), 1.0)
        age.AGEMOEASurvival.minkowski_distances(F, F[0][None, :], p=np.float64(1.0))
        age2.AGEMOEA2Survival.pairwise_distances(F, np.float64(1.2))
        age2.AGEMOEA2Survival.pairwise_distances(F, 1.0)
    except Exception:
        pass


_compile()
