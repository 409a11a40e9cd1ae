"""C17: survival selects, it does not invent."""
import math

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R, watch as W
from sim.props import c11, pick_algo

COUNT = {"quick": 700, "thorough": 14000}
RULE = "a scenario counts when the populations after at least two iterations were traced to the previous population and the new designs"
REAL = ["survival and replacement of every population-based algorithm"]
STUB = ["objective functions of generated problems", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"
CPU = 100
# populations are something else in these: the sample of the last iteration, a simplex, a tree of boxes, a swarm of positions ...
NOT_POP = {"CMAES", "SimpleCMAES", "BIPOPCMAES", "NelderMead", "PatternSearch", "DIRECT", "GoldenSection", "QuadraticInterpolation", "RandomSearch", "Optuna",
           "AdaptiveEpsilon", "AdaptiveEpsilon-MO"}
NAMES = [n for n in R.STATIC if n not in NOT_POP]
# previous population and new designs compete with each other, the best `pop_size` survive
MERGE = {"GA", "NSGA2", "NSGA2-survival", "NSGA3", "UNSGA3", "RNSGA2", "AGEMOEA", "AGEMOEA2", "SMSEMOA", "SPEA2", "OmniOptimizer",
         "MixedVariableGA", "MixedVariableGA-MO", "RNSGA3", "NSDE", "NSDER", "GDE3", "GDE3MNN", "GDE32NN", "GDE3PCD"}
# each new design competes with one member
REPLACE = {"DE", "PSO", "NRBO", "MOEAD", "ParallelMOEAD", "CMOPSO", "G3PCX"}
# one design may be the best for several sub-problems
SHARED = {"MOEAD", "ParallelMOEAD"}
# not ordered by plain dominance (loose dominance, one-to-one competition before the selection)
LOOSE = {"OmniOptimizer", "GDE3", "GDE3MNN", "GDE32NN", "GDE3PCD"}
# constraint handling that lets an infeasible design win on purpose
# a new design that equals a member never replaces another one
NO_COPIES = {"DE", "PSO", "NRBO"}
TRADE = {"CTAEA", "SRES", "ISRES", "RVEA", "ES", "MOPSO_CD", "PINSGA2", "BRKGA", "EPPSO", "NicheGA"}


def plan(rng, i, tier):
    name = pick_algo(rng, i, NAMES)
    n = rng.randint(3, 9 if tier == "quick" else 20)
    spec = R.gen(rng, name)
    return {"spec": spec, "n": n, "faults": W.gen_faults(rng, name, n)}


def ident(ind):
    return (P.key(ind.X), tuple(float(v) for v in np.ravel(ind.F)))


class Obs:
    def __init__(self, plan):
        self.plan, self.viol, self.n = plan, [], 0
        self.name = plan["spec"]["algo"]
        self.start = None

    def bad(self, sig, what):
        self.viol.append((sig, what))

    def asked(self, w, alg, infills, old):
        if self.start is None or alg.n_iter != self.start[0]:
            # the population the iteration started with, and its values (they may be changed in place)
            self.start = (alg.n_iter, list(old or []), {ident(i) for i in (old or [])}, sum(1 for i in (old or []) if i.FEAS[0]), [])
        if infills is not None:
            self.start[4].extend([infills] if not hasattr(infills, "__len__") else list(infills))

    def told(self, w, alg, infills, old, new_iter, first):
        if self.viol or not new_iter:
            return
        it, name = alg.n_iter - 1, self.name
        _, before, keys, nfeas, new = self.start
        pop = list(alg.pop)
        self.n += 1
        ids = [id(i) for i in pop]
        if len(set(ids)) < len(ids) and name not in SHARED:
            self.bad("twice", "iteration %d: one individual is %d times in the population of %d" % (it, max(ids.count(j) for j in ids), len(pop)))
            return
        if name in NO_COPIES and not first and before:
            had, has = len(before) - len({k for k, _ in keys}), len(pop) - len({P.key(i.X) for i in pop})
            if has > had:
                self.bad("copies", "iteration %d: %d of %d members are copies of another one, %d were" % (it, has, len(pop), had))
                return
        known = set(map(id, before)) | set(map(id, new))
        nk = keys | {ident(i) for i in new}
        for ind in pop:
            if id(ind) not in known and ident(ind) not in nk:
                self.bad("invented", "iteration %d: %s F=%s is in the population; it was neither there before nor among the %d new designs" % (
                    it, P.key(ind.X), np.ravel(ind.F).tolist(), len(new)))
                return
        if R.trait(name, "fixed_pop") and not first:
            size = getattr(alg, "pop_size", None)
            want = min(size, len(before) + len(new)) if name in MERGE else len(before)
            if len(pop) != want:
                self.bad("size", "iteration %d: %d designs in the population, there have to be %d (%d before, %d new, size %s)" % (
                    it, len(pop), want, len(before), len(new), size))
                return
        if w.prob.has_constraints() and name not in TRADE:
            now = sum(1 for i in pop if i.FEAS[0])
            have = nfeas + sum(1 for i in new if i.FEAS[0])
            want = min(len(pop), have) if name in MERGE and not first else min(len(pop), nfeas)
            if name in ("GDE3", "GDE3MNN", "GDE32NN", "GDE3PCD"):
                want = min(len(pop), nfeas)
            if now < want:
                self.bad("displaced", "iteration %d: %d of %d designs in the population are feasible, %d were feasible before and %d of the new ones are" % (
                    it, now, len(pop), nfeas, have - nfeas))
        if not self.viol and name in MERGE and name not in LOOSE and not first:
            stay = set(ids)
            stay_k = {ident(i) for i in pop}
            gone = [i for i in list(before) + list(new) if id(i) not in stay and ident(i) not in stay_k]
            constr = self.plan["spec"]["cfg"].get("_constr")  # individual constraint values are ranked there
            vals = [(i, bool(i.FEAS[0]), float(i.CV[0]), np.ravel(i.F).astype(float)) for i in pop]
            for g in gone:
                gf, gcv, gF = bool(g.FEAS[0]), float(g.CV[0]), np.ravel(g.F).astype(float)
                for ind, f, cv, F in vals:
                    better = (gf and f and bool(np.all(gF <= F) and np.any(gF < F))) or (not constr and not gf and not f and gcv < cv - 1e-9 * (1 + cv))
                    if better:
                        self.bad("worse-kept", "iteration %d: a design with F=%s CV=%s survives, one with F=%s CV=%s does not" % (
                            it, F.tolist(), cv, gF.tolist(), gcv))
                        return


def run(plan):
    k = K.Kernel(1)
    spec, name = plan["spec"], plan["spec"]["algo"]
    obs, exc, w = Obs(plan), None, None
    with K.running(k):
        L.ambient(k, 3)
        P.new_rec()
        try:
            with guard.cpu_limit(CPU):
                w = W.Watch(spec, k, ("n_gen", plan["n"]), plan["faults"], obs)
                w.go()
        except (Exception, L.Runaway, guard.Stuck) as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
    viol = [core.V("%s:%s" % (a, name), "%s: %s" % (name, b)) for a, b in obs.viol[:2]]
    st = w.states if w else []
    return core.outcome(viol, D.h(repr(st), exc), dict(k.faults), st, obs.n >= 2 and exc is None, k.clock.t, len(st), name,
                        {"boundaries": obs.n, "exceptions": int(exc is not None)})
