"""C12: elitist algorithms never lose their best."""
import math

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R, watch as W
from sim.props import c11, pick_algo

COUNT = {"quick": 1600, "thorough": 30000}
RULE = "a scenario counts when at least two iteration boundaries were compared with the best of everything evaluated so far"
REAL = ["survival, replacement, optimum, result of every elitist algorithm"]
STUB = ["objective functions of generated problems", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"
CPU = 100
# all that keep the best design in their population or remember it in the optimum. Not: stochastic ranking and DIRECT (which let the least
# infeasible design go while nothing is feasible), adaptive epsilon (another notion of feasible), multi-objective algorithms
SO = [n for n in R.NAMES if R.trait(n, "elitist")] + ["ES", "CMAES", "SimpleCMAES", "BIPOPCMAES", "EPPSO", "G3PCX", "GoldenSection", "QuadraticInterpolation",
                                                      "NicheGA", "Optuna"]


def plan(rng, i, tier):
    name = pick_algo(rng, i, SO)
    n = rng.randint(3, 10 if tier == "quick" else 25)
    spec = R.gen(rng, name)
    p = spec["problem"]
    if "plateau" in p and rng.random() < 0.5:
        del p["plateau"]
    return {"spec": spec, "n": n, "faults": W.gen_faults(rng, name, n), "least": rng.random() < 0.3}


class Obs:
    def __init__(self, plan):
        self.plan, self.viol, self.n = plan, [], 0
        self.name = plan["spec"]["algo"]
        self.best = None            # (cv, f) of the best design evaluated so far
        self.last = None
        self.at = 0
        self.skip = False

    def scan(self, w):
        rows = w.rec.rows
        for _, x, F, G, H in rows[self.at:]:
            if c11.near(G, H):
                self.skip = True
            cv = c11.cv_of(G, H)
            key = (cv, F[0] if cv <= 0 else 0.0)
            if math.isfinite(F[0]) and (self.best is None or key < self.best[0]):
                self.best = (key, x)
        self.at = len(rows)

    def told(self, w, alg, infills, old, new_iter, first):
        self.scan(w)
        if self.skip or self.viol or not new_iter:
            return
        opt = alg.opt
        it = alg.n_iter - 1
        if opt is None or len(opt) == 0:
            self.viol.append(("none", "iteration %d: no optimum although %d designs were evaluated" % (it, self.at)))
            return
        now = min((float(i.CV[0]), float(i.F[0]) if i.CV[0] <= 0 else 0.0) for i in opt)
        tol = 1e-9 * (1 + abs(self.best[0][0]))
        # BRKGA takes objective values within 1e-16 for equal
        ftol = 1e-15 if self.name == "BRKGA" else 0.0
        if now[0] > self.best[0][0] + tol or (self.best[0][0] <= 0 and now[1] > self.best[0][1] + ftol):
            self.viol.append(("lost", "iteration %d: the optimum has (violation, F)=%s, the design %s evaluated before has %s" % (
                it, now, self.best[1], self.best[0])))
        self.n += 1

    def ended(self, w, alg, res):
        if self.skip or self.viol:
            return
        feas = self.best is not None and self.best[0][0] <= 0
        if feas and (res.F is None or float(np.ravel(res.F)[0]) > self.best[0][1] + 1e-15):
            self.viol.append(("result", "the result has F=%s, %s evaluated in the run has %s" % (res.F, self.best[1], self.best[0][1])))


def run(plan):
    k = K.Kernel(1)
    spec, name = plan["spec"], plan["spec"]["algo"]
    obs, exc, w = Obs(plan), None, None
    with K.running(k):
        L.ambient(k, 3)
        P.new_rec()
        try:
            with guard.cpu_limit(CPU):
                w = W.Watch(spec, k, ("n_gen", plan["n"]), plan["faults"], obs, {"return_least_infeasible": True} if plan["least"] else {})
                w.go()
        except (Exception, L.Runaway, guard.Stuck) as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
    viol = [core.V("%s:%s" % (a, name), "%s: %s" % (name, b)) for a, b in obs.viol[:2]]
    st = w.states if w else []
    return core.outcome(viol, D.h(repr(st), exc), dict(k.faults), st, obs.n >= 2 and exc is None, k.clock.t, len(st), name,
                        {"boundaries": obs.n, "exceptions": int(exc is not None)})
