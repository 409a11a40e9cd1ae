"""C11: reported values belong to the reported designs."""
import math

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R, watch as W
from sim.props import pick_algo

COUNT = {"quick": 640, "thorough": 12000}
RULE = "a scenario counts when at least two iteration boundaries and the result were checked design by design"
REAL = ["every algorithm with its populations, optima and archives", "evaluator, individuals, optimum filter, result"]
STUB = ["objective functions of generated problems (values recomputed for every reported design)", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"
CPU = 100
# their objective values are made up for infeasible designs / the penalised formulation is what is reported
NAMES = [n for n in R.NAMES if n not in R.DYNAMIC]


def plan(rng, i, tier):
    name = pick_algo(rng, i, NAMES)
    n = rng.randint(2, 8 if tier == "quick" else 14)
    spec = R.gen(rng, name)
    return {"spec": spec, "n": n, "faults": W.gen_faults(rng, name, n), "archive": L.gen_archive(rng, spec, 0.35),
            "hist": rng.random() < 0.2, "least": rng.random() < 0.3, "term": rng.choice(["n_gen", "n_gen", "n_eval"])}


def cv_of(G, H):
    return sum(max(0.0, g) for g in G) + sum(max(0.0, abs(h) - 1e-4) for h in H)


def near(G, H):
    """Within rounding of the border between feasible and infeasible."""
    return any(abs(abs(h) - 1e-4) < 1e-12 for h in H)


def flat(v):
    return [] if v is None else [float(x) for x in np.asarray(v, dtype=float).ravel()]


class Obs:
    def __init__(self, plan):
        self.plan, self.viol, self.n = plan, [], 0
        self.name = plan["spec"]["algo"]
        self.meta = R.trait(self.name, "meta")
        self.ok = {}

    def bad(self, sig, what):
        self.viol.append((sig, what))

    def one(self, w, ind, where):
        """An evaluated design against the problem; True if it has values."""
        F = flat(ind.F)
        if not F:
            return False
        k = P.key(ind.X)
        tag = (k, tuple(F), tuple(flat(ind.G)), tuple(flat(ind.H)), None if self.meta else float(ind.CV[0]))
        if tag in self.ok:
            return True
        mF, mG, mH = w.values(ind.X)
        if not all(math.isfinite(v) for v in mF):
            return True
        if F != [float(v) for v in mF]:
            self.bad("F", "%s: the design %s is reported with F=%s, it has F=%s" % (where, k, F, mF))
        elif flat(ind.G) != [float(v) for v in mG] or flat(ind.H) != [float(v) for v in mH]:
            self.bad("GH", "%s: the design %s is reported with G=%s H=%s, it has G=%s H=%s" % (where, k, flat(ind.G), flat(ind.H), mG, mH))
        elif not self.meta:
            cv = cv_of(mG, mH)
            if abs(float(ind.CV[0]) - cv) > 1e-9 * cv + 1e-14 or (not near(mG, mH) and bool(ind.FEAS[0]) != (cv <= 0)):
                self.bad("CV", "%s: the design %s is reported with CV=%s feasible=%s, its violation is %s" % (where, k, ind.CV, ind.FEAS, cv))
        self.ok[tag] = True
        return True

    def opt(self, alg, opt, where):
        """The optimum against the population."""
        pop = [i for i in alg.pop if flat(i.F)]
        if not pop:
            return
        feas = [i for i in pop if i.FEAS[0]]
        if opt is None or len(opt) == 0:
            self.bad("no-opt", "%s: there is no optimum in a population of %d evaluated designs" % (where, len(pop)))
            return
        fo = [i for i in opt if i.FEAS[0]]
        if feas and not fo:
            self.bad("opt-infeasible", "%s: the optimum has no feasible design, %d in the population are feasible" % (where, len(feas)))
        elif fo and len(fo) < len(opt):
            self.bad("opt-mixed", "%s: the optimum mixes feasible and infeasible designs" % where)
        elif not fo:
            a, b = min(float(i.CV[0]) for i in opt), min(float(i.CV[0]) for i in pop)
            if a > b:
                self.bad("opt-cv", "%s: the least infeasible design reported has a violation of %s, the population has one of %s" % (where, a, b))
        elif len(flat(opt[0].F)) == 1:
            a, b = min(i.F[0] for i in fo), min([i.F[0] for i in feas], default=math.inf)
            if a > b:
                self.bad("opt-worse", "%s: the optimum has F=%s, the population contains a feasible design with F=%s" % (where, a, b))
        else:
            if self.name == "OmniOptimizer":
                return            # its loose dominance lets slightly dominated designs through on purpose
            Fs = [flat(i.F) for i in opt]
            for a in Fs:
                for b in Fs:
                    if all(x <= y for x, y in zip(b, a)) and a != b:
                        self.bad("opt-dominated", "%s: the optimum contains %s and %s, which dominates it" % (where, a, b))
                        return

    def told(self, w, alg, infills, old, new_iter, first):
        if self.viol:
            return
        where = "iteration %d" % (alg.n_iter - 1)
        for ind in (alg.pop if alg.pop is not None else []):
            self.one(w, ind, where + " population")
        if not new_iter:
            return
        for ind in (alg.opt if alg.opt is not None else []):
            if not self.one(w, ind, where + " optimum"):
                self.bad("opt-unevaluated", "%s: a design of the optimum has no objective values" % where)
        for ind in (alg.archive if alg.archive is not None else []):
            self.one(w, ind, where + " archive")
        if not self.meta:
            self.opt(alg, alg.opt, where)
        self.n += 1

    def ended(self, w, alg, res):
        if self.viol:
            return
        n_obj = w.prob.n_obj
        opt = alg.opt
        feas = opt is not None and len(opt) > 0 and bool(np.any(opt.get("FEAS")))
        for ind in res.pop:
            self.one(w, ind, "result population")
        if bool(res.success) != feas:
            self.bad("success", "success is %s, the optimum %s a feasible design" % (res.success, "contains" if feas else "does not contain"))
        if not feas and not self.plan["least"]:
            if res.X is not None or res.F is not None:
                self.bad("reported-infeasible", "no feasible design was found, X=%s F=%s are reported" % (res.X, res.F))
            return
        if res.X is None or res.F is None:
            self.bad("reported-nothing", "a design is to be reported, X=%s F=%s" % (res.X, res.F))
            return
        one = n_obj == 1 and np.ndim(res.F) == 1
        X = [res.X] if one else list(res.X)
        F = [res.F] if one else list(res.F)
        G = [res.G] if one else list(res.G)
        H = [res.H] if one else list(res.H)
        CV = [res.CV] if one else list(res.CV)
        if not (len(X) == len(F) == len(G) == len(H) == len(CV) == len(opt)):
            self.bad("shape", "%d designs, %d objective vectors, %d optima" % (len(X), len(F), len(opt)))
            return
        for x, f, g, h, cv in zip(X, F, G, H, CV):
            mF, mG, mH = w.values(x)
            if flat(f) != [float(v) for v in mF] or flat(g) != [float(v) for v in mG] or flat(h) != [float(v) for v in mH]:
                self.bad("result", "the result reports F=%s G=%s H=%s for %s, it has F=%s G=%s H=%s" % (flat(f), flat(g), flat(h), P.key(x), mF, mG, mH))
                return
            if not self.meta and abs(flat(cv)[0] - cv_of(mG, mH)) > 1e-9 * (1 + cv_of(mG, mH)):
                self.bad("result", "the result reports the violation %s for %s, it is %s" % (cv, P.key(x), cv_of(mG, mH)))
                return
        for j, a in enumerate(res.history or []):
            for ind in a.pop:
                self.one(w, ind, "history entry %d" % j)
            for ind in a.opt:
                self.one(w, ind, "history entry %d optimum" % j)


def run(plan):
    k = K.Kernel(1)
    spec, name = plan["spec"], plan["spec"]["algo"]
    obs, exc, w = Obs(plan), None, None
    with K.running(k):
        L.ambient(k, 3)
        P.new_rec()
        try:
            with guard.cpu_limit(CPU):
                kw = {"archive": L.make_archive(plan["archive"])} if plan["archive"] else {}
                if plan["hist"]:
                    kw["save_history"] = True
                if plan["least"]:
                    kw["return_least_infeasible"] = True
                term = ("n_gen", plan["n"]) if plan["term"] == "n_gen" or R.trait(name, "needs_ngen") else ("n_eval", plan["n"] * 8)
                w = W.Watch(spec, k, term, plan["faults"], obs, kw)
                w.go()
        except (Exception, L.Runaway, guard.Stuck) as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
    viol = [core.V("%s:%s" % (a, name), "%s: %s" % (name, b)) for a, b in obs.viol[:2]]
    st = w.states if w else []
    return core.outcome(viol, D.h(repr(st), exc), dict(k.faults), st, obs.n >= 2 and exc is None, k.clock.t, len(st), name,
                        {"boundaries": obs.n, "exceptions": int(exc is not None), "exc": exc} if False else
                        {"boundaries": obs.n, "exceptions": int(exc is not None)})
