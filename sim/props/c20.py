"""C20: criteria that watch the progress of a run stop it exactly when a plain reading of the criterion says so."""
import math
import pickle
import random

import numpy as np

from pymoo.core.algorithm import Algorithm
from pymoo.core.population import Population
from pymoo.core.problem import Problem

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 1500, "thorough": 20000}
RULE = ("a scenario counts when the criterion was consulted at least three times and its answer was compared with the reference model "
        "after every iteration")
REAL = ["every termination criterion and combination", "Algorithm loop, optimum filter, minimize", "algorithms (in the runs that are not scripted)"]
STUB = ["the search itself in scripted histories (each iteration delivers the designs and values the plan says)", "clock",
        "objective functions of generated problems"]
STATE_MEASURE = "digest of (criterion, optimum, progress) after each iteration"
CPU = 100
INF = float("inf")


class Ambiguous(Exception):
    """The model cannot decide on which side of a threshold a rounded value falls."""


# ------------------------------------------------------------------------------------------------
# reference model
# ------------------------------------------------------------------------------------------------

def near(a, b):
    return a != b and abs(a - b) <= 1e-9 * max(1.0, abs(b))


def dist(a, b):
    return math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(a, b)))


def igd(ref, pts):
    """Average over the reference points of the distance to the closest point."""
    return math.fsum(min(dist(r, p) for p in pts) for r in ref) / len(ref)


class Delta:
    """Progress is complete once the difference between consecutive observations is within the tolerance. n_skip iterations are left out
    between two comparisons that say no."""

    def __init__(self, tol, n_skip):
        self.tol, self.n_skip, self.prev, self.n, self.perc = tol, n_skip, None, 0, 0.0

    def __call__(self, s):
        cur = self.data(s)
        if self.prev is None:
            perc = 0.0
        elif self.n > 0 and self.n % (self.n_skip + 1) != 0:
            perc = self.perc
        else:
            d = self.delta(self.prev, cur, s)
            if d is not None and d != 0 and near(d, self.tol) and not self.exact:
                raise Ambiguous()
            if d is not None and d <= self.tol:
                # the reference observation stays: a slow drift adds up
                self.perc = 1.0
                return 1.0
            perc = 0.0 if d is None or d == INF else 1.0 / (1.0 + (d - self.tol))
            if perc >= 1.0:
                raise Ambiguous()
        self.prev, self.perc = cur, perc
        self.n += 1
        return perc

    exact = False


class FTol(Delta):
    exact = True

    def __init__(self, tol, n_skip, only_feas):
        super().__init__(tol, n_skip)
        self.only_feas = only_feas

    def data(self, s):
        f = [F[0] for F, ok in zip(s["F"], s["feas"]) if ok or not self.only_feas]
        return min(f) if f else INF

    def delta(self, a, b, s):
        return None if INF in (a, b) else max(0, a - b)


class MTol(FTol):
    exact = False

    def data(self, s):
        return [F for F, ok in zip(s["F"], s["feas"]) if ok or not self.only_feas]

    def delta(self, a, b, s):
        if not a or not b:
            return None
        m = range(len(b[0]))
        lo, hi = [min(p[j] for p in b) for j in m], [max(p[j] for p in b) for j in m]
        plo, phi = [min(p[j] for p in a) for j in m], [max(p[j] for p in a) for j in m]
        rg = [hi[j] - lo[j] for j in m]
        nrm = [r if r >= 1e-32 else 1.0 for r in rg]
        d1 = max(abs(lo[j] - plo[j]) / nrm[j] for j in m)
        d2 = max(abs(hi[j] - phi[j]) / nrm[j] for j in m)
        if any(0 < r < 1e-20 for r in rg):
            raise Ambiguous()
        # a dimension without range is only shifted
        div = [r if r > 0 else 1.0 for r in rg]

        def norm(Q):
            return [[(p[j] - lo[j]) / div[j] for j in m] for p in Q]
        return max(d1, d2, igd(norm(b), norm(a)))


class XTol(Delta):
    def data(self, s):
        if s["xl"] is None:
            return s["X"]
        out = []
        for x in s["X"]:
            out.append([(v - l) / (u - l) if u > l else v - l for v, l, u in zip(x, s["xl"], s["xu"])])
        return out

    def delta(self, a, b, s):
        if s["mixed"]:
            return None
        return igd(b, a)


class CVTol(Delta):
    exact = True

    def __init__(self, tol, n_skip, when_feasible):
        super().__init__(tol, n_skip)
        self.wf = when_feasible

    def __call__(self, s):
        if not s["constr"]:
            self.perc = 0.0
        elif any(s["feas"]):
            self.perc = 1.0 if self.wf else 0.0
        else:
            return super().__call__(s)
        return self.perc

    def data(self, s):
        return min(s["CV"])

    def delta(self, a, b, s):
        return max(0.0, a - b)


class UntilFeasible:
    def __call__(self, s):
        return 1.0 if min(s["CV"]) <= 0 else 0.0


class FMin:
    def __init__(self, v):
        self.v = v

    def __call__(self, s):
        return 1.0 if any(s["feas"]) and min(F[0] for F in s["F"]) <= self.v else 0.0


class Ind:
    def __init__(self, ref, thr, goal):
        self.ref, self.thr, self.goal = ref, thr, goal

    def __call__(self, s):
        v = igd(self.ref, s["F"])
        if near(v, self.thr) or abs(v - self.thr) < 1e-6:
            raise Ambiguous()
        return 1.0 if (v <= self.thr if self.goal == "minimize" else v >= self.thr) else 0.0


class Count:
    def __init__(self, k, n):
        self.k, self.n = k, n

    def __call__(self, s):
        return s[self.k] / self.n if self.n is not None else 0.0


class Robust:
    """All of the last `period` answers say stop (as long as there are fewer, all of them)."""

    def __init__(self, inner, period):
        self.inner, self.period, self.h = inner, period, []

    def __call__(self, s):
        self.h = (self.h + [self.inner(s)])[-self.period:]
        return min(self.h)


class Comb:
    def __init__(self, f, subs):
        self.f, self.subs = f, subs

    def __call__(self, s):
        return self.f([c(s) for c in self.subs])


def make(t, ref):
    """(criterion of the library, model)"""
    from pymoo.core import termination as T
    from pymoo.termination import cv, default, ftol, indicator, max_eval, max_gen, robust, xtol
    from pymoo.termination.collection import TerminationCollection
    from pymoo.termination.fmin import MinimumFunctionValueTermination
    k, a = t[0], t[1]
    if k == "ftol":
        return ftol.SingleObjectiveSpaceTermination(a["tol"], only_feas=a["only_feas"], n_skip=a["n_skip"]), FTol(a["tol"], a["n_skip"], a["only_feas"])
    if k == "mtol":
        return ftol.MultiObjectiveSpaceTermination(a["tol"], only_feas=a["only_feas"], n_skip=a["n_skip"]), MTol(a["tol"], a["n_skip"], a["only_feas"])
    if k == "renorm":
        return ftol.MultiObjectiveSpaceTerminationWithRenormalization(tol=a["tol"]), MTol(a["tol"], 0, True)
    if k == "xtol":
        return xtol.DesignSpaceTermination(a["tol"], n_skip=a["n_skip"]), XTol(a["tol"], a["n_skip"])
    if k == "cvtol":
        return (cv.ConstraintViolationTermination(a["tol"], terminate_when_feasible=a["wf"], n_skip=a["n_skip"]),
                CVTol(a["tol"], a["n_skip"], a["wf"]))
    if k == "feasible":
        return cv.UntilFeasibleTermination(), UntilFeasible()
    if k == "fmin":
        return MinimumFunctionValueTermination(a["v"]), FMin(a["v"])
    if k == "indicator":
        from pymoo.indicators.igd import IGD
        return indicator.IndicatorTermination(IGD(np.array(ref)), a["thr"], a["goal"]), Ind(ref, a["thr"], a["goal"])
    if k == "n_gen":
        return max_gen.MaximumGenerationTermination(a["n"]), Count("n_iter", a["n"])
    if k == "n_eval":
        return max_eval.MaximumFunctionCallTermination(a["n"]), Count("n_eval", a["n"])
    if k == "never":
        return T.NoTermination(), Comb(lambda v: 0.0, [])
    if k == "robust":
        x, m = make(a["of"], ref)
        return robust.RobustTermination(x, period=a["period"]), Robust(m, a["period"])
    if k in ("any", "all", "coll"):
        subs = [make(e, ref) for e in a["of"]]
        cls = {"any": T.TerminateIfAny, "all": T.TerminateIfAll, "coll": TerminationCollection}[k]
        return cls(*[x for x, _ in subs]), Comb(min if k == "all" else max, [m for _, m in subs])
    if k == "soo":
        b = default.DefaultSingleObjectiveTermination(xtol=a["xtol"], cvtol=a["cvtol"], ftol=a["ftol"], period=a["period"],
                                                      n_max_gen=a["n_max_gen"], n_max_evals=a["n_max_evals"])
        subs = [Robust(XTol(a["xtol"], 0), a["period"]), Robust(CVTol(a["cvtol"], 0, False), a["period"]),
                Robust(FTol(a["ftol"], 0, True), a["period"])]
    elif k == "moo":
        b = default.DefaultMultiObjectiveTermination(xtol=a["xtol"], cvtol=a["cvtol"], ftol=a["ftol"], period=a["period"], n_skip=a["n_skip"],
                                                     n_max_gen=a["n_max_gen"], n_max_evals=a["n_max_evals"])
        subs = [Robust(XTol(a["xtol"], a["n_skip"]), a["period"]), Robust(CVTol(a["cvtol"], a["n_skip"], False), a["period"]),
                Robust(MTol(a["ftol"], a["n_skip"], True), a["period"])]
    else:
        raise KeyError(k)
    return b, Comb(max, subs + [Count("n_iter", a["n_max_gen"]), Count("n_eval", a["n_max_evals"])])


def gen_term(r, n_obj, real, depth=0):
    tol = r.choice([0.0, 1e-8, 1e-4, 0.0025, 0.01, 0.125, 0.5, 2.0])
    a = {"tol": tol, "n_skip": r.choice([0, 0, 0, 1, 2, 5]), "only_feas": r.random() < 0.7}
    ks = ["ftol", "ftol", "fmin"] if n_obj == 1 else ["mtol", "mtol", "mtol"]
    ks += ["xtol", "cvtol", "feasible", "indicator", "n_gen", "n_eval"]
    if depth < 2:
        ks += ["robust", "robust", "any", "all", "coll"] + ["soo" if n_obj == 1 else "moo"] * 3
    k = r.choice(ks)
    if depth == 0 and k in ("ftol", "mtol", "xtol", "cvtol", "feasible", "indicator", "fmin") and r.random() < 0.5:
        return ["robust", {"of": gen_term(r, n_obj, real, 2), "period": r.choice([2, 3, 5, 8, 10])}]
    if k == "cvtol":
        a["wf"] = r.random() < 0.5
    elif k == "fmin":
        a = {"v": r.choice([0.0, 0.0, -1.0, -0.5, 0.25, 1.0, 3.0, 0.01, 0.001, 1e-5])}
    elif k == "indicator":
        a = {"thr": r.choice([0.1, 0.3, 0.5, 1.0, 2.0]) + 0.0123, "goal": r.choice(["minimize", "minimize", "maximize"])}
    elif k in ("n_gen", "n_eval"):
        a = {"n": r.choice([1, 3, 7, 10, 15, 25]) if k == "n_gen" else r.choice([5, 20, 37, 60, 100])}
    elif k == "robust":
        a = {"of": gen_term(r, n_obj, real, 2), "period": r.choice([1, 2, 3, 5, 8, 10])}
    elif k in ("any", "all", "coll"):
        k = r.choice([k, "all"])
        a = {"of": [gen_term(r, n_obj, real, depth + 1) for _ in range(r.choice([2, 2, 3]))]}
    elif k in ("soo", "moo"):
        a = {"xtol": r.choice([0.0, 1e-8, 0.001, 0.05, 0.3]), "cvtol": r.choice([1e-8, 0.01, 0.1, 0.5]),
             "ftol": r.choice([0.0, 1e-6, 0.005, 0.05, 0.5]), "n_skip": r.choice([0, 1, 2, 5]), "period": r.choice([1, 2, 3, 5, 8, 12]),
             "n_max_gen": r.choice([8, 20, 40, 1000]), "n_max_evals": r.choice([50, 120, 100000])}
    elif k == "feasible":
        a = {}
    return [k, a]


# ------------------------------------------------------------------------------------------------
# scripted histories
# ------------------------------------------------------------------------------------------------

class ScriptProblem(Problem):
    def __init__(self, script, n_var, n_obj, n_ieq, xl, xu, vtype):
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=n_ieq, xl=xl, xu=xu, vtype=vtype)
        self.script, self.at = script, 0

    def _evaluate(self, X, out, *args, **kwargs):
        it = self.script[self.at % len(self.script)]
        self.at += 1
        out["F"] = np.array([p["F"] for p in it], dtype=float)
        if self.n_ieq_constr:
            out["G"] = np.array([p["G"] for p in it], dtype=float)


class Script(Algorithm):
    """Delivers what the plan says."""

    def __init__(self, script, dtype, **kw):
        super().__init__(**kw)
        self.script, self.i, self.dtype = script, 0, dtype

    def _batch(self):
        it = self.script[self.i % len(self.script)]
        self.i += 1
        return Population.new(X=np.array([p["X"] for p in it], dtype=self.dtype))

    def _initialize_infill(self):
        return self._batch()

    def _infill(self):
        return self._batch()

    def _initialize_advance(self, infills=None, **kw):
        self.pop = infills

    def _advance(self, infills=None, **kw):
        self.pop = infills


GRID = [0.0, 0.125, 0.25, 0.5, 0.75, 1.0]


def gen_script(r, n_obj, n_ieq, n_var, n, vt, shifted):
    """Phases: standing still, slow drift, jumps, deterioration, infeasible dips, changing numbers of points."""
    def val():
        return r.choice(GRID + [r.random()]) * r.choice([1, 1, 1, 4, -1 if shifted else 1])

    scale = [r.choice([1.0, 1.0, 1.0, 2.0 ** -12, 2.0 ** 12]) for _ in range(n_obj)]
    front = n_obj > 1 and r.random() < 0.6

    def objectives():
        if front:
            a = r.choice(GRID + [r.random(), r.random()])
            F = [a, 1.0 - a] + [a * (1.0 - a)] * (n_obj - 2)
            return [v * c for v, c in zip(F, scale)]
        return [val() * c for c in scale]

    def pt():
        return {"X": [r.randint(0, 6) if vt == "int" else r.choice(GRID + [r.random()]) for _ in range(n_var)],
                "F": objectives(),
                "G": [r.choice([-1.0, -0.5, 0.0] if r.random() < 0.6 else [0.25, 1.0, 3.0, 1e-9]) for _ in range(n_ieq)]}
    cur = [pt() for _ in range(r.randint(1, 5))]
    out, phase, left = [], None, 0
    step = 0
    while len(out) < n:
        if left == 0:
            phase, left = r.choice(["still", "still", "still", "drift", "fall", "jump", "worse", "dip", "size"]), r.randint(1, 9)
            step = r.choice([1e-10, 1e-6, 1e-3, 2.0 ** -9, 2.0 ** -6, 0.125, 0.5])
        left -= 1
        cur = [{k: list(v) for k, v in p.items()} for p in cur]
        if phase in ("drift", "fall"):
            for p in cur:
                p["F"] = [v - c * step * r.choice([0, 1, 1]) for v, c in zip(p["F"], scale)]
                if vt != "int":
                    p["X"] = [min(1.0, max(0.0, v + step * r.choice([-1, 0, 1]))) for v in p["X"]]
                if phase == "fall":
                    p["G"] = [g - step for g in p["G"]]
        elif phase == "worse":
            for p in cur:
                p["F"] = [v + c * step for v, c in zip(p["F"], scale)]
                p["G"] = [g + step for g in p["G"]]
        elif phase == "jump":
            cur[r.randrange(len(cur))] = pt()
        elif phase == "dip":
            for p in cur:
                p["G"] = [abs(g) + step for g in p["G"]]
            left = 0
        elif phase == "size":
            cur = cur[:-1] if len(cur) > 1 and r.random() < 0.5 else cur + [pt()]
            cur = cur[:7]
        out.append(cur)
    return out


def plan(rng, i, tier):
    real = i % 4 == 3
    if i == 0:
        return {"kind": "script", "n_obj": 2, "n_ieq": 0, "n_var": 2, "vt": "real", "n": 12, "bounds": "unit", "reps": 1, "fin": "step", "cut": 1,
                "script": gen_script(rng, 2, 0, 2, 12, "real", False), "term": ["renorm", {"tol": 0.01}]}
    if real:
        name = pick_algo(rng, i // 4)
        while R.trait(name, "needs_ngen") or R.trait(name, "slow"):
            name = rng.choice(R.NAMES)
        spec = R.gen(rng, name)
        prob = R.make_problem(spec)
        n_obj = prob.n_obj
        p = {"kind": "real", "spec": spec, "n": rng.randint(12, 30), "term": gen_term(rng, n_obj, True)}
    else:
        n_obj = rng.choice([1, 1, 2, 2, 3])
        n_ieq = rng.choice([0, 0, 1, 2])
        n_var = rng.randint(1, 3)
        n = rng.randint(10, 45)
        vt = rng.choice(["real", "real", "real", "int"])
        p = {"kind": "script", "n_obj": n_obj, "n_ieq": n_ieq, "n_var": n_var, "vt": vt, "n": n,
             "bounds": rng.choice(["unit", "unit", "none", "fixed"]) if vt == "real" else "int", "reps": rng.choice([1, 1, 1, 2]),
             "script": gen_script(rng, n_obj, n_ieq, n_var, n, vt, rng.random() < 0.4), "term": gen_term(rng, n_obj, False)}
    p["fin"] = rng.choice(["step", "step", "minimize", "pickle"])
    p["cut"] = rng.randint(1, 8)
    if rng.random() < 0.06:
        p["force"] = rng.randint(1, 6)
    return p


def snapshot(alg):
    opt, prob = alg.opt, alg.problem
    X = opt.get("X")
    mixed = X.dtype == object
    s = {"F": [[float(v) for v in f] for f in opt.get("F")], "feas": [bool(v) for v in np.asarray(opt.get("feas")).ravel()],
         "CV": [float(v) for v in np.asarray(opt.get("CV")).ravel()], "mixed": mixed, "constr": prob.n_ieq_constr + prob.n_eq_constr > 0,
         "n_iter": alg.n_iter, "n_eval": int(alg.evaluator.n_eval)}
    s["X"] = None if mixed else [[float(v) for v in x] for x in X]
    if mixed or prob.xl is None or prob.xu is None:
        s["xl"] = s["xu"] = None
    else:
        s["xl"], s["xu"] = [float(v) for v in prob.xl], [float(v) for v in prob.xu]
    return s


def one(plan, term, model, st, viol, states):
    """One run with the given criterion object; every boundary is compared with the model."""
    name = plan["spec"]["algo"] if plan["kind"] == "real" else "scripted"
    rec = P.new_rec()

    def on_row(tag, x):
        if len(rec.rows) > 6000:
            raise L.Runaway("6000 evaluations")
    rec.on_row = on_row
    if plan["kind"] == "real":
        prob = R.make_problem(plan["spec"])
        alg = R.make_algorithm(plan["spec"], prob)
        seed = plan["spec"]["seed"]
    else:
        n = plan["n_var"]
        b = {"unit": (0.0, 1.0), "fixed": (0.0, 1.0), "int": (0, 6), "none": (None, None)}[plan["bounds"]]
        xl, xu = (None, None) if b[0] is None else (np.full(n, b[0]), np.full(n, b[1]))
        if plan["bounds"] == "fixed":
            xu[0] = xl[0]
        script = plan["script"]
        prob = ScriptProblem(script, n, plan["n_obj"], plan["n_ieq"], xl, xu, float if plan["vt"] == "real" else int)
        alg = Script(script, float if plan["vt"] == "real" else int)
        seed = 1
    info = {"it": 0, "amb": False, "want": None}

    def boundary(a):
        """Called within the iteration (as a callback), right after the criterion was consulted."""
        if a.n_iter == info["it"]:
            return
        info["it"] = a.n_iter
        st["n"] += 1
        s = snapshot(a)
        has = bool(a.termination.has_terminated())
        perc = a.termination.perc
        states.append(D.h(repr(plan["term"]), repr(s["F"]), repr(perc)))
        if info.get("forced"):
            want = True
        else:
            if not info["amb"]:
                try:
                    p = model(s)
                    want = p >= 1.0
                except Ambiguous:
                    info["amb"] = True
            if info["amb"]:
                st["amb"] += 1
                want = has
        if a.termination.force_termination and not info.get("forced"):
            want = has        # the algorithm itself asked for the end
        if has != want:
            viol.append(("early" if has else "late", "%s says %s after iteration %d (progress %s), a plain reading says %s; optimum F=%s CV=%s" % (
                plan["term"], "stop" if has else "go on", a.n_iter, perc, "stop" if want else "go on", s["F"][:3], s["CV"][:3])))
            raise L.Runaway("disagreement")
        if not (isinstance(perc, (int, float, np.floating)) and perc >= 0 and perc == perc):
            viol.append(("progress", "%s reports progress %r" % (plan["term"], perc)))
        if plan.get("force") == a.n_iter:
            a.termination.terminate()
            info["forced"] = True
            K.CUR.fault("termination_requested")
        if a.n_iter >= plan["n"]:
            raise L.Runaway("script over")

    class Cb:
        def __call__(self, a):
            boundary(a)

        def __deepcopy__(self, memo):
            return self
    try:
        with guard.cpu_limit(CPU):
            if plan["fin"] == "minimize":
                from pymoo.optimize import minimize
                minimize(prob, alg, term, seed=seed, callback=Cb())
            else:
                alg.setup(prob, termination=term, seed=seed)
                cb = Cb()
                alg.callback = cb
                steps = 0
                while alg.has_next():
                    alg.next()
                    steps += 1
                    if steps > 3000:
                        raise L.Runaway("steps")
                    if plan["fin"] == "pickle" and alg.n_iter == plan["cut"]:
                        alg.termination = pickle.loads(pickle.dumps(alg.termination))
                        K.CUR.fault("criterion_saved_and_restored")
                for _ in range(2):
                    if alg.has_next():
                        viol.append(("revived", "%s: the run has ended and goes on" % plan["term"]))
    except L.Runaway as e:
        pass
    except guard.Stuck as e:
        viol.append(("never-ends", "%s: %s" % (plan["term"], e)))
    except Exception as e:
        where = L.exc_where(e)
        if "termination" in where or "indicators" in where or plan["kind"] == "script":
            viol.append(("crash", "%s: %s at %s: %s" % (plan["term"], type(e).__name__, where, str(e)[:120])))
        else:
            st["exc"] += 1


def kinds(t):
    return [t[0]] + [k for e in ([t[1]["of"]] if t[0] == "robust" else t[1].get("of", []) if t[0] in ("any", "all", "coll") else [])
                     for k in kinds(e)]


def run(plan):
    k = K.Kernel(1)
    viol, states = [], []
    st = {"n": 0, "amb": 0, "exc": 0}
    with K.running(k):
        L.ambient(k, 11)
        n_obj = plan.get("n_obj") or R.make_problem(plan["spec"]).n_obj
        ref = [[0.1 * (j + 1) for j in range(n_obj)], [0.7 - 0.1 * j for j in range(n_obj)]]
        term, model = make(plan["term"], ref)
        one(plan, term, model, st, viol, states)
        if plan.get("reps") == 2 and plan["fin"] == "minimize" and not viol:
            # the same criterion object is used for a second run: the first one must not have changed it
            k.fault("criterion_used_again")
            one(plan, term, make(plan["term"], ref)[1], st, viol, states)
    vs = [core.V("%s:%s" % (a, "+".join(sorted(set(kinds(plan["term"]))))), b) for a, b in viol]
    return core.outcome(vs, D.h(repr(states)), dict(k.faults), states, st["n"] >= 3, k.clock.t, st["n"],
                        "%s %s" % (plan["kind"], plan["term"][0]),
                        {"answers_compared": st["n"] - st["amb"], "undecided": st["amb"], "exceptions": st["exc"]})


def shrinks(plan):
    if plan["kind"] == "script":
        n = len(plan["script"])
        for a in range(n):
            if n > 1:
                yield dict(plan, script=plan["script"][:a] + plan["script"][a + 1:], n=plan["n"] - 1)
    if plan["term"][0] in ("any", "all", "coll"):
        for e in plan["term"][1]["of"]:
            yield dict(plan, term=e)
    if plan["term"][0] == "robust":
        yield dict(plan, term=plan["term"][1]["of"])
