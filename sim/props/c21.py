"""C21: a valid problem never makes an algorithm crash, loop or report undefined values."""
import math

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R
from sim.props import c14, pick_algo

COUNT = {"quick": 1500, "thorough": 20000}
RULE = "a scenario counts when the run went through at least two iterations on the degenerate problem and its result was checked"
REAL = ["every algorithm, operators, survival, normalisation, termination, archive, display", "result object"]
STUB = ["objective functions (degenerate on purpose)", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"
CPU = 100
CMA = ("CMAES", "SimpleCMAES", "BIPOPCMAES")          # the cma package does not support one variable
DEG = ["const", "zero", "equal", "one_const", "line", "two", "big", "small", "neg", "inf"]


def plan(rng, i, tier):
    name = pick_algo(rng, i)
    spec = R.gen(rng, name, builtin=False)
    pr = spec["problem"]
    kinds = []
    if pr["kind"] == "sim":
        for _ in range(rng.choice([1, 1, 2])):
            kinds.append(rng.choice(["deg", "deg", "deg", "never", "n_var", "fixed", "bounds", "plateau"]))
        if "deg" in kinds:
            pr["deg"] = rng.choice(DEG)
        if "uni" in R.REG[name].vtypes:
            kinds = [x for x in kinds if x in ("deg", "plateau", "bounds")]
            if pr.get("deg") == "inf":
                pr["deg"] = "const"         # nothing can be interpolated
        if "never" in kinds and R.REG[name].constr:
            pr["n_ieq"], pr["cmode"] = pr.get("n_ieq", 1), "never"
        if "n_var" in kinds:
            n = 1 if pr["vtype"] != "perm" else 2
            pr["n_var"] = rng.choice([n, n, 12])
            if pr["n_var"] == 1 and name in CMA:
                pr["n_var"] = 2
        if "fixed" in kinds and pr["vtype"] == "real" and pr["n_var"] > 1:
            pr["fixed_dim"] = True
        if "bounds" in kinds and pr["vtype"] == "real":
            pr["bounds"] = rng.choice(["huge", "tiny", "lop", "far", "third", "ugly"])
        if "plateau" in kinds:
            pr["plateau"] = True
    elif pr["kind"] == "mixed":
        pr["deg"] = rng.choice(DEG)
    return {"spec": spec, "n": rng.randint(3, 10 if tier == "quick" else 25), "how": L.gen_how(rng), "archive": L.gen_archive(rng, spec, 0.2),
            "verbose": rng.random() < 0.15, "least": rng.random() < 0.3}


def finite(v):
    try:
        return bool(np.isfinite(np.asarray(v, dtype=float)).all())
    except (TypeError, ValueError):
        return True


def run(plan):
    k = K.Kernel(1)
    spec, name = plan["spec"], plan["spec"]["algo"]
    viol, exc = [], None
    with K.running(k):
        L.ambient(k, 3)
        P.new_rec()
        for f in ("deg", "cmode", "fixed_dim", "plateau"):
            if spec["problem"].get(f):
                k.fault("problem_%s_%s" % (f, spec["problem"][f]))
        kw = {"return_least_infeasible": True} if plan["least"] else {}
        import contextlib
        import io
        if plan["verbose"]:
            kw["verbose"] = True
        lg = L.Leg(spec, ["n_gen", max(2, plan["n"])], plan["how"], archive=plan["archive"], setup_kw=kw, max_iter=400)
        try:
            with guard.cpu_limit(CPU), contextlib.redirect_stdout(io.StringIO()):
                lg.go()
        except guard.Stuck as e:
            viol.append(("stuck", "the run does not come back: %s" % e))
        prob_inf = spec["problem"].get("deg") == "inf"
        if lg.exc is not None:
            viol.append(("crash-%s" % L.exc_where(lg.exc), "%s at %s: %s" % (type(lg.exc).__name__, L.exc_where(lg.exc), str(lg.exc)[:160])))
        elif lg.T and "RUNAWAY" in lg.T[-1]:
            viol.append(("stuck", "the run of %d iterations does not end: %s" % (plan["n"], lg.T[-1]["RUNAWAY"])))
        elif lg.res is not None:
            res, alg = lg.res, lg.alg
            if alg.opt is None or len(alg.opt) == 0:
                viol.append(("no-optimum", "the run ended without an optimum"))
            else:
                for ind in list(alg.opt) + [x for x in alg.pop if len(np.atleast_1d(x.F))]:
                    if any(v != v for v in np.ravel(ind.F)) or any(v != v for v in np.ravel(ind.CV)):
                        viol.append(("undefined", "a design is reported with F=%s CV=%s" % (ind.F, ind.CV)))
                        break
                    if not prob_inf and not R.trait(name, "meta") and (not finite(ind.F) or not finite(ind.CV)):
                        viol.append(("undefined", "a design is reported with F=%s CV=%s" % (ind.F, ind.CV)))
                        break
                    why = c14.invalid(lg.prob, ind.X)
                    if why:
                        viol.append(("outside", "a design is reported that is not in the search space: %s" % why))
                        break
    if spec["problem"].get("fixed_dim") and spec["cfg"].get("normalize") is False and name in CMA:
        viol = [("crash-fixed-raw" if "Lower bounds" in b else a, b) for a, b in viol]
    vs = [core.V("%s:%s" % (a, name), "%s: %s" % (name, b)) for a, b in viol[:2]]
    return core.outcome(vs, D.h(repr(lg.T)), dict(k.faults), [D.h(repr(t)) for t in lg.T], len(lg.T) > 2, k.clock.t, len(lg.T),
                        "%s %s" % (name, spec["problem"].get("deg")), {})
