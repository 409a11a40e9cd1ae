"""C24: a setting of hyper-parameters has one value, however and whenever it is evaluated, and evaluating one changes nothing else."""
import random

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, threads

COUNT = {"quick": 330, "thorough": 6000}
RULE = "a scenario counts when at least two settings were evaluated and each was compared with the runs configured by hand in a process of their own"
REAL = ["hyper-parameter problem, single and multiple runs, parameter access", "algorithms being tuned, MixedVariableGA tuning them"]
STUB = ["objective functions of the inner problem (failing where planned)", "thread scheduling", "clock"]
STATE_MEASURE = "digest of (setting, value) per evaluation"
CPU = 100
ALGOS = {"GA": 1, "DE": 1, "NSGA2": 2, "G3PCX": 1, "NSGA2b": 2}


class UserError(Exception):
    pass


def make(a):
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    from pymoo.algorithms.soo.nonconvex.ga import GA
    if a == "NSGA2b":
        from pymoo.operators.crossover.pntx import TwoPointCrossover
        from pymoo.operators.mutation.gauss import GaussianMutation
        return NSGA2(pop_size=6, crossover=TwoPointCrossover(), mutation=GaussianMutation(sigma=0.2))
    if a == "G3PCX":
        return G3PCX()
    if a == "DE":
        return DE(pop_size=8)
    return {"GA": GA, "NSGA2": NSGA2}[a](pop_size=6)


def variables(alg):
    """The parameters of an algorithm, found by this model's own walk: name -> variable."""
    from pymoo.core.variable import Variable
    out, seen = {}, set()

    def walk(o, name):
        if isinstance(o, Variable):
            if id(o) not in seen and o.active and o.flag == "default":
                seen.add(id(o))
                out[name] = o
            return
        d = o if isinstance(o, dict) else getattr(o, "__dict__", {})
        for k, v in d.items():
            walk(v, k if not name else "%s.%s" % (name, k))
    walk(alg, "")
    return out


def draw(r, v):
    n = type(v).__name__
    if n == "Choice":
        return r.choice(list(v.options))
    if n == "Binary":
        return r.random() < 0.5
    lo, hi = v.bounds
    return r.randint(lo, hi) if n == "Integer" else r.choice([lo, hi, r.uniform(lo, hi), r.uniform(lo, hi)])


def plan(rng, i, tier):
    a = list(ALGOS)[i % len(ALGOS)]
    mode = rng.choice(["seq", "seq", "threads", "tune", "nested"])
    inner = {"kind": "sim", "fseed": rng.randrange(10 ** 6), "n_var": rng.randint(1 if a != "G3PCX" else 2, 4), "n_obj": ALGOS[a], "vtype": "real", "elementwise": rng.random() < 0.5,
             "bounds": rng.choice(["unit", "sym"])}
    seeds = [rng.randrange(1000) for _ in range(rng.randint(1, 3))]
    n_set = rng.randint(2, 4)
    steps = [{"set": rng.randrange(n_set), "fail": rng.randint(1, 20) if rng.random() < 0.25 else None, "batch": rng.random() < 0.2}
             for _ in range(rng.randint(3, 6))]
    return {"algo": a, "inner": inner, "mode": mode, "seeds": seeds, "single": rng.random() < 0.25, "n_gen": rng.randint(2, 4), "n_set": n_set, "sseed": rng.randrange(10 ** 6),
            "steps": steps, "sched": rng.randrange(10 ** 6), "p": rng.choice([0.002, 0.02]), "n_tune": rng.randint(5, 9), "stats": rng.choice(["mean", "mean", "nevals"])
            if ALGOS[a] == 1 else "own", "shared": rng.random() < 0.5}


def settings(plan):
    r = random.Random("c24-%s" % plan["sseed"])
    vs = variables(make(plan["algo"]))
    out = []
    for _ in range(plan["n_set"]):
        s = {k: draw(r, v) for k, v in vs.items()}
        if plan["algo"] == "G3PCX":
            s["pop_size"] = 20
        out.append(s)
    return out


def own_stats(rets):
    F = [ret.pop.get("F").sum() for ret in rets]
    return {"F": float(np.mean(F))}


def direct(plan, setting):
    """The value of a setting, by hand: a new algorithm, its variables set one by one, minimised."""
    from pymoo.optimize import minimize
    rets = []
    for seed in (plan["seeds"][:1] if plan["single"] else plan["seeds"]):
        alg = make(plan["algo"])
        for k, v in variables(alg).items():
            v.set(setting[k])
        prob = P.SimProblem(tag="ref", **{k: v for k, v in plan["inner"].items() if k != "kind"})
        rets.append(minimize(prob, alg, ("n_gen", plan["n_gen"]), seed=seed))
    if plan["single"] and ALGOS[plan["algo"]] == 1:
        return [float(v) for v in np.ravel(rets[0].F)]
    if plan["stats"] == "nevals":
        return [float(np.mean([r.algorithm.evaluator.n_eval for r in rets]))]
    if plan["stats"] == "own":
        return [float(np.mean([r.pop.get("F").sum() for r in rets]))]
    return [float(v) for v in np.ravel(np.array([r.F for r in rets]).mean(axis=0))]


def reference(plan, only=None):
    k = K.Kernel(2)
    with K.running(k):
        L.ambient(k, 31)
        P.new_rec()
        return [direct(plan, s) for s in (only if only is not None else settings(plan))]


def simulate(plan):
    from pymoo.algorithms import hyperparameters as H
    k = K.Kernel(1)
    out = {"got": [], "viol": [], "tuned": []}
    with K.running(k), guard.cpu_limit(CPU):
        L.ambient(k, 13)
        rec = P.new_rec()
        import threading
        left, who = {}, {}

        def on_row(tag, x):
            w = who.get(threading.get_ident(), 0)
            if left.get(w) is not None:
                left[w] -= 1
                if left[w] <= 0:
                    left[w] = None
                    k.fault("evaluation_error")
                    raise UserError("planned")
            if nest and nest[0] is not None:
                j, nest[0] = nest[0], None
                k.fault("nested_evaluation")
                evaluate(j)
        nest = []
        rec.on_row = on_row
        S = settings(plan)

        def world():
            alg = make(plan["algo"])
            prob = P.SimProblem(tag="in", **{a: b for a, b in plan["inner"].items() if a != "kind"})
            kw = {"termination": ("n_gen", plan["n_gen"])}
            if plan["single"] and ALGOS[plan["algo"]] == 1:
                perf = H.SingleObjectiveSingleRun(prob, seed=plan["seeds"][0], **kw)
            else:
                st = {"mean": H.stats_single_objective_mean, "nevals": H.stats_avg_nevals, "own": own_stats}[plan["stats"]]
                perf = H.MultiRun(prob, seeds=plan["seeds"][:1] if plan["single"] else plan["seeds"], func_stats=st, **kw)
            return alg, H.HyperparameterProblem(alg, perf)
        alg, hp = world()
        names = set(variables(alg))
        if set(hp.vars) != names:
            out["viol"].append(("parameters", "the parameters found are %s, the algorithm has %s" % (sorted(hp.vars), sorted(names))))
            return out
        before = {n: repr(v.get()) for n, v in variables(alg).items()}

        def evaluate(j, batch=False):
            if batch:
                F = np.atleast_2d(hp.evaluate(np.array([dict(S[j]), dict(S[0])], dtype=object), return_values_of=["F"]))
                out["got"].append((j, [float(v) for v in np.ravel(F[0])]))
                out["got"].append((0, [float(v) for v in np.ravel(F[1])]))
            else:
                F = hp.evaluate(np.array([dict(S[j])], dtype=object), return_values_of=["F"])
                out["got"].append((j, [float(v) for v in np.ravel(F)]))

        def step(st, w):
            for attempt in range(2):
                left[w] = st["fail"] if attempt == 0 else None
                try:
                    evaluate(st["set"], st["batch"])
                    left[w] = None
                    break
                except UserError:
                    if attempt:
                        out["viol"].append(("error-stays", "evaluating a setting fails although nothing is wrong any more"))
                except Exception as e:
                    out["viol"].append(("crash", "evaluating a setting: %s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:200])))
                    break
            after = {n: repr(v.get()) for n, v in variables(alg).items()}
            if after != before:
                out["viol"].append(("algorithm-changed", "after evaluating a setting the algorithm being tuned has other parameters: %s" % {
                    n: (before.get(n), after.get(n)) for n in set(before) | set(after) if before.get(n) != after.get(n)}))
        if plan["mode"] == "tune":
            from pymoo.core.mixed import MixedVariableGA
            from pymoo.optimize import minimize
            res = minimize(hp, MixedVariableGA(pop_size=4), ("n_evals", plan["n_tune"]), seed=plan["sched"])
            for ind in res.pop:
                X = {n: (v.item() if isinstance(v, np.generic) else v) for n, v in ind.X.items()}
                out["tuned"].append((X, [float(v) for v in np.ravel(ind.F)]))
        elif plan["mode"] == "threads":
            half = [plan["steps"][::2], plan["steps"][1::2]]

            def job(w):
                def go():
                    who[threading.get_ident()] = w
                    for st in half[w]:
                        step(dict(st, batch=False), w)
                return go
            for e in threads.Scheduler(plan["sched"], plan["p"], "/pymoo/", "call").run([job(0), job(1)]):
                if e is not None:
                    raise e
        else:
            for st in plan["steps"]:
                if plan["mode"] == "nested":
                    nest[:] = [(st["set"] + 1) % plan["n_set"]]
                step(st, 0)
        out["t"], out["faults"] = k.clock.t, dict(k.faults)
    return out


def drive(plan, call):
    a = call("simulate", plan=plan)
    viol = [core.V("%s:%s" % (x, plan["algo"]), "%s: %s" % (plan["algo"], y)) for x, y in a["viol"][:2]]
    if plan["mode"] == "tune":
        ref = call("reference", plan=plan, only=[x for x, _ in a["tuned"]]) if a["tuned"] else []
        pairs = [(x, f, r) for (x, f), r in zip(a["tuned"], ref)]
    else:
        ref = call("reference", plan=plan) if a["got"] else []
        S = settings(plan)
        pairs = [(S[j], f, ref[j]) for j, f in a["got"]]
    for s, f, r in pairs:
        if f != r:
            viol.append(core.V("value:%s" % plan["algo"], "%s (%s): the setting %s has the value %s, runs configured by hand give %s" % (
                plan["algo"], plan["mode"], s, f, r)))
            break
    T = [D.h(repr(p)) for p in pairs]
    return core.outcome(viol, D.h(repr(T)), a.get("faults", {}), T, len(pairs) >= 2, a.get("t", 0.0), len(pairs), "%s %s" % (plan["algo"], plan["mode"]), {})
