"""C14: only valid designs are ever evaluated."""
import math
import random

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R, watch as W
from sim.props import pick_algo

COUNT = {"quick": 3600, "thorough": 60000}
RULE = "a scenario counts when hostile draws were injected and every design handed over (or produced by the operator) was checked against the search space"
REAL = ["samplings, crossovers, mutations, repairs, mixed-variable mating", "infill of every algorithm"]
STUB = ["objective functions of generated problems", "clock", "random draws (legal but extreme values injected)"]
STATE_MEASURE = "digest of algorithm state after each iteration / of the operator's output"
CPU = 100
NAMES = R.STATIC + R.DYNAMIC
REAL_BOUNDS = ["unit", "sym", "asym", "neg", "offs", "huge", "tiny", "ugly", "third", "lop", "far", "ugly", "third"]
KINDS = [["uniform"], ["uniform", "normal"], ["normal"], ["uniform", "normal", "integer", "permutation"], ["integer", "permutation"]]

# operators on their own: (family, [spec, ...])
REAL_X = [["SBX", {"eta": 3, "prob": 1.0}], ["SBX", {"eta": 0.5, "prob": 1.0, "prob_var": 0.9}], ["SBX", {"prob_bin": 1.0, "prob_exch": 1.0}], ["UX", {}],
          ["SinglePointCrossover", {}], ["TwoPointCrossover", {}], ["HUX", {}], ["PointCrossover", {"n_points": 3}], ["ExponentialCrossover", {}],
          ["BinomialCrossover", {}], ["DEX", {"variant": "bin"}], ["DEX", {"variant": "exp", "F": 0.9, "jitter": True}], ["DEX", {"at_least_once": True}], ["PCX", {}],
          ["PCX", {"eta": 2.0, "zeta": 2.0}], ["NoCrossover", {}]]
REAL_M = [["PM", {"eta": 3}], ["PM", {"prob_var": 0.9}], ["PM", {"at_least_once": True}], ["PM", {"eta": 0.2, "prob_var": 0.9}], ["GM", {"sigma": 0.9, "prob_var": 0.9}], ["GM", {}], ["GM", {"sigma": 5.0, "prob_var": 0.9}], ["NoMutation", {}]]
REAL_S = [["FloatRandomSampling", {}], ["LHS", {}], ["LHS", {"smooth": False}], ["LHS", {"iterations": 2}]]
REPAIRS = [["ToBoundOutOfBoundsRepair", {}], ["BounceBackOutOfBoundsRepair", {}], ["InversePenaltyOutOfBoundsRepair", {}]]
FUNCS = ["repair_clamp", "repair_random_init", "repair_periodic", "bounce_back", "to_bound", "de:bounce-back", "de:midway", "de:rand-init", "de:to-bounds"]
INT_X = [["SBX", {"_round": True, "prob": 1.0, "eta": 3.0}], ["SBX", {"_round": True, "prob_var": 0.9}], ["UX", {}], ["TwoPointCrossover", {}], ["HUX", {}], ["SinglePointCrossover", {}],
         ["ExponentialCrossover", {}], ["BinomialCrossover", {}]]
INT_M = [["PM", {"_round": True}], ["PM", {"_round": True, "prob_var": 0.9, "eta": 1}], ["GM", {"_round": True, "sigma": 0.9, "prob_var": 0.9}], ["NoMutation", {}]]
BIN_X = [["UX", {}], ["TwoPointCrossover", {}], ["HUX", {}], ["SinglePointCrossover", {}], ["ExponentialCrossover", {}], ["BinomialCrossover", {}], ["PointCrossover", {"n_points": 2}]]
BIN_M = [["BitflipMutation", {}], ["BitflipMutation", {"prob_var": 0.9}], ["NoMutation", {}]]
PERM_X = [["OrderCrossover", {}], ["OrderCrossover", {"shift": True}], ["ERX", {}], ["NoCrossover", {}]]
PERM_M = [["InversionMutation", {}], ["InversionMutation", {"prob": 0.6}], ["NoMutation", {}]]


def plan(rng, i, tier):
    if i % 5 > 1:
        return plan_op(rng)
    name = pick_algo(rng, i // 5 * 2 + i % 5, NAMES)
    n = rng.randint(2, 7 if tier == "quick" else 16)
    spec = R.gen(rng, name)
    p = spec["problem"]
    if "bounds" in p and rng.random() < 0.7:
        p["bounds"] = rng.choice(REAL_BOUNDS)
    if p["kind"] == "sim" and p["vtype"] == "real" and p["n_var"] > 1 and rng.random() < 0.06:
        p["fixed_dim"] = True
    f = W.gen_faults(rng, name, n, p_adv=0.0, p_err=0.1, p_cut=0.1, p_poll=0.1)
    f["adv"] = {"p": rng.choice([0.01, 0.05, 0.2, 0.6]), "seed": rng.randrange(10 ** 6), "kinds": rng.choice(KINDS)}
    return {"kind": "run", "spec": spec, "n": n, "faults": f}


def plan_op(rng):
    what = rng.choice(["sampling", "crossover", "crossover", "crossover", "mutation", "mutation", "repair", "function", "variable"])
    vt = rng.choice(["real", "real", "int", "bin", "perm"]) if what in ("sampling", "crossover", "mutation") else "real"
    p = {"kind": "op", "what": what, "vtype": vt, "seed": rng.randrange(10 ** 6), "n": rng.choice([1, 2, 5, 8, 15, 30]), "where": rng.choice(["in", "edge", "mix", "same"]),
         "adv": {"p": rng.choice([0.0, 0.1, 0.5, 0.9]), "seed": rng.randrange(10 ** 6), "kinds": rng.choice(KINDS)}}
    p["problem"] = {"kind": "sim", "fseed": 1, "n_var": rng.randint(1, 6), "vtype": vt}
    if vt == "real":
        p["problem"]["bounds"] = rng.choice(REAL_BOUNDS)
        if rng.random() < 0.1:
            p["problem"]["fixed_dim"] = True
    elif vt == "perm":
        p["problem"]["n_var"] = rng.randint(3, 8)
    if what == "sampling":
        p["op"] = rng.choice({"real": REAL_S, "int": [["IntegerRandomSampling", {}]], "bin": [["BinaryRandomSampling", {}]], "perm": [["PermutationRandomSampling", {}]]}[vt])
    elif what == "crossover":
        p["op"] = rng.choice({"real": REAL_X, "int": INT_X, "bin": BIN_X, "perm": PERM_X}[vt])
    elif what == "mutation":
        p["op"] = rng.choice({"real": REAL_M, "int": INT_M, "bin": BIN_M, "perm": PERM_M}[vt])
    elif what == "repair":
        p["op"] = rng.choice(REPAIRS)
        p["out"] = rng.choice([1e-12, 0.3, 1.0, 2.0, 7.3, 1e3])
    elif what == "function":
        p["op"] = [rng.choice(FUNCS)]
        p["out"] = rng.choice([1e-12, 0.3, 1.0, 2.0, 7.3, 1e3])
    else:
        p["op"] = [rng.choice(["Real", "Integer", "Binary", "Choice"])]
        p["problem"] = {"kind": "mixed", "fseed": 1, "shape": "full"}
    return p


def invalid(prob, x):
    """Why a design is not in the declared search space (None if it is)."""
    if isinstance(x, dict):
        names = set(prob.vars)
        if set(x) != names:
            return "variables %s instead of %s" % (sorted(x), sorted(names))
        for name, v in x.items():
            why = bad_value(prob.vars[name], v)
            if why:
                return "%s=%r %s" % (name, v, why)
        return None
    v = np.asarray(x)
    if v.shape != (prob.n_var,):
        return "shape %s" % (v.shape,)
    if prob.kind == "perm":
        if sorted(v.tolist()) != list(range(prob.n_var)):
            return "%s is not a permutation" % (v.tolist(),)
        return None
    if prob.kind == "bin":
        bad = [j for j, e in enumerate(v.tolist()) if e not in (0, 1)]
        return "variable %d is %r, not boolean" % (bad[0], v[bad[0]]) if bad else None
    for j, e in enumerate(v.tolist()):
        lo, hi = float(prob.xl[j]), float(prob.xu[j])
        if not (lo <= e <= hi):
            return "variable %d is %r, the bounds are [%r, %r]" % (j, e, lo, hi)
        if prob.kind == "int" and e != math.floor(e):
            return "variable %d is %r, not an integer" % (j, e)
    return None


def bad_value(var, v):
    kind = type(var).__name__
    if kind == "Binary":
        return None if isinstance(v, (bool, np.bool_)) else "is not boolean"
    if kind == "Choice":
        u = v.item() if isinstance(v, np.generic) else v
        return None if any(isinstance(u, type(o)) and o == u for o in var.options) else "is none of the options %s" % (list(var.options),)
    lo, hi = var.bounds
    if kind == "Integer":
        if isinstance(v, (bool, np.bool_)) or not isinstance(v, (int, np.integer)):
            return "is not an integer"
    elif not isinstance(v, (float, np.floating)):
        return "is not a float"
    return None if lo <= v <= hi else "is out of bounds [%r, %r]" % (lo, hi)


# ------------------------------------------------------------------------------------------------

def run(plan):
    return run_op(plan) if plan["kind"] == "op" else run_alg(plan)


def run_alg(plan):
    k = K.Kernel(1)
    spec, name = plan["spec"], plan["spec"]["algo"]
    exc, w, bad, n = None, None, [], [0]
    with K.running(k):
        L.ambient(k, 3)
        rec = P.new_rec()
        try:
            with guard.cpu_limit(CPU):
                w = W.Watch(spec, k, ("n_gen", plan["n"]), plan["faults"])

                def on_row(tag, x):
                    n[0] += 1
                    why = invalid(w.prob, x)
                    if why and not bad:
                        bad.append("evaluation %d: %s" % (n[0], why))
                rec.on_row = on_row
                w.go()
        except (Exception, L.Runaway, guard.Stuck) as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
    viol = [core.V("invalid:%s" % name, "%s: %s" % (name, b)) for b in bad]
    hostile = sum(v for f, v in k.faults.items() if f.startswith("rng_"))
    st = w.states if w else []
    return core.outcome(viol, D.h(repr(st), exc), dict(k.faults), st, hostile > 0 and n[0] > 0, k.clock.t, n[0], name, {"designs": n[0], "exceptions": int(exc is not None)})


def parents(plan, prob, rng, n):
    """`n` valid designs, many of them at the ends of the ranges."""
    where, out = plan["where"], []
    for _ in range(n):
        if where == "same" and out and rng.random() < 0.6:
            out.append(list(out[rng.randrange(len(out))]))
            continue
        if prob.kind == "perm":
            out.append(rng.sample(range(prob.n_var), prob.n_var))
        elif prob.kind == "bin":
            out.append([rng.random() < 0.5 for _ in range(prob.n_var)])
        else:
            x = []
            for lo, hi in zip(prob.xl.tolist(), prob.xu.tolist()):
                edge = where == "edge" or (where in ("mix", "same") and rng.random() < 0.4)
                if prob.kind == "int":
                    x.append(int(rng.choice([lo, hi])) if edge else rng.randint(int(lo), int(hi)))
                else:
                    x.append(rng.choice([lo, hi, min(hi, float(np.nextafter(lo, hi))), float(np.nextafter(hi, lo)) if hi > lo else lo]) if edge else
                             min(hi, max(lo, rng.uniform(lo, hi))))
            out.append(x)
    return np.array(out)


def function(name):
    from pymoo.operators.repair import bounds_repair as br
    from pymoo.operators.repair.bounce_back import bounce_back
    from pymoo.operators.repair.to_bound import set_to_bounds_if_outside
    if name.startswith("de:"):
        from pymoo.operators.crossover.dex import DE_REPAIRS
        return DE_REPAIRS[name[3:]], True
    return {"bounce_back": bounce_back, "to_bound": set_to_bounds_if_outside}.get(name) or getattr(br, name), name == "repair_random_init"


def run_op(plan):
    k = K.Kernel(1)
    rng = random.Random("op-%s" % plan["seed"])
    bad, exc, dig, n = [], None, None, 0
    name = plan["op"][0]
    what = plan["what"]
    with K.running(k):
        L.ambient(k, 3)
        k.adversary = plan["adv"]
        prob = P.build(plan["problem"])
        try:
            with guard.cpu_limit(CPU):
                outs, moved = produce(plan, prob, rng, name)
            for row in outs:
                n += 1
                why = invalid(prob, row) if what != "variable" else bad_value([v for v in prob.vars.values() if type(v).__name__ == name][plan["seed"] % len(
                    [v for v in prob.vars.values() if type(v).__name__ == name])], row)
                if why:
                    bad.append("invalid:%s" % name)
                    bad.append(("%s %s" % (plan["op"], why)) if what != "variable" else "%s sampled %r: %s" % (name, row, why))
                    break
            if moved and not bad:
                bad = ["moved:%s" % name, moved]
            dig = D.h(repr([P.key(o) if what != "variable" else repr(o) for o in outs]))
        except Exception as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
            bad = ["error:%s" % name, "%s on valid designs: %s" % (plan["op"], exc)]
    viol = [core.V(bad[0], bad[1])] if bad else []
    return core.outcome(viol, D.h(dig, exc), dict(k.faults), [dig], n > 0, k.clock.t, n, name, {"designs": n, "operators": 1})


def produce(plan, prob, rng, name):
    from pymoo.core.population import Population
    what, moved = plan["what"], None
    seed = plan["seed"]
    if what == "sampling":
        return list(R.make_op(plan["op"]).do(prob, plan["n"], random_state=np.random.default_rng(seed)).get("X")), None
    if what == "variable":
        vs = [v for v in prob.vars.values() if type(v).__name__ == name]
        return list(vs[seed % len(vs)].sample(plan["n"], random_state=np.random.default_rng(seed))), None
    if what == "crossover":
        op = R.make_op(plan["op"])
        pool = parents(plan, prob, rng, max(plan["n"], op.n_parents))
        pop = Population.new(X=pool)
        mat = np.array([[rng.randrange(len(pool)) for _ in range(op.n_parents)] for _ in range(plan["n"])])
        off = op(prob, pop, parents=mat, random_state=np.random.default_rng(seed))
        if not np.array_equal(pop.get("X"), parents(plan, prob, random.Random("op-%s" % seed), max(plan["n"], op.n_parents))):
            moved = "%s changed its parents" % (plan["op"],)
        return list(off.get("X")), moved
    if what == "mutation":
        X = parents(plan, prob, rng, plan["n"])
        off = R.make_op(plan["op"])(prob, Population.new(X=X), random_state=np.random.default_rng(seed))
        return list(off.get("X")), None
    # repairs get designs out of bounds as well; those in bounds have to stay what they are
    base = parents(plan, prob, rng, plan["n"])
    X = base.copy()
    span = np.where(prob.xu > prob.xl, prob.xu - prob.xl, 1.0)
    for i in range(len(X)):
        for j in range(prob.n_var):
            if rng.random() < 0.4:
                d = plan["out"] * span[j] * rng.choice([1.0, rng.random()])
                X[i, j] = prob.xu[j] + d if rng.random() < 0.5 else prob.xl[j] - d
    inside = np.logical_and(X >= prob.xl, X <= prob.xu)
    before = X.copy()
    if what == "repair":
        if name.startswith("Inverse"):
            par = parents(dict(plan, where="in"), prob, rng, plan["n"])
            out = R.make_op(plan["op"])(prob, Population.new(X=X.copy()), P=par, random_state=np.random.default_rng(seed)).get("X")
            inside = inside & np.all(inside, axis=1)[:, None]
        else:
            out = R.make_op(plan["op"])(prob, Population.new(X=X.copy())).get("X")
    else:
        fn, needs = function(name)
        if needs:
            out = fn(X.copy(), base, prob.xl, prob.xu, random_state=np.random.default_rng(seed))
        else:
            out = fn(X.copy(), prob.xl, prob.xu)
    out = np.asarray(out)
    same = out[inside] == before[inside]
    if not np.all(same):
        moved = "%s changed a variable that was in bounds: %r became %r" % (plan["op"], before[inside][~same][0], out[inside][~same][0])
    return list(out), moved


def shrinks(plan):
    out = []
    if plan["kind"] == "op":
        if plan["n"] > 1:
            out.append(dict(plan, n=max(1, plan["n"] // 2)))
        if plan["adv"]["p"]:
            out.append(dict(plan, adv=dict(plan["adv"], p=0.0)))
        if plan["where"] != "in":
            out.append(dict(plan, where="in"))
        return out
    f = plan["faults"]
    for key in list(f):
        if key != "adv":
            out.append(dict(plan, faults={a: b for a, b in f.items() if a != key}))
    if f.get("adv"):
        out.append(dict(plan, faults={a: b for a, b in f.items() if a != "adv"}))
        if len(f["adv"]["kinds"]) > 1:
            for kd in f["adv"]["kinds"]:
                out.append(dict(plan, faults=dict(f, adv=dict(f["adv"], kinds=[kd]))))
    if plan["n"] > 1:
        out.append(dict(plan, n=plan["n"] - 1))
    return out
