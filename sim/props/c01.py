"""C01: a seeded run is a function of problem, configuration and seed only."""
import random

import numpy as np

from sim import core, drive as D, kernel as K, legs as L, problems as P, registry as R, seams
from sim.props import pick_algo

COUNT = {"quick": 560, "thorough": 12000}
RULE = ("a scenario counts when both legs ran, made at least one evaluation and the second leg's environment differed "
        "from the first one's in entropy, ambient generators, clock, string hashing and what ran before in the process")
REAL = ["every algorithm of the library with its operators, survival, termination, archive and evaluator", "the library's "
        "test problems", "optimize.minimize / setup / ask-and-tell drivers", "seeded sampling and reference directions"]
STUB = ["operating-system entropy (os.urandom, unseeded numpy generators)", "clock", "objective functions of generated problems"]
STATE_MEASURE = "digest of (population, optimum, counters) after each iteration of the reference leg"
ASSUMPTIONS = ["single-threaded numeric libraries on one machine type: floating-point results do not depend on thread count",
               "Optuna and the CMA package are run as they are installed"]

def plan(rng, i, tier):
    if i % 12 == 11:
        return {"kind": "component", "comp": rng.choice(sorted(COMPONENTS)), "cseed": rng.randrange(10 ** 6),
                "seed": rng.randrange(1, 10 ** 6), "ent": [1, rng.randrange(2, 10 ** 6)]}
    name = pick_algo(rng, i)
    spec = R.gen(rng, name)
    how = L.gen_how(rng)
    n = rng.randint(3, 9 if tier == "quick" else 16)
    term = L.gen_term(rng, spec, n)
    return {"kind": "run", "spec": spec, "term": term, "how": how, "archive": L.gen_archive(rng, spec),
            "save_history": rng.random() < 0.15, "seed_at": rng.choice(["setup", "setup", "ctor"]),
            "env": {"ent": rng.randrange(2, 10 ** 9), "amb": rng.randrange(2, 10 ** 6),
                    "base": rng.choice([0.0, 1e9, 2e9, 1.7e9]), "tick": rng.choice([1e-6, 1e-3, 5.0]),
                    "others": [rng.randrange(10 ** 6) for _ in range(rng.choice([0, 0, 1, 2]))],
                    "same_before": rng.choice([0, 0, 1]),
                    "pollute": [[rng.randint(1, n), rng.choice(L.POLLUTIONS), rng.randrange(1000)]
                                for _ in range(rng.choice([0, 1, 3]))]}}


def leg(plan, env):
    """One execution. env None: the quiet reference environment."""
    k = K.Kernel(1)
    e = env or {"ent": 1, "amb": 1, "base": 1.7e9, "tick": 1e-4, "others": [], "pollute": [], "same_before": 0}
    k.clock.base, k.clock.tick = e["base"], e["tick"]
    with K.running(k):
        L.ambient(k, e["ent"])
        seams.set_ambient(e["amb"])
        for o in e["others"]:
            L.decoy(o, 3)
            k.fault("run_before")
        if e["same_before"]:
            # the same algorithm with another seed and problem, earlier in this process
            P.new_rec()
            s2 = dict(plan["spec"], seed=plan["spec"]["seed"] + 1)
            L.Leg(s2, plan["term"], plan["how"], archive=plan["archive"]).go()
            k.fault("same_algorithm_before")
        rec = P.new_rec()
        todo = {}
        for at, kind, j in e["pollute"]:
            todo.setdefault(at, []).append((kind, j))

        def boundary(_leg, _alg, n):
            for kind, j in todo.get(n, []):
                L.pollute(kind, j)
                k.fault("ambient_" + kind)
        lg = L.Leg(plan["spec"], plan["term"], plan["how"], archive=plan["archive"], save_history=plan["save_history"],
                   seed_at=plan["seed_at"], on_boundary=boundary if todo else None).go()
        if env:
            k.fault("other_entropy")
            k.fault("other_ambient_rng")
            k.fault("other_clock")
            k.fault("other_hash_seed")
    return {"T": lg.T, "rows": D.h(repr(rec.rows)), "n": len(rec.rows), "first_rows": [str(r[1])[:100] for r in rec.rows[:400]],
            "faults": dict(k.faults), "t": k.clock.t, "steps": len(lg.T)}


# -- seeded components ------------------------------------------------------------------------------

def _sampling(cls):
    def f(r, seed):
        import importlib
        mod, c = cls
        s = getattr(importlib.import_module(mod), c)()
        prob = P.SimProblem(n_var=r.randint(2, 6), vtype={"IntegerRandomSampling": "int", "BinaryRandomSampling": "bin",
                                                         "PermutationRandomSampling": "perm"}.get(c, "real"),
                            bounds=r.choice(["unit", "asym", "neg"]))
        X = s.do(prob, r.randint(2, 12), random_state=np.random.default_rng(seed)).get("X")
        return D.b(X)
    return f


def _refdirs(r, seed):
    from pymoo.util.ref_dirs import get_reference_directions
    kind = r.choice(["energy", "layer-energy", "red", "das-dennis", "multi-layer", "uniform"])
    n_dim = r.choice([2, 3])
    if kind == "energy":
        X = get_reference_directions("energy", n_dim, r.randint(4, 12), seed=seed)
    elif kind == "layer-energy":
        X = get_reference_directions("layer-energy", 3, [r.randint(2, 3), 2], seed=seed)
    elif kind == "red":
        X = get_reference_directions("red", n_dim, r.randint(4, 9), seed=seed)
    elif kind == "das-dennis":
        X = get_reference_directions("das-dennis", n_dim, n_partitions=r.randint(2, 6))
    elif kind == "uniform":
        X = get_reference_directions("uniform", n_dim, n_partitions=r.randint(2, 6))
    else:
        X = get_reference_directions("multi-layer", get_reference_directions("uniform", 3, n_partitions=3, scaling=1.0),
                                     get_reference_directions("uniform", 3, n_partitions=2, scaling=0.5))
    return D.b(X)


def _hyper(r, seed):
    from pymoo.algorithms.hyperparameters import HyperparameterProblem, MultiRun, SingleObjectiveSingleRun
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.core.mixed import MixedVariableGA
    from pymoo.optimize import minimize
    prob = P.SimProblem(n_var=2, fseed=r.randrange(100), tag="hyper")
    if r.random() < 0.5:
        perf = SingleObjectiveSingleRun(prob, termination=("n_gen", 2), seed=seed)
    else:
        perf = MultiRun(prob, seeds=[seed, seed + 1], termination=("n_gen", 2))
    hp = HyperparameterProblem(GA(pop_size=6), perf)
    res = minimize(hp, MixedVariableGA(pop_size=4), ("n_gen", 2), seed=seed)
    return D.b(res.X) + D.b(res.F) + D.b(res.pop.get("F"))


def _operator(r, seed):
    from pymoo.core.population import Population
    n_var = r.randint(2, 5)
    prob = P.SimProblem(n_var=n_var, bounds=r.choice(["unit", "asym"]))
    rs = np.random.default_rng(seed)
    X = prob.xl + np.random.default_rng(3).random((10, n_var)) * (prob.xu - prob.xl)
    pop = Population.new("X", X)
    xo, mu, _ = R.gen_real_ops(r)
    out = b""
    if xo and xo[0] not in ("PCX",):
        op = R.make_op(xo)
        parents = np.array([[(i + j) % 10 for j in range(op.n_parents)] for i in range(4)])
        out += D.b(op.do(prob, pop, parents, random_state=rs).get("X"))
    if mu:
        out += D.b(R.make_op(mu).do(prob, Population.new("X", X.copy()), random_state=rs).get("X"))
    return out


def _ops(r, seed):
    # problem-level machinery driven directly with a seeded generator: duplicates, survival, selection, roulette
    from pymoo.core.population import Population
    prob = P.SimProblem(n_var=3, n_obj=2, plateau=True, fseed=r.randrange(50))
    X = np.random.default_rng(5).random((14, 3))
    pop = Population.new("X", X)
    from pymoo.core.evaluator import Evaluator
    Evaluator().eval(prob, pop)
    name = r.choice(["rnc", "nsga3", "age", "spea", "sms"])
    rs = np.random.default_rng(seed)
    if name == "rnc":
        from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
        s = RankAndCrowding()
    elif name == "nsga3":
        from pymoo.algorithms.moo.nsga3 import ReferenceDirectionSurvival
        s = ReferenceDirectionSurvival(R.ref_dirs(2, 5))
    elif name == "age":
        from pymoo.algorithms.moo.age import AGEMOEASurvival
        s = AGEMOEASurvival()
    elif name == "spea":
        from pymoo.algorithms.moo.spea2 import SPEA2Survival
        s = SPEA2Survival()
    else:
        from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival
        s = LeastHypervolumeContributionSurvival()
    out = s.do(prob, pop, n_survive=7, random_state=rs)
    return D.b(out.get("X"))


COMPONENTS = {
    "sampling_float": _sampling(("pymoo.operators.sampling.rnd", "FloatRandomSampling")),
    "sampling_int": _sampling(("pymoo.operators.sampling.rnd", "IntegerRandomSampling")),
    "sampling_bin": _sampling(("pymoo.operators.sampling.rnd", "BinaryRandomSampling")),
    "sampling_perm": _sampling(("pymoo.operators.sampling.rnd", "PermutationRandomSampling")),
    "sampling_lhs": _sampling(("pymoo.operators.sampling.lhs", "LHS")),
    "refdirs": _refdirs, "hyperparameters": _hyper, "operator": _operator, "survival": _ops,
}


def comp_leg(plan, ent):
    k = K.Kernel(1)
    k.clock.base += ent
    with K.running(k):
        L.ambient(k, ent)
        P.new_rec()
        if ent != 1:
            np.random.random(7)
            k.fault("other_entropy")
            k.fault("other_ambient_rng")
            k.fault("other_hash_seed")
        try:
            val = COMPONENTS[plan["comp"]](random.Random(plan["cseed"]), plan["seed"])
        except Exception as e:
            val = ("EXC %s %s" % (type(e).__name__, e)).encode()
    return {"T": [{"value": D.h(val)}], "rows": "", "n": 1, "first_rows": [], "faults": dict(k.faults), "t": k.clock.t, "steps": 1}


def drive(plan, call):
    from sim.runner import HASHSEEDS
    a_hs, b_hs = plan["hs"], HASHSEEDS[1 - HASHSEEDS.index(plan["hs"])]
    if plan["kind"] == "component":
        A = call("comp_leg", hs=a_hs, plan=plan, ent=plan["ent"][0])
        B = call("comp_leg", hs=b_hs, plan=plan, ent=plan["ent"][1])
        name = plan["comp"]
    else:
        A = call("leg", hs=a_hs, plan=plan, env=None)
        B = call("leg", hs=b_hs, plan=plan, env=plan["env"])
        name = plan["spec"]["algo"]
    viol = []
    d = D.first_diff(A["T"], B["T"], ("quiet environment", "other environment"))
    if d is None and A["rows"] != B["rows"]:
        j = next((j for j, (x, y) in enumerate(zip(A["first_rows"], B["first_rows"])) if x != y), None)
        d = "evaluated designs differ (%d vs %d evaluations, first at %s)" % (A["n"], B["n"], j)
    if d:
        viol.append(core.V("not-reproducible:" + name, "%s, same problem, configuration and seed: %s" % (name, d)))
    f = dict(B["faults"])
    return core.outcome(viol, D.h(repr(A["T"]), A["rows"]), f, [D.h(repr(t)) for t in A["T"]], A["n"] > 0,
                        A["t"] + B["t"], A["steps"] + B["steps"],
                        "%s %s" % (name, plan.get("term") or plan.get("cseed")),
                        {"sub_runs": 1, "evaluated_designs": A["n"] + B["n"],
                         "exceptions": sum("EXC" in t for t in A["T"] if isinstance(t, dict))})
