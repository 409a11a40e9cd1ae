"""C05: every design an algorithm asks for is evaluated exactly once, and the evaluation counter is true."""
from collections import Counter

import numpy as np

from sim import core, drive as D, kernel as K, legs as L, pools, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 520, "thorough": 9000}
RULE = "a scenario counts when the run made at least two iterations' worth of evaluations and every boundary was compared"
REAL = ["every algorithm, operators, initialization, evaluator, problem evaluation paths", "result object"]
STUB = ["objective functions of generated problems (recording)", "worker pool (where used)", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"


def plan(rng, i, tier):
    if i % 4 == 3:
        name = rng.choice(R.TAKES_SAMPLING + R.TAKES_INITIAL)
    else:
        name = pick_algo(rng, i)
    spec = R.gen(rng, name)
    n = rng.randint(3, 8 if tier == "quick" else 14)
    p = {"spec": spec, "how": L.gen_how(rng), "archive": L.gen_archive(rng, spec), "save_history": rng.random() < 0.1,
         "term": L.gen_term(rng, spec, n)}
    if i % 4 == 3:
        # start from given designs, some of them evaluated already
        p["warm"] = {"n": rng.randint(4, 14), "done": rng.choice(["all", "none", "some", "some", "partial"]), "seed": rng.randrange(10 ** 6),
                     "as": rng.choice(["pop", "pop", "array"]), "dup": rng.random() < 0.2}
    if spec["problem"].get("elementwise") and rng.random() < 0.25:
        p["pool"] = {"seed": rng.randrange(10 ** 6), "workers": 3, "codec": rng.choice(["thread", "pickle"]), "order": "random",
                     "p_die_before": rng.choice([0, 0.2]), "p_die_after": 0.0, "front": rng.choice(["starmap", "joblib", "dask"])}
    return p


def warm_pop(w, prob):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    r = np.random.default_rng(w["seed"])
    if prob.kind == "mixed":
        from pymoo.core.mixed import MixedVariableSampling
        pop = MixedVariableSampling().do(prob, w["n"], random_state=r)
    else:
        n, v = w["n"], prob.n_var
        if prob.kind == "perm":
            X = np.array([r.permutation(v) for _ in range(n)])
        elif prob.kind == "bin":
            X = r.random((n, v)) < 0.5
        elif prob.kind == "int":
            X = r.integers(prob.xl, prob.xu + 1, (n, v))
        else:
            X = prob.xl + r.random((n, v)) * (prob.xu - prob.xl)
        if w["dup"] and n > 1:
            X[1] = X[0]
        if w["as"] == "array":
            return X, []
        pop = Population.new("X", X)
    if w["done"] == "partial":
        # objectives are known already, constraints are not
        Evaluator(evaluate_values_of=["F"]).eval(prob, pop[[j for j in range(len(pop)) if j % 3]])
        return pop, []
    done = {"all": list(range(len(pop))), "none": [], "some": [j for j in range(len(pop)) if j % 3]}[w["done"]]
    if done:
        Evaluator().eval(prob, pop[done])
    return pop, done


class Watch:
    """Compares the counter with what really happened."""

    def __init__(self, plan, lost):
        self.plan, self.viol, self.last, self.lost = plan, [], 0, lost

    def boundary(self, leg, alg, n):
        rows = P.rec().rows
        made = len(rows) - self.lost()
        ne = int(alg.evaluator.n_eval)
        if made != ne:
            self.add("count", "after iteration %d the counter says %d evaluations, the problem was evaluated for %d designs" % (n, ne, made))
        if ne < self.last:
            self.add("count", "the counter went back from %d to %d" % (self.last, ne))
        self.last = ne
        known = {}
        for r in rows[-400:]:
            known[r[1]] = r
        for what in ("pop", "opt", "off"):
            inds = getattr(alg, what, None)
            if what == "off" or inds is None or not hasattr(inds, "__len__") or not hasattr(inds, "get"):
                continue
            for ind in inds:
                if not {"F", "G", "H"} <= set(ind.evaluated):
                    self.add("not-evaluated", "after iteration %d an individual of %s was never evaluated" % (n, what))
                    break

    def add(self, kind, what):
        if not any(k == kind for k, _ in self.viol):
            self.viol.append((kind, what))


def run(plan):
    k = K.Kernel(1)
    name = plan["spec"]["algo"]
    viol = []
    dyn = plan["spec"]["problem"]["kind"] == "dyn"
    with K.running(k):
        L.ambient(k, 5)
        rec = P.new_rec()
        plan_spec = plan["spec"]
        given, done = None, []
        pool = pools.Pool(plan["pool"]) if plan.get("pool") else None
        w = Watch(plan, lambda: pool.rows_lost - pool.rows_shared if pool else 0)
        if plan.get("warm"):
            prob0 = R.make_problem(plan["spec"], tag="warm")
            given, done = warm_pop(plan["warm"], prob0)
            R.WARM["pop"] = given
            cfg = dict(plan_spec["cfg"])
            cfg["initial" if name in R.TAKES_INITIAL else "sampling"] = ["@warm"]
            cfg.pop("n_sample_points", None)
            plan_spec = dict(plan_spec, cfg=cfg)
            rec = P.new_rec()
            k.fault("warm_start")
        first = {}
        batches = []

        def boundary(leg, alg, n):
            if n == 1:
                first["rows"] = len(rec.rows)
                first["keys"] = [r[1] for r in rec.rows]
            if dyn and n % 2 == 0:
                leg.prob.time = leg.prob.time + 1.0
                alg.problem.time = leg.prob.time
                k.fault("environment_change")
            w.boundary(leg, alg, n)

        def mutate(leg):
            if pool is not None:
                leg.prob.elementwise_runner = pools.runner(plan["pool"]["front"], pool)
        lg = L.Leg(plan_spec, plan["term"], plan["how"], archive=plan["archive"], save_history=plan["save_history"],
                   on_boundary=boundary, mutate=mutate, max_iter=200).go()
        viol += [core.V("%s:%s" % (kind, name), "%s: %s" % (name, what)) for kind, what in w.viol]
        if lg.exc is None and lg.res is not None:
            made = len(rec.rows) - w.lost()
            ne = int(lg.res.algorithm.evaluator.n_eval) if plan["how"] == "minimize" else int(lg.alg.evaluator.n_eval)
            if made != ne:
                viol.append(core.V("count:" + name, "%s: the run ends with n_eval=%d after %d designs were evaluated" % (name, ne, made)))
        if plan.get("warm") and "rows" in first and lg.exc is None:
            prev = {P.key(given[j].X): j for j in done} if done else {}
            again = [kx for kx in first["keys"] if kx in prev]
            # another unevaluated individual may carry the same design
            fresh = Counter(P.key(given[j].X) for j in range(len(given)) if j not in done) if done else Counter()
            again = [kx for kx in again if not fresh.get(kx)]
            if again:
                viol.append(core.V("evaluated-again:" + name, "%s: %d designs handed in with their values were evaluated once more" % (
                    name, len(again))))
    return core.outcome(viol, D.h(repr(lg.T), repr(len(rec.rows))), dict(k.faults), [D.h(repr(t)) for t in lg.T], len(lg.T) > 2,
                        k.clock.t, len(lg.T), "%s %s%s" % (name, plan["term"], " warm" if plan.get("warm") else ""),
                        {"designs_evaluated": len(rec.rows), "exceptions": int(lg.exc is not None)})
