"""C06: every way of driving an algorithm leads to the same run."""
import copy
import random

import dill

from sim import core, drive as D, kernel as K, legs as L, pools, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 420, "thorough": 8000}
RULE = "a scenario counts when at least two driving interfaces ran the same seeded configuration for at least two iterations"
REAL = ["minimize, setup/run, next, ask-and-tell, evaluator, every algorithm", "elementwise and vectorised evaluation"]
STUB = ["objective functions of generated problems", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"
HOWS = ["next", "minimize", "asktell", "run", "external", "shipped", "mixed", "paused"]


def plan(rng, i, tier):
    name = pick_algo(rng, i)
    spec = R.gen(rng, name)
    n = rng.randint(3, 8 if tier == "quick" else 14)
    return {"spec": spec, "term": L.gen_term(rng, spec, n, p_eval=0.3),
            "hows": rng.sample(HOWS, 3), "archive": L.gen_archive(rng, spec), "mseed": rng.randrange(10 ** 6),
            "flip": [rng.random() < 0.4 for _ in range(3)], "term_at": rng.choice(["setup", "setup", "ctor"])}


SHIP = [copy.deepcopy, lambda pop: dill.loads(dill.dumps(pop))]


class Leg6(L.Leg):
    """Adds: the user evaluates outside the library; changing the interface from iteration to iteration; pauses with queries."""

    def _go(self):
        if self.how in ("minimize", "run", "next", "asktell"):
            return super()._go()
        import numpy as np
        self.build()
        r = random.Random(self.mseed)
        alg = self.alg
        alg.setup(self.prob, termination=L.make_termination(self.term), **self.kw)
        while alg.has_next():
            mode = {"external": "external", "shipped": "shipped", "paused": r.choice(["next", "asktell"])}.get(self.how) or r.choice(["next", "asktell", "external", "shipped"])
            if self.dyn and mode == "external":
                mode = "asktell"
            if self.how == "paused":
                # a user looking around between two iterations
                for _ in range(r.randint(0, 3)):
                    alg.has_next()
                K.CUR.clock.advance(r.choice([1.0, 1e4]))
                if alg.is_initialized and r.random() < 0.5:
                    alg.result()
            if mode == "next":
                alg.next()
            else:
                infills = alg.ask()
                if infills is None:
                    alg.tell()
                elif mode == "shipped":
                    # evaluated somewhere else: what comes back is a copy
                    alg.evaluator.eval(alg.problem, infills, algorithm=alg)
                    alg.tell(infills=SHIP[r.randrange(2)](infills))
                elif mode == "asktell":
                    alg.evaluator.eval(alg.problem, infills, algorithm=alg)
                    alg.tell(infills=infills)
                else:
                    from pymoo.core.evaluator import Evaluator
                    from pymoo.core.individual import Individual
                    from pymoo.problems.static import StaticProblem
                    if isinstance(infills, Individual):
                        alg.evaluator.eval(alg.problem, infills, algorithm=alg)
                    else:
                        todo = [j for j, ind in enumerate(infills) if not {"F", "G", "H"} <= set(ind.evaluated)]
                        if todo:
                            V = [self.prob._row(infills[j].X) for j in todo]
                            kw = {"F": np.array([v[0] for v in V])}
                            if self.prob.n_ieq_constr:
                                kw["G"] = np.array([v[1] for v in V])
                            if self.prob.n_eq_constr:
                                kw["H"] = np.array([v[2] for v in V])
                            static = StaticProblem(self.prob, **kw)
                            static.elementwise = False
                            alg.evaluator.eval(static, infills[todo])
                    alg.tell(infills=infills)
            self.snap(alg)
        self.res = alg.result()
        self.T.append(D.result_state(self.res))


def run(plan):
    name, legs, viol = plan["spec"]["algo"], [], []
    sim_t, faults = 0.0, {}
    for j, how in enumerate(plan["hows"]):
        k = K.Kernel(1)
        k.clock.tick = [1e-4, 1.0, 1e-2][j]
        with K.running(k):
            L.ambient(k, 5 + j)
            rec = P.new_rec()
            spec = plan["spec"]
            if plan["flip"][j] and "elementwise" in spec["problem"]:
                spec = dict(spec, problem=dict(spec["problem"], elementwise=not spec["problem"]["elementwise"]))
                faults["elementwise_instead_of_vectorised"] = faults.get("elementwise_instead_of_vectorised", 0) + 1
            lg = Leg6(spec, plan["term"], how, archive=plan["archive"], max_iter=200)
            lg.mseed, lg.dyn = plan["mseed"], R.trait(name, "dynamic")
            lg.go()
            legs.append((how, lg, [D.h(repr(x)) for x in rec.rows]))
            faults["interface_" + how] = faults.get("interface_" + how, 0) + 1
            sim_t += k.clock.t
    for how, lg, _ in legs:
        for t in lg.T[:-1]:
            t.pop("archive", None)      # callbacks run before the archive is extended; compared at the end instead
            if how in ("minimize", "run") and "n_iter" in t:
                t["n_iter"] += 1        # callbacks run before the counter moves on
    ref, lg0, rows0 = legs[0]
    loop = R.trait(name, "loop") or name == "G3PCX"
    for how, lg, rows in legs[1:]:
        ta, tb = lg0.T, lg.T
        if loop and (how in ("minimize", "run")) != (ref in ("minimize", "run")):
            # loop-wise algorithms make several calls per iteration; callbacks see iterations only: compare the end
            ta, tb = ta[-1:], tb[-1:]
        d = D.first_diff(ta, tb, (ref, how))
        if d is None and rows != rows0:
            d = "evaluated designs differ (%d with %s, %d with %s)" % (len(rows0), ref, len(rows), how)
        if d:
            viol.append(core.V("interfaces-differ:" + name, "%s driven by %s and by %s: %s" % (name, ref, how, d)))
    return core.outcome(viol, D.h(repr(lg0.T), repr(rows0)), faults, [D.h(repr(t)) for t in lg0.T], len(lg0.T) > 2, sim_t,
                        sum(len(lg.T) for _, lg, _ in legs), "%s %s" % (name, plan["hows"]), {"sub_runs": 2})
