"""C04: a failing evaluation leaves no trace; retrying gives the run that never failed."""
from sim import core, drive as D, kernel as K, legs as L, pools, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 420, "thorough": 8000}
RULE = "a scenario counts when at least one injected failure was raised inside an evaluation and the run went on afterwards"
REAL = ["evaluator, problem, population, individual", "every algorithm with its operators, survival, termination, archive",
        "serial, vectorised and parallel evaluation paths"]
STUB = ["the user's objective function (generated, fails on command)", "worker pool", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"


class Fault(Exception):
    pass


class Kill(KeyboardInterrupt):
    pass


def plan(rng, i, tier):
    names = [n for n in R.NAMES if n not in ("PINSGA2", "KGB")]
    if i % 7 == 6:
        return {"kind": "evaluator", "fseed": rng.randrange(10 ** 6), "n": rng.randint(2, 12), "elementwise": rng.random() < 0.5,
                "n_ieq": rng.choice([0, 0, 2]), "n_eq": rng.choice([0, 0, 1]), "done": [rng.random() < 0.4 for _ in range(12)],
                "faults": [gen_fault(rng, 12) for _ in range(rng.randint(1, 3))], "skip": rng.random() < 0.85,
                "wrap": rng.choice(["pop", "pop", "individual"]), "pool": gen_pool(rng)}
    spec = R.gen(rng, pick_algo(rng, i, names))
    n = rng.randint(3, 7 if tier == "quick" else 12)
    return {"kind": "run", "spec": spec, "how": rng.choice(["asktell", "asktell", "next"]),
            "term": L.gen_term(rng, spec, n, (20, 70)),
            "archive": L.gen_archive(rng, spec), "save_history": rng.random() < 0.1, "pool": gen_pool(rng),
            "faults": sorted([gen_fault(rng, 70) for _ in range(rng.randint(1, 4))], key=lambda f: f["at"])}


def gen_fault(rng, hi):
    return {"at": rng.randint(1, hi), "kind": rng.choice(["raise", "raise", "raise_late", "interrupt"])}


def gen_pool(rng):
    if rng.random() > 0.25:
        return None
    return {"seed": rng.randrange(10 ** 6), "workers": rng.choice([2, 4]), "codec": "thread", "order": "random",
            "p_die_before": 0.0, "p_die_after": 0.0, "front": rng.choice(["starmap", "joblib"])}


class Injector:
    """Raises when the n-th design (counted over the whole scenario) is about to be computed, or after its batch."""

    def __init__(self, k, faults):
        self.k, self.left, self.n, self.late = k, [dict(f) for f in faults], 0, None
        self.raised = 0

    def row(self, tag, x):
        self.n += 1
        if self.left and self.n >= self.left[0]["at"]:
            f = self.left.pop(0)
            if f["kind"] == "raise_late":
                self.late = f
                return
            self.throw(f)

    def throw(self, f):
        self.raised += 1
        self.k.fault("evaluation_" + f["kind"])
        raise (Kill if f["kind"] == "interrupt" else Fault)("injected")

    def end(self):
        if self.late is not None:
            f, self.late = self.late, None
            self.throw(f)


INJ = {}


def _failing(cls):
    class T(cls):
        """raises after having computed everything"""

        def _evaluate(self, x, out, *args, **kwargs):
            cls._evaluate(self, x, out, *args, **kwargs)
            if "cur" in INJ:
                INJ["cur"].end()
    T.__name__ = T.__qualname__ = "Failing" + cls.__name__
    globals()[T.__name__] = T
    return T


FAILING = {c: _failing(c) for c in (P.SimProblem, P.SimMixed, P.SimDynamic, P.Builtin)}


def ind_view(ind):
    return D.h(*[D.b(ind.get(w)) for w in ("X", "F", "G", "H", "CV")], repr(sorted(ind.evaluated)))


def many(infills):
    from pymoo.core.individual import Individual
    return [infills] if isinstance(infills, Individual) else list(infills)


def view(alg):
    return D.state(alg) if alg.is_initialized else {"n_eval": int(alg.evaluator.n_eval)}


def honest(alg, prob, viol, where):
    """Whatever the population carries belongs to its designs."""
    for what in ("pop", "opt"):
        for ind in (getattr(alg, what) if getattr(alg, what) is not None else []):
            if not ind.evaluated:
                continue
            F, G, H = prob.values(ind.X)
            if D.b([float(v) for v in ind.F]) != D.b([float(v) for v in F]):
                viol.append("%s: %s holds F=%s for a design whose objectives are %s" % (where, what, ind.F, F))
                return


def clean(plan):
    k = K.Kernel(1)
    with K.running(k):
        L.ambient(k, 5)
        P.new_rec()
        lg = L.Leg(plan["spec"], plan["term"], "asktell" if plan["how"] == "asktell" else "next", archive=plan["archive"],
                   save_history=plan["save_history"], max_iter=260).go()
        return {"T": lg.T, "exc": lg.exc, "n": len(P.rec().rows), "t": k.clock.t}


def faulty(plan):
    k = K.Kernel(1)
    out = {"T": [], "viol": [], "exc": None, "steps": 0}
    V = out["viol"]
    with K.running(k):
        L.ambient(k, 5)
        rec = P.new_rec()
        inj = Injector(k, plan["faults"])
        INJ["cur"] = inj
        lg = L.Leg(plan["spec"], plan["term"], archive=plan["archive"], save_history=plan["save_history"]).build()
        lg.prob.__class__ = FAILING[type(lg.prob)]
        if plan["pool"] and lg.prob.elementwise:
            lg.prob.elementwise_runner = pools.runner(plan["pool"]["front"], pools.Pool(plan["pool"]))
        alg = lg.alg
        alg.setup(lg.prob, termination=L.make_termination(plan["term"]), **lg.kw)
        rec.on_row = inj.row
        guard = 0
        while alg.has_next():
            guard += 1
            if guard > 260 or len(rec.rows) > 6000:
                out["exc"] = "runaway"
                break
            try:
                if plan["how"] == "asktell":
                    infills = alg.ask()
                    while infills is not None:
                        before, ne = [ind_view(i) for i in many(infills)], int(alg.evaluator.n_eval)
                        sb = view(alg)
                        try:
                            alg.evaluator.eval(alg.problem, infills, algorithm=alg)
                            break
                        except (Fault, Kill):
                            if [ind_view(i) for i in many(infills)] != before:
                                V.append("an evaluation that raised left its mark on the designs it was given")
                            if int(alg.evaluator.n_eval) != ne:
                                V.append("an evaluation that raised was counted (n_eval %d -> %d)" % (ne, alg.evaluator.n_eval))
                            if view(alg) != sb:
                                V.append("an evaluation that raised changed the algorithm: %s" % D.first_diff([sb], [view(alg)]))
                    alg.tell(infills=infills)
                else:
                    sb, r0 = view(alg), inj.raised
                    try:
                        alg.next()
                    except (Fault, Kill):
                        if alg.is_initialized and "pop" in sb and R.trait(plan["spec"]["algo"], "evaluates_in_advance"):
                            pass
                        else:
                            sa = {x: v for x, v in view(alg).items() if x in sb}
                            if R.trait(plan["spec"]["algo"], "pop_is_sample"):      # the population is what was asked for last
                                sb.pop("pop", None), sa.pop("pop", None)
                            if sa != sb:
                                V.append("an iteration whose evaluation raised changed the algorithm: %s" % D.first_diff(
                                    [sb], [sa], ("before", "after")))
                        continue
            except (Fault, Kill):
                # raised inside ask / tell: the algorithm evaluates there itself
                out["inside"] = out.get("inside", 0) + 1
                continue
            except Exception as e:
                out["exc"] = "%s: %s at %s" % (type(e).__name__, str(e)[:150], L.exc_where(e))
                break
            out["T"].append(D.state(alg))
            rec_on, rec.on_row = rec.on_row, None
            honest(alg, lg.prob, V, "iteration %d" % len(out["T"]))
            rec.on_row = rec_on
        if out["exc"] is None:
            out["T"].append(D.result_state(alg.result()))
        del INJ["cur"]
        out.update(raised=inj.raised, faults=dict(k.faults), t=k.clock.t, n=len(rec.rows))
    return out


def run(plan):
    if plan["kind"] == "evaluator":
        return run_evaluator(plan)
    name = plan["spec"]["algo"]
    a, b = clean(plan), faulty(plan)
    viol = [core.V("%s:%s" % ("trace-left" if "raised" in w else "wrong-values", name), "%s: %s" % (name, w)) for w in b["viol"][:2]]
    if a["exc"] is None:
        if b["exc"]:
            viol.append(core.V("cannot-continue:" + name, "%s: after a failed evaluation was retried: %s" % (name, b["exc"])))
        elif plan["how"] == "asktell" and not b.get("inside"):
            d = D.first_diff(a["T"], b["T"], ("never failed", "failed and retried"))
            if d:
                viol.append(core.V("retry-differs:" + name, "%s: %s" % (name, d)))
    return core.outcome(viol, D.h(repr(b["T"])), b["faults"], [D.h(repr(t)) for t in b["T"]], b["raised"] > 0, a["t"] + b["t"],
                        len(b["T"]), "%s %s %s" % (name, plan["how"], plan["faults"]), {"sub_runs": 1, "failures_raised": b["raised"]})


def run_evaluator(plan):
    """The evaluator on a population some of which is evaluated already."""
    import numpy as np
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    k = K.Kernel(1)
    viol = []
    with K.running(k):
        L.ambient(k, 5)
        rec = P.new_rec()
        prob = FAILING[P.SimProblem](fseed=plan["fseed"], n_var=3, n_obj=2, n_ieq=plan["n_ieq"], n_eq=plan["n_eq"],
                                     elementwise=plan["elementwise"])
        if plan["pool"] and prob.elementwise:
            prob.elementwise_runner = pools.runner(plan["pool"]["front"], pools.Pool(plan["pool"]))
        n = plan["n"]
        pop = Population.new("X", np.random.default_rng(plan["fseed"]).random((n, 3)))
        ev = Evaluator(skip_already_evaluated=plan["skip"])
        done = [i for i in range(n) if plan["done"][i]]
        if done:
            ev.eval(prob, pop[done])
        inj = Injector(k, plan["faults"])
        INJ["cur"] = inj
        rec.on_row = inj.row
        expect = len(done)
        if ev.n_eval != expect:
            viol.append(core.V("evaluator:count", "%d designs evaluated, n_eval=%d" % (expect, ev.n_eval)))
        target = pop if plan["wrap"] == "pop" else pop[0]
        todo = [i for i in range(n) if i not in done] if plan["skip"] else list(range(n))
        if plan["wrap"] != "pop":
            todo = [i for i in todo if i == 0]
        for _ in range(12):
            before = [ind_view(i) for i in pop]
            rows = len(rec.rows)
            try:
                ret = ev.eval(prob, target)
            except (Fault, Kill):
                if [ind_view(i) for i in pop] != before:
                    viol.append(core.V("evaluator:trace-left", "an evaluation that raised left its mark on the designs it was given"))
                if ev.n_eval != expect:
                    viol.append(core.V("evaluator:count", "an evaluation that raised was counted (%d instead of %d)" % (ev.n_eval, expect)))
                continue
            expect += len(todo)
            if ev.n_eval != expect:
                viol.append(core.V("evaluator:count", "%d new designs evaluated, n_eval went to %d instead of %d" % (
                    len(todo), ev.n_eval, expect)))
            if len(rec.rows) - rows != len(todo):
                viol.append(core.V("evaluator:rows", "%d designs were to be evaluated, %d were" % (len(todo), len(rec.rows) - rows)))
            if ret is not target:
                viol.append(core.V("evaluator:returns", "eval does not hand back what it was given")) if plan["wrap"] == "pop" else None
            break
        rec.on_row = None
        del INJ["cur"]
        for i, ind in enumerate(pop):
            if plan["wrap"] == "pop" or i in done:
                F, G, H = prob.values(ind.X)
                if D.b(ind.F) != D.b(np.array(F)) or D.b(ind.G) != D.b(np.array(G)) or D.b(ind.H) != D.b(np.array(H)):
                    viol.append(core.V("evaluator:wrong-values", "design %d holds F=%s G=%s H=%s instead of %s %s %s" % (
                        i, ind.F, ind.G, ind.H, F, G, H)))
    return core.outcome(viol, D.h(*[ind_view(i) for i in pop]), dict(k.faults), [], inj.raised > 0, k.clock.t, 1,
                        "evaluator n=%d evaluated=%d" % (n, len(done)), {"failures_raised": inj.raised})
