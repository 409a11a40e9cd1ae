"""C09: a run with a budget ends by itself, exactly when the budget is used up."""
import random

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 520, "thorough": 9000}
RULE = "a scenario counts when the run ended and every boundary's decision (go on / stop) was compared with the budget model"
REAL = ["every algorithm", "termination criteria and their combinations", "minimize / run / stepping"]
STUB = ["clock (every evaluation takes simulated time)", "objective functions of generated problems"]
STATE_MEASURE = "digest of algorithm state after each iteration"
# algorithms that may decide that they cannot continue
GIVES_UP = {"CMAES", "SimpleCMAES", "BIPOPCMAES"}
CPU = 100
CHEAP = ["GA", "NSGA2", "PSO", "ES", "DE", "NSGA3", "RVEA", "SPEA2"]


def budget(rng, name):
    k = rng.choice(["n_gen", "n_gen", "n_eval", "n_eval", "time", "time", "any", "any", "all"])
    if R.trait(name, "needs_ngen"):
        k = "n_gen"
    if k == "n_gen":
        return [rng.choice(["n_gen", "n_iter"]), rng.choice([1, 2, 3, 5, 8, 12])]
    if k == "n_eval":
        return [rng.choice(["n_eval", "n_evals"]), rng.choice([1, 5, 13, 30, 60, 90])]
    if k == "time":
        s = rng.choice([1, 3, 10, 59, 60, 75, 600])
        return ["time", rng.choice([s, float(s) + 0.5, "%02d:%02d:%02d" % (s // 3600, s % 3600 // 60, s % 60), "%d:%d" % (s // 60, s % 60)])]
    return [k, [budget(rng, "GA") for _ in range(rng.choice([2, 2, 3]))]]


def plan(rng, i, tier):
    name = pick_algo(rng, i)
    p = {"spec": R.gen(rng, name), "term": budget(rng, name), "form": rng.choice(["tuple", "object"]),
         "how": rng.choice(["next", "next", "minimize", "run", "asktell"]), "archive": None,
         "cost": [rng.choice([0.25, 0.5, 1.0, 2.0, 16.0]) for _ in range(3)], "idle": rng.choice([0, 0, 0, 4.0, 64.0]),
         "at": rng.choice(["arg", "arg", "setup_kw"])}
    if i % 16 == 7:
        # a long run: hundreds of iterations
        name = rng.choice(CHEAP)
        p["spec"] = R.gen(rng, name)
        p["term"] = rng.choice([["n_gen", rng.randint(201, 480)], ["n_iter", rng.randint(201, 480)],
                                ["any", [["n_gen", rng.randint(201, 480)], ["time", 86400]]],
                                ["all", [["n_gen", rng.randint(201, 480)], ["n_eval", 30]]]])
        return p
    if rng.random() < 0.12:
        # the user asks for the end in mid-run
        p["term"], p["ask_end"] = ["n_gen", 14], rng.randint(1, 6)
    return p


def secs(v):
    if isinstance(v, str):
        out = 0
        for part in v.split(":"):
            out = out * 60 + int(part)
        return out
    return v


def build(t, form):
    from pymoo.core.termination import TerminateIfAll, TerminateIfAny
    from pymoo.termination import get_termination
    from pymoo.termination.collection import TerminationCollection
    if t[0] == "any":
        subs = [build(s, "object") for s in t[1]]
        return TerminationCollection(*subs) if len(subs) == 3 else TerminateIfAny(*subs)
    if t[0] == "all":
        return TerminateIfAll(*[build(s, "object") for s in t[1]])
    return tuple(t) if form == "tuple" else get_termination(*t)


def over(t, n_iter, n_eval, elapsed):
    """The budget model."""
    if t[0] in ("n_gen", "n_iter"):
        return n_iter >= t[1]
    if t[0] in ("n_eval", "n_evals"):
        return n_eval >= t[1]
    if t[0] == "time":
        return elapsed >= secs(t[1])
    f = any if t[0] == "any" else all
    return f(over(s, n_iter, n_eval, elapsed) for s in t[1])


def horizon(t):
    """Iterations and seconds after which any budget of this shape is used up, whatever the algorithm does (each evaluation takes time)."""
    if t[0] in ("n_gen", "n_iter"):
        return t[1]
    if t[0] in ("n_eval", "n_evals"):
        return t[1] + 2
    if t[0] == "time":
        return int(secs(t[1]) / 0.25) + 2
    f = min if t[0] == "any" else max
    return f(horizon(s) for s in t[1])


def run(plan):
    k = K.Kernel(1)
    k.clock.tick = 0.0
    k.clock.base = 1_700_000_000
    spec, name = plan["spec"], plan["spec"]["algo"]
    viol, states = [], []
    t_model = plan["term"]
    with K.running(k):
        L.ambient(k, 11)
        rec = P.new_rec()
        n = [0]
        info = {"start": None, "prev": None, "last_rows": 0, "ended": False}

        def on_row(tag, x):
            n[0] += 1
            k.clock.advance(plan["cost"][n[0] % 3])
            if n[0] > 4 * horizon(t_model) * 40 + 4000:
                raise L.Runaway("%d evaluations" % n[0])
        rec.on_row = on_row
        prob = R.make_problem(spec)
        alg = R.make_algorithm(spec, prob)
        term = build(t_model, plan["form"])
        done = [0]

        def boundary(a, in_callback):
            """An iteration has been completed."""
            it = a.n_iter if in_callback else a.n_iter - 1
            if it == done[0]:
                return                # a piece of an iteration only
            done[0] = it
            states.append(D.h(repr(D.state(a))))
            elapsed = k.clock.t - info["start"]
            n_eval = len(rec.rows)
            stop = over(t_model, it, n_eval, elapsed)
            has = bool(a.termination.has_terminated())
            k.fault("iteration_timed")
            if info["ended"]:
                viol.append(("iterates-after-end", "iteration %d was run after termination had been reported" % it))
            if plan.get("ask_end") and it == plan["ask_end"]:
                a.termination.terminate()
                info["asked"] = it
                k.fault("termination_requested")
            elif info.get("asked"):
                if it > info["asked"] and not has:
                    viol.append(("request-ignored", "termination was requested in iteration %d, iteration %d goes on" % (info["asked"], it)))
                stop = has
            if stop and not has:
                viol.append(("too-late", "after iteration %d (%d evaluations, %.2f s) the budget %s is used up, but the run goes on" % (
                    it, n_eval, elapsed, t_model)))
            if has and not stop:
                nothing_new = n_eval == info["last_rows"]
                if not (a.termination.force_termination and (nothing_new or name in GIVES_UP)):
                    viol.append(("too-early", "after iteration %d (%d evaluations, %.2f s) the run stopped, the budget %s is not used up" % (
                        it, n_eval, elapsed, t_model)))
                else:
                    k.fault("algorithm_gave_up")
            info["last_rows"] = n_eval
            info["ended"] = has
            if not has and plan["idle"]:
                k.clock.advance(plan["idle"])      # somebody else uses the processor
            if it > horizon(t_model) + 5:
                raise L.Runaway("%d iterations" % it)

        class Cb:
            def __call__(self, a):
                boundary(a, True)

            def __deepcopy__(self, memo):
                return self
        exc = None
        try:
            with guard.cpu_limit(CPU):
                info["start"] = k.clock.t
                if plan["how"] == "minimize":
                    from pymoo.optimize import minimize
                    if plan["at"] == "arg":
                        res = minimize(prob, alg, term, seed=spec["seed"], callback=Cb())
                    else:
                        alg.setup(prob, termination=term, seed=spec["seed"], callback=Cb())
                        info["start"] = k.clock.t
                        res = minimize(prob, alg)
                    alg = res.algorithm
                else:
                    alg.setup(prob, termination=term, seed=spec["seed"])
                    info["start"] = k.clock.t
                    if plan["how"] == "run":
                        alg.callback = Cb()
                        alg.run()
                    else:
                        calls = 0
                        while alg.has_next():
                            if plan["how"] == "next":
                                alg.next()
                            else:
                                inf = alg.ask()
                                if inf is not None:
                                    alg.evaluator.eval(alg.problem, inf, algorithm=alg)
                                alg.tell(infills=inf)
                            boundary(alg, False)
                            calls += 1
                            if calls > 60 * horizon(t_model) + 4000:
                                raise L.Runaway("%d steps" % calls)
                for _ in range(3):
                    if alg.has_next():
                        viol.append(("revived", "a run that had ended says it has a next iteration"))
                        break
        except Exception as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:120])
        except (L.Runaway, guard.Stuck) as e:
            viol.append(("never-ends", "the budget %s does not end the run: %s" % (t_model, e)))
    seen, vs = set(), []
    for kind, what in viol:
        if kind not in seen:
            seen.add(kind)
            vs.append(core.V("%s:%s" % (kind, name), "%s: %s" % (name, what)))
    return core.outcome(vs, D.h(repr(states), exc, n[0]), dict(k.faults), states, done[0] > 0, k.clock.t, done[0],
                        "%s %s" % (name, t_model), {"evaluations_timed": n[0], "exceptions": int(exc is not None)})
