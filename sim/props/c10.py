"""C10: faults of the wall clock never break a run; they only move the moment at which a time limit is reached."""
import contextlib
import io
import random

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 460, "thorough": 9000}
RULE = ("a scenario counts when at least one clock fault was injected while the run was under way, the faulty run was compared with the run "
        "under a well-behaved clock, and every stop decision of a time-limited run was compared with the clock")
REAL = ["every algorithm, time-based termination and its combinations, result, displays", "minimize / run / stepping / ask-and-tell"]
STUB = ["clock (simulated wall and monotonic time with jumps, stand-still and drift)", "terminal", "objective functions of generated problems"]
STATE_MEASURE = "digest of algorithm state after each iteration"
USES_PROGRESS = {"AdaptiveEpsilon", "AdaptiveEpsilon-MO"}
CPU = 100


class FaultyClock(K.VClock):
    """Wall time = rate * time + offset; `frozen` stops it."""

    def __init__(self):
        super().__init__(tick=0.0)
        self.rate, self.frozen, self.origin = 1.0, None, 0.0
        self.wobble, self.nread = 0.0, 0

    def now(self):
        if self.frozen is not None:
            return self.frozen
        return self.base + self.skew + self.origin + (self.t - self.mark) * self.rate

    mark = 0.0

    def _rebase(self):
        self.origin += (self.t - self.mark) * self.rate
        self.mark = self.t

    def wall(self):
        self.reads += 1
        return self.now()

    def fault(self, f):
        kind, val = f
        if kind == "jump":
            self.skew += val
            if self.frozen is not None:
                self.frozen += val
        elif kind == "freeze":
            self.frozen = self.now()
        elif kind == "thaw":
            if self.frozen is not None:          # the clock goes on from where it stood
                was, self.frozen = self.frozen, None
                self._rebase()
                self.skew += was - self.now()
        elif kind == "rate":
            self._rebase()
            self.rate = val
        K.CUR.fault({"jump": "clock_jump_back" if val < 0 else "clock_jump_forward", "freeze": "clock_stands_still",
                     "thaw": "clock_goes_on", "rate": "clock_rate"}[kind])


def gen_fault(rng):
    r = rng.random()
    if r < 0.6:
        return ["jump", rng.choice([-1e9, -3600.0, -60.0, -5.0, -0.5, 0.5, 5.0, 60.0, 3600.0, 86400.0, 1e9])]
    if r < 0.75:
        return ["freeze", 0]
    if r < 0.85:
        return ["thaw", 0]
    return ["rate", rng.choice([0.0, 0.01, 0.5, 3.0, 1000.0])]


def plan(rng, i, tier):
    name = pick_algo(rng, i)
    spec = R.gen(rng, name)
    n = rng.randint(3, 8 if tier == "quick" else 16)
    timed = rng.random() < 0.6 and not R.trait(name, "needs_ngen")
    p = {"spec": spec, "n": n, "timed": timed, "how": rng.choice(["next", "next", "minimize", "run", "asktell"]),
         "watch": rng.choice([None, None, None, "history", "verbose", "progress"]), "cost": rng.choice([0.5, 1.0, 2.0]),
         "idle": rng.choice([0, 0, 2.0, 30.0]), "faults": []}
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        where = rng.choice(["setup", "row", "row", "iter", "iter", "iter", "end"])
        p["faults"].append([where, rng.randint(0, 60) if where == "row" else rng.randint(1, n), gen_fault(rng)])
    if timed:
        lim = rng.choice([1, 5, 20, 60, 120, 600])
        p["limit"], p["as"] = lim, rng.choice(["int", "str", "tuple", "any", "all", "coll"])
        if rng.random() < 0.2:
            # some iteration ends just before the limit, or just when it is reached
            p["brink"] = [rng.randint(1, n), rng.choice([0.02, 0.004, 0.0045, 1e-3, 1e-5, 0.0])]
            p["cost"], p["idle"] = lim * 1e-7, 0
            if rng.random() < 0.7:
                p["faults"] = [x for x in p["faults"] if x[0] == "setup"]
    return p


def termination(plan):
    from pymoo.core.termination import TerminateIfAll, TerminateIfAny
    from pymoo.termination.collection import TerminationCollection
    from pymoo.termination.max_gen import MaximumGenerationTermination
    from pymoo.termination.max_time import TimeBasedTermination
    if not plan["timed"]:
        return ("n_gen", plan["n"])
    lim, how = plan["limit"], plan["as"]
    if how == "tuple":
        return ("time", lim)
    t = TimeBasedTermination("%02d:%02d:%02d" % (lim // 3600, lim % 3600 // 60, lim % 60) if how == "str" else lim)
    g = MaximumGenerationTermination(plan["n"])
    return {"int": t, "str": t, "any": TerminateIfAny(g, t), "all": TerminateIfAll(t, g), "coll": TerminationCollection(t, g)}[how] \
        if how not in ("int", "str") else t


def used_up(plan, it, elapsed):
    t, g = elapsed >= plan.get("limit", 0), it >= plan["n"]
    if not plan["timed"]:
        return g
    return {"any": t or g, "coll": t or g, "all": t and g}.get(plan["as"], t)


def leg(plan, faulty, n_gen, faults_total):
    """One run; returns (trace per iteration, rows, stop decisions, final)."""
    spec = plan["spec"]
    k = K.Kernel(1, FaultyClock())
    clock = k.clock
    out = {"T": [], "bad": [], "exc": None, "res": None, "stuck": None, "during": 0, "sim": 0.0}
    with K.running(k):
        L.ambient(k, 11)
        rec = P.new_rec()
        rows, st = [0], {"start": None, "it": 0, "live": False, "seen": 0}

        def hit(where, at):
            if not faulty:
                return
            for w, n, f in plan["faults"]:
                if w == where and n == at:
                    clock.fault(f)
                    if st["live"]:
                        out["during"] += 1

        def on_row(tag, x):
            hit("row", rows[0])
            rows[0] += 1
            clock.advance(plan["cost"])
            if rows[0] > 6000:
                raise L.Runaway("6000 evaluations")
        rec.on_row = on_row
        prob = R.make_problem(spec)
        alg = R.make_algorithm(spec, prob)
        term = termination(plan) if faulty else ("n_gen", n_gen)
        kw = {"seed": spec["seed"]}
        w = plan["watch"] if faulty else None
        if w == "history":
            kw["save_history"] = True
        if w:
            kw[{"verbose": "verbose", "progress": "progress"}.get(w, "verbose")] = w != "history"

        def boundary(a, in_callback):
            it = a.n_iter if in_callback else a.n_iter - 1
            if it == st["it"]:
                return
            st["it"] = it
            d = D.state(a)
            has = d.pop("terminated")
            d.pop("n_iter"), d.pop("archive", None), d.pop("progress")
            out["T"].append(dict(d, rows=rows[0]))
            if faulty:
                elapsed = clock.now() - st["start"]
                stop = used_up(plan, it, elapsed)
                if a.termination.force_termination:
                    pass
                elif stop != has:
                    out["bad"].append("after iteration %d the clock says %.3f s, limit %s: the run %s" % (
                        it, elapsed, plan.get("limit"), "stops" if has else "goes on"))
                hit("iter", it)
                if plan.get("brink") and plan["brink"][0] == it and clock.frozen is None:
                    left = st["start"] + plan["limit"] * (1.0 - plan["brink"][1]) - clock.now()
                    if left > 0:
                        k.fault("stalled_until_shortly_before_the_limit")
                        clock.advance(left / (clock.rate or 1.0))
                        if st["live"]:
                            out["during"] += 1
            clock.advance(plan["idle"])
            if it >= plan["n"] * 3 + 12:
                # whatever was done to the clock ends here: from now on it behaves, and a time-limited run has to end
                if faulty and not st.get("calm"):
                    st["calm"] = it
                    clock.fault(["thaw", 0])
                    clock.fault(["rate", 1.0])
                    k.fault("faults_stop")
                    clock.advance(max(0.0, st["start"] + plan.get("limit", 0) - clock.now()))
                if it > plan["n"] * 3 + 14:
                    raise L.Runaway("%d iterations" % it)

        class Cb:
            def __call__(self, a):
                boundary(a, True)

            def __deepcopy__(self, memo):
                return self

        hit("setup", 1)
        buf = io.StringIO()
        try:
            with guard.cpu_limit(CPU), contextlib.redirect_stdout(buf):
                if plan["how"] == "minimize" and faulty:
                    from pymoo.optimize import minimize
                    st["start"], st["live"] = clock.now(), True
                    res = minimize(prob, alg, term, callback=Cb(), **kw)
                else:
                    alg.setup(prob, termination=term, **kw)
                    hit("setup", 2)
                    clock.advance(plan["idle"])
                    st["start"], st["live"] = clock.now(), True
                    if plan["how"] == "run":
                        alg.callback = Cb()
                        res = alg.run()
                    else:
                        while alg.has_next():
                            if plan["how"] == "asktell":
                                inf = alg.ask()
                                if inf is not None:
                                    alg.evaluator.eval(alg.problem, inf, algorithm=alg)
                                alg.tell(infills=inf)
                            else:
                                alg.next()
                            boundary(alg, False)
                            st["seen"] += 1
                            if st["seen"] > 4000:
                                raise L.Runaway("4000 steps")
                        hit("end", 1)
                        res = alg.result()
            d = D.result_state(res)
            out["res"] = d
            if faulty and not isinstance(res.exec_time, float):
                out["bad"].append("the result has no execution time")
        except Exception as e:
            out["exc"] = ("%s at %s" % (type(e).__name__, L.exc_where(e)), str(e)[:140])
        except (L.Runaway, guard.Stuck) as e:
            out["stuck"] = str(e)
        out["rows"] = [(r[1], r[2]) for r in rec.rows]
        out["sim"] = clock.t
        if faulty:
            for a, b in k.faults.items():
                faults_total[a] = faults_total.get(a, 0) + b
    return out


def run(plan):
    name = plan["spec"]["algo"]
    faults, viol = {}, []
    A = leg(plan, True, None, faults)
    B = leg(plan, False, max(1, len(A["T"]) if plan["timed"] else plan["n"]), {})
    if A["exc"] and A["exc"] != B["exc"]:
        viol.append(("crash", "%s: %s (%d iterations done; the same run under a well-behaved clock: %s)" % (
            A["exc"] + (len(A["T"]), B["exc"]))))
    if A["stuck"] and not B["stuck"]:
        viol.append(("never-ends", "the run does not end once the clock behaves again: %s" % A["stuck"]))
    for w in A["bad"][:1]:
        viol.append(("stop", w))
    if not (plan["timed"] and name in USES_PROGRESS) and not A["stuck"] and not B["stuck"]:
        n = min(len(A["T"]), len(B["T"]))
        d = D.first_diff(A["T"][:n], B["T"][:n], ("faulty clock", "good clock"))
        if not d and A["rows"][:len(B["rows"])] != B["rows"][:len(A["rows"])]:
            d = "different designs or values were evaluated"
        if not d and not plan["timed"] and not A["exc"] and not B["exc"]:
            d = D.first_diff(A["T"], B["T"], ("faulty clock", "good clock")) or D.first_diff([A["res"]], [B["res"]], ("faulty clock", "good clock"))
        if d:
            viol.append(("changed", d))
    vs = [core.V("%s:%s" % (a, name), "%s: %s [faults %s]" % (name, b, plan["faults"])) for a, b in viol]
    states = [D.h(repr(t)) for t in A["T"]]
    return core.outcome(vs, D.h(repr(A["T"]), repr(A["res"]), repr(A["exc"])), faults, states,
                        A["during"] > 0 and len(A["T"]) > 0, A["sim"], len(A["T"]),
                        "%s %s faults=%d" % (name, plan.get("limit"), len(plan["faults"])),
                        {"rows_compared": len(B["rows"]), "exceptions": int(A["exc"] is not None)})
