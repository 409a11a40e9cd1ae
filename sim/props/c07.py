"""C07: runs that share a process do not influence each other, and leave what they were given alone."""
import random

import numpy as np

from sim import core, deep, drive as D, kernel as K, legs as L, problems as P, registry as R, threads
from sim.props import pick_algo
from sim.props.c05 import warm_pop

COUNT = {"quick": 380, "thorough": 7000}
RULE = ("a scenario counts when at least two runs made progress alternately (or one inside the other) and each was compared with "
        "the same run executed alone in a process of its own")
REAL = ["every algorithm with its default-argument operators, evaluator, termination, archive", "minimize, setup / next / ask / tell",
        "real threads (one at a time, handed over by the simulator at function calls or lines of the library)"]
STUB = ["thread scheduling", "objective functions of generated problems", "clock", "entropy"]
STATE_MEASURE = "digest of algorithm state after each iteration, per run"
ASSUMPTIONS = ["threads switch at Python function calls / lines of the library, not inside a C call"]
MAXIT = 60


def plan(rng, i, tier):
    kind = rng.choice(["interleave", "interleave", "nested", "threads", "threads", "inputs"])
    n_runs = 1 if kind == "inputs" else rng.choice([2, 2, 3])
    first = pick_algo(rng, i)
    specs = []
    for j in range(n_runs):
        if j == 0:
            name = first
        elif rng.random() < 0.5:
            name = first                      # two instances of the same algorithm
        else:
            name = pick_algo(rng, 10 ** 6)
        s = R.gen(rng, name)
        if j and name == first and rng.random() < 0.35:
            # the same configuration with another seed, or on the same problem
            s = dict(specs[0], seed=s["seed"]) if rng.random() < 0.5 else dict(specs[0], problem=s["problem"]) \
                if s["problem"].get("vtype") == specs[0]["problem"].get("vtype") and s["problem"]["kind"] == specs[0]["problem"]["kind"] \
                and s["problem"].get("n_obj") == specs[0]["problem"].get("n_obj") else s
        specs.append(s)
    share = kind in ("interleave", "threads") and rng.random() < 0.25
    if share:
        specs = [specs[0]] + [dict(specs[0], seed=s["seed"]) for s in specs[1:]]
    n = rng.randint(2, 6)
    p = {"kind": kind, "specs": specs, "term": ["n_gen", n], "sched": rng.randrange(10 ** 6),
         "archive": [L.gen_archive(rng, s, 0.2) for s in specs], "share_problem": share,
         "mode": [rng.choice(["next", "asktell", "split"]) for _ in specs]}
    if kind == "interleave" and not any(R.trait(s["algo"], t) for s in specs for t in ("needs_ngen", "own_term", "slow")):
        t = L.gen_term(rng, specs[0], n, p_eval=0.1, p_crit=0.25)
        if t[0] != "crit" or len({R.make_problem(s).n_obj for s in specs}) == 1:
            p["term"] = t
    if kind == "threads":
        p["grain"], p["p"] = rng.choice([("call", 0.002), ("call", 0.02), ("call", 0.2), ("line", 0.002), ("line", 0.02)])
        p["term"] = ["n_gen", rng.randint(2, 4)]
    if kind == "nested":
        p["at"] = sorted(rng.sample(range(1, 40), rng.choice([1, 2, 3])))
        p["inner_gen"] = rng.randint(1, 3)
        p["same_object"] = rng.random() < 0.5
    if kind == "inputs":
        p["term_obj"] = rng.choice(["tuple", "object", "default", "crit"])
        if p["term_obj"] == "crit":
            p["term"] = L.gen_term(rng, specs[0], n, p_eval=0.0, p_crit=1.0)
        p["twice"] = rng.random() < 0.6
        if specs[0]["algo"] in R.TAKES_SAMPLING + R.TAKES_INITIAL and rng.random() < 0.6:
            p["warm"] = {"n": rng.randint(4, 12), "done": rng.choice(["all", "none", "some"]), "seed": rng.randrange(10 ** 6),
                         "as": rng.choice(["pop", "array"]), "dup": False}
    return p


class One:
    """One run, advanced piece by piece."""

    def __init__(self, plan, j, prob=None, term=None):
        self.spec, self.j = plan["specs"][j], j
        self.mode = plan["mode"][j]
        self.T, self.exc = [], None
        self.prob = prob if prob is not None else R.make_problem(self.spec, tag="r%d" % j)
        self.alg = None
        self.plan, self.term = plan, term or plan["term"]

    def setup(self):
        self.alg = R.make_algorithm(self.spec, self.prob)
        kw = {}
        if self.plan["archive"][self.j]:
            kw["archive"] = L.make_archive(self.plan["archive"][self.j])
        self.alg.setup(self.prob, termination=L.make_termination(self.term), seed=self.spec["seed"], **kw)

    def pieces(self):
        """Yields between the pieces another run may be scheduled in."""
        try:
            self.setup()
            yield
            alg = self.alg
            n = 0
            while alg.has_next() and n < MAXIT:
                if self.mode == "next":
                    alg.next()
                else:
                    inf = alg.ask()
                    if self.mode == "split":
                        yield
                    if inf is not None:
                        alg.evaluator.eval(alg.problem, inf, algorithm=alg)
                    if self.mode == "split":
                        yield
                    alg.tell(infills=inf)
                n += 1
                self.T.append(D.state(alg))
                yield
            self.T.append(D.result_state(alg.result()))
        except Exception as e:
            self.exc = e
            self.T.append({"EXC": "%s: %s" % (type(e).__name__, str(e)[:200])})

    def all(self):
        for _ in self.pieces():
            pass


def rows_of(tag):
    return [D.h(repr(r[1:])) for r in P.rec().rows if r[0] == tag]


def solo(plan, j, tag=None, term=None):
    """Run j all alone in this process."""
    k = K.Kernel(1)
    with K.running(k):
        L.ambient(k, 5)
        P.new_rec()
        o = One(plan, j, R.make_problem(plan["specs"][j], tag=tag) if tag else None, term)
        o.all()
        return {"T": o.T, "rows": rows_of(tag or "r%d" % j), "t": k.clock.t}


def global_state():
    return (repr(np.random.get_state()), repr(random.getstate()))


def same_problem(plan):
    a = plan["specs"][0]["problem"]
    return plan["share_problem"] and len(plan["specs"]) > 1 and all(s["problem"] == a for s in plan["specs"])


def joint(plan):
    k = K.Kernel(1)
    out = {"runs": [], "viol": []}
    with K.running(k):
        L.ambient(k, 99)
        rec = P.new_rec()
        g0 = global_state()
        kind = plan["kind"]
        shared = None
        if same_problem(plan):
            # rows cannot be told apart then: compare the traces only
            shared = R.make_problem(plan["specs"][0], tag="shared")
            k.fault("shared_problem")
        runs = [One(plan, j, shared) for j in range(len(plan["specs"]))]
        before = [deep.walk(r.prob) for r in runs]
        r = random.Random("sched-%s" % plan["sched"])
        states = []
        if kind == "interleave":
            its = {j: o.pieces() for j, o in enumerate(runs)}
            last = None
            while its:
                j = r.choice(sorted(its))
                if last is not None and j != last:
                    k.fault("run_switch")
                last = j
                try:
                    next(its[j])
                except StopIteration:
                    del its[j]
        elif kind == "threads":
            s = threads.Scheduler(plan["sched"], plan["p"], "/pymoo/", plan["grain"])
            errs = s.run([o.all for o in runs])
            for e in errs:
                if e is not None:
                    raise e
            out["switches"] = s.switches
        else:
            inner, count = [], [0]
            keep = {}

            def on_row(tag, x):
                if tag != "r0":
                    return
                count[0] += 1
                if count[0] in plan["at"]:
                    for j in range(1, len(runs)):
                        m = len(inner)
                        o = One(plan, j, R.make_problem(plan["specs"][j], tag="in%d" % m), ["n_gen", plan["inner_gen"]])
                        if plan["same_object"]:
                            # the same algorithm object is minimised with again and again
                            from pymoo.optimize import minimize
                            a = keep.setdefault(j, R.make_algorithm(plan["specs"][j], o.prob))
                            kw = {"archive": L.make_archive(plan["archive"][j])} if plan["archive"][j] else {}
                            try:
                                o.T = [D.result_state(minimize(o.prob, a, ("n_gen", plan["inner_gen"]), seed=o.spec["seed"], **kw))]
                            except Exception as e:
                                o.T = [{"EXC": "%s: %s" % (type(e).__name__, str(e)[:200])}]
                        else:
                            o.all()
                        inner.append((j, o.T, rows_of("in%d" % m)))
                        k.fault("nested_run")
            rec.on_row = on_row
            runs[0].all()
            rec.on_row = None
            out["inner"] = inner
        if global_state() != g0:
            out["viol"].append(("global-rng", "the state of a process-wide random generator changed during the runs"))
        for o, b in zip(runs, before):
            d = deep.diff(b, deep.walk(o.prob))
            if d:
                out["viol"].append(("problem-changed", "the problem object was changed: %s" % d))
        for j, o in enumerate(runs):
            out["runs"].append({"T": o.T, "rows": rows_of("r%d" % j) if shared is None else None})
            states += [D.h(repr(t)) for t in o.T]
        out["faults"], out["t"], out["states"] = dict(k.faults), k.clock.t, states
    return out


def inputs(plan):
    """A single call leaves everything it was given as it was, and can be repeated with the same objects."""
    from pymoo.optimize import minimize
    k = K.Kernel(1)
    viol = []
    spec = plan["specs"][0]
    name = spec["algo"]
    with K.running(k):
        L.ambient(k, 3)
        P.new_rec()
        prob = R.make_problem(spec)
        given = None
        if plan.get("warm"):
            given, _ = warm_pop(plan["warm"], prob)
            R.WARM["pop"] = given
            cfg = dict(spec["cfg"])
            cfg["initial" if name in R.TAKES_INITIAL else "sampling"] = ["@warm"]
            cfg.pop("n_sample_points", None)
            spec = dict(spec, cfg=cfg)
            k.fault("warm_start")
        alg = R.make_algorithm(spec, prob)
        kw = {"seed": spec["seed"]}
        if plan["term_obj"] == "tuple" or R.trait(name, "needs_ngen"):
            term = ("n_gen", plan["term"][1])
        elif plan["term_obj"] == "crit":
            term = L.make_termination(plan["term"])
        elif plan["term_obj"] == "object":
            from pymoo.core.termination import TerminateIfAny
            from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
            from pymoo.termination.max_gen import MaximumGenerationTermination
            d = (DefaultSingleObjectiveTermination if prob.n_obj == 1 else DefaultMultiObjectiveTermination)(n_max_gen=plan["term"][1])
            term = TerminateIfAny(MaximumGenerationTermination(plan["term"][1]), d)
        else:
            from pymoo.termination.max_gen import MaximumGenerationTermination
            term = MaximumGenerationTermination(plan["term"][1])
        b = {"problem": deep.walk(prob), "algorithm": deep.walk(alg), "termination": deep.walk(term), "initial designs": deep.walk(given)}
        g0 = global_state()
        traces = []
        for rep in range(2 if plan["twice"] else 1):
            P.new_rec()
            try:
                res = minimize(prob, alg, term, **kw)
                traces.append((D.result_state(res), [D.h(repr(x)) for x in P.rec().rows]))
            except Exception as e:
                traces.append(("EXC %s %s" % (type(e).__name__, str(e)[:150]), None))
            for what, obj in (("problem", prob), ("algorithm", alg), ("termination", term), ("initial designs", given)):
                d = deep.diff(b[what], deep.walk(obj))
                if d:
                    viol.append(("%s-changed" % what.split()[0], "the %s handed in was changed by the call: %s" % (what, d)))
            if rep:
                k.fault("objects_reused")
        if len(traces) == 2 and traces[0] != traces[1]:
            viol.append(("reuse-differs", "the second call with the same objects and seed went differently: %s" % (
                D.first_diff([traces[0][0]], [traces[1][0]]) or "evaluated designs differ")))
        if global_state() != g0:
            viol.append(("global-rng", "the state of a process-wide random generator changed during the run"))
        return {"viol": viol, "faults": dict(k.faults), "t": k.clock.t, "T": [repr(t[0])[:300] for t in traces], "n": len(P.rec().rows)}


def drive(plan, call):
    names = [s["algo"] for s in plan["specs"]]
    if plan["kind"] == "inputs":
        o = call("inputs", plan=plan)
        viol = [core.V("%s:%s" % (kd, names[0]), "%s: %s" % (names[0], w)) for kd, w in o["viol"]]
        return core.outcome(viol, D.h(repr(o["T"])), o["faults"], [D.h(t) for t in o["T"]], o["n"] > 0, o["t"], len(o["T"]),
                            "inputs %s" % names[0], {"sub_runs": len(o["T"])})
    J = call("joint", plan=plan)
    viol = [core.V("%s:%s" % (kd, "+".join(sorted(set(names)))), "%s: %s" % ("+".join(names), w)) for kd, w in J["viol"]]
    n_sub, t = len(names), J["t"]
    for j, name in enumerate(names):
        if plan["kind"] == "nested" and j:
            continue
        S = call("solo", plan=plan, j=j)
        t += S["t"]
        d = D.first_diff(S["T"], J["runs"][j]["T"], ("alone", plan["kind"]))
        if d is None and J["runs"][j]["rows"] is not None and S["rows"] != J["runs"][j]["rows"]:
            d = "evaluated designs differ (%d alone, %d otherwise)" % (len(S["rows"]), len(J["runs"][j]["rows"]))
        if d:
            viol.append(core.V("influenced:%s" % name, "%s, %s with %s: %s" % (name, plan["kind"], names, d)))
    if plan["kind"] == "nested" and J["inner"]:
        for j in range(1, len(names)):
            S = call("solo", plan=plan, j=j, tag="in", term=["n_gen", plan["inner_gen"]])
            for jj, T, rows in J["inner"]:
                if jj != j:
                    continue
                n_sub += 1
                st = S["T"][-1:] if plan["same_object"] else S["T"]
                d = D.first_diff(st, T, ("alone", "nested"))
                if d is None and rows != S["rows"]:
                    d = "evaluated designs differ"
                if d:
                    viol.append(core.V("influenced-nested:%s" % names[j], "%s inside an evaluation of %s: %s" % (names[j], names[0], d)))
                    break
    return core.outcome(viol, D.h(repr([r["T"] for r in J["runs"]]), repr(J.get("inner")), J.get("switches", 0)), J["faults"], J["states"],
                        len(names) > 1 and all(len(r["T"]) > 1 for r in J["runs"][:1]), t, sum(len(r["T"]) for r in J["runs"]),
                        "%s %s" % (plan["kind"], "+".join(names)), {"sub_runs": n_sub, "thread_switches": J.get("switches", 0)})
