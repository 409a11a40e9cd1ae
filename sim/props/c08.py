"""C08: watching a run (history, printing, callbacks, intermediate results) does not change it."""
import contextlib
import copy
import io
import random

import numpy as np

from sim import core, drive as D, kernel as K, legs as L, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 420, "thorough": 8000}
RULE = "a scenario counts when a watched and an unwatched run of the same seed both made at least two iterations and were compared"
REAL = ["every algorithm, history copies, outputs and their indicators, callbacks of the library, Algorithm.result", "minimize and stepping"]
STUB = ["terminal (progress bar, standard output)", "objective functions of generated problems", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration of the unwatched run"
READS = ["result", "pop_get", "opt_get", "has_next", "copy_pop", "pf", "nds", "hv", "n_gen", "deepcopy", "archive", "indexing", "merge", "sort"]


def plan(rng, i, tier):
    name = pick_algo(rng, i)
    spec = R.gen(rng, name)
    n = rng.randint(3, 7 if tier == "quick" else 14)
    term = L.gen_term(rng, spec, n, (20, 80), 0.15, 0.35)
    if term[0] == "crit" and term[3] > 1 and rng.random() < 0.5:
        term[1] += 12
        term[2] = ["mtol", {"tol": rng.choice([0.0025, 0.01, 0.05, 0.125]), "n_skip": rng.choice([0, 0, 1, 2]), "only_feas": rng.random() < 0.7}]
    return {"spec": spec, "how": rng.choice(["next", "next", "minimize", "run"]),
            "term": term,
            "archive": L.gen_archive(rng, spec),
            "watch": {"history": rng.random() < 0.6, "verbose": rng.random() < 0.6, "progress": rng.random() < 0.25,
                      "output": rng.choice([None, None, None, "single", "multi"]),
                      "reads": rng.sample(READS, rng.choice([0, 2, 4])), "rseed": rng.randrange(10 ** 6),
                      "callback": rng.choice([None, None, "running", "recorder", "collection"]),
                      "use_history": rng.random() < 0.4}}


def read(kind, alg, r):
    """Things a curious callback does without touching anything."""
    if kind == "result":
        res = alg.result()
        np.sort(np.asarray(res.F, dtype=float), axis=0) if res.F is not None else None
    elif kind == "pop_get":
        alg.pop.get("X", "F", "G", "H", "CV", "feas", "rank", "crowding")
    elif kind == "opt_get":
        alg.opt.get("F", "feas")
    elif kind == "has_next":
        alg.has_next()
        alg.termination.has_terminated()
        alg.termination.perc
    elif kind == "copy_pop":
        for ind in copy.deepcopy(alg.pop):
            ind.X = None
            ind.F = np.array([0.0])
    elif kind == "pf":
        try:
            alg.problem.pareto_front()
            alg.problem.nadir_point()
        except Exception:
            pass
    elif kind == "nds":
        from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
        NonDominatedSorting().do(alg.pop.get("F"))
    elif kind == "hv":
        from pymoo.indicators.hv import HV
        F = alg.opt.get("F")
        HV(ref_point=F.max(axis=0) + 1).do(F)
    elif kind == "n_gen":
        alg.n_gen, alg.evaluator.n_eval, alg.start_time
    elif kind == "deepcopy":
        try:
            h = alg.history
            alg.history = []
            copy.deepcopy(alg)
        except Exception:
            pass
        finally:
            alg.history = h
    elif kind == "archive":
        if alg.archive is not None:
            alg.archive.get("F")
            len(alg.archive)
    elif kind == "indexing":
        [alg.pop[j] for j in range(len(alg.pop))]
        alg.pop[:1]
        alg.pop[alg.pop.get("feas").flatten()]
    elif kind == "merge":
        from pymoo.core.population import Population
        Population.merge(alg.pop, alg.opt)
    elif kind == "sort":
        F = alg.pop.get("F")
        F.sort(axis=0)
        X = alg.pop.get("X")
        if X.dtype != object:
            X[...] = 0


def make_callback(kind, spec, n_obj):
    from pymoo.core.callback import Callback, CallbackCollection
    if kind == "running":
        from pymoo.util.running_metric import RunningMetric
        return RunningMetric() if n_obj > 1 else Callback()
    if kind == "recorder":
        from pymoo.core.recorder import DefaultMultiObjectiveRecorder, DefaultSingleObjectiveRecorder
        return DefaultSingleObjectiveRecorder() if n_obj == 1 else DefaultMultiObjectiveRecorder()
    return CallbackCollection(Callback(), Callback())


def entry(e):
    d = {"n_iter": e.n_iter, "n_eval": int(e.evaluator.n_eval), "pop": D.pop_digest(e.pop), "opt": D.pop_digest(e.opt),
         "off": D.pop_digest(e.off) if hasattr(e.off, "__len__") and hasattr(e.off, "get") else "-"}
    if e.archive is not None:
        d["archive"] = D.pop_digest(e.archive)
    return d


def one(plan, watched):
    k = K.Kernel(1)
    w = plan["watch"] if watched else None
    how = plan["how"]
    spec = plan["spec"]
    with K.running(k):
        L.ambient(k, 7)
        k.clock.tick = 0.5 if watched else 1e-4
        rec = P.new_rec()
        prob = R.make_problem(spec)
        alg = R.make_algorithm(spec, prob)
        kw = {"seed": spec["seed"]}
        if plan["archive"]:
            kw["archive"] = L.make_archive(plan["archive"])
        T, viol, created, dead = [], [], [], set()
        r = random.Random(w["rseed"] if w else 0)

        def on_row(tag, x):
            if tag == "p" and len(rec.rows) > 8000:
                raise L.Runaway("evaluations")
        rec.on_row = on_row

        def look(a):
            for kind in w["reads"]:
                if r.random() < 0.7:
                    read(kind, a, r)
                    k.fault("read_" + kind)
            if w["history"]:
                while len(created) < len(a.history):
                    created.append(entry(a.history[len(created)]))
                if w["use_history"] and a.history and r.random() < 0.4:
                    j = r.randrange(len(a.history))
                    e = a.history[j]
                    k.fault("history_entry_used")
                    if r.random() < 0.5:
                        e.result()
                    else:
                        # the user continues from a recorded state; that one entry is theirs then
                        dead.add(j)
                        tag = e.problem.tag
                        e.problem.tag = "hist"
                        if e.problem is a.problem:
                            viol.append(("shared", "history entry %d shares its problem with the run" % j))
                            e.problem.tag = tag
                        else:
                            e.display = lambda *_: None
                            e.callback = lambda *_: None
                            try:
                                for _ in range(2):
                                    if e.has_next():
                                        e.next()
                            except Exception:
                                pass
        if w:
            kw["verbose"], kw["progress"], kw["save_history"] = w["verbose"], w["progress"], w["history"]
            if w["output"] == "multi":
                from pymoo.util.display.multi import MultiObjectiveOutput
                kw["output"] = MultiObjectiveOutput()
            elif w["output"] == "single":
                from pymoo.util.display.single import SingleObjectiveOutput
                kw["output"] = SingleObjectiveOutput()
            for what in ("history", "verbose", "progress"):
                if w[what]:
                    k.fault("watch_" + what)
        inner = make_callback(w["callback"], spec, prob.n_obj) if w and w["callback"] else None

        class Cb:
            def __call__(self, a):
                if inner is not None:
                    inner(a)
                if how != "next":
                    look(a)

            def __deepcopy__(self, memo):
                return self
        if w:
            kw["callback"] = Cb()
        term = L.make_termination(plan["term"])
        buf = io.StringIO()
        exc = None
        with contextlib.redirect_stdout(buf):
            try:
                if how == "minimize":
                    from pymoo.optimize import minimize
                    res = minimize(prob, alg, term, **kw)
                    alg = res.algorithm
                else:
                    alg.setup(prob, termination=term, **kw)
                    if how == "run":
                        res = alg.run()
                    else:
                        while alg.has_next():
                            alg.next()
                            T.append(D.state(alg))
                            if w:
                                look(alg)
                        res = alg.result()
                T.append(D.result_state(res))
                if w and w["history"]:
                    while len(created) < len(alg.history):
                        created.append(entry(alg.history[len(created)]))
                    res_h = res.history
                    if len(res_h) != alg.n_iter - 1:
                        viol.append(("history-length", "%d history entries after %d iterations" % (len(res_h), alg.n_iter - 1)))
                    its = [e.n_iter for j, e in enumerate(res_h) if j not in dead]
                    if its != [j + 1 for j in range(len(res_h)) if j not in dead]:
                        viol.append(("history-order", "history entries belong to iterations %s" % its))
                    for j, e in enumerate(res_h):
                        if j not in dead and entry(e) != created[j]:
                            d = [kk for kk, v in entry(e).items() if created[j].get(kk) != v]
                            viol.append(("history-changed", "history entry %d no longer shows what it showed when it was recorded (%s)" % (j, d)))
                            break
            except Exception as e:
                exc = e
                T.append({"EXC": "%s: %s" % (type(e).__name__, str(e)[:200]), "at": L.exc_where(e)})
            except L.Runaway as e:
                T.append({"RUNAWAY": str(e)})
        rows = [D.h(repr(x)) for x in rec.rows if x[0] == "p"]
        return {"T": T, "rows": rows, "viol": viol, "created": created, "faults": dict(k.faults), "t": k.clock.t, "text": len(buf.getvalue())}


def drive(plan, call):
    name = plan["spec"]["algo"]
    A = call("one", plan=plan, watched=False)
    B = call("one", plan=plan, watched=True)
    viol = [core.V("%s:%s" % (kd, name), "%s: %s" % (name, w)) for kd, w in B["viol"]]
    d = D.first_diff(A["T"], B["T"], ("unwatched", "watched"))
    if d is None and A["rows"] != B["rows"]:
        d = "evaluated designs differ (%d unwatched, %d watched)" % (len(A["rows"]), len(B["rows"]))
    if d:
        viol.append(core.V("watching-changes:" + name, "%s (%s): %s" % (name, {k: v for k, v in plan["watch"].items() if v}, d)))
    # the entries show what the unwatched run went through
    if plan["how"] == "next" and plan["watch"]["history"] and not R.trait(name, "loop") and name != "G3PCX" and not viol:
        for e, t in zip(B["created"], A["T"][:-1]):
            bad = [kk for kk in ("pop", "opt", "n_eval") if kk in t and t[kk] != e[kk]]
            if bad:
                viol.append(core.V("history-wrong:" + name, "%s: history entry of iteration %d does not show the state of that iteration (%s)" % (
                    name, e["n_iter"], bad)))
                break
    return core.outcome(viol, D.h(repr(A["T"]), repr(B["T"]), repr(B["created"])), B["faults"], [D.h(repr(t)) for t in A["T"]], len(A["T"]) > 2 or
                        plan["how"] != "next", A["t"] + B["t"], len(A["T"]) + len(B["T"]), "%s %s" % (name, plan["how"]),
                        {"sub_runs": 1, "history_entries": len(B["created"]), "printed_characters": B["text"],
                         "exceptions": sum("EXC" in t for t in A["T"])})
