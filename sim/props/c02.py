"""C02: crash / checkpoint / resume continues exactly as if nothing had happened."""
import copy

from sim import core, drive as D, kernel as K, legs as L, problems as P, registry as R, seams
from sim.kernel import SimCrash
from sim.props import pick_algo

COUNT = {"quick": 360, "thorough": 7000}
RULE = ("a scenario counts when at least one checkpoint taken after the start was restored (in another process, or as a deep "
        "copy) and the continuation was compared step by step with the uninterrupted run")
REAL = ["every algorithm with operators, survival, termination, archive, evaluator, random state", "pickle / dill / cloudpickle / "
        "copy.deepcopy", "separate operating-system processes with other hash seeds"]
STUB = ["durable storage (the last completed checkpoint survives, everything else is lost)", "clock", "entropy",
        "objective functions of generated problems"]
STATE_MEASURE = "digest of (population, optimum, archive, counters) after each iteration of the uninterrupted run"
ASSUMPTIONS = ["a checkpoint write is atomic (the user's own storage is not part of the library)"]

# algorithms holding a live generator: documented to have no resumable state; they have to refuse, not to drift
MAXIT = 130      # safety net: no plan asks for more iterations than that
REFUSERS = {"MOEAD", "NelderMead", "PatternSearch", "G3PCX", "CMAES", "BIPOPCMAES"}
REFUSE_PICKLE = {"NicheGA", "AdaptiveEpsilon", "AdaptiveEpsilon-MO", "PINSGA2"}      # locally defined functions / classes: plain pickle says no


def plan(rng, i, tier):
    name = pick_algo(rng, i)
    spec = R.gen(rng, name)
    n = rng.randint(3, 8 if tier == "quick" else 14)
    term = L.gen_term(rng, spec, n, (30, 90), 0.15, 0.4)
    codec = rng.choice(["pickle", "dill", "dill", "cloudpickle", "deepcopy"])
    p = {"spec": spec, "term": term, "codec": codec, "archive": L.gen_archive(rng, spec, 0.4), "save_history": rng.random() < 0.1,
         "ent": [rng.randrange(10 ** 6) for _ in range(4)]}
    if codec == "deepcopy":
        p["cuts"] = sorted(rng.sample(range(0, n), min(n, rng.choice([1, 1, 2]))))
        p["ahead"] = rng.randint(0, 3)
        p["keep_problem"] = True
        return p
    p["mode"] = rng.choice(["next", "next", "asktell", "mid_ask", "mid_eval"])
    p["resume_how"] = rng.choice(["same", "same", "run", "minimize"])
    p["keep_problem"] = rng.random() < 0.7
    p["every"] = rng.choice([1, 1, 2, 3])
    p["crashes"] = [gen_crash(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    ext = not (R.trait(name, "needs_ngen") or R.trait(name, "meta") or R.trait(name, "own_term") or name in REFUSERS
               or name in ("NRBO", "SimpleCMAES"))
    if ext and term[0] == "n_gen" and rng.random() < 0.25:
        p["extend"] = rng.randint(1, 4)
    return p


def gen_crash(rng):
    at = rng.choice(["row", "row", "row", "boundary", "ask", "eval"])
    return {"at": at, "k": rng.randint(1, 60) if at == "row" else rng.randint(1, 5)}


def codec(name):
    import cloudpickle
    import dill
    import pickle
    return {"pickle": (pickle.dumps, pickle.loads), "dill": (dill.dumps, dill.loads),
            "cloudpickle": (cloudpickle.dumps, cloudpickle.loads)}[name]


def term_of(plan, part=0):
    t = list(plan["term"])
    if part and plan.get("extend"):
        t[1] += plan["extend"]
    return L.make_termination(t)


class Step:
    """Drives an algorithm boundary by boundary and remembers what was seen."""

    def __init__(self):
        self.T = {}
        self.rows_at = {}

    def see(self, alg, n):
        self.T[n] = D.state(alg)
        self.rows_at[n] = len(P.rec().rows)


def rowdig():
    return [D.h(repr(r)) for r in P.rec().rows]


def ref(plan, ent):
    k = K.Kernel(1)
    with K.running(k):
        L.ambient(k, ent)
        P.new_rec()
        s = Step()
        lg = L.Leg(plan["spec"], plan["term"], archive=plan["archive"], save_history=plan["save_history"]).build()
        alg = lg.alg
        exc = None
        try:
            alg.setup(lg.prob, termination=term_of(plan, 1), **lg.kw)
            s.rows_at[0] = len(P.rec().rows)
            n = 0
            while alg.has_next() and n < MAXIT:
                alg.next()
                n += 1
                s.see(alg, n)
            s.T["result"] = D.result_state(alg.result())
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__, str(e)[:150])
        return {"T": s.T, "rows_at": s.rows_at, "rows": rowdig(), "n": alg.n_iter if exc is None else None, "exc": exc, "t": k.clock.t}


def life(plan, no, ent, ckpt, crash, last):
    """One process: restore (or start), go on until it crashes or finishes. Returns what was seen and the last checkpoint."""
    k = K.Kernel(1)
    dumps, loads = codec(plan["codec"])
    out = {"T": {}, "refused": None, "died": None, "exc": None, "start": 0, "phase": None}
    with K.running(k):
        L.ambient(k, ent)
        k.clock.base += 86400.0 * no
        rec = P.new_rec()
        s = Step()
        infills = None
        if ckpt is None:
            lg = L.Leg(plan["spec"], plan["term"], archive=plan["archive"], save_history=plan["save_history"]).build()
            alg = lg.alg
            alg.setup(lg.prob, termination=term_of(plan, 0), **lg.kw)
            n, phase = 0, None
        else:
            n, phase, blob = ckpt
            try:
                alg, infills = loads(blob)
            except Exception as e:
                out["refused"] = "restore: %s: %s" % (type(e).__name__, str(e)[:150])
                return fin(out, s, k, rec, ckpt)
            if not plan["keep_problem"]:
                alg.problem = R.make_problem(plan["spec"])
            if last and plan.get("extend") and not alg.has_next():
                from pymoo.termination import get_termination
                alg.termination = get_termination(*term_of(plan, 1))
            k.fault("restore_from_checkpoint")
        out["start"], out["phase"] = n, phase
        new = ckpt

        def save(ph, inf=None):
            nonlocal new
            prob = alg.problem
            if not plan["keep_problem"]:
                alg.problem = None
            try:
                new = (n, ph, dumps((alg, inf)))
            finally:
                alg.problem = prob

        cnt = {"row": 0, "boundary": 0, "ask": 0, "eval": 0}

        def tick(what):
            cnt[what] += 1
            if crash and crash["at"] == what and cnt[what] >= crash["k"]:
                k.fault("crash_" + what)
                raise SimCrash(what)

        def on_row(tag, x):
            if len(rec.rows) > 8000:
                raise L.Runaway("evaluations")
            tick("row")
        rec.on_row = on_row
        how = plan["mode"]
        if ckpt is not None and plan["resume_how"] != "same" and phase is None and crash is None and (
                last or not plan.get("extend")):
            how = plan["resume_how"]
        try:
            if how in ("run", "minimize") and alg.has_next():
                def cb(a):
                    nonlocal n
                    n += 1
                    if n > MAXIT:
                        raise L.Runaway("iterations")
                    # seen from inside the iteration: compared with the reference at the end only
                alg.callback = cb
                if how == "run":
                    res = alg.run()
                else:
                    from pymoo.optimize import minimize
                    res = minimize(alg.problem, alg, copy_algorithm=False)
                s.T["result"] = D.result_state(res)
                s.T["n"] = res.algorithm.n_iter if how == "minimize" else alg.n_iter
                return fin(out, s, k, rec, new)
            guard = 0
            while alg.has_next() or phase is not None:
                guard += 1
                if guard > MAXIT:
                    raise L.Runaway("iterations")
                if how == "next" and phase is None:
                    alg.next()
                else:
                    if phase is None:
                        infills = alg.ask()
                        if how == "mid_ask":
                            save("asked", infills)
                        tick("ask")
                    if phase != "evaluated" and infills is not None:
                        alg.evaluator.eval(alg.problem, infills, algorithm=alg)
                        if how == "mid_eval":
                            save("evaluated", infills)
                        tick("eval")
                    phase = None
                    alg.tell(infills=infills)
                n += 1
                s.see(alg, n)
                if n % plan["every"] == 0 or not alg.has_next():
                    save(None)
                tick("boundary")
            s.T["result"] = D.result_state(alg.result())
        except SimCrash as e:
            out["died"] = str(e)
        except L.Runaway as e:
            out["exc"] = "runaway: %s" % e
        except Exception as e:
            out["exc"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        finally:
            rec.on_row = None
        return fin(out, s, k, rec, new)


def fin(out, s, k, rec, new):
    out.update(T=s.T, rows_at=s.rows_at, rows=rowdig(), ckpt=new, faults=dict(k.faults), t=k.clock.t)
    return out


def copies(plan, ent):
    """deep copies taken at the cuts; the original runs ahead before the copy continues."""
    k = K.Kernel(1)
    out = {"legs": [], "exc": None}
    with K.running(k):
        L.ambient(k, ent)
        P.new_rec()
        lg = L.Leg(plan["spec"], plan["term"], archive=plan["archive"], save_history=plan["save_history"]).build()
        alg = lg.alg
        main = {"T": {}, "who": "original", "start": 0}
        out["legs"].append(main)
        try:
            alg.setup(lg.prob, termination=term_of(plan, 1), **lg.kw)
            n, pending = 0, []

            def step(a, T, n):
                a.next()
                T[n + 1] = D.state(a)
                return n + 1
            while alg.has_next() and n < MAXIT:
                if n in plan["cuts"]:
                    pending.append([n + plan["ahead"], n, copy.deepcopy(alg)])
                    k.fault("deepcopy")
                n = step(alg, main["T"], n)
                for p in [p for p in pending if p[0] <= n or not alg.has_next()]:
                    pending.remove(p)
                    run_copy(p, out, step)
            for p in pending:
                run_copy(p, out, step)
            main["T"]["result"] = D.result_state(alg.result())
        except Exception as e:
            main["exc"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    out["faults"], out["t"] = dict(k.faults), k.clock.t
    return out


def run_copy(p, out, step):
    _, n, c = p
    leg = {"T": {}, "who": "copy taken after iteration %d" % n, "start": n}
    out["legs"].append(leg)
    try:
        while c.has_next() and n < MAXIT:
            n = step(c, leg["T"], n)
        leg["T"]["result"] = D.result_state(c.result())
    except Exception as e:
        leg["exc"] = "%s: %s" % (type(e).__name__, str(e)[:200])


def differs(refT, T):
    for n in T:
        if n == "n":
            continue
        a, b = refT.get(n), T[n]
        if a is None:
            return "iteration %s exists only after the restore" % (n,)
        if a != b:
            ks = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))
            return "iteration %s: %s differ (uninterrupted %s, continued %s)" % (n, ks, {x: a.get(x) for x in ks},
                                                                                 {x: b.get(x) for x in ks})
    return None


def drive(plan, call):
    from sim.runner import HASHSEEDS
    name, viol, faults = plan["spec"]["algo"], [], {}
    hss = [plan["hs"], HASHSEEDS[1 - HASHSEEDS.index(plan["hs"])]]
    A = call("ref", hs=hss[0], plan=plan, ent=plan["ent"][0])
    sig_ref = D.h(repr(sorted((str(k), sorted(v.items(), key=str)) for k, v in A["T"].items())), repr(A["rows"]))
    states = [D.h(str(sorted(t.items(), key=str))) for t in A["T"].values()]
    restored, extra = 0, {"refused": 0, "sub_runs": 0, "resumed_in_other_process": 0}
    may_refuse = name in REFUSERS or (plan["codec"] == "pickle" and name in REFUSE_PICKLE)

    def bad(kind, what):
        viol.append(core.V("%s:%s" % (kind, name), "%s, %s: %s" % (name, plan["codec"], what)))
    sim_t = A["t"]
    if A["exc"]:
        # the uninterrupted run itself fails: nothing to compare with
        return core.outcome([], sig_ref, {}, states, False, sim_t, len(A["T"]), name, {"reference_failed": 1})
    if plan["codec"] == "deepcopy":
        out = call("copies", plan=plan, ent=plan["ent"][1])
        faults, sim_t = out["faults"], sim_t + out["t"]
        for leg in out["legs"]:
            d = differs(A["T"], leg["T"])
            if leg.get("exc"):
                if may_refuse:
                    extra["refused"] += 1
                else:
                    bad("copy-failed", "%s: %s" % (leg["who"], leg["exc"]))
            elif d is None and "result" not in leg["T"]:
                d = "%s did not finish" % leg["who"]
            if d:
                bad("copy-drift", "%s: %s" % (leg["who"], d))
            elif leg["who"] != "original" and not leg.get("exc"):
                restored += 1
            extra["sub_runs"] += 1
    else:
        ckpt, crashes = None, list(plan["crashes"])
        no = 0
        if plan.get("extend"):
            crashes = crashes + [None]        # run into the first budget, then extend it
        lives = crashes + [None]
        for j, crash in enumerate(lives):
            last = j == len(lives) - 1
            no += 1
            had = ckpt
            o = call("life", hs=hss[no % 2], plan=plan, no=no, ent=plan["ent"][no % 4], ckpt=ckpt, crash=crash, last=last)
            extra["sub_runs"] += 1
            for f, c in o["faults"].items():
                faults[f] = faults.get(f, 0) + c
            sim_t += o["t"]
            if o["refused"] or o["exc"]:
                if may_refuse:
                    extra["refused"] += 1
                    break
                bad("continue-failed" if had else "run-failed", "life %d: %s" % (no, o["refused"] or o["exc"]))
                break
            T = dict(o["T"])
            early = plan.get("extend") and not last     # still under the first budget
            if early:
                T.pop("result", None)
                T.pop("n", None)
                T = {n: dict(t, **{w: A["T"].get(n, {}).get(w, t[w]) for w in ("terminated", "progress")}) for n, t in T.items()}
            d = differs(A["T"], T)
            # designs evaluated from the restored boundary on
            if d is None:
                base = A["rows_at"].get(o["start"], 0) if had else 0
                if o["phase"] == "evaluated":
                    base = A["rows_at"].get(o["start"] + 1, base)
                    base = None if base is None else base
                    if o["rows"] and o["start"] + 1 not in A["rows_at"]:
                        base = None
                exp = A["rows"][base:] if base is not None else None
                if exp is not None and o["rows"] != exp[:len(o["rows"])]:
                    d = "designs evaluated after iteration %d differ from the uninterrupted run" % o["start"]
                elif exp is not None and not o["died"] and not early and len(o["rows"]) != len(exp):
                    d = "%d designs evaluated after iteration %d, %d without interruption" % (len(o["rows"]), o["start"], len(exp))
            if d is None and "n" in T and T["n"] != A["n"]:
                d = "iteration counter ends at %s, uninterrupted %s" % (T["n"], A["n"])
            if d:
                inflight = "-asked" if had and o["phase"] == "asked" and name == "SimpleCMAES" else ""
                bad("resume-drift" + inflight if had else "first-life-drift", "life %d, from iteration %d%s: %s" % (
                    no, o["start"], " (%s)" % o["phase"] if o["phase"] else "", d))
                break
            if had is not None and had[0] > 0:
                restored += 1
                extra["resumed_in_other_process"] += 1
            ckpt = o["ckpt"]
            if not o["died"] and not early:
                break
    return core.outcome(viol, sig_ref, faults, states, restored > 0, sim_t, len(A["T"]),
                        "%s %s %s crashes=%s" % (name, plan["codec"], plan.get("mode", "cuts %s" % plan.get("cuts")),
                                                 plan.get("crashes")), extra)
