"""C18: callbacks, displays, recorders and the history see every iteration exactly once, in order, also when one of them fails."""
import contextlib
import io
import math

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 480, "thorough": 9000}
RULE = ("a scenario counts when at least two iterations were reported and everything each observer was shown was compared with the "
        "iterations of an unobserved run of the same seed")
REAL = ["Algorithm loop, callbacks and collections, recorders, displays and their columns, progress bar wrapper, history", "every algorithm"]
STUB = ["terminal (standard output that can fail, progress bar widget)", "objective functions of generated problems", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration of the unobserved run"
CPU = 100


class Boom(Exception):
    pass


class HardBoom(BaseException):
    pass


class BadCopy:
    """Part of the algorithm's data: copying it fails when the plan says so."""

    def __init__(self, at):
        self.at, self.n = dict(at), 0

    def __deepcopy__(self, memo):
        self.n += 1
        if self.n in self.at:
            K.CUR.fault("history_copy_fails")
            raise self.at[self.n]
        return self


def plan(rng, i, tier):
    name = pick_algo(rng, i)
    spec = R.gen(rng, name)
    n = rng.randint(3, 8 if tier == "quick" else 15)
    p = {"spec": spec, "n": n, "how": rng.choice(["next", "run", "minimize", "asktell", "next"]),
         "term": L.gen_term(rng, spec, n, p_eval=0.3, p_crit=0.12),
         "archive": L.gen_archive(rng, spec), "callback": rng.choice(["class", "class", "function", "collection", "nested", "collection"]),
         "recorder": rng.choice([None, 0, 0, 7, 25]), "verbose": rng.random() < 0.6, "progress": rng.random() < 0.4,
         "history": rng.random() < 0.5, "display": rng.random() < 0.4, "output": rng.choice([None, None, "own"]),
         "early": rng.randint(1, n) if rng.random() < 0.15 else None, "faults": []}
    if rng.random() < 0.6 and p["how"] != "minimize" and p["early"] is None:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["callback", "callback", "init", "print", "history", "notify"])
            p["faults"].append([kind, 1 if kind == "init" else rng.choice([1, n, rng.randint(1, n)]), rng.choice(["soft", "soft", "hard"])])
    return p


def unobserved(plan):
    """What happens without anybody looking: state and number of evaluated rows per iteration."""
    spec = plan["spec"]
    k = K.Kernel(1)
    out = {"T": [], "exc": None, "res": None, "view": []}
    with K.running(k):
        L.ambient(k, 7)
        rec = P.new_rec()

        def on_row(tag, x):
            if len(rec.rows) > 8000:
                raise L.Runaway("evaluations")
        rec.on_row = on_row
        try:
            with guard.cpu_limit(CPU):
                prob = R.make_problem(spec)
                alg = R.make_algorithm(spec, prob)
                kw = {"archive": L.make_archive(plan["archive"])} if plan["archive"] else {}
                alg.setup(prob, termination=L.make_termination(plan["term"]), seed=spec["seed"], **kw)
                n, steps = 0, 0
                while alg.has_next():
                    alg.next()
                    steps += 1
                    if steps > 4000:
                        raise L.Runaway("steps")
                    if alg.n_iter - 1 == n:
                        continue
                    n = alg.n_iter - 1
                    d = D.state(alg)
                    out["T"].append({"pop": d["pop"], "opt": d["opt"], "n_eval": d["n_eval"]})
                    out["view"].append(view(alg))
                    if plan["early"] == n:
                        # somebody asks for the end: noticed in the next iteration
                        alg.termination.terminate()
                out["res"] = D.result_state(alg.result())
        except Exception as e:
            out["exc"] = "%s at %s" % (type(e).__name__, L.exc_where(e))
        except (L.Runaway, guard.Stuck) as e:
            out["exc"] = "runaway: %s" % e
        out["rows"] = [D.h(repr(r)) for r in rec.rows]
    return out


def view(alg):
    """The numbers a display shows."""
    opt, pop = alg.opt, alg.pop
    feas = np.asarray(opt.get("feas")).ravel()
    F = opt.get("F")
    d = {"n_nds": len(opt), "cv_min": float(np.min(opt.get("CV")))}
    if F.ndim == 2 and F.shape[1] == 1:
        d["f_min"] = float(F[0, 0]) if feas[0] else None
        pf = np.asarray(pop.get("feas")).ravel()
        d["f_avg"] = float(pop.get("F")[pf].mean()) if pf.any() else None
    cv = np.asarray(pop.get("CV"), dtype=float)
    d["cv_avg"] = float(cv.mean())
    return d


def observed(plan):
    spec, name = plan["spec"], plan["spec"]["algo"]
    k = K.Kernel(1)
    viol, out = [], {"exc": None, "res": None}
    seen = {"init": [], "notify": [], "update": [], "function": [], "second": [], "second_init": 0, "finalize": [], "recorder": None}
    faults = {}
    for kind, it, how in plan["faults"]:
        faults.setdefault(kind, {})[it] = Boom("planned") if how == "soft" else HardBoom("planned")
    pending, hurt = [], set()
    lines, cur = [], {"it": 0}
    with K.running(k):
        L.ambient(k, 7)
        rec = P.new_rec()

        def on_row(tag, x):
            if len(rec.rows) > 8000:
                raise L.Runaway("evaluations")
        rec.on_row = on_row
        from pymoo.core.callback import Callback, CallbackCollection
        from pymoo.core.recorder import DefaultMultiObjectiveRecorder, DefaultSingleObjectiveRecorder
        from pymoo.util.display.display import Display

        def boom(kind, a):
            e = faults.get(kind, {}).pop(a.n_iter, None)
            if e is not None:
                k.fault("%s_fails" % kind)
                hurt.add(a.n_iter)
                pending.append(e)
                raise e

        def show(where, a):
            d = D.state(a)
            seen[where].append((a.n_iter, {"pop": d["pop"], "opt": d["opt"], "n_eval": d["n_eval"]}, len(rec.rows),
                                len(a.history) if a.history is not None else None, bool(a.termination.has_terminated())))
            if where in ("update", "function") and plan["early"] == a.n_iter:
                a.termination.terminate()
                k.fault("termination_requested")

        class Cb(Callback):
            def initialize(self, a):
                seen["init"].append(a.n_iter)
                boom("init", a)

            def notify(self, a):
                show("notify", a)
                boom("notify", a)

            def update(self, a):
                show("update", a)
                boom("callback", a)

            def __deepcopy__(self, memo):
                return self

        class Second(Callback):
            def initialize(self, a):
                seen["second_init"] += 1

            def notify(self, a):
                show("second", a)

            def __deepcopy__(self, memo):
                return self

        def function(a):
            show("function", a)
            boom("callback", a)

        prob = R.make_problem(spec)
        alg = R.make_algorithm(spec, prob)
        kw = {"seed": spec["seed"]}
        recorder = None
        if plan["recorder"] is not None:
            cls = DefaultSingleObjectiveRecorder if prob.n_obj == 1 else DefaultMultiObjectiveRecorder
            recorder = cls(nth_evals=plan["recorder"] or None)
            cls.__deepcopy__ = lambda self, memo: self
        mode = plan["callback"]
        if mode == "function" and recorder is None:
            cb = function
        elif mode in ("collection", "nested") or recorder is not None:
            parts = [x for x in (recorder, Second() if mode != "class" else None, Cb()) if x is not None]
            cb = CallbackCollection(*parts) if mode != "nested" else CallbackCollection(CallbackCollection(*parts[:-1]), parts[-1])
        else:
            cb = Cb()
        kw["callback"] = cb
        if plan["archive"]:
            kw["archive"] = L.make_archive(plan["archive"])
        if plan["history"]:
            kw["save_history"] = True
            if faults.get("history"):
                at = faults.pop("history")

                class Bad:
                    def __deepcopy__(self, memo):
                        it = cur["alg"].n_iter if cur.get("alg") is not None else 0
                        e = at.pop(it, None)
                        if e is not None:
                            k.fault("history_copy_fails")
                            hurt.add(it)
                            pending.append(e)
                            raise e
                        return self
                cur["bad"] = Bad()
        output = None
        if plan["output"] == "own":
            from pymoo.util.display.column import Column
            from pymoo.util.display.output import Output

            class Own(Output):
                def __init__(self):
                    super().__init__()
                    self.w = Column("mine", width=9)
                    self.columns += [self.w]

                def update(self, a):
                    super().update(a)
                    self.w.set("i%d" % a.n_iter)
            output = Own()
            kw["output"] = output
        if plan["display"]:
            out_obj = output if output is not None else alg.output

            class Disp(Display):
                def finalize(self):
                    super().finalize()
                    seen["finalize"].append(cur["alg"].n_iter if cur.get("alg") is not None else None)

                def __deepcopy__(self, memo):
                    return self
            kw["display"] = Disp(out_obj, progress=plan["progress"], verbose=plan["verbose"])
        else:
            kw["verbose"], kw["progress"] = plan["verbose"], plan["progress"]

        class Out(io.StringIO):
            def write(self, s):
                a = cur.get("alg")
                if a is not None and a.n_iter in faults.get("print", {}) and s.strip():
                    boom("print", a)
                return super().write(s)
        buf = Out()
        hist = None
        try:
            with guard.cpu_limit(CPU), contextlib.redirect_stdout(buf):
                term = L.make_termination(plan["term"])
                if plan["how"] == "minimize":
                    from pymoo.optimize import minimize
                    res = minimize(prob, alg, term, **kw)
                    alg = res.algorithm
                else:
                    alg.setup(prob, termination=term, **kw)
                    cur["alg"] = alg
                    if cur.get("bad") is not None:
                        alg.data["bad"] = cur["bad"]
                    guard_n = 0
                    while True:
                        guard_n += 1
                        if guard_n > 4000:
                            raise L.Runaway("steps")
                        try:
                            if plan["how"] == "run":
                                res = alg.run()
                                break
                            if not alg.has_next():
                                break
                            if plan["how"] == "asktell":
                                inf = alg.ask()
                                if inf is not None:
                                    alg.evaluator.eval(alg.problem, inf, algorithm=alg)
                                alg.tell(infills=inf)
                            else:
                                alg.next()
                        except (Boom, HardBoom) as e:
                            if not pending or e is not pending[-1]:
                                viol.append(("wrong-error", "the caller got %r, the observer raised %r" % (e, pending[-1:])))
                            pending.clear()
                        if pending:
                            viol.append(("error-lost", "an observer raised in iteration %s, the caller was not told" % sorted(hurt)))
                            pending.clear()
                    res = alg.result()
                if cur.get("bad") is not None:
                    alg.data.pop("bad", None)
                hist = res.history
                out["res"] = D.result_state(res)
        except Exception as e:
            out["exc"] = "%s at %s" % (type(e).__name__, L.exc_where(e))
            out["msg"] = str(e)[:200]
        except (L.Runaway, guard.Stuck) as e:
            out["exc"] = "runaway: %s" % e
        except HardBoom as e:
            out["exc"] = "HardBoom left over"
        out["rows"] = [D.h(repr(r)) for r in rec.rows]
        out["text"] = buf.getvalue()
        out["bar"] = list(k.bar)
        out["hist"] = None if hist is None else [(e.n_iter, int(e.evaluator.n_eval), D.pop_digest(e.pop), D.pop_digest(e.opt)) for e in hist]
        out["has_output"] = (output if output is not None else alg.output) is not None
        if recorder is not None:
            seen["recorder"] = [int(d.get("n_evals")) for d in recorder.data]
        out.update(seen=seen, viol=viol, hurt=sorted(hurt), faults=dict(k.faults), t=k.clock.t)
    return out


def to_num(s):
    try:
        return float(s)
    except ValueError:
        return None


def judge(plan, A, B):
    """Protocol: what each observer has to have seen, given the unobserved run."""
    viol = list(B["viol"])
    name = plan["spec"]["algo"]
    T, S = A["T"], B["seen"]
    n = len(T)
    hurt = set(B["hurt"])
    if A["exc"] or B["exc"]:
        if A["exc"] != B["exc"]:
            viol.append(("crash", "with observers: %s %s; without: %s" % (B["exc"], B.get("msg", ""), A["exc"])))
        return viol
    if A["rows"] != B["rows"]:
        viol.append(("changed", "the evaluated designs differ from an unobserved run (%d / %d rows)" % (len(B["rows"]), len(A["rows"]))))
        return viol
    d = D.first_diff([A["res"]], [B["res"]], ("unobserved", "observed"))
    if d:
        viol.append(("changed", "the result differs from an unobserved run: %s" % d))

    def sequence(label, its, may_miss):
        want = [i for i in range(1, n + 1) if i not in may_miss]
        if its != sorted(set(its)):
            viol.append(("order", "%s saw iterations %s" % (label, its[:30])))
        elif [i for i in its if i not in may_miss] != want or any(i < 1 or i > n for i in its):
            viol.append(("missed", "%s saw iterations %s, the run had %d" % (label, its[:30], n)))

    fn = S["function"]
    if fn or plan["callback"] == "function" and plan["recorder"] is None:
        main = ["function"]
    else:
        main = ["notify", "update"]
    for w in main + (["second"] if S["second_init"] else []):
        its = [e[0] for e in S[w]]
        # an observer served earlier may have failed in this iteration
        sequence("the callback's %s" % w, its, hurt)
        for it, st, rows, nh, term in S[w]:
            if 1 <= it <= n:
                bad = [key for key in st if st[key] != T[it - 1][key]]
                if bad:
                    viol.append(("state", "callback of iteration %d was not shown the state of that iteration: %s" % (it, bad)))
                    break
                if term != (it == n):
                    viol.append(("end", "in iteration %d of %d the callback saw terminated=%s" % (it, n, term)))
                    break
                if plan["history"] and not hurt and nh != it:
                    viol.append(("history-late", "in iteration %d the history had %s entries" % (it, nh)))
                    break
    if main == ["notify", "update"]:
        if any(f[0] == "init" for f in plan["faults"]):
            # an initialization that failed is repeated, one that worked is not
            if all(f[0] == "init" for f in plan["faults"]) and n > len(hurt):
                want = [i for i in range(1, n + 1) if i in hurt] + [i for i in range(1, n + 1) if i not in hurt][:1]
                if S["init"] != want:
                    viol.append(("init", "the callback was initialized in iterations %s, it failed in %s" % (S["init"][:9], sorted(hurt))))
        elif len(S["init"]) != 1 and n > 0 and not hurt or len(S["init"]) > 1:
            viol.append(("init", "the callback was initialized %d times (%s)" % (len(S["init"]), S["init"][:9])))
    if S["second_init"] > 1:
        viol.append(("init", "a callback of a collection was initialized %d times" % S["second_init"]))
    if plan["callback"] in ("collection", "nested") and not S["second_init"] and n > len(hurt):
        viol.append(("collection", "a callback of a collection was never initialized (%d iterations)" % n))
    if S["recorder"] is not None and not hurt:
        evs = [t["n_eval"] for t in T]
        if plan["recorder"]:
            want, nxt = [], 0
            for e in evs:
                if e >= nxt:
                    want.append(e)
                    nxt = (1 + e // plan["recorder"]) * plan["recorder"]
        else:
            want = evs
        if S["recorder"] != want:
            viol.append(("recorder", "recorder (every %s evaluations) has %s, the run had %s" % (plan["recorder"] or "iteration, all", S["recorder"][:20], want[:20])))
    if plan["display"] and not (n in hurt):
        if S["finalize"] == [] or len(S["finalize"]) != 1:
            viol.append(("finalize", "the display was finalized %d times" % len(S["finalize"])))
    if plan["progress"] and not hurt:
        if len(B["bar"]) != n:
            viol.append(("bar", "the progress bar was set %d times in %d iterations" % (len(B["bar"]), n)))
        else:
            if any(b < a for a, b in zip(B["bar"], B["bar"][1:])) or any(not 0 <= v for v in B["bar"]):
                viol.append(("bar", "progress %s" % B["bar"]))
            if plan["term"][0] == "n_gen" and not plan["early"]:
                want = [math.floor((i / plan["term"][1]) * 100) / 100 for i in range(1, n + 1)]
                if B["bar"] != want and not A.get("gave_up") and n == plan["term"][1]:
                    viol.append(("bar", "progress %s instead of %s" % (B["bar"], want)))
    if plan["history"]:
        its = [e[0] for e in B["hist"]]
        sequence("the history", its, hurt)
        for it, ne, pop, opt in B["hist"]:
            if 1 <= it <= n and (ne, pop, opt) != (T[it - 1]["n_eval"], T[it - 1]["pop"], T[it - 1]["opt"]) and not R.trait(name, "loop") \
                    and name != "G3PCX":
                viol.append(("history-state", "the history entry of iteration %d does not show that iteration" % it))
                break
    if plan["verbose"] and B["has_output"]:
        viol += printed(plan, A, B, n, hurt)
    elif B["text"].strip() and not plan["verbose"]:
        viol.append(("noise", "a run that was not asked to prints: %r" % B["text"][:100]))
    return viol


def printed(plan, A, B, n, hurt):
    lines = [x for x in B["text"].split("\n") if x.strip()]
    head = [i for i, x in enumerate(lines) if "n_gen" in x]
    table = [x for x in lines if "|" in x and "n_gen" not in x]
    if hurt:
        its = [int(x.split("|")[0]) for x in table]
        if its != sorted(set(its)) or not set(range(1, n + 1)) - set(hurt) <= set(its):
            return [("print", "printed iterations %s of %d (failed: %s)" % (its, n, sorted(hurt)))]
        return []
    if len(head) != 1 or len(table) != n:
        return [("print", "%d headers and %d lines were printed in %d iterations" % (len(head), len(table), n))]
    cols = [c.strip() for c in lines[head[0]].split("|")]
    for i, x in enumerate(table):
        vals = dict(zip(cols, [c.strip() for c in x.split("|")]))
        if len(x.split("|")) != len(cols):
            return [("print", "line %d has %d columns, the header %d" % (i + 1, len(x.split("|")), len(cols)))]
        want = dict(A["view"][i], n_gen=i + 1, n_eval=A["T"][i]["n_eval"])
        if plan["output"] == "own" and vals.get("mine") != "i%d" % (i + 1):
            return [("print", "own column shows %s in iteration %d" % (vals.get("mine"), i + 1))]
        for c, w in want.items():
            if c not in vals:
                continue
            if w is None:
                if vals[c] != "-":
                    return [("print", "iteration %d: column %s shows %s although there is no feasible design" % (i + 1, c, vals[c]))]
                continue
            v = to_num(vals[c])
            if v is None or abs(v - w) > 1e-4 * abs(w) + 1e-8 and not (abs(w) >= 1e15 or math.isinf(w)):
                return [("print", "iteration %d: column %s shows %s, the state says %s" % (i + 1, c, vals[c], w))]
    return []


def run(plan):
    name = plan["spec"]["algo"]
    A = unobserved(plan)
    B = observed(plan)
    viol, done = [], set()
    for kd, w in judge(plan, A, B):
        if kd not in done:
            done.add(kd)
            viol.append(core.V("%s:%s" % (kd, name), "%s (%s, faults %s): %s" % (name, plan["how"], plan["faults"], w)))
    return core.outcome(viol, D.h(repr(A["T"]), repr(B["seen"]), B["text"], repr(B["bar"])), B["faults"], [D.h(repr(t)) for t in A["T"]],
                        len(A["T"]) >= 2, B["t"], len(A["T"]), "%s %s faults=%d" % (name, plan["how"], len(plan["faults"])),
                        {"sub_runs": 1, "printed_characters": len(B["text"]), "exceptions": int(A["exc"] is not None)})
