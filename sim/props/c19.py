"""C19: changing environments leave no stale values."""
import copy
import pickle
import random

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R, watch as W

COUNT = {"quick": 2500, "thorough": 15000}
RULE = "a scenario counts when the environment changed at least twice under a running algorithm (or a test problem) and its values were compared with the environment afterwards"
REAL = ["DNSGA2 and KGB with everything they use", "dynamic test problems (DF, CEC 2015), TimeSimulation", "cache of Problem"]
STUB = ["the environment: a problem whose values depend on a time the simulator sets", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"
CPU = 100
DF = ["df%d" % i for i in range(1, 10)]
FRONTS = ["df%d" % i for i in range(1, 15)]
CEC = ["FDA2DEB", "FDA4", "FDA5", "DIMP2", "dMOP2", "HE2", "HE7", "HE9"]
SETTLE = 150


def plan(rng, i, tier):
    if i % 7 == 6:
        return plan_front(rng)
    name = "KGB" if rng.random() < 0.25 else "DNSGA2"
    spec = R.gen(rng, name)
    n = rng.randint(4, 10 if tier == "quick" else 25)
    p = {"kind": "run", "spec": spec, "n": n, "mode": rng.choice(["boundary", "boundary", "callback", "rows", "rows", "both"]), "adv": None, "errors": [], "cuts": []}
    if rng.random() < 0.15:
        spec["cfg"]["eps"] = rng.choice([1e-8, 1e-3, 0.5])
    if rng.random() < 0.25:
        spec["problem"] = {"kind": "df", "name": rng.choice(DF), "nt": rng.choice([1, 2, 5, 10]), "taut": rng.choice([1, 1, 2, 3])}
        p["mode"] = rng.choice(["boundary", "callback", "rows"])
    elif p["mode"] == "callback":
        p["mode"] = "boundary"
    at = sorted(rng.sample(range(1, n + 1), min(n, rng.randint(1, 5))))
    p["changes"] = [[k, rng.choice([0, 0.3, 0.5, 1, 1, 2, 2, 3.5])] for k in at] if p["mode"] in ("boundary", "both") else []
    p["rows"] = [[k, rng.choice([0, 0.3, 1, 2, 3.5])] for k in sorted(rng.sample(range(2, 30 + 12 * n), rng.randint(1, 4)))] if p["mode"] in ("rows", "both") else []
    if rng.random() < 0.25:
        p["errors"] = sorted(rng.sample(range(20, 20 + 25 * n), rng.randint(1, 3)))
    if rng.random() < 0.3:
        p["cuts"] = [[rng.randint(1, n), rng.choice(["deepcopy", "pickle"])]]
    if rng.random() < 0.2:
        p["adv"] = {"p": rng.choice([0.02, 0.1]), "seed": rng.randrange(10 ** 6), "kinds": rng.choice([["uniform"], ["uniform", "normal"], ["uniform", "integer", "permutation"]])}
    return p


def plan_front(rng):
    cls = rng.choice(FRONTS + FRONTS + CEC)
    ops = []
    for _ in range(rng.randint(4, 14)):
        ops.append(rng.choice([["tic", rng.choice([1, 1, 2, 7, 20])], ["tic", rng.choice([1, 5, 20])], ["time", rng.choice([0.0, 0.25, 0.5, 1.3, None])], ["front"], ["front"], ["ideal"],
                               ["nadir"], ["eval", rng.randrange(100)], ["eval", rng.randrange(100)], ["copy", rng.choice(["deepcopy", "pickle"])]]))
    return {"kind": "front", "name": cls, "nt": rng.choice([2, 5, 10]), "taut": rng.choice([1, 2, 20]), "tau": rng.choice([1, 1, 8]), "ops": ops}


# ------------------------------------------------------------------------------------------------
# the environment
# ------------------------------------------------------------------------------------------------

def make_df(name, nt, taut):
    from pymoo.problems import dynamic  # noqa: F401
    import pymoo.problems.dynamic.df as df
    base = getattr(df, name.upper())

    class Recorded(base):
        def _evaluate(self, x, out, *args, **kwargs):
            r, rows = P.rec(), []
            for row in x:
                if r.on_row is not None:
                    r.on_row("p", row)
                o = {}
                super()._evaluate(row[None, :], o)
                rows.append(np.asarray(o["F"], dtype=float)[0])
                r.rows.append(("p", P.key(row), tuple(float(v) for v in rows[-1]), (), ()))
            out["F"] = np.array(rows)

        def values(self, x):
            o = {}
            super()._evaluate(np.asarray(x, dtype=float)[None, :], o)
            return [float(v) for v in np.asarray(o["F"], dtype=float)[0]], [], []

        def __reduce__(self):
            return (rebuild_df, (name, nt, taut), self.__dict__)
    return Recorded(nt=nt, taut=taut)


def rebuild_df(name, nt, taut):
    return make_df(name, nt, taut)


class Env:
    """Moves the time of the problem the algorithm works on."""

    def __init__(self, plan, k):
        self.plan, self.k, self.changes = plan, k, 0

    def move(self, prob, t):
        before = prob.time
        if hasattr(prob, "tic"):
            prob.tic(max(1, int(t * 2)))
        else:
            prob.time = t
        if prob.time != before:
            self.changes += 1
            self.k.fault("environment_change")


class Sim:
    def __init__(self, plan, k):
        self.plan, self.k, self.spec = plan, k, plan["spec"]
        self.name = self.spec["algo"]
        self.viol, self.states, self.env = [], [], Env(plan, k)
        self.checked = self.seen = self.settled = self.missed = 0

    def bad(self, sig, what):
        if len(self.viol) < 3:
            self.viol.append((sig, what))

    def stale(self, alg, prob):
        out = []
        for ind in alg.pop:
            now, F = prob.values(ind.X)[0], [float(v) for v in np.ravel(ind.F)]
            if not all(same(a, b) for a, b in zip(now, F)):
                out.append((P.key(ind.X), F, now))
        return out

    def go(self):
        k, plan, spec = self.k, self.plan, self.spec
        rec = P.rec()
        pr = spec["problem"]
        prob = make_df(pr["name"], pr["nt"], pr["taut"]) if pr["kind"] == "df" else R.make_problem(spec)
        alg = REGMAKE(spec, prob)
        rows_at = {a: t for a, t in plan["rows"]}
        errors = set(plan["errors"])
        cb = None
        if plan["mode"] == "callback":
            from pymoo.problems.dyn import TimeSimulation
            cb = TimeSimulation()
        total = plan["n"] + SETTLE
        k.adversary = plan["adv"]
        alg.setup(prob, termination=("n_gen", total), seed=spec["seed"], **({"callback": cb} if cb else {}))
        count, failed = [0], [0]
        state = {"quiet": False}

        def on_row(tag, x):
            count[0] += 1
            if len(rec.rows) > 40000:
                raise L.Runaway("evaluations")
            if not state["quiet"] and count[0] in rows_at:
                self.env.move(alg.problem, rows_at[count[0]])
            if not state["quiet"] and count[0] in errors:
                k.fault("evaluation_error")
                failed[0] += 1
                raise W.EvalError("simulated")
        rec.on_row = on_row
        clean = True             # everything in the population is of the current environment unless it changed since
        it = 0
        while alg.has_next() and not self.viol:
            it += 1
            prob = alg.problem
            if it > plan["n"] and not state["quiet"]:
                state["quiet"] = True
                k.adversary = None
            old = None if alg.pop is None or not alg.is_initialized else [(P.key(i.X), [float(v) for v in np.ravel(i.F)]) for i in alg.pop]
            t0, n0, iter0 = prob.time, len(rec.rows), alg.n_iter
            tries = 0
            while True:
                n1 = len(rec.rows)
                if old is not None and not tries:
                    n0 = n1
                try:
                    alg.next()
                    break
                except W.EvalError:
                    tries += 1
                    if tries > 8:
                        raise
            mine = rec.rows[n1:]
            quiet_iter = prob.time == t0 if cb is None else True
            self.states.append(D.h(repr(D.state(alg))))
            # what happened during this (successful) iteration?
            if old is not None and cb is None:
                self.iteration(alg, prob, old, mine, rows_changed=not quiet_iter, tries=tries, it=it)
            elif old is not None and cb is not None:
                # the callback has moved the time already, the values are those of before
                self.iteration(alg, prob, old, mine, rows_changed=True, tries=tries, it=it)
            if self.viol:
                break
            st = self.stale(alg, prob) if cb is None else []
            if not plan["rows"] and cb is None and not spec["cfg"].get("eps") and pr["kind"] != "df":
                self.checked += 1
                if st and old is not None:
                    self.bad("stale", "iteration %d: %d of %d designs of the population have values of an earlier environment (%s has %s, now it is %s); it changed only between iterations" % (
                        it, len(st), len(alg.pop), st[0][0], st[0][1], st[0][2]))
            if not failed[0] and alg.evaluator.n_eval != len(rec.rows):
                self.bad("uncounted", "iteration %d: %d designs were evaluated, %d are counted" % (it, len(rec.rows), alg.evaluator.n_eval))
            if alg.opt is not None and old is not None:
                have = {(P.key(i.X), tuple(float(v) for v in np.ravel(i.F))) for i in alg.pop}
                for i in alg.opt:
                    if (P.key(i.X), tuple(float(v) for v in np.ravel(i.F))) not in have:
                        self.bad("opt", "iteration %d: the optimum contains %s with values that nothing in the population has" % (it, P.key(i.X)))
            # once it has stopped changing
            if state["quiet"]:
                if not st or spec["cfg"].get("eps") or pr["kind"] == "df" or cb is not None:
                    self.settled += 1
                    break
                if it >= total - 1:
                    self.bad("never", "%d of %d designs still have values of an earlier environment %d iterations after the last change" % (len(st), len(alg.pop), it - plan["n"]))
            else:
                for at, t in plan["changes"]:
                    if at == it:
                        self.env.move(prob, t)
                for at, how in plan["cuts"]:
                    if at == it:
                        k.fault("checkpoint_" + how)
                        alg = copy.deepcopy(alg) if how == "deepcopy" else pickle.loads(pickle.dumps(alg))
            if cb is not None:
                self.env.changes += int(alg.problem.time != t0)
                if alg.problem.time != t0:
                    k.fault("environment_change")
        rec.on_row = None

    def iteration(self, alg, prob, old, mine, rows_changed, tries, it):
        """Was the change seen by the samples? Then nothing of the population may be older than this iteration."""
        cfg = self.spec["cfg"]
        n = int(np.ceil(len(old) * cfg.get("perc_detect_change", 0.1)))
        by = {}
        for x, F in old:
            by.setdefault(x, F)
        first = mine[:n]
        if len(first) < n or any(r[1] not in by for r in first):
            return
        d = [(a - b) ** 2 for r in first for a, b in zip(r[2], by[r[1]])]
        delta = float(np.mean(d))
        eps = cfg.get("eps", 0.0)
        if not delta > eps * (1 + 1e-9):
            if any(v > 0 for v in d):
                self.missed += 1
            return
        self.seen += 1
        new = {(r[1], tuple(r[2])) for r in mine}
        for i in alg.pop:
            v = (P.key(i.X), tuple(float(f) for f in np.ravel(i.F)))
            if v not in new:
                self.bad("kept", "iteration %d: the re-evaluation of %d designs showed the change (mean squared difference %g), but %s in the population still has the values %s from before%s" % (
                    it, n, delta, v[0], list(v[1]), ", an evaluation failed on the way" if tries else ""))
                return


def REGMAKE(spec, prob):
    return R.make_algorithm(spec, prob)


def same(a, b):
    return a == b or (a != a and b != b)


# ------------------------------------------------------------------------------------------------
# test problems
# ------------------------------------------------------------------------------------------------

def front(plan, k):
    import pymoo.problems.dynamic.cec2015 as cec
    import pymoo.problems.dynamic.df as df
    cls = getattr(df, plan["name"].upper()) if plan["name"].startswith("df") else getattr(cec, plan["name"])
    viol, states, moves, looks = [], [], 0, 0
    prob = cls(nt=plan["nt"], taut=plan["taut"])
    if plan["tau"] > 1:
        prob.tic(plan["tau"] - 1)
    tau, fixed = plan["tau"], None

    def fresh():
        f = cls(nt=plan["nt"], taut=plan["taut"])
        if tau > 1:
            f.tic(tau - 1)
        if fixed is not None:
            f.time = fixed
        return f
    has_front = plan["name"].startswith("df")
    for op in plan["ops"]:
        if op[0] == "tic":
            prob.tic(op[1])
            tau += op[1]
            moves += 1
            k.fault("environment_change")
        elif op[0] == "time":
            if op[1] is None and fixed is None:
                continue
            prob.time = op[1]
            fixed = op[1]
            moves += 1
            k.fault("environment_change")
        elif op[0] == "copy":
            prob = copy.deepcopy(prob) if op[1] == "deepcopy" else pickle.loads(pickle.dumps(prob))
            k.fault("checkpoint_" + op[1])
        else:
            if op[0] == "eval":
                r = np.random.RandomState(op[1])
                X = prob.xl + (prob.xu - prob.xl) * r.random_sample((4, prob.n_var))
                a, b = prob.evaluate(X), fresh().evaluate(X)
            elif not has_front:
                continue
            else:
                call = {"front": lambda p: p.pareto_front(), "ideal": lambda p: p.ideal_point(), "nadir": lambda p: p.nadir_point()}[op[0]]
                a, b = call(prob), call(fresh())
            looks += 1
            if not np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True):
                viol.append(("front-" + op[0], "%s: %s after %s is not that of the time %s" % (plan["name"], op[0], plan["ops"][:plan["ops"].index(op)], prob.time)))
                break
        want = fixed if fixed is not None else (tau // plan["taut"]) / plan["nt"]
        if abs(prob.time - want) > 1e-12:
            viol.append(("time", "%s: time %s after %d steps with %d steps per change and severity %d, it has to be %s" % (plan["name"], prob.time, tau, plan["taut"], plan["nt"], want)))
            break
        states.append(D.h(repr((op, prob.time))))
    return viol, states, moves, looks


def run(plan):
    k = K.Kernel(1)
    exc, viol, states, extra, nontrivial = None, [], [], {}, False
    with K.running(k):
        L.ambient(k, 3)
        P.new_rec()
        name = plan["name"] if plan["kind"] == "front" else plan["spec"]["algo"]
        s = None
        try:
            with guard.cpu_limit(CPU):
                if plan["kind"] == "front":
                    viol, states, moves, looks = front(plan, k)
                    nontrivial = moves > 1 and looks > 0
                    extra = {"fronts_and_values_compared": looks}
                else:
                    s = Sim(plan, k)
                    s.go()
        except (Exception, L.Runaway, guard.Stuck) as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
        if s:
            viol, states = s.viol, s.states
            if exc and not exc.startswith("EvalError") and not viol:
                viol = [("crash", "the run does not survive the changes: " + exc)]
            nontrivial = s.env.changes > 1 and (s.checked > 0 or s.seen > 0)
            extra = {"changes_seen_by_samples": s.seen, "populations_compared": s.checked, "runs_settled": s.settled, "differences_below_eps": s.missed}
    extra["exceptions"] = int(exc is not None)
    viol = [core.V("%s:%s" % (a, name), "%s: %s" % (name, b)) for a, b in viol[:2]]
    return core.outcome(viol, D.h(repr(states), exc), dict(k.faults), states, nontrivial, k.clock.t, len(states), name, extra)


__all__ = ["random"]
