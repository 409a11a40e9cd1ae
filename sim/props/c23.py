"""C23: individuals, populations and the evaluator against a reference model, under random histories of operations."""
import copy
import pickle

import numpy as np

from pymoo.core.evaluator import Evaluator
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from sim import core, drive as D, guard, kernel as K, legs as L

COUNT = {"quick": 4000, "thorough": 120000}
RULE = "a scenario counts when at least five operations were applied and every individual was compared with the reference model"
REAL = ["Individual, Population, Evaluator, problem evaluation", "deepcopy, pickle, dill, cloudpickle of individuals and populations"]
STUB = ["objective functions", "the caller (random operations)"]
STATE_MEASURE = "digest of all individuals in the model after each operation"
CPU = 100


class UserError(Exception):
    pass


class Prob(Problem):
    """Values are functions of the design; evaluation fails when told to."""

    def __init__(self, m):
        self.m = m
        self.calls = []
        self.fail = None
        super().__init__(n_var=3, n_obj=m["F"], n_ieq_constr=m["G"], n_eq_constr=m["H"], xl=-10, xu=10, elementwise=m["elementwise"])

    def one(self, x):
        s = [float(v) for v in x]
        return {"F": [sum(s) + j * s[0] for j in range(self.m["F"])], "G": [s[1] - 0.5 * j for j in range(self.m["G"])],
                "H": [s[2] * (j + 1) for j in range(self.m["H"])]}

    def _evaluate(self, x, out, *args, **kwargs):
        rows = [x] if self.elementwise else list(x)
        res = []
        for r in rows:
            if self.fail is not None:
                self.fail -= 1
                if self.fail < 0:
                    self.fail = None
                    raise UserError("planned")
            self.calls.append(tuple(float(v) for v in r))
            res.append(self.one(r))
        for k in ("F", "G", "H"):
            if self.m[k] or k == "F":
                v = [e[k] for e in res]
                out[k] = np.array(v[0] if self.elementwise else v)
        if self.m["extra"]:
            out["who"] = sum(float(v) for v in rows[0]) if self.elementwise else np.array([sum(float(v) for v in r) for r in rows])


OPS = ["new", "new", "setF", "setG", "setH", "setX", "setTag", "setCV", "get", "read", "slice", "mask", "merge", "merge", "create", "deepcopy", "codec", "indcopy",
       "reset", "eval", "eval", "eval", "assign", "default", "scalar", "drop", "check", "single", "resetall", "initkw",
       "setArr", "setArr", "inplace", "inplace", "dup", "byDict", "setdF", "indcopy", "codec"]
CFGS = [{"cache": False}, {"cv_eps": 0.75}, {"cv_ieq": {"scale": 4.0, "pow": 2, "eps": 0.25}}, {"cv_ieq": {"scale": 1e-3}, "cv_eq": {"eps": 0.5}},
        {"cv_eq": {"scale": 0.5, "pow": 0.5}, "cv_eps": 0.3}, {"cv_ieq": {"func": "max"}, "cv_eq": {"func": "mean", "eps": 0.0}}]
FUNCS = {"max": np.max, "mean": np.mean, "sum": np.sum}


def plan(rng, i, tier):
    m = {"F": rng.randint(1, 3), "G": rng.choice([0, 1, 2]), "H": rng.choice([0, 0, 1, 2]), "elementwise": rng.random() < 0.5, "extra": rng.random() < 0.4}
    ops = [{"op": "new", "n": rng.randint(1, 5), "s": rng.randrange(10 ** 6)}]
    for _ in range(rng.randint(4, 25 if tier == "quick" else 60)):
        ops.append({"op": rng.choice(OPS), "a": rng.randrange(100), "b": rng.randrange(100), "n": rng.randint(1, 5), "s": rng.randrange(10 ** 6),
                    "look": rng.random() < 0.5, "fail": rng.randrange(4) if rng.random() < 0.3 else None})
    return {"m": m, "ops": ops, "cfg": rng.choice([None, None, None] + CFGS)}


def shrinks(plan):
    for j in range(1, len(plan["ops"])):
        q = dict(plan, ops=plan["ops"][:j] + plan["ops"][j + 1:])
        yield q
    if plan["cfg"]:
        yield dict(plan, cfg=None)


class M:
    """What an individual is to hold."""

    def __init__(self):
        self.v = {"X": (), "F": (), "G": (), "H": ()}
        self.cv = None            # explicitly set
        self.tags = {}
        self.evaluated = set()
        self.eps = 0.0
        self.cfg = {}
        self.arrs = {}            # key -> nested lists of numbers
        self.dF = ()

    def clone(self):
        o = M()
        o.cfg, o.arrs, o.dF = self.cfg, copy.deepcopy(self.arrs), self.dF
        o.v, o.cv, o.tags, o.evaluated, o.eps = dict(self.v), self.cv, dict(self.tags), set(self.evaluated), self.eps
        return o

    def violation(self):
        if self.cv is not None:
            return self.cv
        return part(self.v["G"], 0.0, self.cfg.get("cv_ieq")) + part([abs(h) for h in self.v["H"]], 1e-4, self.cfg.get("cv_eq"))


def part(values, eps, c):
    c = c or {}
    v = [max(0.0, e - c.get("eps", eps)) for e in values]
    v = [(e / c.get("scale", 1.0)) ** c.get("pow", 1) for e in v]
    if not v:
        return 0.0
    return {"max": max(v), "mean": sum(v) / len(v), "sum": sum(v)}[c.get("func", "sum")]


def tup(v):
    return tuple(float(e) for e in np.ravel(np.asarray(v, dtype=float)))


def json_of(v):
    if isinstance(v, np.ndarray):
        return [json_of(e) for e in v]
    if isinstance(v, (list, tuple)):
        return [json_of(e) for e in v]
    if isinstance(v, dict):
        return {k: json_of(e) for k, e in v.items()}
    return float(v)


class World:
    def __init__(self, plan, k):
        self.plan, self.k = plan, k
        self.prob = Prob(plan["m"])
        self.ev = Evaluator()
        self.n_eval = 0
        self.pops = []            # (population, [models])
        self.bad = None
        self.n = 0

    def config(self):
        c = Individual.default_config()
        if self.plan["cfg"]:
            for key, v in self.plan["cfg"].items():
                if isinstance(v, dict):
                    c[key].update({a: FUNCS.get(b, b) for a, b in v.items()})
                else:
                    c[key] = v
        return c

    def eps(self):
        return (self.plan["cfg"] or {}).get("cv_eps", 0.0)

    def fresh(self, n):
        p = Population.empty(n)
        ms = []
        for ind in p:
            if self.plan["cfg"]:
                ind.config = self.config()
            m = M()
            m.eps, m.cfg = self.eps(), self.plan["cfg"] or {}
            ms.append(m)
        return p, ms

    def vals(self, op, key, n):
        r = np.random.default_rng(op["s"])
        w = {"X": 3, "F": self.plan["m"]["F"], "G": self.plan["m"]["G"], "H": self.plan["m"]["H"]}[key]
        return np.round(r.normal(size=(n, w)) * 2, 3)

    def compare(self, op, ind, m, where):
        for key in ("X", "F", "G", "H"):
            got = tup(ind.get(key))
            if got != m.v[key]:
                return "values", "%s: %s is %s, it was given %s" % (where, key, got, m.v[key])
        want = m.violation()
        cv = tup(ind.CV)
        if len(cv) != 1 or abs(cv[0] - want) > 1e-12 * max(1.0, abs(want)):
            return "violation", "%s: the constraint violation is %s, its constraint values G=%s H=%s give %s" % (where, cv, m.v["G"], m.v["H"], want)
        if abs(want - m.eps) > 1e-9 and (bool(np.ravel(ind.FEAS)[0]) != (want <= m.eps) or bool(ind.feas) != (want <= m.eps)):
            return "feasible", "%s: feasible is %s with a violation of %s" % (where, ind.FEAS, want)
        for t, v in m.tags.items():
            if ind.get(t) != v or not ind.has(t):
                return "data", "%s: %s is %s, it was given %s" % (where, t, ind.get(t), v)
        for t, v in m.arrs.items():
            got = ind.get(t)
            if got is None or json_of(got) != v:
                return "data", "%s: %s is %s, it was given %s" % (where, t, got, v)
        if "arr" not in m.arrs and ind.get("arr") is not None:
            return "data", "%s: carries a value that it was not given (arr=%s)" % (where, ind.get("arr"))
        if tup(ind.dF) != m.dF:
            return "derivatives", "%s: dF is %s, it was given %s" % (where, tup(ind.dF), m.dF)
        if not m.tags and ind.get("tag") is not None:
            return "data", "%s: carries a value that it was not given (tag=%s)" % (where, ind.get("tag"))
        if {e for e in ind.evaluated if e in ("F", "G", "H")} != m.evaluated:
            return "evaluated", "%s: %s count as evaluated, it is %s" % (where, sorted(ind.evaluated), sorted(m.evaluated))
        return None

    def check(self, op, j):
        for pi, (p, ms) in enumerate(self.pops):
            if len(p) != len(ms):
                return "size", "after %s population %d has %d individuals instead of %d" % (op["op"], pi, len(p), len(ms))
            for i, m in enumerate(ms):
                if not isinstance(p[i], Individual):
                    return "type", "after %s population %d holds a %s" % (op["op"], pi, type(p[i]))
                e = self.compare(op, p[i], m, "after operation %d (%s), individual %d of population %d" % (j, op["op"], i, pi))
                if e:
                    return e
            if len(ms) and all(len(m.v["F"]) == len(ms[0].v["F"]) for m in ms):
                F = p.get("F")
                if [tup(f) for f in F] != [m.v["F"] for m in ms]:
                    return "get", "after %s the objective values of population %d are not those of its individuals" % (op["op"], pi)
        if self.ev.n_eval != self.n_eval:
            return "counter", "after %s the evaluator counts %d evaluations, it made %d" % (op["op"], self.ev.n_eval, self.n_eval)
        return None

    def pick(self, x):
        return self.pops[x % len(self.pops)]

    def add(self, p, ms):
        self.pops.append((p, ms))
        if len(self.pops) > 6:
            del self.pops[0]

    def step(self, op):
        o = op["op"]
        if o in ("new", "default"):
            X = self.vals(op, "X", op["n"])
            src = X.copy()
            if o == "new" and not self.plan["cfg"]:
                p = Population.new("X", src) if op.get("look") else Population.new(X=src)
                ms = [M() for _ in range(op["n"])]
            else:
                p, ms = self.fresh(op["n"])
                p.set("X", src)
            src[:] = 77.0                      # the caller goes on using its array
            for m, x in zip(ms, X):
                m.v["X"] = tup(x)
            return self.add(p, ms)
        if o == "initkw":
            X, F = self.vals(op, "X", 1)[0], self.vals(op, "F", 1)[0]
            ind = Individual(X=X.copy(), F=F.copy(), tag=op["s"], **({"config": self.config()} if self.plan["cfg"] else {}))
            m = M()
            m.v["X"], m.v["F"], m.tags["tag"], m.eps = tup(X), tup(F), op["s"], self.eps()
            m.cfg = self.plan["cfg"] or {}
            return self.add(Population.create(ind), [m])
        p, ms = self.pick(op["a"])
        if o in ("setF", "setG", "setH", "setX"):
            key = o[3:]
            v = self.vals(op, key, len(ms))
            src = v.copy()
            p.set(key, src)
            src[:] = 55.0
            for m, e in zip(ms, v):
                m.v[key] = tup(e)
                if key in "GH":
                    m.cv = None
        elif o == "setTag":
            vs = [op["s"] + i for i in range(len(ms))]
            p.set("tag", vs)
            for m, v in zip(ms, vs):
                m.tags["tag"] = v
        elif o == "scalar":
            p.set("common", op["s"])
            for m in ms:
                m.tags["common"] = op["s"]
        elif o == "setArr":
            # data that can be changed in place: arrays (rows of one array) and nested containers
            v = self.vals(op, "X", len(ms))
            src = v.copy()
            p.set("arr", src)
            src[:] = 33.0
            for i, m in enumerate(ms):
                p[i].set("box", {"a": [float(i)], "b": v[i].copy()})
                m.arrs["arr"], m.arrs["box"] = json_of(v[i]), {"a": [float(i)], "b": json_of(v[i])}
        elif o == "inplace":
            if len(ms):
                i = op["b"] % len(ms)
                ind, m = p[i], ms[i]
                which = op["n"] % 4
                if which == 0 and len(m.v["X"]):
                    ind.X[0] = 7.0 + op["s"] % 5
                    m.v["X"] = (7.0 + op["s"] % 5,) + m.v["X"][1:]
                elif which == 1 and len(m.v["F"]):
                    ind.F[-1] = float(op["s"] % 5)
                    m.v["F"] = m.v["F"][:-1] + (float(op["s"] % 5),)
                elif which == 2 and "arr" in m.arrs:
                    ind.get("arr")[0] = 3.5
                    m.arrs["arr"][0] = 3.5
                elif which == 3 and "box" in m.arrs:
                    box = ind.get("box")
                    box["a"].append(1.0)
                    box["b"][1] = -4.0
                    m.arrs["box"]["a"].append(1.0)
                    m.arrs["box"]["b"][1] = -4.0
        elif o == "dup":
            if len(ms):
                i = op["b"] % len(ms)
                p[i].duplicate("X", "old")
                ms[i].tags.pop("old", None)
                ms[i].arrs["old"] = json_of(p[i].X)
                p[i].X = p[i].X.copy()         # the two share an array until then
        elif o == "byDict":
            if len(ms):
                i = op["b"] % len(ms)
                F = self.vals(op, "F", 1)[0]
                p[i].set_by_dict(F=F.copy(), tag=op["s"], lam=1.0)
                ms[i].v["F"], ms[i].tags["tag"], ms[i].tags["lam"] = tup(F), op["s"], 1.0
        elif o == "setdF":
            v = self.vals(op, "F", len(ms))
            p.set("dF", v.copy())
            for m, e in zip(ms, v):
                m.dF = tup(e)
        elif o == "setCV":
            for i, m in enumerate(ms):
                c = float((op["s"] + i) % 3)
                p[i].CV = np.array([c])
                if (self.plan["cfg"] or {}).get("cache", True):
                    m.cv = c
        elif o == "get":
            if len({(len(m.v["X"]), len(m.v["F"])) for m in ms}) > 1:
                return                          # not all of them have values
            X, F = p.get("X", "F")
            for a in (X, F):
                if a.dtype != object and a.size:
                    a[:] = -99.0
            if len(ms):
                p.get("X", to_numpy=False)
        elif o == "read":
            for i in range(len(ms)):
                if op["look"] or i % 2:
                    p[i].get("CV", "FEAS", "F")
        elif o == "slice":
            r = np.random.default_rng(op["s"])
            idx = r.permutation(len(ms))[: 1 + op["b"] % max(1, len(ms))] if len(ms) else np.array([], dtype=int)
            q = p[idx] if op["look"] else p[: op["n"]]
            if not op["look"]:
                idx = range(min(op["n"], len(ms)))
            self.add(q, [ms[i] for i in idx])
        elif o == "mask":
            mask = np.random.default_rng(op["s"]).random(len(ms)) < 0.6
            self.add(p[mask], [m for m, t in zip(ms, mask) if t])
        elif o == "merge":
            q, ns = self.pick(op["b"])
            if op["look"]:
                self.add(Population.merge(p, q), ms + ns)
            elif op["n"] == 1 and len(ns):
                self.add(Population.merge(p, q[0]), ms + ns[:1])
            elif op["n"] == 2:
                self.add(Population.merge(None, q) if ns else Population.merge(p, None), ns if ns else ms)
            elif op["n"] == 3 and not self.plan["cfg"]:
                X = self.vals(op, "X", 2)
                es = [M(), M()]
                for e, x in zip(es, X):
                    e.v["X"] = tup(x)
                self.add(Population.merge(p, X.copy()), ms + es)
            else:
                self.add(Population.merge(p, q, p), ms + ns + ms)
        elif o in ("create", "single"):
            if len(ms):
                i = op["b"] % len(ms)
                self.add(Population.create(p[i]) if o == "create" else Population(p[i]), [ms[i]])
        elif o == "deepcopy":
            memo = {}
            self.add(copy.deepcopy(p), [memo.setdefault(id(m), m.clone()) for m in ms])
        elif o == "codec":
            import cloudpickle
            import dill
            c = [pickle, dill, cloudpickle][op["n"] % 3]
            memo = {}
            self.add(c.loads(c.dumps(p)), [memo.setdefault(id(m), m.clone()) for m in ms])
        elif o == "indcopy":
            if len(ms):
                i = op["b"] % len(ms)
                if op["look"]:
                    self.add(Population.create(p[i].copy()), [ms[i].clone()])
                else:
                    e = p[i].new()
                    m = ms[i].clone()
                    self.add(Population.create(e.copy(other=p[i])), [m])
        elif o == "reset":
            if len(ms):
                i = op["b"] % len(ms)
                p[i].reset(data=op["look"])
                m = ms[i]
                m.v, m.cv, m.evaluated, m.dF = {"X": (), "F": (), "G": (), "H": ()}, None, set(), ()
                if op["look"]:
                    m.tags, m.arrs = {}, {}
                self.again(p, ms, i, op)
        elif o == "resetall":
            if op["look"] or op["n"] > 2:
                return
            p.apply(lambda ind: ind.reset())
            for m in ms:
                m.v, m.cv, m.evaluated, m.tags, m.arrs, m.dF = {"X": (), "F": (), "G": (), "H": ()}, None, set(), {}, {}, ()
            for i in range(len(ms)):
                self.again(p, ms, i, dict(op, s=op["s"] + i))
        elif o == "assign":
            q, ns = self.pick(op["b"])
            if len(ms) and len(ns):
                i, j = op["n"] % len(ms), op["s"] % len(ns)
                for x, y in self.pops:         # populations may share the memory of their places (views)
                    if y is not ms and (x is p or np.shares_memory(x, p)):
                        return
                p[i] = q[j]
                ms[i] = ns[j]
        elif o == "eval":
            self.evaluate(op, p, ms)
        elif o == "drop":
            if len(self.pops) > 1:
                del self.pops[op["a"] % len(self.pops)]

    def again(self, p, ms, i, op):
        x = self.vals(op, "X", 1)[0]
        p[i].X = x.copy()
        ms[i].v["X"] = tup(x)

    def evaluate(self, op, p, ms):
        want = [None, None, ["F"], ["F", "G"], ["F", "G", "H"]][op["b"] % 5]
        skip = [None, True, False][op["s"] % 3]
        count = op["s"] % 7 != 0
        keys = want or ["F", "G", "H"]
        todo = [i for i, m in enumerate(ms) if skip is False or not set(keys) <= m.evaluated]
        rows = [ms[i].v["X"] for i in todo]
        kw = {}
        if want:
            kw["evaluate_values_of"] = want
        if skip is not None:
            kw["skip_already_evaluated"] = skip
        if not count:
            kw["count_evals"] = False
        # one individual handed over on its own, a population otherwise
        arg = p[0] if len(ms) == 1 and op["look"] else p
        for attempt in range(2):
            self.prob.calls = []
            self.prob.fail = op["fail"] if attempt == 0 else None
            try:
                got = self.ev.eval(self.prob, arg, **kw)
                if got is not arg and not (arg is not p and got is p[0]):
                    self.bad = ("returned", "the evaluator returns something else than it was handed")
            except UserError:
                self.k.fault("evaluation_error")
                e = self.check(op, -1)
                if e:
                    self.bad = ("failed-" + e[0], "after a failed evaluation: " + e[1])
                    return
                continue
            break
        self.prob.fail = None
        if self.prob.calls != rows:
            self.bad = ("evaluated-wrong", "evaluated were %s, to be evaluated (values %s, skip %s) were %s" % (self.prob.calls, keys, skip, rows))
        for i in todo:
            m = ms[i]
            r = self.prob.one(m.v["X"])
            for key in ("F", "G", "H"):
                if key == "F" or self.plan["m"][key] or key in keys:
                    m.v[key] = tuple(float(e) for e in r[key])
                    m.evaluated.add(key)
                    if key in "GH":
                        m.cv = None
            if self.plan["m"]["extra"]:
                m.tags["who"] = sum(m.v["X"])
        if count:
            self.n_eval += len(todo)


def run(plan):
    k = K.Kernel(1)
    viol, T = [], []
    with K.running(k), guard.cpu_limit(CPU):
        L.ambient(k, 11)
        w = World(plan, k)
        for j, op in enumerate(plan["ops"]):
            try:
                w.step(op)
                e = w.bad
                if not e and (op["look"] if "look" in op else True):
                    e = w.check(op, j)
            except Exception as x:
                e = ("crash", "operation %d (%s): %s at %s: %s" % (j, op["op"], type(x).__name__, L.exc_where(x), str(x)[:160]))
            T.append(D.h(repr([[m.v for m in ms] for _, ms in w.pops])))
            if e:
                viol.append(core.V("%s:%s" % (e[0], op["op"]), e[1]))
                break
            w.n += 1
        else:
            e = w.check({"op": "the end"}, len(plan["ops"]))
            if e:
                viol.append(core.V("%s:end" % e[0], e[1]))
    return core.outcome(viol, D.h(repr(T)), dict(k.faults), T, w.n >= 5, k.clock.t, len(T), "%s" % [o["op"] for o in plan["ops"]][:12], {"operations": len(T)})
