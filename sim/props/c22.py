"""C22: a derived problem computes what its derivation says, whoever uses it, in whatever order, after whatever failed."""
import contextlib
import random

import numpy as np

import pymoo.gradient.toolbox as anp
from pymoo.core.problem import Problem
from sim import core, drive as D, guard, kernel as K, legs as L, threads

COUNT = {"quick": 700, "thorough": 12000}
RULE = "a scenario counts when at least two batches of a derived problem were evaluated and compared with the definition"
REAL = ["every problem wrapper: automatic differentiation (both backends, batch and elementwise), complex step, constraints as "
        "objective / penalty / from bounds, unit box, decomposition, static", "the toolbox of gradient backends",
        "problem evaluation, evaluator and the algorithms run on derived problems"]
STUB = ["objective functions (with known derivatives)", "thread scheduling", "worker pool of elementwise evaluations", "clock"]
STATE_MEASURE = "digest of the values reported per step and of the interleaving of the clients"
PLAIN = ["plain", "obj+", "obj", "pen", "bounds", "bounds-", "z2o", "m2s"]
GRAD = ["ad", "ad", "ad", "ead", "ead", "ead", "cplx"]
CPU = 120


class UserError(Exception):
    pass


# ---------------------------------------------------------------------------------------------- the functions
class Fn:
    """A column: a sum of elementary terms, with its derivative written down by hand."""

    def __init__(self, r, n, const):
        self.const = r.choice([0.0, 2.5, -1.0]) if const else None
        self.terms = []
        for _ in range(r.randint(1, 3)):
            self.terms.append((r.choice(["pow", "sin", "exp", "prod", "sqrt", "log"]), r.uniform(-2, 2), r.randrange(n), r.randrange(n),
                               r.choice([1, 2, 3]), r.uniform(0.3, 2.0)))
        self.off = r.choice([0.0, 0.0, -0.4, 3.0])

    def val(self, c, lib):
        """c: the columns; lib: the functions to be used."""
        if self.const is not None:
            return self.const
        s = self.off
        for kind, a, i, j, p, w in self.terms:
            x, y = c[i], c[j]
            s = s + a * (x ** p if kind == "pow" else lib.sin(w * x) if kind == "sin" else lib.exp(w * 0.3 * x) if kind == "exp" else
                         x * y if kind == "prod" else lib.sqrt(1.0 + x * x) if kind == "sqrt" else lib.log(2.0 + x * x))
        return s

    def grad(self, c, n):
        g = [np.zeros_like(c[0]) for _ in range(n)]
        if self.const is not None:
            return g
        for kind, a, i, j, p, w in self.terms:
            x, y = c[i], c[j]
            if kind == "prod":
                g[i] = g[i] + a * y
                g[j] = g[j] + a * x
            else:
                d = (p * x ** (p - 1) if kind == "pow" else w * np.cos(w * x) if kind == "sin" else w * 0.3 * np.exp(w * 0.3 * x)
                     if kind == "exp" else x / np.sqrt(1.0 + x * x) if kind == "sqrt" else 2 * x / (2.0 + x * x))
                g[i] = g[i] + a * d
        return g


class Spec:
    def __init__(self, d):
        r = random.Random("c22-%s" % d["fseed"])
        n = self.n = d["n_var"]
        self.d = d
        self.cols = {k: [Fn(r, n, r.random() < 0.12) for _ in range(d[k])] for k in ("F", "G", "H")}
        # a whole output that does not depend on the variables
        if d.get("const") in ("G", "H"):
            for f in self.cols[d["const"]]:
                f.const = 0.25
        lo = [r.choice([0.0, -3.0, -1.0]) for _ in range(n)]
        self.xl, self.xu = np.array(lo), np.array([a + r.choice([1.0, 2.0, 4.5]) for a in lo])

    def ref(self, X):
        c = [X[:, i] for i in range(self.n)]
        out = {}
        for k, fs in self.cols.items():
            if fs:
                out[k] = np.stack([np.broadcast_to(f.val(c, np), (len(X),)) for f in fs], axis=1).astype(float)
                out["d" + k] = np.stack([np.stack(f.grad(c, self.n), axis=1) for f in fs], axis=1)
        return out


class FAIL:
    """Which evaluation of the step under way fails (per client)."""
    left = {}


WHO = {}


def me():
    import threading
    return WHO.get(threading.get_ident(), 0)


class Smooth(Problem):
    def __init__(self, d, spec):
        self.spec, self.d = spec, d
        super().__init__(n_var=spec.n, n_obj=d["F"], n_ieq_constr=d["G"], n_eq_constr=d["H"], xl=spec.xl.copy(), xu=spec.xu.copy(),
                         elementwise=d["elementwise"])

    def _evaluate(self, x, out, *args, **kwargs):
        w = me()
        left = FAIL.left.get(w)
        if left is not None:
            FAIL.left[w] = left - 1
            if left == 0:
                FAIL.left[w] = None
                if self.d["late"]:
                    out["F"] = anp.sin(x)
                raise UserError("planned")
        sp = self.spec
        c = [x[..., i] for i in range(sp.n)]
        for k, fs in sp.cols.items():
            if not fs:
                continue
            v = [f.val(c, anp) for f in fs]
            if self.elementwise:
                if len(v) == 1 and self.d["style"] == "scalar":
                    out[k] = v[0]
                else:
                    out[k] = list(v) if self.d["style"] == "list" else anp.array(v)
            elif all(f.const is not None for f in fs):
                out[k] = np.array([[f.const for f in fs]] * len(x))
            else:
                v = [e if f.const is None else f.const + 0.0 * c[0] for e, f in zip(v, fs)]
                if self.d["style"] == "inplace" and not self.d["diff"]:
                    a = anp.zeros((len(x), len(v)))
                    for j, e in enumerate(v):
                        a[:, j] = e
                    out[k] = a
                else:
                    out[k] = anp.stack(v, axis=1)


# ---------------------------------------------------------------------------------------------- wrappers and their definitions
def cv_of(r, n):
    cv = np.zeros(n)
    if "G" in r:
        cv = cv + np.maximum(0.0, r["G"]).sum(axis=1)
    if "H" in r:
        cv = cv + np.maximum(0.0, np.abs(r["H"]) - 1e-4).sum(axis=1)
    return cv


def wrap(prob, w, par):
    if w == "plain":
        return prob
    if w in ("ad", "ead", "cplx"):
        from pymoo.gradient.automatic import AutomaticDifferentiation, ElementwiseAutomaticDifferentiation
        from pymoo.gradient.grad_complex import ComplexNumberGradient
        if w == "cplx":
            return ComplexNumberGradient(prob)
        return (AutomaticDifferentiation if w == "ad" else ElementwiseAutomaticDifferentiation)(prob, backend=par["backend"])
    from pymoo.constraints.as_obj import ConstraintsAsObjective
    from pymoo.constraints.as_penalty import ConstraintsAsPenalty
    from pymoo.constraints.from_bounds import ConstraintsFromBounds
    from pymoo.problems.multi_to_single import MultiToSingleObjective
    from pymoo.problems.zero_to_one import ZeroToOne
    if w in ("obj", "obj+"):
        return ConstraintsAsObjective(prob, append=w == "obj+")
    if w == "pen":
        return ConstraintsAsPenalty(prob, penalty=par["penalty"])
    if w in ("bounds", "bounds-"):
        return ConstraintsFromBounds(prob, remove_bonds=w == "bounds-")
    if w == "z2o":
        return ZeroToOne(prob)
    if w == "m2s":
        from pymoo.decomposition.asf import ASF
        from pymoo.decomposition.tchebicheff import Tchebicheff
        from pymoo.decomposition.weighted_sum import WeightedSum
        dec = {"asf": ASF, "tch": Tchebicheff, "ws": WeightedSum}[par["dec"]]()
        return MultiToSingleObjective(prob, dec, kwargs={"weights": np.array(par["weights"][:prob.n_obj])})
    raise KeyError(w)


def define(ref, w, par, xl, xu):
    """The wrapper's definition: from (X -> values) with bounds to the same of the derived problem."""
    n = len(xl)
    if w in ("plain", "ad", "ead", "cplx"):
        return ref, xl, xu
    if w in ("obj", "obj+"):
        def f(X):
            r = ref(X)
            cv = cv_of(r, len(X))[:, None]
            return {"F": np.concatenate([cv, r["F"]], axis=1) if w == "obj+" else cv}
        return f, xl, xu
    if w == "pen":
        return (lambda X: (lambda r: {"F": r["F"] + par["penalty"] * cv_of(r, len(X))[:, None]})(ref(X))), xl, xu
    if w in ("bounds", "bounds-"):
        def f(X):
            r = dict(ref(X))
            g = np.concatenate([xl - X, X - xu], axis=1)
            dg = np.tile(np.concatenate([-np.eye(n), np.eye(n)]), (len(X), 1, 1))
            if "G" in r:
                g = np.concatenate([r["G"], g], axis=1)
                if "dG" in r:
                    dg = np.concatenate([r["dG"], dg], axis=1)
                r["dG"] = dg
            r["G"] = g
            return r
        return f, xl, xu
    if w == "z2o":
        return (lambda X: {k: v for k, v in ref(xl + X * (xu - xl)).items() if not k.startswith("d")}), np.zeros(n), np.ones(n)
    if w == "m2s":
        def f(X):
            r = {k: v for k, v in ref(X).items() if not k.startswith("d")}
            W = np.array(par["weights"][:r["F"].shape[1]])
            F = r["F"]
            r["F"] = {"asf": (F / W).max(axis=1), "tch": (np.abs(F) * W).max(axis=1), "ws": (F * W).sum(axis=1)}[par["dec"]][:, None]
            return r
        return f, xl, xu
    raise KeyError(w)


# ---------------------------------------------------------------------------------------------- plans
def gen_problem(rng, jax):
    q = rng.random()
    d = {"fseed": rng.randrange(10 ** 6), "n_var": rng.randint(1, 4), "F": rng.randint(1, 3), "G": rng.choice([0, 0, 1, 2]),
         "H": rng.choice([0, 0, 1]), "late": rng.random() < 0.5, "style": rng.choice(["array", "list", "scalar", "inplace"]),
         "elementwise": False, "diff": False, "const": rng.choice([None] * 5 + ["G", "H"])}
    par = {"backend": "jax" if jax and rng.random() < 0.7 else "autograd", "penalty": rng.choice([0.1, 2.0, 100.0]),
           "dec": rng.choice(["asf", "tch", "ws"]), "weights": [rng.uniform(0.1, 1.0) for _ in range(5)]}
    if q < 0.5:
        w = rng.choice(GRAD)
        d["diff"] = True
        d["elementwise"] = w == "ead" or (w == "cplx" and rng.random() < 0.3)
        chain = [w]
        if rng.random() < 0.25 and d["G"]:
            chain.append(rng.choice(["bounds", "bounds-"]))
    else:
        d["elementwise"] = rng.random() < 0.4
        chain = [rng.choice(PLAIN)]
        if rng.random() < 0.4 and chain[0] != "bounds-":
            nxt = rng.choice([x for x in PLAIN[1:] if x != "bounds-" and x[:3] != chain[0][:3]])
            chain.append(nxt)
        if "m2s" in chain and d["F"] < 2:
            d["F"] = 2
        if "m2s" in chain and "obj" in chain and chain.index("obj") < chain.index("m2s"):
            chain = ["m2s"]
    return {"d": d, "chain": chain, "par": par, "workers": d["elementwise"] and rng.random() < 0.4}


def plan(rng, i, tier):
    mode = rng.choice(["seq", "seq", "threads", "threads", "pool"])
    jax = mode == "seq" and rng.random() < 0.12
    probs = [gen_problem(rng, jax) for _ in range(rng.randint(1, 3))]
    for p in probs:
        p["workers"] = p["workers"] and mode == "pool"
    if mode == "pool" and not any(p["workers"] for p in probs):
        p = probs[0]
        p["chain"], p["d"]["elementwise"], p["d"]["diff"], p["workers"] = ["ead"], True, True, True
        if p["d"]["style"] == "inplace":
            p["d"]["style"] = "list"
    n_cl = 1 if mode == "pool" else rng.randint(1, 3)
    clients = []
    for _ in range(n_cl):
        ops = []
        for _ in range(rng.randint(2, 5)):
            j = rng.randrange(len(probs))
            op = {"p": j, "seed": rng.randrange(10 ** 6), "n": rng.choice([1, 1, 2, 3, 7]), "op": "eval", "one": rng.random() < 0.15,
                  "ask": rng.choice(["default", "default", "all", "F"])}
            if rng.random() < 0.3:
                op["fail"] = rng.randrange(3)
            if rng.random() < 0.15 and "bounds-" not in probs[j]["chain"]:
                op["op"] = "run"
            elif rng.random() < 0.15:
                op["op"] = "inner"
            ops.append(op)
        clients.append(ops)
    return {"mode": mode, "probs": probs, "clients": clients, "sched": rng.randrange(10 ** 6), "p": rng.choice([0.01, 0.05, 0.2]),
            "grain": "line" if rng.random() < 0.2 else "call"}


def shrinks(plan):
    import copy
    for c in range(len(plan["clients"])):
        if len(plan["clients"]) > 1:
            q = copy.deepcopy(plan)
            del q["clients"][c]
            yield q
        for o in range(len(plan["clients"][c])):
            if sum(map(len, plan["clients"])) > 1:
                q = copy.deepcopy(plan)
                del q["clients"][c][o]
                yield q
            if plan["clients"][c][o].get("fail") is not None:
                q = copy.deepcopy(plan)
                del q["clients"][c][o]["fail"]
                yield q
            if plan["clients"][c][o]["n"] > 1:
                q = copy.deepcopy(plan)
                q["clients"][c][o]["n"] = 1
                yield q


# ---------------------------------------------------------------------------------------------- runs
class Case:
    def __init__(self, p, world):
        self.p = p
        self.spec = Spec(p["d"])
        self.inner = Smooth(p["d"], self.spec)
        prob, ref, xl, xu = self.inner, self.spec.ref, self.spec.xl, self.spec.xu
        for w in p["chain"]:
            prob = wrap(prob, w, p["par"])
            ref, xl, xu = define(ref, w, p["par"], xl, xu)
        self.prob, self.ref, self.xl, self.xu = prob, ref, xl, xu
        self.grads = p["chain"][0] in ("ad", "ead", "cplx")
        if p["workers"]:
            from pymoo.parallelization import StarmapParallelization
            (prob if p["chain"][0] == "ead" else self.inner).elementwise_runner = StarmapParallelization(world.starmap)
        self.name = "+".join(p["chain"]) + (":" + p["par"]["backend"] if p["chain"][0] in ("ad", "ead") else "")

    def check(self, X, out, what, keys=None):
        r = self.ref(X)
        for k, want in r.items():
            if k.startswith("d") and not self.grads:
                continue
            if keys is not None and k not in keys:
                continue
            got = out.get(k)
            if got is None:
                return "missing", "%s: %s is not reported" % (what, k)
            got = np.asarray(got)
            if got.shape != want.shape:
                return "shape", "%s: %s is reported in shape %s, it has shape %s" % (what, k, got.shape, want.shape)
            tol = 1e-6 if k.startswith("d") else 1e-9
            if not np.allclose(np.asarray(got, dtype=float), want, rtol=tol, atol=tol, equal_nan=True):
                return "gradient" if k.startswith("d") else "value", "%s: %s=%s, by definition it is %s" % (
                    what, k, np.array2string(got, threshold=12), np.array2string(want, threshold=12))
        return None


class World:
    def __init__(self, plan, k):
        self.plan, self.k = plan, k
        self.T, self.viol, self.n = [], [], 0
        self.pools = 0
        self.switches = 0
        self.cases = [Case(p, self) for p in plan["probs"]]

    def starmap(self, f, args):
        """A pool of threads, one per design, under the seeded scheduler."""
        args = [a for a in args]
        out = [None] * len(args)
        who = me()

        def job(i):
            def go():
                import threading
                WHO[threading.get_ident()] = who
                out[i] = f(*args[i])
            return go
        self.pools += 1
        if len(args) == 1:
            job(0)()
        else:
            s = threads.Scheduler("%s-%s" % (self.plan["sched"], self.pools), self.plan["p"], "/pymoo/", self.plan["grain"])
            for e in s.run([job(i) for i in range(len(args))]):
                if e is not None:
                    raise e
            self.switches += s.switches
        return out

    def bad(self, case, kind, what):
        self.viol.append(core.V("%s:%s" % (kind, case.name), "%s: %s" % (case.name, what)))

    def step(self, c, op):
        case = self.cases[op["p"]]
        what = "batch of %d" % op["n"]
        r = np.random.default_rng(op["seed"])
        X = case.xl + r.random((op["n"], len(case.xl))) * (case.xu - case.xl)
        for attempt in range(2):
            FAIL.left[c] = op.get("fail") if attempt == 0 else None
            try:
                if op["op"] == "run":
                    self.algo(case, op)
                elif op["op"] == "inner":
                    Xi = case.spec.xl + r.random((op["n"], case.spec.n)) * (case.spec.xu - case.spec.xl)
                    out = case.inner.evaluate(Xi, return_as_dictionary=True)
                    want = case.spec.ref(Xi)
                    for k in ("F", "G", "H"):
                        if k in want and not np.allclose(out[k], want[k], rtol=1e-9, atol=1e-9):
                            self.bad(case, "wrapped-changed", "the wrapped problem itself reports %s=%s instead of %s" % (k, out[k], want[k]))
                    self.note(c, op, out)
                else:
                    one = op["one"] and op["n"] == 1
                    kw = {}
                    if op["ask"] == "all":
                        kw["return_values_of"] = ["F", "G", "H"] + (["dF", "dG", "dH"] if case.grads else [])
                    elif op["ask"] == "F":
                        kw["return_values_of"] = ["F"]
                    out = case.prob.evaluate(X[0] if one else X.copy(), return_as_dictionary=True, **kw)
                    if one:
                        out = {k: np.asarray(v)[None] for k, v in out.items() if k in case.ref(X)}
                    keys = None if op["ask"] != "F" else ["F"]
                    v = case.check(X, out, what + (" (one design)" if one else ""), keys)
                    if v:
                        self.bad(case, *v)
                    self.n += 1
                    self.note(c, op, {k: np.asarray(v, dtype=float) for k, v in out.items() if k in ("F", "G", "H", "dF", "dG", "dH")})
                if attempt == 0 and op.get("fail") is not None and FAIL.left.get(c) is None:
                    self.bad(case, "error-swallowed", "the evaluation raises, the caller does not see it")
                FAIL.left[c] = None
                return
            except UserError:
                self.k.fault("evaluation_error")
                if attempt == 1:
                    self.bad(case, "error-stays", "an evaluation keeps failing although nothing is wrong any more")
                continue
            except Exception as e:
                self.bad(case, "crash", "%s, %s%s: %s at %s: %s" % (op["op"], what, " after a failed evaluation" if attempt else "",
                                                                   type(e).__name__, L.exc_where(e), str(e)[:200]))
                return

    def algo(self, case, op):
        from pymoo.algorithms.moo.nsga2 import NSGA2
        from pymoo.algorithms.soo.nonconvex.ga import GA
        from pymoo.optimize import minimize
        alg = (GA if case.prob.n_obj == 1 else NSGA2)(pop_size=6, n_offsprings=op["n"])
        res = minimize(case.prob, alg, ("n_gen", 3), seed=op["seed"])
        for ind in res.pop:
            X = np.asarray(ind.X, dtype=float)[None]
            r = case.ref(X)
            out = {k: np.asarray(ind.get(k))[None] for k in r if k in ("F", "G", "H")}
            v = case.check(X, out, "a design of a run", ("F", "G", "H"))
            if v:
                self.bad(case, v[0], v[1])
                break
        self.n += 1
        self.note(0, op, {"F": res.pop.get("F")})

    def note(self, c, op, out):
        self.T.append("%d %d %s" % (c, op["p"], D.h(repr({k: np.round(np.asarray(v, dtype=float), 7).tolist() for k, v in sorted(out.items())}))))

    def client(self, c):
        def go():
            import threading
            WHO[threading.get_ident()] = c
            for op in self.plan["clients"][c]:
                self.step(c, op)
        return go


def run(plan):
    k = K.Kernel(1)
    WHO.clear()
    FAIL.left.clear()
    with K.running(k), guard.cpu_limit(CPU), contextlib.redirect_stdout(None):
        L.ambient(k, 7)
        np.seterr(all="ignore")
        w = World(plan, k)
        m = len(plan["clients"])
        if plan["mode"] == "threads" and m > 1:
            for p in plan["probs"]:             # what is imported lazily is imported by now
                if p["chain"][0] in ("ad", "ead"):
                    import pymoo.gradient.grad_autograd  # noqa: F401
                    import pymoo.algorithms.moo.nsga2  # noqa: F401
            s = threads.Scheduler(plan["sched"], plan["p"], "/pymoo/", plan["grain"])
            for e in s.run([w.client(c) for c in range(m)]):
                if e is not None:
                    raise e
            w.switches += s.switches
        else:
            r = random.Random("c22-%s" % plan["sched"])
            todo = [list(ops) for ops in plan["clients"]]
            import threading
            while any(todo):
                c = r.choice([c for c in range(m) if todo[c]])
                WHO[threading.get_ident()] = c
                w.step(c, todo[c].pop(0))
                # nobody differentiates any more: what the toolbox gives is ordinary again
                try:
                    a = anp.zeros(2)
                    a[0] = 1.0
                    if type(a) is not np.ndarray:
                        w.bad(w.cases[0], "left-behind", "after a step the toolbox gives %s" % type(a))
                except Exception as e:
                    w.bad(w.cases[0], "left-behind", "after a step the toolbox does not give ordinary arrays: %s" % str(e)[:120])
    return core.outcome(w.viol[:3], D.h(repr(w.T), w.switches), dict(k.faults), [D.h(t) for t in w.T] + ["%s" % w.switches], w.n >= 2, k.clock.t,
                        len(w.T), "%s %s" % (plan["mode"], [c.name for c in w.cases]), {"switches": w.switches})
