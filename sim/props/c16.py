"""C16: duplicate elimination eliminates duplicates, and nothing else."""
import copy
import math

import numpy as np

from pymoo.core.duplicate import (DefaultDuplicateElimination, ElementwiseDuplicateElimination, HashDuplicateElimination)
from pymoo.core.mixed import MixedVariableDuplicateElimination
from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R, watch as W
from sim.props import pick_algo

COUNT = {"quick": 900, "thorough": 30000}
RULE = "a scenario counts when at least three batches of new designs were compared with the population and at least one duplicate was discarded or the search space was exhausted"
REAL = ["duplicate elimination, infill loop, mating and initialisation of every genetic algorithm with duplicate elimination"]
STUB = ["objective functions of generated problems", "clock"]
STATE_MEASURE = "digest of algorithm state after each iteration"
CPU = 100
NAMES = [n for n in R.STATIC if R.trait(n, "dedup")] + ["NicheGA"] + R.DYNAMIC
ATTEMPTS = 100
# the criterion is a constructor argument
TAKES = {n for n in NAMES if n not in ("MixedVariableGA", "MixedVariableGA-MO", "PINSGA2", "NicheGA", "DNSGA2", "KGB")}
LOG = []
# with a tolerance "equal" is not transitive: of a chain of neighbours only the first one has to remain
EXACT = ("default", "hash", "same", "np-same", "rounded", "hash-func", "mixed")


class Logged:
    """A criterion (one of the library, or a user's built on one of the library) that writes down what it was asked and what it answered."""

    def do(self, pop, *args, **kw):
        r = super().do(pop, *args, **kw)
        if LOG:
            kept = r[0] if isinstance(r, tuple) else r
            LOG[0].append((list(pop), [list(a) for a in args], list(kept), kw.get("to_itself", True)))
        return r


class Default(Logged, DefaultDuplicateElimination):
    pass


class Hash(Logged, HashDuplicateElimination):
    pass


class Mixed(Logged, MixedVariableDuplicateElimination):
    pass


class Elementwise(Logged, ElementwiseDuplicateElimination):
    pass


def rounded(pop):
    return np.round(pop.get("X").astype(float), 1)


def half(pop):
    return pop.get("X")[:, :1].astype(float)


def same_x(a, b):
    return bool(np.all(a.X == b.X))


def np_same_x(a, b):
    return np.all(np.asarray(a.X) == np.asarray(b.X))


def gap(a, b):
    return float(np.max(np.abs(np.asarray(a.X, dtype=float) - np.asarray(b.X, dtype=float))))


def first(ind):
    return round(float(ind.X[0]), 2) + 0.0


KINDS = {
    "default": lambda e: Default(),
    "eps": lambda e: Default(epsilon=e),
    "rounded": lambda e: Default(func=rounded),
    "half": lambda e: Default(func=half, epsilon=e),
    "hash": lambda e: Hash(),
    "hash-func": lambda e: Hash(func=first),
    "same": lambda e: Elementwise(cmp_func=same_x),
    "np-same": lambda e: Elementwise(cmp_func=np_same_x),
    "gap": lambda e: Elementwise(cmp_func=gap, epsilon=e),
    "mixed": lambda e: Mixed(),
}


def dist(a, b):
    return math.sqrt(math.fsum((float(x) - float(y)) ** 2 for x, y in zip(a, b)))


def same(kind, eps, a, b):
    """True, False, or None where rounding may decide."""
    def near(d, e):
        return None if abs(d - e) <= 1e-9 * e else d <= e
    if isinstance(a.X, dict) or kind in ("hash", "same", "np-same", "mixed"):
        return P.key(a.X) == P.key(b.X) if isinstance(a.X, dict) else bool(np.all(np.asarray(a.X) == np.asarray(b.X)))
    x, y = [float(v) for v in a.X], [float(v) for v in b.X]
    if kind == "hash-func":
        return first(a) == first(b)
    if kind == "rounded":
        return bool(np.all(np.round(x, 1) == np.round(y, 1)))
    if kind == "gap":
        return near(max(abs(p - q) for p, q in zip(x, y)), eps)
    if kind == "half":
        x, y = x[:1], y[:1]
    return near(dist(x, y), eps)


def plan(rng, i, tier):
    name = pick_algo(rng, i, NAMES)
    spec = R.gen(rng, name, vtype=rng.choice([v for v in R.REG[name].vtypes if v != "real"]) if len(set(R.REG[name].vtypes)) > 1 and rng.random() < 0.5 else None)
    n = rng.randint(4, 10 if tier == "quick" else 30)
    p = {"spec": spec, "n": n, "crit": None, "eps": 1e-16, "faults": W.gen_faults(rng, name, n)}
    spec["cfg"].pop("eliminate_duplicates", None)
    pr = spec["problem"]
    vt = pr.get("vtype", pr["kind"])
    if vt in ("int", "bin", "perm") and rng.random() < 0.7:
        pr["n_var"] = {"int": rng.randint(1, 2), "bin": rng.randint(2, 5), "perm": rng.randint(3, 4)}[vt]
    if pr["kind"] == "mixed" and rng.random() < 0.5:
        pr["shape"] = "small"
    if name in TAKES:
        kinds = ["default", "default", "default", "eps", "hash", "same", "np-same"]
        if vt == "real":
            kinds += ["eps", "eps", "rounded", "half", "gap", "gap", "hash-func"]
        elif vt != "perm":
            kinds += ["half", "gap"]
        p["crit"] = rng.choice(kinds)
        if p["crit"] in ("eps", "half", "gap"):
            p["eps"] = rng.choice([1e-12, 1e-3, 0.02, 0.1, 0.3]) if vt == "real" else rng.choice([1e-16, 1e-3, 1.5])
            if pr["kind"] == "sim" and vt == "real":
                pr["bounds"] = rng.choice(["unit", "sym"])
        if vt == "real" and rng.random() < 0.5:
            # operators that do not change much, or a repair that makes different designs equal
            if name not in ("CTAEA", "RVEA", "RNSGA3") and rng.random() < 0.4:
                spec["cfg"]["repair"] = ["Snap", {"n": rng.choice([3, 6, 12])}]
            spec["cfg"]["mutation"] = rng.choice([["NoMutation", {}], ["PM", {"prob": 0.2, "prob_var": 0.3}], ["GM", {"prob_var": 0.2}]])
            if name not in ("CTAEA", "RVEA", "RNSGA3"):
                spec["cfg"]["crossover"] = rng.choice([["UX", {}], ["SinglePointCrossover", {}], ["SBX", {"prob": 0.3}], ["HUX", {}]])
    if name != "RVEA" and rng.random() < 0.35:
        p["n_eval"] = rng.choice([60, 120, 200]) if not name.startswith("MixedVariableGA") else rng.choice([40, 60])
    if name.startswith("MixedVariableGA"):
        p["crit"] = rng.choice(["mixed", "mixed", "hash", None])
    if name in TAKES and rng.random() < 0.2 and name in R.TAKES_SAMPLING:
        p["given"] = [rng.randint(4, 12), rng.choice([0.0, 0.3, 0.8])]
        p["known"] = rng.choice(["none", "none", "all", "some"])
        spec["cfg"]["sampling"] = ["@warm"]
    return p


def given_designs(spec, prob, n, p):
    import random
    r = random.Random("given-%d" % spec["seed"])
    X = []
    for _ in range(n):
        if X and r.random() < p:
            X.append(list(r.choice(X)))
        elif spec["problem"].get("vtype") == "perm":
            x = list(range(prob.n_var))
            r.shuffle(x)
            X.append(x)
        elif spec["problem"].get("vtype") in ("int", "bin"):
            X.append([r.randint(int(a), int(b)) for a, b in zip(prob.xl, prob.xu)])
        else:
            X.append([r.uniform(float(a), float(b)) for a, b in zip(prob.xl, prob.xu)])
    vt = {"int": int, "perm": int, "bin": bool}.get(spec["problem"].get("vtype"), float)
    return np.array(X, dtype=vt)


def evaluated(prob, X, known):
    """The given designs as a population, all or some of them evaluated already."""
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    pop = Population.new("X", X)
    Evaluator().eval(prob, pop if known == "all" else pop[::2])
    return pop


class Obs:
    def __init__(self, plan):
        self.plan, self.viol, self.n, self.found = plan, [], 0, 0
        self.kind, self.eps = plan["crit"] or "default", plan["eps"]
        self.empty, self.log, self.given = False, [], None
        self.exhausted = 0

    def bad(self, sig, what):
        if len(self.viol) < 3:
            self.viol.append((sig, what))

    def same(self, a, b):
        return same(self.kind, self.eps, a, b)

    def asked(self, w, alg, infills, old):
        calls, LOG[0] = LOG[0], []
        it = alg.n_iter
        if self.empty and infills is not None and len(infills):
            self.bad("went-on", "iteration %s: a batch was empty before and the run goes on" % it)
        new = [] if infills is None else list(infills)
        if not new:
            self.empty = True
        self.n += 1
        hostile = "kgb" in type(alg).__name__.lower()
        for i, a in enumerate(new):
            for b in new[:i]:
                if self.same(a, b):
                    return self.bad("twice", "iteration %s: %s and %s are in the same batch of %d (%s)" % (it, P.key(a.X), P.key(b.X), len(new), self.kind))
            for b in old or ():
                if self.same(a, b) and not (hostile and not alg.is_initialized):
                    return self.bad("known", "iteration %s: %s of the batch equals %s of the population (%s)" % (it, P.key(a.X), P.key(b.X), self.kind))
        if self.plan["crit"] is None:
            return
        for pop, others, kept, itself in calls:
            ids = {id(k) for k in kept}
            gone = [a for a in pop if id(a) not in ids]
            self.found += len(gone)
            for a in gone:
                others_in = [b for b in pop if b is not a] if itself else []
                if not any(self.same(a, b) is not False for g in others + [others_in] for b in g):
                    return self.bad("discarded", "iteration %s: %s was discarded as a duplicate (%s), it equals none of the %d others" % (
                        it, P.key(a.X), self.kind, len(others_in) + sum(map(len, others))))
            # a whole group of equal designs must not vanish
            if itself and not any(others):
                for a in gone:
                    if not any(self.same(a, b) is not False for b in kept) and self.kind in EXACT:
                        return self.bad("vanished", "iteration %s: all designs equal to %s were discarded" % (it, P.key(a.X)))
        want = getattr(alg, "n_offsprings", None)
        if alg.is_initialized and old and want:
            if len(calls) > ATTEMPTS + 2:
                self.bad("attempts", "iteration %s: the mating was repeated %d times, the limit is %d" % (it, len(calls), ATTEMPTS))
            if len(new) < want:
                self.exhausted += 1
                if len(calls) < ATTEMPTS:
                    self.bad("gave-up", "iteration %s: %d of %d new designs after %d attempts, the limit is %d" % (it, len(new), want, len(calls), ATTEMPTS))
                elif not new:
                    # nothing new in any attempt
                    for pop, others, kept, itself in calls:
                        if kept:
                            self.bad("lost", "iteration %s: the batch is empty, new designs were found" % it)
                            break
            elif len(new) > want:
                self.bad("too-many", "iteration %s: %d new designs, %d were to be made" % (it, len(new), want))
        if not alg.is_initialized and not old and self.given is not None and not self.viol and self.kind in EXACT:
            # the given designs: each of them is there once
            for g in self.given:
                if not any(self.same(g, b) is not False for b in new):
                    self.bad("given-lost", "the given design %s is not in the initial population" % (P.key(g.X),))
                    break

    def ended(self, w, alg, res):
        limit = self.plan.get("n_eval")
        early = alg.evaluator.n_eval < limit if limit else alg.n_iter - 1 < self.plan["n"]
        if early and not self.empty and not w.spec["algo"] in ("PINSGA2",):
            self.bad("ended", "the run ended after iteration %s and %d evaluations, before its limit, although there were new designs" % (alg.n_iter - 1, alg.evaluator.n_eval))


class Given:
    def __init__(self, x):
        self.X = x


def run(plan):
    k = K.Kernel(1)
    spec, name = plan["spec"], plan["spec"]["algo"]
    obs, exc, w = Obs(plan), None, None
    LOG[:] = [[]]
    with K.running(k):
        L.ambient(k, 3)
        P.new_rec()
        try:
            with guard.cpu_limit(CPU):
                s = copy.deepcopy(spec)
                prob = R.make_problem(s)
                if plan.get("given"):
                    X = given_designs(spec, prob, *plan["given"])
                    R.WARM["pop"] = X if plan.get("known", "none") == "none" else evaluated(prob, X, plan["known"])
                    if not s["cfg"].get("repair"):
                        obs.given = [Given(x) for x in X]
                if plan["crit"]:
                    crit = KINDS[plan["crit"]](plan["eps"])
                    if name.startswith("MixedVariableGA"):
                        from pymoo.core.mixed import MixedVariableMating
                        s["cfg"]["mating"] = MixedVariableMating(eliminate_duplicates=crit)
                    s["cfg"]["eliminate_duplicates"] = crit
                w = W.Watch(s, k, ("n_eval", plan["n_eval"]) if plan.get("n_eval") else ("n_gen", plan["n"]), plan["faults"], obs, prob=prob, alg=R.make_algorithm(s, prob))
                w.go()
        except (Exception, L.Runaway, guard.Stuck) as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
            if isinstance(e, (L.Runaway, guard.Stuck)):
                obs.bad("endless", "the run does not come to an end (%s)" % exc)
            if "duplicate" in exc or "infill" in exc:
                obs.bad("error", exc)
    viol = [core.V("%s:%s" % (a, name), "%s: %s" % (name, b)) for a, b in obs.viol[:2]]
    st = w.states if w else []
    return core.outcome(viol, D.h(repr(st), exc), dict(k.faults), st, obs.n >= 3 and (obs.found > 0 or obs.empty) and exc is None, k.clock.t, len(st), name,
                        {"batches": obs.n, "duplicates_discarded": obs.found, "spaces_exhausted": int(obs.empty), "short_batches": obs.exhausted,
                         "exceptions": int(exc is not None)})
