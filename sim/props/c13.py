"""C13: an archive against an executable reference model."""
import copy
import math
import pickle
import random

import numpy as np

from sim import core, drive as D, guard, kernel as K, legs as L, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 900, "thorough": 16000}
RULE = ("a scenario counts when at least two batches were added and the archive was compared with the reference model after each")
REAL = ["archives, truncation (random, hypervolume, SPEA2), duplicate elimination, non-dominated sorting", "every algorithm with an archive attached"]
STUB = ["where batches come from in direct histories (the plan)", "objective functions of generated problems", "clock"]
STATE_MEASURE = "digest of the archive after each batch"
CPU = 100
EPS = 1e-32


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def same(a, b):
    if a == b:
        return True
    try:
        return math.dist([float(v) for v in a], [float(v) for v in b]) <= EPS
    except TypeError:
        return False


class Rec:
    """One design as the model sees it."""
    __slots__ = ("x", "F", "cv")

    def __init__(self, x, F, cv):
        self.x, self.F, self.cv = x, tuple(F), cv


def candidates(so, old, batch):
    """What an archive without a limit holds after `batch`."""
    recs = list(old) + list(batch)
    feas = [r for r in recs if r.cv <= 0]
    if feas:
        if so:
            m = min(r.F[0] for r in feas)
            opt = [r for r in feas if r.F[0] == m]
        else:
            opt = [r for r in feas if not any(dominates(o.F, r.F) for o in feas)]
    elif recs:
        m = min(r.cv for r in recs)
        opt = [r for r in recs if r.cv == m]
    else:
        opt = []
    out = []
    for r in opt:
        if not any(same(r.x, o.x) for o in out):
            out.append(r)
    return out


def contents(ar):
    return [(P.key(i.X), tuple(float(v) for v in np.asarray(i.F).ravel())) for i in ar]


def check(kind, conf, old, batch, ar, viol, seen):
    """Compare the archive after adding `batch` with the model; returns the model's new state."""
    cand = candidates(kind == "so", old, batch)
    got = contents(ar)
    by = {}
    for r in cand:
        by.setdefault(r.x, r)
    lim, tr = conf.get("max_size"), conf.get("truncate_size")
    keys = [g[0] for g in got]
    for i in range(len(keys)):
        for j in range(i):
            if same(keys[i], keys[j]):
                viol.append(("duplicate", "the archive holds the design %s twice" % (keys[i],)))
                return None
    for x, F in got:
        if seen.get(x) != F:
            viol.append(("values", "design %s has the values %s in the archive, it was evaluated to %s" % (x, F, seen.get(x))))
            return None
    if lim and len(got) > lim:
        viol.append(("too-big", "%d designs in an archive of at most %d" % (len(got), lim)))
        return None
    extra = [k for k in keys if k not in by]
    if extra:
        viol.append(("not-optimal", "the archive holds %s with F=%s, which is dominated, infeasible or no longer part of it" % (extra[0], seen.get(extra[0]))))
        return None
    if not lim or len(cand) <= lim:
        miss = [r for r in cand if r.x not in keys]
        if miss:
            viol.append(("missing", "%d of %d non-dominated designs are missing, e.g. %s F=%s (archive: %d, limit %s)" % (
                len(miss), len(cand), miss[0].x, miss[0].F, len(got), lim)))
            return None
    else:
        t = min(lim, tr) if tr else lim
        if len(got) != t:
            viol.append(("truncated", "truncated to %d designs instead of %d" % (len(got), t)))
            return None
    return [by[k] for k in keys]


# ------------------------------------------------------------------------------------------------
# direct histories
# ------------------------------------------------------------------------------------------------

def plan(rng, i, tier):
    if i % 3 == 0:
        names = [n for n in R.STATIC if n not in ("MOPSO_CD", "Optuna")]
        name = pick_algo(rng, i // 3, names)
        spec = R.gen(rng, name)
        n_obj = R.make_problem(spec).n_obj
        conf = {}
        if rng.random() < 0.5:
            conf["max_size"] = rng.choice([1, 2, 3, 5, 8])
            if n_obj > 1 and rng.random() < 0.5:
                conf["truncate_size"] = rng.randint(1, conf["max_size"] + 1)
        return {"kind": "run", "spec": spec, "conf": conf, "n": rng.randint(3, 8 if tier == "quick" else 16),
                "how": rng.choice(["next", "next", "asktell"])}
    n_obj = rng.choice([1, 1, 2, 2, 3])
    conf = {}
    if rng.random() < 0.6:
        conf["max_size"] = rng.choice([1, 2, 3, 5, 8, 20])
        if rng.random() < 0.5:
            conf["truncate_size"] = rng.randint(1, conf["max_size"] + 2)
    return {"kind": "direct", "n_obj": n_obj, "conf": conf, "cls": rng.choice(["own", "own", "default"]),
            "vt": rng.choice(["real", "real", "int", "bool", "mixed"]), "bseed": rng.randrange(10 ** 6), "n": rng.randint(2, 12),
            "grid": rng.choice([2, 3, 5, 9, 1000]), "p_feas": rng.choice([0.0, 0.3, 0.9, 1.0, 1.0]), "late": rng.random() < 0.2,
            "copy": rng.choice([None, None, "deepcopy", "pickle", "slice", "merge_in"]), "init": rng.random() < 0.2,
            "fiddle": rng.random() < 0.2}


def batches(p):
    """The history of batches: [(x, F, G), ...] per batch; the same design always has the same values."""
    r = random.Random("arch-%s" % p["bseed"])
    known = {}
    out = []
    g = p["grid"]

    def design():
        if known and r.random() < 0.25:
            return r.choice(list(known.values()))
        n = 2
        if p["vt"] == "real":
            x = [r.choice([0.0, 0.5, 1.0, r.random(), r.random(), 1e-20]) for _ in range(n)]
        elif p["vt"] == "int":
            x = [r.randint(-3, 12) for _ in range(n)]
        elif p["vt"] == "bool":
            x = [r.random() < 0.5 for _ in range(4)]
        else:
            x = {"a": r.random() if r.random() < 0.5 else 0.5, "b": r.randint(0, 3), "c": r.choice(["u", "v"])}
        k = P.key(np.array(x) if not isinstance(x, dict) else x)
        if k not in known:
            F = [r.randrange(g) / float(g) for _ in range(p["n_obj"])]
            if r.random() < 0.3:
                F = [round(v, 1) for v in F]
            if p["n_obj"] < 3 and r.random() < 0.02:
                F[0] = float("inf")
            G = -1.0 if r.random() < p["p_feas"] else r.choice([0.25, 0.5, 0.5, 2.0])
            known[k] = (k, x, F, G)
        return known[k]
    for j in range(p["n"]):
        out.append([design() for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12]))])
    if p["late"]:
        for b in out[:len(out) // 2]:
            for idx, d in enumerate(b):
                b[idx] = (d[0], d[1], d[2], max(d[3], 0.5))
        fix = {d[0]: d for b in out[:len(out) // 2] for d in b}
        out = [[fix.get(d[0], d) for d in b] for b in out]
    return out


def make_pop(b, vt, objs=None):
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    inds = []
    for k, x, F, G in b:
        ind = Individual(X=np.array(x) if not isinstance(x, dict) else dict(x), F=np.array(F, dtype=float), G=np.array([G]), H=np.array([]))
        ind.evaluated = {"F", "G", "H"}
        inds.append(ind)
    pop = Population.empty(len(inds))
    for i, ind in enumerate(inds):
        pop[i] = ind
    return pop


def run_direct(plan, k):
    from pymoo.core.population import Population
    from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive, default_archive
    viol, states = [], []
    so = plan["n_obj"] == 1
    conf = dict(plan["conf"])
    kw = {"max_size": conf.get("max_size")}
    if "truncate_size" in conf or not so:
        kw["truncate_size"] = conf.get("truncate_size")
    vtype = plan["vt"]
    r = random.Random("d-%s" % plan["bseed"])
    rs = np.random.default_rng(plan["bseed"])
    B = batches(plan)
    seen = {}
    first = None
    if plan["cls"] == "default" and vtype != "mixed":
        prob = P.SimProblem(n_var=2, n_obj=plan["n_obj"], n_ieq=1)
        ar = default_archive(prob, **kw)
        if plan["n_obj"] == 2:
            k.fault("truncation_by_hypervolume")
        elif plan["n_obj"] == 3:
            k.fault("truncation_by_spea2")
    else:
        ar = (SingleObjectiveArchive if so else MultiObjectiveArchive)(**kw)
    model, n = [], 0
    for b in B:
        for key, x, F, G in b:
            seen[key] = tuple(float(v) for v in F)
        pop = make_pop(b, vtype)
        recs = [Rec(key, F, max(0.0, G)) for key, x, F, G in b]
        before = contents(ar)
        if plan["copy"] == "deepcopy":
            ar = copy.deepcopy(ar)
            k.fault("archive_copied")
        elif plan["copy"] == "pickle":
            ar = pickle.loads(pickle.dumps(ar))
            k.fault("archive_saved_and_restored")
        elif plan["copy"] == "slice":
            ar = ar[:]
        elif plan["copy"] == "merge_in" and len(ar) and len(pop):
            # members of the archive come back in the next batch (as objects)
            pop = Population.merge(pop, ar[:1])
            k.fault("member_added_again")
        if plan["fiddle"] and len(pop):
            pop = pop[rs.permutation(len(pop))]
            k.fault("batch_reordered")
        old = ar
        ar = ar.add(pop, random_state=rs)
        if contents(old) != before:
            viol.append(("aliased", "adding a batch changed the archive object it was added to"))
            break
        conf2 = dict(conf)
        model2 = check("so" if so else "mo", conf2, model, recs, ar, viol, seen)
        if model2 is None:
            break
        if len(model2) < len(candidates(so, model, recs)):
            k.fault("truncated")
        model = model2
        n += 1
        states.append(D.h(repr(contents(ar))))
        if ar.max_size != conf.get("max_size"):
            viol.append(("limit-lost", "the limit changed from %s to %s" % (conf.get("max_size"), ar.max_size)))
            break
    return viol, states, n


def run_run(plan, k):
    from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
    spec = plan["spec"]
    viol, states, n = [], [], 0
    rec = P.new_rec()

    def on_row(tag, x):
        if len(rec.rows) > 6000:
            raise L.Runaway("evaluations")
    rec.on_row = on_row
    prob = R.make_problem(spec)
    alg = R.make_algorithm(spec, prob)
    so = prob.n_obj == 1
    conf = plan["conf"]
    kw = {"max_size": conf.get("max_size")}
    if not so:
        kw["truncate_size"] = conf.get("truncate_size")
    ar = (SingleObjectiveArchive if so else MultiObjectiveArchive)(**kw)
    alg.setup(prob, termination=("n_gen", plan["n"]), seed=spec["seed"], archive=ar)
    model, at, seen = [], 0, {}
    steps = 0
    while alg.has_next():
        if plan["how"] == "asktell":
            inf = alg.ask()
            if inf is not None:
                alg.evaluator.eval(alg.problem, inf, algorithm=alg)
            alg.tell(infills=inf)
        else:
            alg.next()
        steps += 1
        if steps > 600:
            break
        new, at = rec.rows[at:], len(rec.rows)
        if not new:
            continue
        recs = []
        for _, x, F, G, H in new:
            seen[x] = tuple(F)
            cv = sum(max(0.0, g) for g in G) + sum(max(0.0, abs(h) - 1e-4) for h in H)
            if (G and any(0 < g < 1e-12 for g in G)) or any(abs(abs(h) - 1e-4) < 1e-12 for h in H):
                return viol, states, n
            recs.append(Rec(x, F, cv))
        if any(r.cv > 0 for r in recs) and not any(r.cv <= 0 for r in recs + model):
            # nothing feasible: which of them has the smallest violation is decided with rounded sums
            low = sorted(r.cv for r in recs + model)
            if len(low) > 1 and any(0 < b - a < 1e-12 * max(1, b) for a, b in zip(low, low[1:])):
                return viol, states, n
        model2 = check("so" if so else "mo", conf, model, recs, alg.archive, viol, seen)
        if model2 is None:
            break
        if len(model2) < len(candidates(so, model, recs)):
            k.fault("truncated")
        model = model2
        n += 1
        states.append(D.h(repr(contents(alg.archive))))
    if not viol and not alg.has_next():
        res = alg.result()
        if res.archive is None or sorted(map(repr, contents(res.archive))) != sorted(map(repr, contents(alg.archive))):
            viol.append(("result", "the result's archive is not the archive of the run"))
    return viol, states, n


def run(plan):
    k = K.Kernel(1)
    viol, states, n, exc = [], [], 0, None
    name = plan["spec"]["algo"] if plan["kind"] == "run" else "%s-%s" % (plan["cls"], "so" if plan["n_obj"] == 1 else "mo")
    with K.running(k):
        L.ambient(k, 7)
        try:
            with guard.cpu_limit(CPU):
                viol, states, n = (run_run if plan["kind"] == "run" else run_direct)(plan, k)
        except Exception as e:
            exc = "%s at %s: %s" % (type(e).__name__, L.exc_where(e), str(e)[:150])
            if plan["kind"] == "direct" or "archive" in L.exc_where(e) or "duplicate" in L.exc_where(e):
                viol = [("crash", exc)]
        except (L.Runaway, guard.Stuck) as e:
            exc = str(e)
    vs = [core.V("%s:%s" % (a, name), "%s %s: %s" % (name, plan["conf"], b)) for a, b in viol[:2]]
    return core.outcome(vs, D.h(repr(states), exc), dict(k.faults), states, n >= 2, k.clock.t, n, "%s %s" % (name, plan["conf"]),
                        {"batches_compared": n, "exceptions": int(exc is not None)})
