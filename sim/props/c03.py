"""C03: parallel evaluation gives what serial evaluation gives, whatever the workers do."""
from collections import Counter

from sim import core, drive as D, kernel as K, legs as L, pools, problems as P, registry as R
from sim.props import pick_algo

COUNT = {"quick": 420, "thorough": 8000}
RULE = ("a scenario counts when the same seeded run was executed serially and on a simulated worker pool and at least one "
        "batch was handed to the pool")
REAL = ["the library's starmap, joblib, dask and ray runners", "joblib.Parallel itself", "problem evaluation and result assembly",
        "pickle / dill / cloudpickle of problem and tasks", "every algorithm driving the evaluations"]
STUB = ["worker processes and threads (simulated pool)", "dask client, ray module, multiprocessing pool", "clock",
        "objective functions of generated problems"]
STATE_MEASURE = "digest of (completion order, results) per scenario plus algorithm state after each iteration"
ASSUMPTIONS = ["a pool's starmap / gather / get returns results in submission order, as the real ones document"]


def plan(rng, i, tier):
    kind = ["starmap", "joblib", "dask", "ray"][i % 4]
    names = [n for n in R.NAMES if n not in ("PINSGA2", "KGB", "Optuna")]
    spec = R.gen(rng, pick_algo(rng, i // 2, names), elementwise=True)
    codec = rng.choice(["thread", "pickle", "dill", "cloudpickle"])
    pool = {"seed": rng.randrange(10 ** 6), "workers": rng.choice([1, 2, 3, 8]), "codec": codec,
            "order": rng.choice(["fifo", "lifo", "random", "random", "random", "slow_first"]),
            "p_die_before": rng.choice([0.0, 0.0, 0.1, 0.3]), "p_die_after": rng.choice([0.0, 0.0, 0.1, 0.3])}
    if kind == "starmap":
        pool["lazy"] = rng.random() < 0.3
    if kind == "joblib" and rng.random() < 0.5:
        pool["batch"] = rng.choice([1, 2, 3])
    n = rng.randint(3, 7 if tier == "quick" else 12)
    p = {"spec": spec, "runner": kind, "pool": pool, "how": L.gen_how(rng), "archive": L.gen_archive(rng, spec),
         "save_history": rng.random() < 0.15,
         "term": L.gen_term(rng, spec, n, (20, 70), 0.25, 0.1),
         "mixout": rng.random() < 0.3}
    if rng.random() < 0.2:
        p["fail_at"] = rng.randint(1, 25)      # the user's function raises for one design
    return p


class UserError(Exception):
    pass


def attach(leg, plan):
    prob = leg.prob
    if plan["mixout"]:
        cls = type(prob)
        sub = TAGGED.get(cls)
        if sub is None:
            raise core.HarnessError("no tagged class for %s" % cls)
        prob.__class__ = sub


def _tagged(cls):
    class T(cls):
        def _evaluate(self, x, out, *args, **kwargs):
            cls._evaluate(self, x, out, *args, **kwargs)
            if self.elementwise:
                out["who"] = D.h(repr(P.key(x)))
    T.__name__ = T.__qualname__ = "Tagged" + cls.__name__
    globals()[T.__name__] = T
    return T


TAGGED = {c: _tagged(c) for c in (P.SimProblem, P.SimMixed, P.SimDynamic, P.Builtin)}


def one(plan, parallel):
    k = K.Kernel(1)
    out = {}
    with K.running(k):
        L.ambient(k, 5)
        rec = P.new_rec()
        pool = pools.Pool(plan["pool"]) if parallel else None
        fail = plan.get("fail_at")
        seen = {}

        def on_row(tag, x):
            if fail:
                kx = repr(P.key(x))
                if kx not in seen:
                    seen[kx] = len(seen) + 1
                if seen[kx] == fail and not parallel:
                    out["bad"] = kx
                    raise UserError(kx)
                if parallel and kx == plan["_bad"]:
                    raise UserError(kx)
        rec.on_row = on_row
        bad_rows = []

        def boundary(leg, alg, n):
            for ind in (alg.pop if alg.pop is not None else []):
                if plan["mixout"] and len(ind.get("who") or "") and ind.get("who") != D.h(repr(P.key(ind.X))):
                    bad_rows.append("iteration %d: an individual carries the extra output of another design" % n)

        def mutate(leg):
            attach(leg, plan)
            if parallel:
                leg.prob.elementwise_runner = pools.runner(plan["runner"], pool)
        lg = L.Leg(plan["spec"], plan["term"], plan["how"], archive=plan["archive"], save_history=plan["save_history"],
                   mutate=mutate, on_boundary=boundary).go()
        out.update(T=lg.T, rows=[D.h(repr(r)) for r in rec.rows], t=k.clock.t, faults=dict(k.faults), bad_rows=bad_rows[:2],
                   tasks=pool.seq if pool else 0, order=D.h(repr(pool.order)) if pool else "",
                   retried=pool.rows_lost if pool else 0,
                   exc=None if lg.exc is None else type(lg.exc).__name__ + ":" + str(lg.exc)[:200], left=len(pool.todo) if pool else 0)
    return out


def run(plan):
    plan = dict(plan)
    a = one(plan, False)
    plan["_bad"] = a.get("bad")
    b = one(plan, True)
    name = "%s/%s" % (plan["spec"]["algo"], plan["runner"])
    viol = []

    def bad(kind, what):
        viol.append(core.V("%s:%s" % (kind, plan["runner"]), "%s on %s workers: %s" % (name, plan["pool"]["codec"], what)))
    if a["exc"] and a["exc"].startswith("UserError"):
        # the evaluation raises: so does the parallel run, with the user's own error, having recorded nothing different before
        if not b["exc"]:
            bad("error-swallowed", "the evaluation of a design raises, the parallel run goes on without an error")
        elif not b["exc"].startswith("UserError"):
            if "UserError" not in b["exc"]:
                bad("error-replaced", "the evaluation raises UserError, the parallel run reports %s" % b["exc"])
        d = D.first_diff([t for t in a["T"] if "EXC" not in t], [t for t in b["T"] if "EXC" not in t], ("serial", "parallel"))
        if d and b["exc"]:
            bad("parallel-differs", d)
    else:
        d = D.first_diff(a["T"], b["T"], ("serial", "parallel"))
        if d:
            bad("parallel-differs", d)
        ca, cb = Counter(a["rows"]), Counter(b["rows"])
        if not d and cb != ca and not a["exc"]:
            more = sum((cb - ca).values())
            if sum((ca - cb).values()) or more > b["retried"]:
                if not (plan["runner"] == "dask" and b["faults"].get("shared_future")):
                    bad("not-each-once", "designs evaluated by the workers: %d missing, %d extra (%d results were lost and had to "
                        "be recomputed)" % (sum((ca - cb).values()), more, b["retried"]))
        for w in b["bad_rows"]:
            bad("outputs-mixed-up", w)
    return core.outcome(viol, D.h(repr(b["T"]), b["order"]), b["faults"], [D.h(repr(t)) for t in b["T"]] + [b["order"]],
                        b["tasks"] > 0, a["t"] + b["t"], len(b["T"]), "%s %s %s" % (name, plan["pool"]["codec"], plan["term"]),
                        {"tasks": b["tasks"], "sub_runs": 1, "user_errors": int(bool(a["exc"]))})
