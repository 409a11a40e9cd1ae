"""One simulated optimisation run ("leg"), driven step by step under a kernel, everything observable recorded."""
import random

import numpy as np

from sim import drive as D, kernel as K, problems as P, registry as R, seams


class Runaway(BaseException):
    """A run used up its evaluation / iteration allowance (safety net of the simulator, not of the library)."""


def make_termination(t):
    """t: ["n_gen", 6] | ["n_eval", 40] | ["obj", name, kwargs] ..."""
    if t[0] in ("n_gen", "n_eval", "time", "fmin"):
        return (t[0], t[1])
    if t[0] == "crit":
        # a criterion that watches the progress, with a budget as a safety net
        from pymoo.core.termination import TerminateIfAny
        from pymoo.termination.max_gen import MaximumGenerationTermination
        from sim.props import c20
        ref = [[0.1 * (j + 1) for j in range(t[3])], [0.7 - 0.1 * j for j in range(t[3])]]
        return TerminateIfAny(c20.make(t[2], ref)[0], MaximumGenerationTermination(t[1]))
    raise KeyError(t)


def gen_term(r, spec, n, evals=(20, 90), p_eval=0.22, p_crit=0.15):
    """n iterations, or a number of evaluations, or a tolerance."""
    q = r.random()
    if q < p_eval + p_crit and not R.trait(spec["algo"], "needs_ngen"):
        if q < p_eval:
            return ["n_eval", r.randint(*evals)]
        if not R.trait(spec["algo"], "slow") and not R.trait(spec["algo"], "own_term"):
            from sim.props import c20
            n_obj = R.make_problem(spec).n_obj
            return ["crit", n + r.randint(0, 5), c20.gen_term(r, n_obj, True), n_obj]
    return ["n_gen", n]


def make_archive(a):
    if not a:
        return None
    from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
    kw = {"max_size": a["max_size"]}
    if a.get("mixed"):
        from pymoo.core.mixed import MixedVariableDuplicateElimination
        kw["duplicate_elimination"] = MixedVariableDuplicateElimination()
    if a["kind"] == "so":
        return SingleObjectiveArchive(**kw)
    if a.get("truncate_size"):
        kw["truncate_size"] = a["truncate_size"]
    else:
        kw["truncate_size"] = None
    return MultiObjectiveArchive(**kw)


def gen_archive(r, spec, p=0.3):
    if r.random() > p or spec["algo"] == "Optuna":
        return None
    n_obj = spec["problem"].get("n_obj")
    if n_obj is None:
        n_obj = 1 if R.REG[spec["algo"]].n_obj == 1 else 2
    mixed = {"mixed": True} if spec["problem"]["kind"] == "mixed" else {}
    if n_obj == 1:
        return dict(mixed, kind="so", max_size=r.randint(1, 4))
    m = r.randint(2, 9)
    return dict(mixed, kind="mo", max_size=m, truncate_size=r.choice([None, max(1, m // 2), m]))


def gen_how(r):
    return r.choice(["next", "minimize", "asktell", "run"])


def ambient(k, seed, clock=None):
    k.entropy_seed = seed
    seams.set_ambient(seed)


POLLUTIONS = ("np_draw", "np_seed", "py_draw", "clock", "gc", "errstate", "decoy")


def pollute(kind, j):
    """Things another component of the same process may do between two iterations."""
    if kind == "np_draw":
        np.random.random(3 + j % 5)
    elif kind == "np_seed":
        np.random.seed(j)
    elif kind == "py_draw":
        random.random()
    elif kind == "clock":
        K.CUR.clock.advance(3600.0 * (1 + j % 7))
    elif kind == "gc":
        import gc
        gc.collect()
    elif kind == "errstate":
        np.seterr(all="ignore")
    elif kind == "decoy":
        decoy(j)


def decoy(j, n_gen=2):
    """A small unrelated run, started from within the same process."""
    r = random.Random("decoy-%d" % j)
    prev = P.rec()
    try:
        P.new_rec()
        spec = R.gen(r, r.choice(["GA", "NSGA2", "DE", "PSO", "NSGA3", "SPEA2", "RVEA", "AGEMOEA", "CMOPSO", "ES", "NicheGA"]))
        prob = R.make_problem(spec, tag="decoy")
        alg = R.make_algorithm(spec, prob)
        alg.setup(prob, termination=("n_gen", n_gen), seed=spec["seed"])
        while alg.has_next():
            alg.next()
    except Exception:
        pass
    finally:
        P._Rec.cur = prev


class Leg:
    """Runs `spec`; `self.T` is the observable trace."""

    def __init__(self, spec, term, how="next", archive=None, save_history=False, seed_at="setup", max_iter=60,
                 max_rows=6000, on_boundary=None, mutate=None, setup_kw=None, full=True):
        self.spec, self.term, self.how = spec, term, how
        self.archive, self.save_history, self.seed_at = archive, save_history, seed_at
        self.max_iter, self.max_rows = max_iter, max_rows
        self.on_boundary, self.mutate, self.setup_kw = on_boundary, mutate, setup_kw or {}
        self.T, self.exc, self.res = [], None, None
        self.full = full

    def build(self, tag="p"):
        self.prob = R.make_problem(self.spec, tag=tag)
        self.alg = R.make_algorithm(self.spec, self.prob)
        kw = dict(self.setup_kw)
        if self.archive:
            kw["archive"] = make_archive(self.archive)
        if self.save_history:
            kw["save_history"] = True
        if self.seed_at == "setup":
            kw["seed"] = self.spec["seed"]
        else:
            self.alg.seed = self.spec["seed"]
        if self.mutate:
            self.mutate(self)
        self.kw = kw
        return self

    def snap(self, alg):
        self.T.append(D.state(alg))
        if len(self.T) > self.max_iter:
            raise Runaway("iterations")
        if self.on_boundary:
            self.on_boundary(self, alg, len(self.T))

    def go(self):
        rec = P.rec()
        prev_hook = rec.on_row

        def guard(tag, x):
            if len(rec.rows) > self.max_rows:
                raise Runaway("evaluations")
            if prev_hook:
                prev_hook(tag, x)
        rec.on_row = guard
        try:
            self._go()
        except Exception as e:
            self.exc = e
            self.T.append({"EXC": "%s: %s" % (type(e).__name__, str(e)[:200])})
        except Runaway as e:
            self.T.append({"RUNAWAY": str(e)})
        finally:
            rec.on_row = prev_hook
        return self

    def _go(self):
        self.build()
        term = make_termination(self.term)
        leg = self
        if self.how == "minimize":
            from pymoo.core.callback import Callback
            from pymoo.optimize import minimize

            class Cb(Callback):
                def _update(self, algorithm):
                    leg.snap(algorithm)

                def __deepcopy__(self, memo):
                    return self
            self.res = minimize(self.prob, self.alg, term, callback=Cb(), **self.kw)
            self.alg = self.res.algorithm
        else:
            self.alg.setup(self.prob, termination=term, **self.kw)
            if self.how == "run":
                self.alg.callback = lambda a: leg.snap(a)
                self.res = self.alg.run()
            else:
                while self.alg.has_next():
                    if self.how == "next":
                        self.alg.next()
                    else:
                        infills = self.alg.ask()
                        if infills is not None:
                            self.alg.evaluator.eval(self.alg.problem, infills, algorithm=self.alg)
                        self.alg.tell(infills=infills)
                    leg.snap(self.alg)
                self.res = self.alg.result()
        self.T.append(D.result_state(self.res))


def exc_where(e):
    import traceback
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if "/pymoo/" in f.filename:
            return "%s:%s" % (f.filename.split("/pymoo/")[-1], f.name)
    return "?"
