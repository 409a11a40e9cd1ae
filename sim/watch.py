"""An optimisation run watched from the outside: ask, evaluate, tell, with faults in between.

Faults: evaluation errors in the middle of a batch (the caller tries again), checkpoints (deepcopy / pickle) at iteration boundaries,
hostile draws (the kernel's adversary), other components using the process in between."""
import copy
import pickle
import random

from sim import drive as D, legs as L, problems as P, registry as R

PICKLES = {"plain": pickle}
NO_PICKLE = {"MOEAD", "NelderMead", "PatternSearch", "G3PCX", "CMAES", "SimpleCMAES", "BIPOPCMAES", "NicheGA", "AdaptiveEpsilon", "AdaptiveEpsilon-MO",
             "PINSGA2"}
NO_COPY = {"MOEAD", "NelderMead", "PatternSearch", "G3PCX", "CMAES", "SimpleCMAES", "BIPOPCMAES"}


class EvalError(Exception):
    """What a user's objective function may raise."""


def gen_faults(rng, name, n, p_adv=0.25, p_err=0.25, p_cut=0.3, p_poll=0.2):
    f = {}
    if rng.random() < p_adv:
        f["adv"] = {"p": rng.choice([0.02, 0.1, 0.4]), "seed": rng.randrange(10 ** 6),
                    "kinds": rng.choice([["uniform"], ["uniform", "normal"], ["uniform", "normal", "integer", "permutation"], ["integer", "permutation"]])}
    if rng.random() < p_err:
        f["errors"] = sorted(rng.sample(range(1, 80), rng.randint(1, 3)))
    if rng.random() < p_cut and name not in NO_COPY:
        f["cuts"] = [[rng.randint(1, n), rng.choice(["deepcopy"] if name in NO_PICKLE else ["deepcopy", "pickle"])] for _ in range(rng.randint(1, 2))]
    if rng.random() < p_poll:
        f["pollute"] = [[rng.randint(1, n), rng.choice(L.POLLUTIONS), rng.randrange(100)] for _ in range(rng.randint(1, 2))]
    return f


class Watch:
    def __init__(self, spec, k, term, faults=None, obs=None, setup_kw=None, max_steps=400, max_rows=6000, tag="p", prob=None, alg=None):
        self.spec, self.k, self.term, self.f, self.obs = spec, k, term, faults or {}, obs
        self.setup_kw, self.max_steps, self.max_rows = setup_kw or {}, max_steps, max_rows
        self.states, self.steps, self.iters = [], 0, 0
        self.prob = prob if prob is not None else R.make_problem(spec, tag=tag)
        self.alg = alg if alg is not None else R.make_algorithm(spec, self.prob)
        self.res = None
        self.rec = P.rec()
        self.at_iter = 0

    def values(self, x):
        """What the problem says about a design (not recorded, no faults)."""
        return self.prob.values(x)

    def go(self):
        k, rec = self.k, self.rec
        k.adversary = self.f.get("adv")
        errors = set(self.f.get("errors", ()))
        n = [0]
        prev = rec.on_row

        def on_row(tag, x):
            n[0] += 1
            if len(rec.rows) > self.max_rows:
                raise L.Runaway("evaluations")
            if n[0] in errors:
                k.fault("evaluation_error")
                raise EvalError("simulated")
            if prev:
                prev(tag, x)
        rec.on_row = on_row
        try:
            kw = dict(self.setup_kw)
            self.alg.setup(self.prob, termination=self.term, seed=self.spec["seed"], **kw)
            while self.alg.has_next():
                self._step()
                if self.steps > self.max_steps:
                    raise L.Runaway("steps")
            self.res = self.alg.result()
            if self.obs and hasattr(self.obs, "ended"):
                self.obs.ended(self, self.alg, self.res)
        finally:
            rec.on_row = prev
        return self

    def _retry(self, fn):
        for _ in range(6):
            try:
                return fn()
            except EvalError:
                continue
        return fn()

    def _step(self):
        alg, obs = self.alg, self.obs
        self.steps += 1
        old = None if alg.pop is None else list(alg.pop)
        infills = self._retry(alg.infill)
        if obs and hasattr(obs, "asked"):
            obs.asked(self, alg, infills, old)
        if infills is not None:
            self._retry(lambda: alg.evaluator.eval(alg.problem, infills, algorithm=alg))
        first = not alg.is_initialized
        alg.advance(infills=infills)
        new_iter = alg.n_iter != self.at_iter
        self.at_iter = alg.n_iter
        if new_iter:
            self.iters += 1
            self.states.append(D.h(repr(D.state(alg))))
        if obs and hasattr(obs, "told"):
            obs.told(self, alg, infills, old, new_iter, first)
        if new_iter:
            for at, how in self.f.get("cuts", ()):
                if at == self.iters:
                    self.k.fault("checkpoint_" + how)
                    self.alg = copy.deepcopy(alg) if how == "deepcopy" else pickle.loads(pickle.dumps(alg))
                    self.prob = self.alg.problem if hasattr(self.alg.problem, "values") else self.prob
                    if obs and hasattr(obs, "moved"):
                        obs.moved(self, self.alg)
            for at, kind, j in self.f.get("pollute", ()):
                if at == self.iters:
                    self.k.fault("pollute_" + kind)
                    L.pollute(kind, j)
