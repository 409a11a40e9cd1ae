"""Deterministic problems whose every evaluation is recorded row by row.

Values are computed one row at a time with plain Python floats, so the value of a design does not
depend on the batch it was evaluated in, on the runner, or on the process."""
import math
import random

import numpy as np

from pymoo.core.problem import Problem
from pymoo.core.variable import Binary, Choice, Integer, Real


class Recorder:
    """Every row handed to the problem, in order. `current` is module global on purpose: it survives
    deep copies and pickling of the problem."""

    def __init__(self):
        self.rows = []           # (tag, key(x), F, G, H)
        self.batches = []        # (tag, n)
        self.on_row = None       # hook(tag, x) -> may raise / schedule
        self.on_batch = None
        self.enabled = True


class _Rec:
    cur = Recorder()


def rec():
    return _Rec.cur


def new_rec():
    _Rec.cur = Recorder()
    return _Rec.cur


def key(x):
    """Exact, hashable identity of a design."""
    if isinstance(x, dict):
        return tuple((k, _scalar(v)) for k, v in sorted(x.items()))
    a = np.asarray(x)
    if a.dtype == object:
        return tuple(_scalar(v) for v in a.tolist())
    return tuple(float(v) for v in a.ravel().tolist())


def _scalar(v):
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, float):
        return ("f", v)
    return ("o", str(v))


# ------------------------------------------------------------------------------------------------
# the objective / constraint functions
# ------------------------------------------------------------------------------------------------

class Func:
    """A small family of smooth / multimodal / plateaued functions, coefficients drawn from `fseed`."""

    def __init__(self, fseed, n_var, n_obj, n_ieq, n_eq, cmode="some", plateau=False, shift=0.0, deg=None):
        self.deg = deg
        r = random.Random("func-%s" % fseed)
        self.n_var, self.n_obj, self.n_ieq, self.n_eq = n_var, n_obj, n_ieq, n_eq
        self.c = [[r.uniform(0.1, 0.9) for _ in range(n_var)] for _ in range(n_obj)]
        self.a = [r.uniform(0.0, 0.4) for _ in range(n_obj)]
        self.w = [r.choice([3.0, 5.0, 9.0]) for _ in range(n_obj)]
        self.s = [r.choice([0.05, 1.0, 1.0, 1.0, 40.0]) for _ in range(n_obj)]
        self.g = [[r.uniform(0.15, 0.85) for _ in range(n_var)] for _ in range(n_ieq)]
        self.gr = [r.uniform(0.12, 0.2) for _ in range(n_ieq)]
        self.h = [[r.uniform(0.3, 0.7) for _ in range(n_var)] for _ in range(n_eq)]
        self.cmode, self.plateau, self.shift = cmode, plateau, shift
        # violations may be tiny or large, objectives far from zero
        q = random.Random("gscale-%s" % fseed)
        self.gs = [q.choice([1.0] * 6 + [1e-10, 1e3]) for _ in range(n_ieq)]
        self.off = [q.choice([0.0] * 6 + [-3.0, 1e5]) for _ in range(n_obj)]

    def __call__(self, u):
        """u: design normalised to [0, 1]^n (list of floats)."""
        n = max(1, len(u))
        F = []
        for j in range(self.n_obj):
            c = self.c[j]
            v = 0.0
            for i, x in enumerate(u):
                d = x - c[i]
                v += d * d + self.a[j] * 0.1 * (1.0 - (math.cos(self.w[j] * d) if math.isfinite(d) else 0.0))
            v = v / n * self.s[j] + self.shift
            v += self.off[j]
            if self.plateau:
                v = math.floor(v * 12.0) / 12.0 if math.isfinite(v) else v
            F.append(v)
        if self.deg and all(math.isfinite(v) for v in u):
            F = self.degenerate(u, F)
        G = []
        for j in range(self.n_ieq):
            d = sum((x - y) ** 2 for x, y in zip(u, self.g[j])) / n
            if self.cmode == "never":
                G.append(d + 0.01)
            elif self.cmode == "tight":
                G.append(d - self.gr[j] * 0.15)
            elif self.cmode == "always":
                G.append(d - 5.0)
            else:
                G.append(d - self.gr[j])
            G[j] *= self.gs[j]
        H = []
        for j in range(self.n_eq):
            v = sum((x - y) for x, y in zip(u, self.h[j])) / n
            H.append(v if self.cmode != "never" else v + 7.0)
        return F, G, H


def _degenerate(self, u, F):
    """Objectives without the shape algorithms would like them to have."""
    d = self.deg
    if d == "const":
        return [1.25] * len(F)
    if d == "zero":
        return [0.0] * len(F)
    if d == "equal":                    # all objectives agree: one best design
        return [F[0]] * len(F)
    if d == "one_const":
        return [3.0] + F[1:]
    if d == "line":                     # every design is non-dominated
        return [u[0], 1.0 - u[0]] + [0.5] * (len(F) - 2) if len(F) > 1 else [u[0]]
    if d == "two":                      # two values only
        return [1.0 if v > self.c[j][0] else 0.0 for j, v in enumerate((u * len(F))[:len(F)])]
    if d == "big":
        return [v * 1e150 for v in F]
    if d == "small":
        return [v * 1e-200 for v in F]
    if d == "neg":
        return [-1.0 - v for v in F]
    if d == "inf":                      # a simulation that failed is reported as infinitely bad
        bad = sum(u) * 7.0 % 1.0 < 0.3
        return [math.inf if bad else v for v in F]
    raise KeyError(d)


Func.degenerate = _degenerate


BOUNDS = {
    "unit": lambda i: (0.0, 1.0),
    "sym": lambda i: (-5.0, 5.0),
    "asym": lambda i: (-3.0 + i, 2.0 + 4.0 * i),
    "neg": lambda i: (-9.0 - i, -1.5),
    "tiny": lambda i: (0.25, 0.25 + 1e-3 * (i + 1)),
    "huge": lambda i: (-1e6, 3e6),
    "offs": lambda i: (1000.0, 1001.0 + i),
    "ugly": lambda i: (0.1 + 0.1 * i, 0.7 + 0.3 * i),
    "third": lambda i: (-1.0 / 3.0 - i, 1.0 / 7.0 + 0.3 * i),
    "lop": lambda i: (-1e9 * (i + 1), 1e-9),
    "far": lambda i: (-0.1, 1e9 / 3.0),
}


class SimProblem(Problem):
    """vtype: real | int | bin | perm."""

    def __init__(self, tag="p", fseed=0, n_var=3, n_obj=1, n_ieq=0, n_eq=0, cmode="some", plateau=False,
                 bounds="unit", vtype="real", fixed_dim=False, shift=0.0, deg=None, elementwise=False, **kwargs):
        if vtype == "real":
            B = [BOUNDS[bounds](i) for i in range(n_var)]
            xl, xu = np.array([b[0] for b in B]), np.array([b[1] for b in B])
            if fixed_dim:
                xu[-1] = xl[-1]
            vt = float
        elif vtype == "int":
            xl, xu = np.array([-(i % 3) * 2 for i in range(n_var)]), np.array([5 + 2 * (i % 4) for i in range(n_var)])
            vt = int
        elif vtype == "bin":
            xl, xu, vt = np.zeros(n_var), np.ones(n_var), bool
        else:
            xl, xu, vt = np.zeros(n_var), np.full(n_var, n_var - 1), int
        self.tag, self.kind = tag, vtype
        self.func = Func(fseed, n_var, n_obj, n_ieq, n_eq, cmode, plateau, shift, deg)
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, xl=xl, xu=xu,
                         vtype=vt, elementwise=elementwise, **kwargs)

    def unit(self, x):
        if self.kind == "perm":
            return [float(v) / max(1, self.n_var - 1) for v in x]
        out = []
        for i in range(self.n_var):
            lo, hi = float(self.xl[i]), float(self.xu[i])
            out.append((float(x[i]) - lo) / (hi - lo) if hi > lo else 0.0)
        return out

    def values(self, x):
        return self.func(self.unit(x))

    def _row(self, x):
        r = rec()
        if r.on_row is not None:
            r.on_row(self.tag, x)
        F, G, H = self.values(x)
        if r.enabled:
            r.rows.append((self.tag, key(x), tuple(F), tuple(G), tuple(H)))
        return F, G, H

    def _evaluate(self, x, out, *args, **kwargs):
        if self.elementwise:
            F, G, H = self._row(x)
            out["F"] = np.array(F)
            if self.n_ieq_constr:
                out["G"] = np.array(G)
            if self.n_eq_constr:
                out["H"] = np.array(H)
            return
        r = rec()
        if r.on_batch is not None:
            r.on_batch(self.tag, x)
        r.batches.append((self.tag, len(x)))
        V = [self._row(row) for row in x]
        out["F"] = np.array([v[0] for v in V])
        if self.n_ieq_constr:
            out["G"] = np.array([v[1] for v in V])
        if self.n_eq_constr:
            out["H"] = np.array([v[2] for v in V])


class SimMixed(Problem):
    def __init__(self, tag="p", fseed=0, n_obj=1, n_ieq=0, cmode="some", plateau=False, shape="full", deg=None,
                 elementwise=True, **kwargs):
        vars = {}
        q = random.Random("mixed-%s" % fseed)
        if shape in ("full", "nochoice"):
            vars["b"] = Binary()
            vars["y"] = Integer(bounds=q.choice([(-2, 9)] * 4 + [(0, 3), (100, 130)]))
            vars["z"] = Real(bounds=q.choice([(-1.5, 5.0)] * 4 + [(-0.1, 0.1), (1e4, 2e4)]))
        if shape == "full":
            vars["x"] = Choice(options=q.choice([["nothing", "multiply", "add"]] * 3 + [["add", "minus"], ["q", "nothing", "w", "e", "add"]]))
            vars["x2"] = Choice(options=[1, 2, "q"])
            vars["y2"] = Integer(bounds=(0, 2))
        if shape == "small":
            vars["b"] = Binary()
            vars["y"] = Integer(bounds=(0, 2))
            vars["x"] = Choice(options=["nothing", "multiply"])
        if shape == "optuna":
            vars["z"] = Real(bounds=(-1.5, 5.0))
            vars["y"] = Integer(bounds=(-2, 9))
        self.tag, self.kind = tag, "mixed"
        self.func = Func(fseed, len(vars), n_obj, n_ieq, 0, cmode, plateau, 0.0, deg)
        super().__init__(vars=vars, n_obj=n_obj, n_ieq_constr=n_ieq, elementwise=elementwise, **kwargs)

    def unit(self, x):
        out = []
        for name, var in self.vars.items():
            v = x[name]
            if isinstance(var, Binary):
                out.append(1.0 if v else 0.0)
            elif isinstance(var, Choice):
                opts = list(var.options)
                out.append([str(o) for o in opts].index(str(v)) / max(1, len(opts) - 1))
            else:
                lo, hi = var.bounds
                out.append((float(v) - lo) / (hi - lo))
        return out

    values = SimProblem.values
    _row = SimProblem._row
    _evaluate = SimProblem._evaluate


class SimDynamic(Problem):
    """Objectives depend on `time`; `tick` is the environment's business (the simulator's)."""

    def __init__(self, tag="p", fseed=0, n_var=4, n_obj=2, amp=0.5, bounds="unit", elementwise=False, **kwargs):
        B = [BOUNDS[bounds](i) for i in range(n_var)]
        self.tag, self.kind, self.amp = tag, "real", amp
        self.func = Func(fseed, n_var, n_obj, 0, 0)
        self._time = 0.0
        super().__init__(n_var=n_var, n_obj=n_obj, xl=np.array([b[0] for b in B]), xu=np.array([b[1] for b in B]),
                         vtype=float, elementwise=elementwise, **kwargs)

    @property
    def time(self):
        return self._time

    @time.setter
    def time(self, v):
        self._time = v

    unit = SimProblem.unit

    def values(self, x):
        F, G, H = self.func(self.unit(x))
        u = self.unit(x)
        t = self._time
        F = [f + self.amp * (1 + j) * t * (0.3 + u[(j + int(t)) % len(u)]) for j, f in enumerate(F)]
        return F, G, H

    _row = SimProblem._row
    _evaluate = SimProblem._evaluate


class Builtin(Problem):
    """One of the library's own test problems, recorded."""

    def __init__(self, name, tag="p", pkw=None, elementwise=False, **kwargs):
        from pymoo.problems import get_problem
        self.tag, self.kind = tag, "real"
        self.inner = get_problem(name, **(pkw or {}))
        p = self.inner
        super().__init__(n_var=p.n_var, n_obj=p.n_obj, n_ieq_constr=p.n_ieq_constr, n_eq_constr=p.n_eq_constr,
                         xl=p.xl, xu=p.xu, vtype=p.vtype, elementwise=elementwise, **kwargs)

    def values(self, x):
        o = self.inner.evaluate(np.array([x], dtype=float), return_values_of=["F", "G", "H"], return_as_dictionary=True)
        return o["F"][0].tolist(), o["G"][0].tolist(), o["H"][0].tolist()

    def _calc_pareto_front(self, *a, **k):
        return self.inner.pareto_front(*a, **k)

    _row = SimProblem._row
    _evaluate = SimProblem._evaluate


def build(spec, tag="p", **extra):
    s = dict(spec)
    kind = s.pop("kind")
    s.update(extra)
    if kind == "sim":
        return SimProblem(tag=tag, **s)
    if kind == "mixed":
        return SimMixed(tag=tag, **s)
    if kind == "dyn":
        return SimDynamic(tag=tag, **s)
    if kind == "builtin":
        return Builtin(tag=tag, **s)
    raise KeyError(kind)
