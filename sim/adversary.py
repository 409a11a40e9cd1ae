"""A random generator whose draws are legal but hostile.

Every value it returns could have been returned by numpy's generator for some seed; the adversary just picks
the corners of the support far more often (0, the largest double below 1, ties, the extreme permutations,
far tails of the normal distribution)."""
import numpy as np

from sim.kernel import CUR

EPS0 = 2.0 ** -53


class AdversarialGenerator(np.random.Generator):
    """conf: {"p": probability that one draw call is corrupted, "kinds": [...], "seed": int}"""

    def __init__(self, bit_generator, conf):
        super().__init__(bit_generator)
        import random
        self._c = conf
        self._r = random.Random(repr(conf.get("seed")))

    def _hit(self, kind):
        if kind in self._c["kinds"] and self._r.random() < self._c["p"]:
            if CUR.active:
                CUR.fault("rng_" + kind)
            return True
        return False

    def _corners(self, a, vals):
        a = np.array(a, dtype=float, copy=True)
        flat = a.reshape(-1)
        mode = self._r.choice(["all", "some", "one"])
        if flat.size == 0:
            return a
        if mode == "all":
            flat[:] = self._r.choice(vals)
        elif mode == "one":
            flat[self._r.randrange(flat.size)] = self._r.choice(vals)
        else:
            for i in range(flat.size):
                if self._r.random() < 0.4:
                    flat[i] = self._r.choice(vals)
        return a

    def random(self, size=None, dtype=np.float64, out=None):
        v = super().random(size=size, dtype=dtype, out=out)
        if out is None and self._hit("uniform"):
            w = self._corners(v, [0.0, 1.0 - EPS0, 0.5, EPS0, 1e-9, 1 - 1e-9])
            return float(w) if size is None else w
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        v = super().uniform(low, high, size)
        if self._hit("uniform"):
            u = self._corners(np.zeros_like(v) + 0.5, [0.0, 1.0 - EPS0, 0.5, 1e-9])
            w = np.asarray(low) + u * (np.asarray(high) - np.asarray(low))
            return float(w) if np.ndim(v) == 0 else w
        return v

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        v = super().standard_normal(size=size, dtype=dtype, out=out)
        if out is None and self._hit("normal"):
            w = self._corners(v, [0.0, 6.5, -6.5, 3.0, -3.0, 1e-12])
            return float(w) if size is None else w
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        v = super().normal(loc, scale, size)
        if self._hit("normal"):
            z = self._corners(np.zeros_like(v), [0.0, 6.5, -6.5, 3.0, -3.0])
            w = np.asarray(loc) + z * np.asarray(scale)
            return float(w) if np.ndim(v) == 0 else w
        return v

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        v = super().integers(low, high, size=size, dtype=dtype, endpoint=endpoint)
        if self._hit("integer") and np.ndim(low) == 0 and (high is None or np.ndim(high) == 0):
            lo, hi = (0, low) if high is None else (low, high)
            hi = hi if endpoint else hi - 1
            pick = self._r.choice([int(lo), int(hi)])
            if size is None:
                return type(v)(pick)
            w = np.array(v, copy=True)
            if self._r.random() < 0.5:
                w[...] = pick
            elif w.size:
                w.reshape(-1)[self._r.randrange(w.size)] = pick
            return w
        return v

    def permutation(self, x, axis=0):
        v = super().permutation(x, axis=axis)
        if self._hit("permutation") and np.ndim(x) == 0:
            v = np.arange(int(x))
            return v[::-1].copy() if self._r.random() < 0.5 else v
        return v
