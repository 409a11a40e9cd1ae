"""Global seams. They are installed once per process, before pymoo is imported, at the level of the
standard library / numpy (never at the level of pymoo's own names), so refactoring pymoo cannot move
code out from under them. With no kernel running every seam is transparent."""
import os
import time as _time

import numpy as np

from sim.kernel import CUR

REAL = {
    "time": _time.time, "monotonic": _time.monotonic, "perf_counter": _time.perf_counter,
    "process_time": _time.process_time, "sleep": _time.sleep, "time_ns": _time.time_ns,
    "default_rng": np.random.default_rng, "urandom": os.urandom,
}


def real_time():
    return REAL["time"]()


def _wall():
    return CUR.clock.wall() if CUR.active else REAL["time"]()


def _wall_ns():
    return int(CUR.clock.wall() * 1e9) if CUR.active else REAL["time_ns"]()


def _mono():
    return CUR.clock.mono() if CUR.active else REAL["monotonic"]()


def _perf():
    return CUR.clock.mono() if CUR.active else REAL["perf_counter"]()


def _proc():
    return CUR.clock.mono() if CUR.active else REAL["process_time"]()


def _sleep(d):
    if CUR.active:
        CUR.clock.advance(float(d))
        if CUR.on_sleep is not None:
            CUR.on_sleep(float(d))
    else:
        REAL["sleep"](d)


def _default_rng(seed=None):
    """numpy.random.default_rng; unseeded means 'operating-system entropy', which the kernel decides."""
    if CUR.active:
        if seed is None:
            k = CUR.__class__.k
            k.entropy_draws += 1
            seed = np.random.SeedSequence([k.entropy_seed, k.entropy_draws, 7919])
        k = CUR.__class__.k
        if k.adversary is not None and not isinstance(seed, np.random.Generator):
            from sim.adversary import AdversarialGenerator
            return AdversarialGenerator(np.random.PCG64(seed), k.adversary)
    return REAL["default_rng"](seed)


def _urandom(n):
    if CUR.active:
        k = CUR.__class__.k
        k.entropy_draws += 1
        import hashlib
        out = b""
        i = 0
        while len(out) < n:
            out += hashlib.sha256(("%s/%s/%s" % (k.entropy_seed, k.entropy_draws, i)).encode()).digest()
            i += 1
        return out[:n]
    return REAL["urandom"](n)


def install():
    _time.time = _wall
    _time.time_ns = _wall_ns
    _time.monotonic = _mono
    _time.perf_counter = _perf
    _time.process_time = _proc
    _time.sleep = _sleep
    np.random.default_rng = _default_rng
    os.urandom = _urandom
    import random
    random._urandom = _urandom
    _terminal()


class SimBar:
    """Stands for the terminal progress bar, which would start a thread of its own."""

    def __init__(self, *a, **kw):
        self.gen = self._gen()

    def _gen(self):
        def bar(value=None, *a, **kw):
            if CUR.active:
                CUR.__class__.k.bar.append(value)
        yield bar


def _terminal():
    try:
        import alive_progress
        alive_progress.alive_bar = SimBar
    except ImportError:
        pass


def set_ambient(seed):
    """Put the process-global generators into a state chosen by the plan."""
    import random
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)
