"""The simulation kernel: one PRNG, one virtual clock, one event log, fault counters."""
import hashlib
import random
from collections import Counter


class SimCrash(BaseException):
    """The simulated process dies here. Not an Exception on purpose: ordinary handlers must not see it."""


class VClock:
    """Virtual time. Every read moves it a little; jumps (forward or backward) hit wall time only."""

    def __init__(self, base=1_700_000_000.0, tick=1e-4):
        self.base, self.tick = base, tick
        self.t = 0.0          # monotonic virtual seconds
        self.skew = 0.0       # wall clock offset against monotonic time
        self.reads = 0
        self.jumps = {}       # read index -> wall delta
        self.on_read = None

    def _read(self):
        self.reads += 1
        self.t += self.tick
        d = self.jumps.get(self.reads)
        if d is not None:
            self.skew += d
            CUR.fault("clock_jump_back" if d < 0 else "clock_jump_forward")

    def wall(self):
        self._read()
        return self.base + self.t + self.skew

    def mono(self):
        self._read()
        return self.t

    def advance(self, d):
        self.t += max(0.0, d)


class Kernel:
    def __init__(self, seed=0, clock=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.clock = clock or VClock()
        self.faults = Counter()
        self.h = hashlib.sha256()
        self.n_events = 0
        self.log = []
        self.keep_log = True
        self.entropy_seed = 0     # stands for the operating system's entropy pool
        self.entropy_draws = 0
        self.adversary = None     # see seams.AdversarialGenerator
        self.states = set()
        self.bar = []             # what the progress bar was set to
        self.on_sleep = None      # what else happens while the (only) running thread sleeps

    def ev(self, *parts):
        self.n_events += 1
        s = "|".join(str(p) for p in parts)
        self.h.update(s.encode() + b"\n")
        if self.keep_log and len(self.log) < 4000:
            self.log.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def digest(self):
        return self.h.hexdigest()[:32]


class _Proxy:
    k = None

    def __getattr__(self, name):
        return getattr(_Proxy.k, name)

    @property
    def active(self):
        return _Proxy.k is not None


CUR = _Proxy()


class running:
    """Context manager: kernel `k` owns every seam inside the block."""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.prev = _Proxy.k
        _Proxy.k = self.k
        return self.k

    def __exit__(self, *a):
        _Proxy.k = self.prev
        return False
