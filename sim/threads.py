"""Threads under a deterministic scheduler.

Real threads run the real code, but only the one holding the baton moves. At every function call (or executed line) inside the
library the seeded scheduler may hand the baton to another thread, so that one seed is one exact interleaving."""
import random
import sys
import threading

from sim.kernel import CUR


class Scheduler:
    def __init__(self, seed, p, root, grain="call"):
        self.rng = random.Random("threads-%s" % seed)
        self.p, self.root, self.grain = p, root, grain
        self.ev = []
        self.alive = []
        self.cur = None
        self.switches = 0
        self.points = 0
        self.gap = self._gap()

    def _gap(self):
        # distance to the next preemption, geometric
        n = 1
        while self.rng.random() > self.p and n < 20000:
            n += 1
        return n

    def _safe(self, f):
        # never stop a thread that holds an interpreter-level lock (imports, logging)
        while f is not None:
            fn = f.f_code.co_filename
            if "importlib" in fn or fn.endswith("logging/__init__.py"):
                return False
            f = f.f_back
        return True

    def _point(self, frame):
        self.points += 1
        self.gap -= 1
        if self.gap > 0 or len(self.alive) < 2:
            return
        if not self._safe(frame):
            self.gap = 1
            return
        self.gap = self._gap()
        me = self.cur
        nxt = self.rng.choice([t for t in self.alive if t != me])
        self.switches += 1
        CUR.fault("thread_preemption")
        self._hand(nxt)
        self._await(me)

    def _hand(self, t):
        self.cur = t
        self.ev[t].set()

    def _await(self, me):
        self.ev[me].wait()
        self.ev[me].clear()

    def _profile(self, frame, event, arg):
        if event == "call" and self.root in frame.f_code.co_filename:
            self._point(frame)

    def _trace(self, frame, event, arg):
        if self.root not in frame.f_code.co_filename:
            return None
        if event == "line" or event == "call":
            self._point(frame)
        return self._trace

    def run(self, jobs):
        """Runs the callables to completion, returns their exceptions (or None)."""
        out = [None] * len(jobs)
        self.ev = [threading.Event() for _ in jobs]
        self.alive = list(range(len(jobs)))
        done = threading.Event()

        def body(i):
            self._await(i)
            if self.grain == "line":
                sys.settrace(self._trace)
            else:
                sys.setprofile(self._profile)
            try:
                jobs[i]()
            except BaseException as e:
                out[i] = e
            finally:
                sys.settrace(None)
                sys.setprofile(None)
                self.alive.remove(i)
                if self.alive:
                    self._hand(self.rng.choice(self.alive))
                else:
                    done.set()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        self._hand(self.rng.choice(self.alive))
        done.wait()
        for t in ts:
            t.join()
        return out
