"""Simulated worker pools behind the library's four parallel runners.

A pool owns W workers and a bag of tasks. Which task runs next, on which worker, how long it takes, whether the
worker dies before or after having computed, is decided by the kernel's seeded scheduler. Tasks and results cross
a (simulated) process boundary as bytes, unless the pool is a thread pool."""
import pickle
import random
import sys
import types

from sim.kernel import CUR
from sim.problems import rec


class WorkerDied(Exception):
    """What a user sees when a pool gives up on a task."""


class Pool:
    """conf: {seed, workers, codec: thread|pickle|dill|cloudpickle, order: fifo|lifo|random|slow_first,
    p_die_before, p_die_after}"""

    def __init__(self, conf):
        self.c = conf
        self.rng = random.Random("pool-%s" % conf["seed"])
        self.todo = []              # submitted, not finished
        self.order = []             # completion order, for the state measure
        self.n_out_of_order = 0
        self.seq = 0
        self.rows_lost = 0          # evaluations whose result was lost with the worker
        self.rows_shared = 0        # submissions answered by the future of an equal pure call
        codec = conf["codec"]
        if codec != "thread":
            mod = __import__(codec)
            self.dumps, self.loads = mod.dumps, mod.loads

    def submit(self, f, args, on_done=None):
        t = Task(self, self.seq, f, args, on_done)
        self.seq += 1
        self.todo.append(t)
        return t

    def step(self):
        """One task finishes."""
        if not self.todo:
            return False
        w = max(1, self.c["workers"])
        window = self.todo[:w] if self.c["order"] != "random" else self.todo[:max(w, len(self.todo))]
        o = self.c["order"]
        if o == "fifo":
            i = 0
        elif o == "lifo":
            i = len(window) - 1
        elif o == "slow_first":
            i = min(1, len(window) - 1)
        else:
            i = self.rng.randrange(len(window))
        t = self.todo[i]
        CUR.clock.advance(self.rng.choice([1e-3, 0.01, 1.0, 30.0]))
        if i:
            self.n_out_of_order += 1
            CUR.fault("out_of_order_completion")
        if t.tries < 3 and self.rng.random() < self.c["p_die_before"]:
            t.tries += 1
            CUR.fault("worker_crash_before_result")
            self.todo.append(self.todo.pop(i))
            return True
        die_after = t.tries < 3 and self.rng.random() < self.c["p_die_after"]
        before = len(rec().rows)
        t.execute()
        if die_after:
            t.tries += 1
            self.rows_lost += len(rec().rows) - before
            t.value = t.error = None
            CUR.fault("worker_crash_result_lost")
            self.todo.append(self.todo.pop(self.todo.index(t)))
            return True
        self.todo.remove(t)
        t.done = True
        self.order.append(t.no)
        if t.on_done:
            t.on_done(t)
        return True

    def wait(self, t):
        while not t.done:
            if not self.step():
                raise RuntimeError("simulated pool: nothing to run")
        return t


class Task:
    def __init__(self, pool, no, f, args, on_done):
        self.pool, self.no, self.on_done = pool, no, on_done
        self.tries, self.done, self.value, self.error = 0, False, None, None
        self.thread = pool.c["codec"] == "thread"
        self.job = (f, args) if self.thread else pool.dumps((f, args))

    def execute(self):
        f, args = self.job if self.thread else self.pool.loads(self.job)
        try:
            v = f(*args)
            self.value = v if self.thread else self.pool.loads(self.pool.dumps(v))
        except BaseException as e:
            self.error = e

    def result(self, timeout=None):
        self.pool.wait(self)
        if self.error is not None:
            raise self.error
        return self.value

    get = result

    def add_done_callback(self, fn):
        self.on_done = fn


# -- the four front ends ------------------------------------------------------------------------

def starmap(pool):
    def run(f, tasks):
        ts = [pool.submit(f, tuple(t)) for t in tasks]
        for t in ts:
            pool.wait(t)
        for t in ts:                 # like multiprocessing.Pool: the first failing task in order is reported
            if t.error is not None:
                raise t.error
        return [t.value for t in ts]

    def lazy(f, tasks):
        ts = [pool.submit(f, tuple(t)) for t in tasks]
        return (t.result() for t in ts)
    return lazy if pool.c.get("lazy") else run


class DaskClient:
    """distributed.Client as far as `submit` / `gather` / `map` go; equal pure calls share one future."""

    def __init__(self, pool):
        self.pool = pool
        self.keys = {}

    def submit(self, f, *args, pure=True, key=None, **kw):
        k = key
        if k is None and pure:
            import cloudpickle
            try:
                k = cloudpickle.dumps((f, args))
            except Exception:
                k = None
        if k is not None and k in self.keys and not self.keys[k].error:
            CUR.fault("shared_future")
            self.pool.rows_shared += 1
            return self.keys[k]
        t = self.pool.submit(lambda *a: f(*a, **kw), args) if self.pool.c["codec"] == "thread" else self.pool.submit(f, args)
        if k is not None:
            self.keys[k] = t
        return t

    def map(self, f, *its, **kw):
        return [self.submit(f, *a, **kw) for a in zip(*its)]

    def gather(self, futures, **kw):
        return [t.result() for t in futures]

    def scatter(self, x, **kw):
        return x


def ray_module(pool):
    m = types.ModuleType("ray")

    class Remote:
        def __init__(self, f):
            self.f = f

        def options(self, **kw):
            return self

        def remote(self, *args):
            return pool.submit(self.f, args)

    def get(x, timeout=None):
        if isinstance(x, list):
            return [t.result() for t in x]
        return x.result()

    def wait(refs, num_returns=1, timeout=None, **kw):
        refs = list(refs)
        while sum(t.done for t in refs) < min(num_returns, len(refs)):
            pool.step()
        # ready ones in the order they finished
        ready = sorted([t for t in refs if t.done], key=lambda t: pool.order.index(t.no))[:num_returns]
        return ready, [t for t in refs if t not in ready]
    m.remote = lambda f=None, **kw: Remote(f) if f is not None else Remote
    m.get, m.wait = get, wait
    m.put = lambda x: x
    m.init = lambda *a, **k: None
    m.is_initialized = lambda: True
    return m


def joblib_backend(pool, name="sim"):
    import joblib
    from joblib.parallel import ParallelBackendBase, register_parallel_backend

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = True
        uses_threads = True
        supports_sharedmem = True

        def effective_n_jobs(self, n_jobs):
            return max(1, pool.c["workers"])

        def submit(self, func, callback=None):
            return pool.submit(func, (), on_done=callback)

        def retrieve_result_callback(self, out):
            if out.error is not None:
                raise out.error
            return out.value

        def abort_everything(self, ensure_ready=True):
            pool.todo.clear()

        def get_nested_backend(self):
            from joblib._parallel_backends import SequentialBackend
            return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None
    register_parallel_backend(name, SimBackend)
    # whoever waits lets the workers run
    CUR.__class__.k.on_sleep = lambda d: pool.step()


def runner(kind, pool):
    if kind == "starmap":
        from pymoo.parallelization import StarmapParallelization
        return StarmapParallelization(starmap(pool))
    if kind == "dask":
        from pymoo.parallelization import DaskParallelization
        return DaskParallelization(DaskClient(pool))
    if kind == "ray":
        sys.modules["ray"] = ray_module(pool)
        from pymoo.parallelization import RayParallelization
        return RayParallelization()
    from pymoo.parallelization import JoblibParallelization
    joblib_backend(pool)
    return JoblibParallelization(n_jobs=max(1, pool.c["workers"]), backend="sim", **({"batch_size": pool.c["batch"]} if pool.c.get("batch") else {}))
