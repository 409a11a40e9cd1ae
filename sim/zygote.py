"""A simulation process factory.

Imports everything once, then forks one child per simulated run: a run can neither see nor disturb
another one, a dying or stuck run is just a dead child. Frames are length-prefixed pickles on two
dedicated descriptors, so nothing a run prints can disturb the protocol."""
import os
import pickle
import resource
import select
import signal
import struct
import sys


def _read(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            return None
        out += c
    return out


def recv(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    b = _read(fd, struct.unpack("<Q", h)[0])
    return None if b is None else pickle.loads(b)


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _child(wfd, module, func, kwargs, mem):
    import importlib
    import traceback
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        mod = importlib.import_module(module)
        val = ("ok", getattr(mod, func)(**kwargs))
    except BaseException as e:       # the harness itself failed
        val = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
    try:
        send(wfd, val)
    except BaseException as e:
        try:
            send(wfd, ("error", "unsendable result: %r" % (e,)))
        except BaseException:
            pass
    os._exit(0)


def main():
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    from sim import bootstrap, seams
    bootstrap.enter()
    now = seams.real_time
    import numpy  # noqa: F401
    import sim.preload  # noqa: F401
    import gc
    gc.collect()
    gc.freeze()
    send(wfd, ("ready", os.getpid()))
    while True:
        job = recv(rfd)
        if job is None:
            return
        module, func, kwargs, timeout, mem = job
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(pr)
            os.close(rfd)
            os.close(wfd)
            os.setpgid(0, 0)
            _child(pw, module, func, kwargs, mem)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(pw)
        buf, t_end, timed_out = b"", now() + timeout, False
        while True:
            left = t_end - now()
            if left <= 0:
                timed_out = True
                break
            r, _, _ = select.select([pr], [], [], min(left, 5.0))
            if r:
                c = os.read(pr, 1 << 20)
                if not c:
                    break
                buf += c
        os.close(pr)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(pid, 0)
        if timed_out:
            res = ("timeout", "no result within %.0f s of real time" % timeout)
        elif len(buf) >= 8 and len(buf) == 8 + struct.unpack("<Q", buf[:8])[0]:
            res = pickle.loads(buf[8:])
        else:
            res = ("died", "simulation process ended without a result (status %s)" % st)
        send(wfd, res)


if __name__ == "__main__":
    main()
