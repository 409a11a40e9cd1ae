"""Simulated processes on a simulated disk and network.

Every process of a scenario is a forked child that works on real files below a scratch directory. Before each call that touches the disk or
the network it stops and tells the parent, which schedules (one process moves at a time) and answers: go on, fail with this error, write only
so much, or die here (`_exit`: no handler, no clean-up). The parent keeps track of what was never synced, and on a power loss it takes that away.
The server is a script: the children talk to it through the real urllib / http.client on a fake socket."""
import builtins
import errno
import io
import json
import os
import random
import shutil
import socket
import tempfile

REAL = {n: getattr(os, n) for n in ("stat", "open", "close", "mkdir", "replace", "rename", "link", "remove", "unlink", "fsync", "fdatasync", "write", "fstat")}
REAL_OPEN = io.open
ERR = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE, "erofs": errno.EROFS, "edquot": errno.EDQUOT}


# ------------------------------------------------------------------------------------------------
# inside a process
# ------------------------------------------------------------------------------------------------

class Proc:
    def __init__(self, root, rx, tx):
        self.root = root
        self.rx, self.tx = os.fdopen(rx, "rb"), os.fdopen(tx, "wb", buffering=0)
        self.fds = {}

    def send(self, d):
        self.tx.write(json.dumps(d).encode() + b"\n")

    def ask(self, op, **kw):
        self.send(dict(kw, op=op))
        line = self.rx.readline()
        if not line:
            os._exit(1)
        v = json.loads(line)
        if v["do"] == "die" and not v.get("after"):
            os._exit(137)
        return v

    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def check(self, v):
        if v["do"] == "err":
            raise OSError(ERR[v["arg"]], os.strerror(ERR[v["arg"]]))
        if v["do"] == "interrupt":
            raise KeyboardInterrupt()
        return v

    def call(self, op, fn, *a, info=None, **kw):
        v = self.check(self.ask(op, **(info or {})))
        r = fn(*a, **kw)
        if v["do"] == "die":
            os._exit(137)
        return r

    def install(self, target):
        P, R = self, REAL

        def ino(path):
            try:
                return R["stat"](path).st_ino
            except OSError:
                return None

        def stat(path, *a, **kw):
            p = None if isinstance(path, int) else P.mine(path)
            return R["stat"](path, *a, **kw) if p is None else P.call("stat", R["stat"], path, *a, info={"path": p}, **kw)

        def open_fd(path, flags, *a, **kw):
            p = P.mine(path)
            if p is None:
                return R["open"](path, flags, *a, **kw)
            fd = P.call("open", R["open"], path, flags, *a, info={"path": p, "ino": ino(p) if flags & os.O_TRUNC else None}, **kw)
            P.fds[fd] = p
            return fd

        def close(fd):
            if fd in P.fds:
                p = P.fds.pop(fd)
                try:
                    v = P.ask("close", path=p)
                finally:
                    R["close"](fd)
                P.check(v)
                return None
            return R["close"](fd)

        def mkdir(path, *a, **kw):
            p = P.mine(path)
            return R["mkdir"](path, *a, **kw) if p is None else P.call("mkdir", R["mkdir"], path, *a, info={"path": p}, **kw)

        def two(op, name):
            def f(src, dst, *a, **kw):
                s, d = P.mine(src), P.mine(dst)
                if s is None and d is None:
                    return R[name](src, dst, *a, **kw)
                return P.call(op, R[name], src, dst, *a, info={"src": s, "dst": d, "ino": ino(s)}, **kw)
            return f

        def remove(path, *a, **kw):
            p = P.mine(path)
            return R["remove"](path, *a, **kw) if p is None else P.call("remove", R["remove"], path, *a, info={"path": p}, **kw)

        def sync(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            st = R["fstat"](n)
            return P.call("fsync", lambda: None, info={"ino": st.st_ino, "dir": (st.st_mode & 0o170000) == 0o040000})

        def write(fd, b):
            if fd not in P.fds:
                return R["write"](fd, b)
            return P.write(b, fd, lambda x: R["write"](fd, x))

        class File(io.FileIO):
            """Unbuffered file opened for writing."""

            def __init__(self, file, mode, **kw):
                self.p = P.fds.get(file) if isinstance(file, int) else P.mine(file)
                if not isinstance(file, int):
                    P.check(P.ask("open", path=self.p, ino=ino(self.p) if "w" in mode else None))
                super().__init__(file, mode, **kw)
                self.told = isinstance(file, int)

            def write(self, b):
                return P.write(bytes(b), self.fileno(), super().write)

            def truncate(self, *a):
                return P.call("truncate", super().truncate, *a, info={"ino": R["fstat"](self.fileno()).st_ino})

            def close(self):
                if self.closed:
                    return
                fd = self.fileno()
                P.fds.pop(fd, None)
                try:
                    v = P.ask("close", path=self.p)
                finally:
                    super().close()
                P.check(v)

        def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            inside = file in P.fds if isinstance(file, int) else P.mine(file) is not None
            if not inside or opener is not None:
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not any(c in mode for c in "wax+"):
                P.check(P.ask("open_r", path=P.fds.get(file) if isinstance(file, int) else P.mine(file)))
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd)
            raw = File(file, mode.replace("b", "").replace("t", ""), closefd=closefd)
            if "b" in mode and buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
            return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)

        os.stat, os.open, os.close, os.mkdir = stat, open_fd, close, mkdir
        os.replace, os.rename, os.link = two("rename", "replace"), two("rename", "rename"), two("link", "link")
        os.remove = os.unlink = remove
        os.fsync = os.fdatasync = sync
        os.write = write
        builtins.open = io.open = open_
        tempfile._os.stat, shutil._USE_CP_SENDFILE = os.stat, False
        socket.create_connection = lambda addr, *a, **kw: Sock(P, addr)
        for n in list(os.environ):
            if n.lower().endswith("_proxy"):
                del os.environ[n]

    def write(self, b, fd, real):
        v = self.check(self.ask("write", n=len(b), ino=REAL["fstat"](fd).st_ino))
        if v["do"] == "short" or v["do"] == "die":
            n = max(1, int(len(b) * v.get("arg", 0.5))) if len(b) else 0
            r = real(b[:n])
            if v["do"] == "die":
                os._exit(137)
            return r
        return real(b)


class Sock:
    def __init__(self, P, addr):
        self.P, self.req = P, b""
        v = P.ask("connect")
        if v["do"] == "err" or v["do"] == "interrupt":
            P.check(v)
        if v["do"] == "refused":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        if v["do"] == "dns":
            raise socket.gaierror(-2, "Name or service not known")
        if v["do"] == "timeout":
            raise TimeoutError("timed out")
        self.v = v

    def setsockopt(self, *a):
        pass

    settimeout = setsockopt

    def sendall(self, b):
        self.req += bytes(b)

    def makefile(self, mode="rb", *a, **kw):
        path = self.req.split(b" ")[1].decode()
        v = self.P.ask("request", path=path)
        return io.BufferedReader(Resp(self.P, bytes.fromhex(v["bytes"]), v.get("end", "eof"), v.get("chunk", 1000)), 256)

    def shutdown(self, *a):
        pass

    def close(self):
        pass


class Resp(io.RawIOBase):
    """What arrives from the server, chunk by chunk; then the connection ends as the script says."""

    def __init__(self, P, data, end, chunk):
        self.P, self.data, self.end, self.chunk, self.at = P, data, end, chunk, 0

    def readable(self):
        return True

    def readinto(self, buf):
        self.P.check(self.P.ask("recv"))
        n = min(len(buf), self.chunk, len(self.data) - self.at)
        if n == 0:
            if self.end == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if self.end == "timeout":
                raise TimeoutError("timed out")
            if self.end == "interrupt":
                raise KeyboardInterrupt()
            return 0
        buf[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n


# ------------------------------------------------------------------------------------------------
# the scheduler
# ------------------------------------------------------------------------------------------------

class Child:
    def __init__(self, pid, tx, rx, idx):
        self.pid, self.idx = pid, idx
        self.tx, self.rx = os.fdopen(tx, "wb", buffering=0), os.fdopen(rx, "rb")
        self.alive, self.msg = True, None

    def recv(self):
        line = self.rx.readline()
        self.msg = json.loads(line) if line else None
        if self.msg is None:
            self.reap()
        return self.msg

    def answer(self, v):
        self.tx.write(json.dumps(v).encode() + b"\n")

    def reap(self):
        if self.alive:
            self.alive = False
            self.tx.close()
            self.rx.close()
            os.waitpid(self.pid, 0)


def spawn(idx, root, body, others=()):
    """body(proc) runs in the child; what it returns is ignored, what it sends arrives as messages."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            for c in others:
                try:
                    c.tx.close()
                    c.rx.close()
                except Exception:
                    pass
            P = Proc(root, r1, w2)
            P.install(None)
            try:
                body(P)
            except BaseException as e:
                P.send({"op": "broken", "what": "%s: %s" % (type(e).__name__, e)})
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    c = Child(pid, w1, r2, idx)
    return c


class Disk:
    """What would survive a power loss."""

    def __init__(self, root):
        self.root, self.dirty, self.renames = root, set(), []

    def note(self, m):
        op, ino = m["op"], m.get("ino")
        if op == "write" or op == "truncate" or (op == "open" and ino):
            self.dirty.add(ino)
        elif op == "fsync":
            if m.get("dir"):
                self.renames = []
            else:
                self.dirty.discard(ino)
        elif op == "rename" and m.get("src") and m.get("dst"):
            old = None
            if os.path.exists(m["dst"]):
                with open(m["dst"], "rb") as f:
                    old = f.read()
            self.renames.append((m["src"], m["dst"], ino, old))

    def power_loss(self, rng):
        """Unsynced data is lost in part, renames that were not made durable may not have happened."""
        out = []
        for src, dst, ino, old in reversed(self.renames):
            if rng.random() < 0.25 and os.path.exists(dst) and os.stat(dst).st_ino == ino:
                os.rename(dst, src)
                if old is not None:
                    with open(dst, "wb") as f:
                        f.write(old)
                out.append("rename")
        for d, _, files in sorted(os.walk(self.root)):
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.stat(p).st_ino not in self.dirty:
                    continue
                how = rng.choice(["intact", "empty", "prefix", "zeros"])
                with open(p, "rb") as h:
                    b = h.read()
                k = rng.randint(0, len(b))
                new = {"intact": b, "empty": b"", "prefix": b[:k], "zeros": b[:k] + b"\0" * (len(b) - k)}[how]
                if new != b:
                    with open(p, "wb") as h:
                        h.write(new)
                    out.append(how)
        self.dirty, self.renames = set(), []
        return out


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return os.path.realpath(tempfile.mkdtemp(prefix="vp-sim-", dir=base))


__all__ = ["Proc", "spawn", "Disk", "scratch", "random"]
