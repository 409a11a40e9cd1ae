"""C15: the data cache never serves broken data."""
import hashlib
import os
import random
import shutil

from sim import core, drive as D, kernel as K, procs

COUNT = {"quick": 900, "thorough": 30000}
RULE = "a scenario counts when at least one download took place and faults, crashes or a second process came in its way"
REAL = ["pymoo.util.remote.Remote", "urllib, http.client, tempfile, os, io, numpy.loadtxt, json"]
STUB = ["the data server and the socket (scripted)", "what a power loss leaves of unsynced data (model on real files in a scratch directory)", "scheduling of the processes"]
STATE_MEASURE = "digest of (process, disk or network operation, answer) sequence"
BROKEN = ["refused", "dns", "timeout", "404", "500", "cut", "reset", "stall", "interrupt", "garbage", "empty"]
DISK = ["enospc", "eio", "eacces", "emfile", "erofs", "edquot"]
FILES = [["pymoo", "pf", "carside.pf"], ["pymoo", "pf", "MW", "MW5.pf"], ["x.json"], ["pymoo", "big.pf"]]


def plan(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    files = rng.sample(range(len(FILES)), rng.choice([1, 1, 2]))
    p = {"seed": rng.randrange(10 ** 6), "procs": [[[rng.choice(files), rng.choice(["numpy", "path", "path"])] for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)],
         "net": [], "faults": [], "chunk": rng.choice([100, 1000, 10 ** 6]), "bundled": rng.random() < 0.08, "made": rng.random() < 0.3}
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            p["net"].append([rng.randrange(0, 5), rng.choice(BROKEN), rng.random()])
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        kind = rng.choice(["disk", "disk", "die", "die", "die", "power", "power", "short", "interrupt"])
        at = rng.randint(1, rng.choice([12, 25, 60]))
        if rng.random() < 0.5:      # at one of the few calls that matter most
            at = "%s:%d" % (rng.choice(["open", "write", "write", "close", "fsync", "rename", "rename", "recv", "remove"]), rng.choice([1, 1, 2, 3]))
        if kind == "power" and rng.random() < 0.4:
            at = "loaded:%d" % rng.choice([1, 1, 2, 3, 4])
        p["faults"].append([at, rng.choice(DISK) if kind == "disk" else kind, rng.random()])
    if tier != "quick" and rng.random() < 0.3:
        p["procs"] = p["procs"] + [[[rng.choice(files), "path"]] for _ in range(3)]
    return p


def content(j):
    r = random.Random("file-%d" % j)
    if FILES[j][-1].endswith(".json"):
        return ("{%s}" % ", ".join('"k%d": %r' % (i, r.random()) for i in range(40))).encode()
    n = {0: 12, 1: 60, 3: 900}[j]
    return "".join("%.17g %.17g\n" % (r.random(), r.random()) for _ in range(n)).encode()


def http(status, body, length=None):
    return ("HTTP/1.1 %s\r\nContent-Type: text/plain\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (status, len(body) if length is None else length)).encode() + body


class Sim:
    def __init__(self, plan, k):
        self.plan, self.k = plan, k
        self.rng = random.Random("sched-%s" % plan["seed"])
        self.root = procs.scratch()
        self.folder = os.path.join(self.root, "home", "cache")
        self.package = os.path.join(self.root, "package")
        self.disk = procs.Disk(self.root)
        self.net = {}
        for c, kind, arg in plan["net"]:
            self.net.setdefault(c, (kind, arg))
        self.faults = {}
        for at, kind, arg in plan["faults"]:
            self.faults.setdefault(at, (kind, arg))
        self.ops, self.conns, self.log, self.viol = 0, 0, [], []
        self.downloads = 0
        self.count = {}
        self.quiet = False
        self.hurt = {}            # process -> a fault was handed to it during its current load
        self.served = {}

    def bad(self, sig, what):
        self.viol.append((sig, what))

    # -- the processes ------------------------------------------------------------------------
    def body(self, loads):
        server, folder, package = "http://data.sim/main/", self.folder, self.package

        def f(P):
            from pymoo.util.remote import Remote
            for n, (j, to) in enumerate(loads):
                P.ask("begin", n=n, file=j)
                out = {"op": "loaded", "n": n, "file": j, "to": to}
                try:
                    r = Remote(server, folder, package).load(*FILES[j], to="json" if FILES[j][-1].endswith("json") and to == "numpy" else to)
                    if to == "path":
                        with procs.REAL_OPEN(r, "rb") as h:
                            out["digest"] = hashlib.sha256(h.read()).hexdigest()
                    else:
                        out["digest"] = hashlib.sha256(value(r)).hexdigest()
                    out["ok"] = True
                except BaseException as e:
                    out.update(ok=False, type=type(e).__name__, os=isinstance(e, OSError), exc=isinstance(e, Exception), msg=str(e)[:200])
                P.ask(**out)
        return f

    def phase(self, work):
        """Runs the processes of one phase to their end under the seeded scheduler."""
        live = []
        for idx, loads in work:
            c = procs.spawn(idx, self.root, self.body(loads), live)
            live.append(c)
            self.hurt[idx] = False
        for c in live:
            c.recv()
        while any(c.alive for c in live):
            c = self.rng.choice([c for c in live if c.alive])
            v = self.judge(c)
            if v == "power":
                for d in live:
                    if d.alive:
                        d.answer({"do": "die"})
                        d.rx.readline()
                        d.reap()
                lost = self.disk.power_loss(random.Random("power-%s-%d" % (self.plan["seed"], self.ops)))
                self.log.append(("power", lost))
                for x in lost:
                    self.k.fault("lost_" + x)
                self.look("after the power loss", strict=False)
                return
            c.answer(v)
            c.recv()
            if self.ops > 4000:
                raise RuntimeError("runaway")
            self.look("after operation %d (%s of process %d)" % (self.ops, self.log[-1][1] if self.log else "", c.idx))

    def judge(self, c):
        m, idx = c.msg, c.idx
        op = m["op"]
        if op == "begin":
            self.hurt[idx] = False
            return {"do": "go"}
        if op == "loaded":
            self.loaded(idx, m)
            self.count[op] = self.count.get(op, 0) + 1
            if not self.quiet and self.faults.pop("loaded:%d" % self.count[op], ("",))[0] == "power":
                self.k.fault("power_loss")
                self.log.append((idx, op, "power"))
                return "power"
            return {"do": "go"}
        if op == "broken":
            raise RuntimeError("process %d: %s" % (idx, m["what"]))
        self.ops += 1
        self.count[op] = self.count.get(op, 0) + 1
        f = None if self.quiet else self.faults.pop(self.ops, None) or self.faults.pop("%s:%d" % (op, self.count[op]), None)
        v = {"do": "go"}
        if f:
            kind, arg = f
            if kind == "power":
                self.k.fault("power_loss")
                self.log.append((idx, op, "power"))
                return "power"
            if kind == "die":
                self.k.fault("process_killed")
                v = {"do": "die", "after": op not in ("write", "connect", "request", "recv") and arg < 0.5, "arg": arg}
                if op == "write":
                    v["after"] = True
                if v["after"]:
                    self.disk.note(m)
            elif kind == "short":
                if op == "write" and m["n"] > 1:
                    self.k.fault("short_write")
                    v = {"do": "short", "arg": arg}
            elif kind == "interrupt":
                if op in ("recv", "connect", "write"):
                    self.k.fault("interrupt")
                    v, self.hurt[idx] = {"do": "interrupt"}, True
            elif op in ("open", "mkdir", "write", "rename", "fsync", "close", "remove") and not (kind == "emfile" and op != "open"):
                self.k.fault("disk_" + kind)
                v, self.hurt[idx] = {"do": "err", "arg": kind}, True
                if op == "remove":
                    self.hurt[idx] = "remove"
        if v["do"] in ("go", "short"):
            self.disk.note(m)
        if op == "connect" and v["do"] == "go":
            v = self.connect(idx)
        elif op == "request":
            v = self.request(idx, m["path"])
        self.log.append((idx, op, v["do"]))
        return v

    def connect(self, idx):
        kind = None if self.quiet else self.net.get(self.conns)
        self.conns += 1
        self.served[idx] = kind
        if kind:
            self.k.fault("net_" + kind[0])
            self.hurt[idx] = self.hurt[idx] or True
            if kind[0] in ("refused", "dns", "timeout"):
                return {"do": kind[0]}
        return {"do": "go"}

    def request(self, idx, path):
        name = path[len("/main/"):] if path.startswith("/main/") else path
        j = [n for n, f in enumerate(FILES) if "/".join(f) == name]
        kind = self.served.get(idx)
        v = {"do": "go", "chunk": self.plan["chunk"]}
        if not j:
            self.bad("wrong-url", "%r was requested" % path)
            v["bytes"] = http("404 Not Found", b"no").hex()
            return v
        full = http("200 OK", content(j[0]))
        head = full.index(b"\r\n\r\n") + 4
        self.downloads += 1
        if not kind:
            v["bytes"] = full.hex()
            return v
        kind, arg = kind
        if kind in ("404", "500"):
            v["bytes"] = http({"404": "404 Not Found", "500": "500 Internal Server Error"}[kind], b"<html>broken</html>").hex()
        elif kind == "garbage":
            v["bytes"] = b"\x00\xff garbage\r\n".hex()
        elif kind == "empty":
            v["bytes"] = ""
        else:
            # a connection closed cleanly within the headers looks to http.client like a complete answer without a length
            early = arg < 0.3 and kind != "cut"
            cut = int(arg * (len(full) - 1)) if early else head + int(max(0.0, arg - 0.3) / 0.7 * (len(full) - head - 1))
            v.update(bytes=full[:cut].hex(), end={"cut": "eof", "reset": "reset", "stall": "timeout", "interrupt": "interrupt"}[kind])
        return v

    # -- the checks ---------------------------------------------------------------------------
    def loaded(self, idx, m):
        j = m["file"]
        where = "%s in process %d" % ("/".join(FILES[j]), idx)
        self.log.append((idx, "loaded", m["ok"]))
        if m["ok"]:
            b = content(j)
            want = b if m["to"] == "path" else reference(j)
            if m["digest"] != hashlib.sha256(want).hexdigest():
                self.bad("broken-data", "%s (%s) was served with a content that is not the remote one" % (where, m["to"]))
        elif not self.hurt[idx]:
            self.bad("failed", "%s failed although nothing went wrong for this process: %s %s" % (where, m["type"], m["msg"]))
        elif m["exc"] and not m["os"]:
            self.bad("error-type", "%s failed with %s instead of an OSError: %s" % (where, m["type"], m["msg"]))
        if not m["ok"] and self.hurt[idx] != "remove":
            # others may be in the middle of a download of their own
            if len(self.active) == 1:
                left = [f for _, _, fs in os.walk(self.folder) for f in fs if f not in self.names and f not in self.debris]
                if left:
                    self.bad("left-over", "%s failed (%s) and left %s behind" % (where, m["type"], "a partial file"))

    def look(self, when, strict=True):
        for j, f in enumerate(FILES):
            p = os.path.join(self.folder, *f)
            if os.path.exists(p):
                with open(p, "rb") as h:
                    b = h.read()
                if b != content(j) and not self.viol:
                    self.bad("broken-cache", "%s: the cache holds %s with %d of %d bytes, %s" % (
                        when, "/".join(f), len(b), len(content(j)), "all of them" if len(b) == len(content(j)) else "incomplete"))

    def go(self):
        plan = self.plan
        self.names = {f[-1] for f in FILES}
        if plan["made"]:
            os.makedirs(self.folder)
        if plan["bundled"]:
            j = plan["procs"][0][0][0]
            p = os.path.join(self.package, *FILES[j])
            os.makedirs(os.path.dirname(p))
            with open(p, "wb") as f:
                f.write(content(j))
        self.debris = set()
        self.active = [i for i, _ in enumerate(plan["procs"])]
        self.phase([(i, loads) for i, loads in enumerate(plan["procs"])])
        # everyone comes back after a crash and tries again, faults may go on
        self.debris = {f for _, _, fs in os.walk(self.folder) for f in fs if f not in self.names}
        if not self.viol:
            self.active = list(range(len(plan["procs"])))
            self.phase([(100 + i, loads) for i, loads in enumerate(plan["procs"][:2])])
        # the faults stop: from now on everything has to work
        self.quiet = True
        self.debris = {f for _, _, fs in os.walk(self.folder) for f in fs if f not in self.names}
        need = sorted({j for loads in plan["procs"] for j, _ in loads})
        if not self.viol:
            self.active = [0]
            self.phase([(200, [[j, "path"] for j in need] + [[j, "numpy"] for j in need])])
        if not self.viol:
            before = self.conns
            self.phase([(300, [[j, "path"] for j in need])])
            if self.conns != before:
                self.bad("not-cached", "files that were just loaded were downloaded again")
        return self


def value(r):
    import numpy as np
    return repr(sorted(r.items())).encode() if isinstance(r, dict) else np.asarray(r, dtype=float).tobytes()


def reference(j):
    import io
    import json

    import numpy as np
    b = content(j)
    return value(json.loads(b)) if FILES[j][-1].endswith("json") else value(np.loadtxt(io.BytesIO(b)))


def run(plan):
    k = K.Kernel(1)
    import pymoo.util.remote  # noqa: F401
    s = Sim(plan, k)
    try:
        with K.running(k):
            s.go()
    finally:
        shutil.rmtree(s.root, ignore_errors=True)
    viol = [core.V(a, b) for a, b in s.viol[:2]]
    trace = [str(x).replace(s.root, "") for x in s.log]
    nontrivial = s.downloads > 0 and (len(plan["procs"]) > 1 or bool(k.faults))
    return core.outcome(viol, D.h(repr(trace)), dict(k.faults), [D.h(repr(trace[:n])) for n in range(0, len(trace), 10)], nontrivial, k.clock.t, s.ops, "/".join(FILES[plan["procs"][0][0][0]]),
                        {"operations": s.ops, "downloads": s.downloads, "processes": len(plan["procs"])})


def shrinks(plan):
    out = []
    for key in ("faults", "net"):
        for n in range(len(plan[key])):
            out.append(dict(plan, **{key: plan[key][:n] + plan[key][n + 1:]}))
    for n in range(len(plan["procs"])):
        if len(plan["procs"]) > 1:
            out.append(dict(plan, procs=plan["procs"][:n] + plan["procs"][n + 1:]))
        if len(plan["procs"][n]) > 1:
            out.append(dict(plan, procs=plan["procs"][:n] + [plan["procs"][n][:-1]] + plan["procs"][n + 1:]))
    return out
