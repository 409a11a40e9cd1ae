"""The driver of every check: plans -> simulated runs -> verdict, minimised replay file, evidence."""
import argparse
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

from sim import bootstrap, core
from sim.zygote import recv, send

VERIF = bootstrap.VERIF
HASHSEEDS = ("0", "1")
MEM = 6 << 30


class Zygote:
    def __init__(self, hs, tree, scratch):
        self.hs, self.tree, self.scratch = hs, tree, scratch
        self.p = None
        self.lock = threading.Lock()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = bootstrap.base_env(self.hs, VERIF_TREE=self.tree, VERIF_SCRATCH=self.scratch, TMPDIR=self.scratch,
                                 HOME=self.scratch)
        self.err = open(os.path.join(self.scratch, "zygote-%s-%d.err" % (self.hs, id(self))), "ab")
        self.p = subprocess.Popen([bootstrap.PYTHON, "-m", "sim.zygote", str(r1), str(w2)], pass_fds=(r1, w2), env=env,
                                  cwd=self.scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        m = recv(self.r)
        if m is None:
            raise core.HarnessError("simulation process did not start: " + open(self.err.name).read()[-2000:])

    def call(self, module, func, kwargs, timeout):
        if self.p is None:
            self.start()
        send(self.w, (module, func, kwargs, timeout, MEM))
        m = recv(self.r)
        if m is None:
            self.p = None
            return ("died", "zygote ended")
        return m

    def stop(self):
        if self.p is not None:
            os.close(self.w)
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            os.close(self.r)
            self.err.close()
            self.p = None


class Pool:
    def __init__(self, tree, scratch, n_per_hs):
        self.free = {hs: queue.Queue() for hs in HASHSEEDS}
        self.all = []
        for hs in HASHSEEDS:
            for _ in range(n_per_hs):
                z = Zygote(hs, tree, scratch)
                self.all.append(z)
                self.free[hs].put(z)
        errs = []

        def st(z):
            try:
                z.start()
            except Exception as e:
                errs.append(e)
        ts = [threading.Thread(target=st, args=(z,)) for z in self.all]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise core.HarnessError(str(errs[0]))

    def call(self, module, hs, func, timeout, kwargs):
        z = self.free[str(hs)].get()
        try:
            kind, val = z.call(module, func, kwargs, timeout)
        finally:
            self.free[str(hs)].put(z)
        if kind != "ok":
            raise core.HarnessError("%s: %s" % (kind, val))
        return val

    def stop(self):
        for z in self.all:
            z.stop()


class Check:
    def __init__(self, prop, tier, seed, jobs, plans=None, budget=None, verbose=False):
        self.prop, self.tier, self.seed, self.jobs = prop, tier, seed, jobs
        # not under /verif: nothing here is needed afterwards, and a check must not meet another one's files
        self.scratch = tempfile.mkdtemp(prefix="vsim-%s-" % prop)
        self.tree = bootstrap.prepare_tree(self.scratch)
        os.environ["VERIF_TREE"] = self.tree
        bootstrap.enter()
        self.mod_name = "sim.props." + prop.lower()
        self.mod = importlib.import_module(self.mod_name)
        self.n_plans = plans if plans is not None else self.mod.COUNT[tier]
        self.budget = budget or getattr(self.mod, "BUDGET", {"quick": 420, "thorough": 3000})[tier]
        self.timeout = getattr(self.mod, "TIMEOUT", 400)
        self.verbose = verbose
        self.t0 = time.time()
        self.pool = Pool(self.tree, self.scratch, max(1, jobs // 2))
        self.errors = []

    def close(self):
        self.pool.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def make_plan(self, i):
        p = self.mod.plan(core.plan_rng(self.prop, self.seed, i), i, self.tier)
        p.setdefault("hs", HASHSEEDS[i % 2])
        p["i"] = i
        return p

    def execute(self, plan, swap=False):
        """One simulated scenario; every leg runs in a forked child of its own."""
        def call(func, hs=None, **kwargs):
            h = plan["hs"] if hs is None else hs
            if swap:
                h = HASHSEEDS[1 - HASHSEEDS.index(str(h))]
            return self.pool.call(self.mod_name, h, func, self.timeout, kwargs)
        if hasattr(self.mod, "drive"):
            return self.mod.drive(plan, call)
        return call("run", plan=plan)

    # -- exploration --------------------------------------------------------------------------
    def explore(self):
        res = [None] * self.n_plans
        it = iter(range(self.n_plans))
        lock = threading.Lock()
        stop = threading.Event()

        def work():
            while not stop.is_set():
                with lock:
                    i = next(it, None)
                if i is None:
                    return
                if time.time() - self.t0 > self.budget:
                    return
                try:
                    plan = self.make_plan(i)
                    t0 = time.time()
                    res[i] = (plan, self.execute(plan))
                    if self.verbose and time.time() - t0 > 1.0:
                        print("  plan %d took %.1f s: %s" % (i, time.time() - t0, res[i][1]["sample"]), flush=True)
                    if res[i][1]["viol"] and sum(1 for r in res if r and any(
                            not self.is_known(v) for v in r[1]["viol"])) >= 6:
                        stop.set()
                except core.HarnessError as e:
                    with lock:
                        self.errors.append("plan %d: %s" % (i, e))
                        if len(self.errors) > 20:
                            stop.set()
                except Exception:
                    import traceback
                    with lock:
                        self.errors.append("plan %d: %s" % (i, traceback.format_exc()))
                        if len(self.errors) > 20:
                            stop.set()
        ts = [threading.Thread(target=work) for _ in range(self.jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return res

    def load_known(self):
        self.known = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k.get("property") == self.prop and k.get("status") == "known":
                        self.known.append(k)
        return self.known

    def is_known(self, v):
        return any(v["sig"] == k["sig"] for k in self.known)

    # -- minimisation ---------------------------------------------------------------------------
    def minimise(self, plan, sig, seconds=45, max_tries=160):
        t_end, best, tries = time.time() + seconds, plan, 0
        fn = getattr(self.mod, "shrinks", core.generic_shrinks)
        improved = True
        while improved and time.time() < t_end and tries < max_tries:
            improved = False
            cands = [c for c in fn(best) if core.plan_size(c) <= core.plan_size(best) + 2][:200]
            for lo in range(0, len(cands), self.jobs):
                if time.time() > t_end or tries > max_tries:
                    break
                batch = cands[lo:lo + self.jobs]
                got = [None] * len(batch)

                def one(j):
                    try:
                        got[j] = self.execute(batch[j])
                    except Exception:
                        got[j] = None
                ts = [threading.Thread(target=one, args=(j,)) for j in range(len(batch))]
                [t.start() for t in ts]
                [t.join() for t in ts]
                tries += len(batch)
                hit = next((batch[j] for j in range(len(batch)) if got[j] and any(v["sig"] == sig for v in got[j]["viol"])), None)
                if hit is not None:
                    best, improved = hit, True
                    break
        return best, tries

    def write_replay(self, plan, viol, n, original=None, out=None):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.seed, n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "sig": viol["sig"], "what": viol["what"], "plan": plan,
                       "unminimised_plan": original, "events": (out or {}).get("extra", {}).get("log", [])[-200:]}, f,
                      indent=1)
        return path


def replay(path, jobs=2):
    d = json.load(open(path))
    c = Check(d["property"], "quick", d.get("seed", 1), jobs, plans=0)
    try:
        c.load_known()
        out = c.execute(d["plan"])
        hit = [v for v in out["viol"] if v["sig"] == d["sig"]]
        for v in out["viol"]:
            print("  %s: %s" % (v["sig"], v["what"]))
        if hit:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("replay of %s: no violation (events digest %s)" % (path, out["digest"]))
        return 0
    except core.HarnessError as e:
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        return 2
    finally:
        c.close()


def run(prop, tier, seed, jobs, plans=None, budget=None, verbose=False):
    c = Check(prop, tier, seed, jobs, plans, budget, verbose)
    code = 0
    try:
        c.load_known()
        print("check %s tier=%s seed=%s plans=%d tree=%s" % (prop, tier, seed, c.n_plans,
                                                              "/repo" if c.tree == bootstrap.REPO else "rebuilt copy"), flush=True)
        # known findings are demonstrated on every run
        known_lines = []
        for k in c.known:
            try:
                out = c.execute(k["plan"])
                if any(v["sig"] == k["sig"] for v in out["viol"]):
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            except core.HarnessError as e:
                c.errors.append("known finding %s: %s" % (k["sig"], e))
        for line in known_lines:
            print(line, flush=True)

        res = c.explore()
        t_explore = time.time() - c.t0
        done = [r for r in res if r]
        found, seen = [], set()
        for plan, out in done:
            for v in out["viol"]:
                if not c.is_known(v) and v["sig"] not in seen:
                    seen.add(v["sig"])
                    found.append((plan, out, v))

        # determinism of the simulation itself: same plan, other process, other hash seed
        det_bad, det_n = [], 0
        if not found:
            step = max(1, len(done) // getattr(c.mod, "DET_SAMPLES", 12))
            for plan, out in done[::step]:
                try:
                    again = c.execute(plan, swap=True)
                except core.HarnessError as e:
                    c.errors.append("determinism re-run: %s" % e)
                    continue
                det_n += 1
                if again["digest"] != out["digest"] or [v["sig"] for v in again["viol"]] != [v["sig"] for v in out["viol"]]:
                    det_bad.append(plan["i"])

        reports = []
        for n, (plan, out, v) in enumerate(found[:3]):
            small, tries = c.minimise(plan, v["sig"]) if n == 0 else (plan, 0)
            final = None
            for cand in (small, plan):
                for _ in range(3):
                    try:
                        o = c.execute(cand)
                    except core.HarnessError:
                        continue
                    hit = [w for w in o["viol"] if w["sig"] == v["sig"]]
                    if hit:
                        final = (cand, hit[0], o)
                        break
                if final:
                    break
            if final is None:
                c.errors.append("violation %s of plan %d did not reproduce" % (v["sig"], plan["i"]))
                continue
            path = c.write_replay(final[0], final[1], n, plan, final[2])
            reports.append({"sig": v["sig"], "what": final[1]["what"], "replay": path, "plan_index": plan["i"],
                            "minimisation_runs": tries})
            print("  %s: %s" % (v["sig"], final[1]["what"]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        if reports:
            code = 1
        elif c.errors or det_bad:
            code = 2
        for e in c.errors[:5]:
            print("HARNESS ERROR: %s" % e, file=sys.stderr)
        if det_bad:
            print("HARNESS ERROR: simulation not deterministic for plans %s" % det_bad[:10], file=sys.stderr)

        write_evidence(c, done, reports, known_lines, det_n, det_bad, t_explore)
        print("%s: %d simulated scenarios in %.1f s, %d violation(s), %d harness error(s), determinism re-runs %d/%d equal"
              % (prop, len(done), t_explore, len(found), len(c.errors), det_n - len(det_bad), det_n))
        return code
    finally:
        c.close()


def write_evidence(c, done, reports, known_lines, det_n, det_bad, t_explore):
    faults, states, extra = Counter(), set(), Counter()
    sim_time = steps = nontriv = 0
    digests = set()
    fault_free = 0
    samples = []
    for plan, out in done:
        faults.update(out["faults"])
        states.update(out["states"])
        for k, v in out["extra"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                extra[k] += v
        sim_time += out["sim_time"]
        steps += out["steps"]
        if out["nontrivial"]:
            nontriv += 1
            digests.add(out["digest"])
        if not out["faults"]:
            fault_free += 1
        if out["sample"] and len(samples) < 8 and (plan["i"] % max(1, len(done) // 8) == 0):
            samples.append(out["sample"])
    hours = max(t_explore, 1e-6) / 3600.0
    runs = len(done) + extra.get("sub_runs", 0)
    cov = {
        "evaluations": len(done), "distinct_nontrivial": len(digests), "rule": c.mod.RULE, "samples": samples or ["(none)"],
        "simulated_runs": runs, "simulated_runs_per_hour": round(runs / hours), "seeds_per_hour": round(len(done) / hours),
        "simulated_time_s": round(sim_time, 3), "simulated_steps": steps,
        "faults_injected": dict(faults), "fault_free_scenarios": fault_free,
        "scenarios_with_faults": len(done) - fault_free,
        "distinct_states": len(states), "state_measure": getattr(c.mod, "STATE_MEASURE",
                                                               "digest of (algorithm, iteration, population, optimum) after each step"),
        "determinism_reruns": det_n, "determinism_mismatches": len(det_bad),
        "real_components": c.mod.REAL, "stub_components": c.mod.STUB,
        "counters": {k: v for k, v in extra.items()}, "plans_planned": c.n_plans, "harness_errors": len(c.errors),
        "known_findings_shown": known_lines,
    }
    ev = {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": getattr(c.mod, "LEVEL", "exploration"),
          "coverage": cov, "assumptions": getattr(c.mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - c.t0, 2),
          "violations": [{"sig": r["sig"], "what": r["what"], "replay": r["replay"]} for r in reports]}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % c.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, "%s.json" % c.prop))


def selftest():
    c = Check("C01", "quick", 1, 2, plans=0)
    try:
        plan = c.make_plan(7)
        a, b = c.execute(plan), c.execute(plan, swap=True)
        print("self test: tree %s, digests %s %s" % (c.tree, a["digest"], b["digest"]))
        return 0
    finally:
        c.close()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument("--plans", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="the simulator starts and repeats itself (setup_cmd)")
    a = ap.parse_args(argv)
    os.environ.update(bootstrap.ENV)
    try:
        if a.replay:
            return replay(a.replay)
        if a.selftest:
            return selftest()
        return run(a.property.upper(), a.tier, a.seed, max(2, a.jobs), a.plans, a.budget, a.v)
    except core.HarnessError as e:
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        return 2
