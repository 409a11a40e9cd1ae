"""Shared pieces of all checks: driver side calls, verdicts, generic shrinking."""
import copy
import random


class HarnessError(Exception):
    pass


def V(sig, what):
    """One violation: `sig` identifies the defect (stable across inputs), `what` describes this instance."""
    return {"sig": sig, "what": what[:1500]}


def outcome(viol=(), digest="", faults=None, states=(), nontrivial=True, sim_time=0.0, steps=0, sample="", extra=None):
    return {"viol": list(viol), "digest": digest, "faults": dict(faults or {}), "states": list(states)[:400],
            "nontrivial": bool(nontrivial), "sim_time": float(sim_time), "steps": int(steps), "sample": sample[:200],
            "extra": dict(extra or {})}


def plan_rng(prop, seed, i):
    return random.Random("%s/%s/%s" % (prop, seed, i))


# ------------------------------------------------------------------------------------------------
# generic shrinking: candidates that are one step simpler than `plan`
# ------------------------------------------------------------------------------------------------

def _set(plan, path, val):
    p = copy.deepcopy(plan)
    o = p
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = val
    return p


def _del(plan, path):
    p = copy.deepcopy(plan)
    o = p
    for k in path[:-1]:
        o = o[k]
    del o[path[-1]]
    return p


NO_SHRINK = {"seed", "fseed", "hs", "algo", "kind", "vtype", "_part", "plan_version", "name"}
MIN_INT = {"grid": 1, "max_size": 1, "truncate_size": 1, "n_gen": 1, "n_var": 1, "pop_size": 4, "n_obj": 1, "max": 1}


def generic_shrinks(plan, frozen=()):
    """Smaller plans: drop list elements, drop config keys, halve / decrement integers."""

    def walk(o, path):
        if isinstance(o, dict):
            for k in list(o):
                if k in NO_SHRINK or k in frozen:
                    continue
                v = o[k]
                if isinstance(v, list) and v and k in ("ops", "faults", "actions", "crashes", "steps", "jumps",
                                                       "pollute", "others", "events", "cuts"):
                    if len(v) > 3:
                        yield _set(plan, path + [k], v[:len(v) // 2])
                        yield _set(plan, path + [k], v[len(v) // 2:])
                    for i in range(len(v)):
                        yield _set(plan, path + [k], v[:i] + v[i + 1:])
                if path and path[-1] == "cfg" and k not in ("pop_size", "_dec"):
                    yield _del(plan, path + [k])
                if path and path[-1] == "problem" and k in ("n_ieq", "n_eq", "plateau", "cmode", "fixed_dim"):
                    yield _del(plan, path + [k])
                if k == "bounds" and v != "unit":
                    yield _set(plan, path + [k], "unit")
                if k == "elementwise" and v:
                    yield _set(plan, path + [k], False)
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and v > MIN_INT.get(k, 0):
                    lo = MIN_INT.get(k, 0)
                    for c in sorted({lo, (v + lo) // 2, v - 1}):
                        if c < v:
                            yield _set(plan, path + [k], c)
                if isinstance(v, (dict, list)):
                    yield from walk(v, path + [k])
        elif isinstance(o, list):
            for i, v in enumerate(o):
                if isinstance(v, (dict, list)):
                    yield from walk(v, path + [i])

    yield from walk(plan, [])


def plan_size(plan):
    import json
    return len(json.dumps(plan, sort_keys=True))
