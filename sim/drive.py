"""Running one optimisation under the kernel and writing down everything observable about it."""
import hashlib

import numpy as np

from sim import problems as P


def b(x):
    """Bytes of a value, bit exact."""
    if x is None:
        return b"None"
    if isinstance(x, dict):
        return repr(P.key(x)).encode()
    a = np.asarray(x)
    if a.dtype == object:
        return repr([P.key(e) if isinstance(e, (dict, np.ndarray)) else P._scalar(e) if not isinstance(e, (list, tuple))
                     else str(e) for e in a.ravel().tolist()]).encode()
    if a.dtype.kind in "US":
        return repr(a.tolist()).encode()
    return a.dtype.kind.encode() + str(a.shape).encode() + np.ascontiguousarray(a).tobytes()


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\x00")
    return m.hexdigest()[:16]


def pop_digest(pop, what=("X", "F", "G", "H", "CV")):
    if pop is None:
        return "None"
    parts = [str(len(pop)).encode()]
    for ind in pop:
        for w in what:
            parts.append(b(ind.get(w)))
    return h(*parts)


def pop_view(pop, n=3):
    """Short human readable view for reports."""
    if pop is None:
        return None
    return [{"X": str(np.asarray(i.X).tolist() if not isinstance(i.X, dict) else i.X)[:120],
             "F": str(np.asarray(i.F).tolist())[:80]} for i in list(pop)[:n]]


def state(alg):
    """Everything a user can see of an algorithm between two iterations."""
    d = {"n_iter": alg.n_iter, "n_eval": int(alg.evaluator.n_eval),
         "pop": pop_digest(alg.pop), "opt": pop_digest(alg.opt),
         "terminated": bool(alg.termination.has_terminated()), "progress": b(getattr(alg.termination, "perc", None)).hex()}
    ar = alg.archive
    if ar is not None:
        d["archive"] = pop_digest(ar)
    return d


def result_state(res):
    d = {"pop": pop_digest(res.pop), "opt": pop_digest(res.opt), "success": res.success, "message": str(res.message)}
    for k in ("X", "F", "G", "H", "CV"):
        d[k] = h(b(getattr(res, k)))
    if res.archive is not None:
        d["archive"] = pop_digest(res.archive)
    return d


def first_diff(a, c, label=("A", "B")):
    """First position at which two histories of observations differ, or None."""
    for i in range(max(len(a), len(c))):
        x = a[i] if i < len(a) else "<nothing>"
        y = c[i] if i < len(c) else "<nothing>"
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                ks = [k for k in x if x.get(k) != y.get(k)] + [k for k in y if k not in x]
                return "step %d: %s differ: %s=%s %s=%s" % (i, ks, label[0], {k: x.get(k) for k in ks}, label[1],
                                                             {k: y.get(k) for k in ks})
            return "step %d: %s=%s %s=%s" % (i, label[0], str(x)[:300], label[1], str(y)[:300])
    return None
