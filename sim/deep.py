"""A structural fingerprint of an object graph: what a user could notice to have changed."""
import types

import numpy as np

SKIP_TYPES = (types.ModuleType, types.GeneratorType, np.random.Generator, np.random.BitGenerator)


def walk(o, memo=None, depth=0):
    """A nested tuple; equal before and after means unchanged."""
    memo = {} if memo is None else memo
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return (type(o).__name__, repr(o))
    if isinstance(o, np.random.Generator):
        return ("rng", repr(o.bit_generator.state))
    if isinstance(o, np.generic):
        return ("np", o.dtype.str, repr(o.item()))
    if id(o) in memo:
        return ("@", memo[id(o)][0])
    memo[id(o)] = (len(memo), o)      # keeps it alive: an identity must not be used twice
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type, types.MethodType)):
        return ("fn", getattr(o, "__qualname__", "?"))
    if isinstance(o, SKIP_TYPES):
        return ("skip", type(o).__name__)
    if isinstance(o, np.ndarray) and o.dtype != object:
        own = walk(o.__dict__, memo, depth + 1) if hasattr(o, "__dict__") else ()
        return ("arr", o.dtype.str, o.shape, o.tobytes(), own)
    if isinstance(o, np.ndarray):
        return ("oarr", type(o).__name__, o.shape, tuple(walk(e, memo, depth + 1) for e in o.ravel().tolist()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(walk(e, memo, depth + 1) for e in o))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(repr(walk(e, memo, depth + 1)) for e in o)))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), walk(v, memo, depth + 1)) for k, v in sorted(o.items(), key=lambda kv: repr(kv[0]))))
    d = getattr(o, "__dict__", None)
    if d is None:
        return ("obj", type(o).__name__)
    return ("obj", type(o).__name__, walk(d, memo, depth + 1))


def diff(a, b, path=""):
    """The place where two fingerprints differ; attributes that only appeared (caches) do not count."""
    if a == b:
        return None
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or not a or not b or a[0] != b[0]:
        return "%s: %s -> %s" % (path or ".", str(a)[:120], str(b)[:120])
    if a[0] == "obj" and len(a) == len(b) == 3 and a[1] == b[1]:
        return diff(a[2], b[2], path + "<%s>" % a[1])
    if a[0] == "dict":
        db = dict(b[1])
        for k, v in a[1]:
            if k not in db:
                return "%s.%s disappeared" % (path, k)
            d = None if k in ("'cache'", "'_cache'") else diff(v, db[k], path + "." + k.strip("'"))
            if d:
                return d
        return None
    if a[0] in ("list", "tuple", "oarr") and len(a[-1]) == len(b[-1]):
        for i, (x, y) in enumerate(zip(a[-1], b[-1])):
            d = diff(x, y, path + "[%d]" % i)
            if d:
                return d
        return None
    if a[0] == "@" and b[0] == "@":
        return None       # numbering of shared objects shifts when something was added
    return "%s: %s -> %s" % (path or ".", str(a)[:120], str(b)[:120])
