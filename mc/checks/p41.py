"""P41: no function alters the data it is given.

Alphabet   every public array function and option branch (mc/table.py), with
           values of every kind (plain, with zeros, negative, outliers, NaN,
           constant, all zero), element types, writeable or read-only arrays;
           each array argument in turn of a wrong shape (error exits).
Oracle     deep snapshot of all arguments (bytes, lists, dictionaries) before
           the call; a read-only call returns what the writeable call did.
"""

import numpy as np

from mc import table
from mc.core import check, quiet, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of every public function x value "
             "kind x element type x writeability x wrong-shape argument, with "
             "a snapshot comparison of all arguments after every call")
LEVEL = "model_checking"
LEVEL_NOTE = ("all combinations of the listed alphabets for all functions of "
              "mc/table.py")
RULE = "state = (function, value kind, type, writeability, error exit)"
ASSUMPTIONS = ["small arrays; functions that need a GPU or an optional "
               "package are not called"]


def snap(o):
    if isinstance(o, np.ndarray):
        return ("array", o.shape, o.dtype.str, o.strides, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(x) for x in o])
    if isinstance(o, dict):
        return ("dict", [(k, snap(v)) for k, v in o.items()])
    return ("value", repr(o))


def where(a, b, path="argument"):
    """First place where two snapshots differ."""
    if a == b:
        return None
    if a[0] != b[0]:
        return path + " changed its type"
    if a[0] == "array":
        if a[1:4] != b[1:4]:
            return path + " changed its shape or type"
        return path + " changed its values"
    if a[0] == "dict":
        a, b = a[1], b[1]
        if [k for k, _ in a] != [k for k, _ in b]:
            return path + " changed its keys"
        for (k, x), (_, y) in zip(a, b):
            if x != y:
                return where(x, y, "%s[%r]" % (path, k))
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return path + " changed its length"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return where(x, y, "%s[%d]" % (path, i))
    return path + " changed"


def call(fn, args, kwargs):
    np.random.seed(1)
    try:
        with np.errstate(all="ignore"):
            return ("ok", quiet(fn, *args, **kwargs))
    except Exception as e:      # noqa: error exits count as well
        return ("error", type(e).__name__)


def alike(a, b, what):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        check(len(a) == len(b), what + ": lengths differ")
        for x, y in zip(a, b):
            alike(x, y, what)
    elif a is None or isinstance(a, (str, dict)):
        check(a == b, what)
    else:
        same(np.atleast_1d(a), np.atleast_1d(b), what, rtol=1e-6)


def one(ctx, name, rule, dtype):
    make = table.ENTRIES[name]
    out = []
    for lock in (False, True):
        D = table.Data(rule, dtype)
        fn, args, kwargs = make(D)
        if lock:
            for m in D.made:
                m.flags.writeable = False
        before = snap((args, kwargs))
        ctx.step()
        ctx.state((name, rule, dtype, lock))
        res = call(fn, args, kwargs)
        out.append(res)
        diff = where(before, snap((args, kwargs)))
        check(diff is None, "%s (0 = positional, 1 = named arguments), call "
              "ended with %s" % (diff, res[0]))
    if rule == "plain" and dtype in ("f4", "f8"):
        check(out[0][0] == "ok", "valid call ended with %s" %
              (out[0][1],))
    check(out[0][0] == out[1][0], "writeable arguments: %s, read-only "
          "arguments: %s" % tuple(o[0] if o[0] == "ok" else o[1]
                                  for o in out))
    if out[0][0] == "ok" and name not in table.RANDOM:
        alike(out[0][1], out[1][1], "read-only arguments change the result")
    return (name, out[0][0])


BREAK = {"short": lambda m: np.ascontiguousarray(m[1:]),
         "narrow": lambda m: np.ascontiguousarray(m[..., 1:]),
         "deep": lambda m: np.ascontiguousarray(np.stack([m, m])),
         "flat": lambda m: m.ravel().copy(),
         "empty": lambda m: m[:0].copy(),
         "text": lambda m: m.astype("U5")}


def replace(o, old, new):
    if o is old:
        return new
    if isinstance(o, list):
        return [replace(x, old, new) for x in o]
    if isinstance(o, tuple):
        return tuple(replace(x, old, new) for x in o)
    if isinstance(o, dict):
        return {k: replace(v, old, new) for k, v in o.items()}
    return o


def broken(ctx, name, how):
    """Each array argument in turn has a wrong shape."""
    make = table.ENTRIES[name]
    out = []
    n = len(_arrays(make(table.Data())[1:]))
    for j in range(n):
        fn, args, kwargs = make(table.Data("zeros"))
        old = _arrays((args, kwargs))[j]
        new = BREAK[how](old)
        args, kwargs = replace((args, kwargs), old, new)
        before = snap((args, kwargs))
        ctx.step()
        ctx.state((name, how, j))
        res = call(fn, args, kwargs)
        diff = where(before, snap((args, kwargs)))
        check(diff is None, "%s after array %d was %s, call ended with %s" % (
            diff, j, how, res[0]))
        out.append(res[0])
    return (name, out)


def _arrays(o):
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (list, tuple)):
        return [m for x in o for m in _arrays(x)]
    if isinstance(o, dict):
        return [m for x in o.values() for m in _arrays(x)]
    return []


# numba kernels index arrays without bounds checks: wrong shapes given to
# them directly are outside of the property (undefined reads).
UNCHECKED = ("back_projection_cpu", "vertical_back_projection_cpu",
             "vertical_back_projection_cpu_chunk")


def run(ctx):
    dtypes = ctx.pick(("f4", "f8"), ("f4", "f8", "f2", "u2", "i4", "u1"))
    for name in sorted(table.ENTRIES):
        for rule in table.RULES:
            for dtype in dtypes:
                if dtype == "f8" and not ctx.thorough and rule not in (
                        "plain", "zeros", "negative"):
                    continue
                ctx.case("call/%s/%s/%s" % (name, rule, dtype), one, ctx,
                         name, rule, dtype)
        if name.split("/")[0] in UNCHECKED:
            continue
        for how in ctx.pick(("narrow", "deep"), tuple(BREAK)):
            ctx.case("wrong/%s/%s" % (name, how), broken, ctx, name, how)
