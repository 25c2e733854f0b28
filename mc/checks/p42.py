"""P42: results depend on the values only, not on storage or history.

Alphabet   every public array function and option branch (mc/table.py);
           storage of its arrays (C, Fortran, strided, reversed, offset in a
           larger array, byte order); element types that hold the same
           values; all ordered pairs of calls.
Oracle     the result of the same call on a plain C-ordered array, made in a
           process where nothing else ran before.
"""
import os
import pickle
import select

import numpy as np

from mc import table
from mc.core import check, quiet, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of storage layouts and element "
             "types for every public function, and of all ordered pairs of "
             "calls (an Eulerian walk over the complete digraph of calls), "
             "against results from fresh processes")
LEVEL = "model_checking"
LEVEL_NOTE = ("every function of mc/table.py under each layout and type; "
              "histories: every ordered pair of calls, each executed within "
              "one long walk")
RULE = "state = (call, layout, type) or (previous call, call)"
ASSUMPTIONS = ["small arrays; random functions are only used as "
               "predecessors"]


def _strided(v):
    big = np.full(tuple(2 * n + 1 for n in v.shape), -7, dtype=v.dtype)
    view = big[tuple(slice(1, None, 2) for _ in v.shape)]
    view[...] = v
    return view


def _reversed(v):
    return np.ascontiguousarray(v[tuple(slice(None, None, -1)
                                        for _ in v.shape)])[
        tuple(slice(None, None, -1) for _ in v.shape)]


def _offset(v):
    big = np.full(tuple(n + 3 for n in v.shape), -7, dtype=v.dtype)
    view = big[tuple(slice(1, n + 1) for n in v.shape)]
    view[...] = v
    return view


def _swapped(v):
    """The axes are stored in the opposite order: a transposed view."""
    return np.ascontiguousarray(v.T).T


def _mixed(v):
    """First two axes exchanged in memory (a moved axis of a stack)."""
    if v.ndim < 2:
        return v
    return np.ascontiguousarray(np.moveaxis(v, 0, -1)).transpose(
        (v.ndim - 1,) + tuple(range(v.ndim - 1)))


STORES = {"C": np.ascontiguousarray, "fortran": _swapped,
          "strided": _strided, "reversed": _reversed, "offset": _offset,
          "moved": _mixed}


# peak positions (and what is integrated from them): index of the shift maps
CHAOTIC = {"find_local_shifts": slice(0, 2),
           "find_local_shifts_umpa": slice(0, 2),
           "retrieve_phase_based_speckle_tracking": slice(0, 2)}
# grey levels are truncated
GREY = ("rescale", "rescale_dataset", "downsample_dataset")
# not made for integers (phases, coefficient maps), or with a documented
# dependence on the integer type (its full range is the grey scale)
FLOAT_ONLY = ("get_quality_map", "get_weight_mask",
              "unwrap_phase_based_cosine_transform",
              "unwrap_phase_based_fft", "unwrap_phase_iterative_fft",
              "locate_peak", "downsample_dataset", "rescale_dataset",
              "rescale")


def run_entry(name, rule="plain", dtype="f4", store=None):
    fn, args, kwargs = table.ENTRIES[name](table.Data(rule, dtype, store))
    try:
        with np.errstate(all="ignore"):
            return ("ok", quiet(fn, *args, **kwargs))
    except Exception as e:      # noqa
        return ("error", type(e).__name__ + ": " + str(e)[:100])


def near(v):
    """The value and calls with it changed a little."""
    if isinstance(v, (bool, np.bool_)):
        return [not v]
    if isinstance(v, (int, np.integer)):
        return [v + 1, v + 0.25] if v else []
    if isinstance(v, (float, np.floating)):
        return [v * 1.03 + 0.002, v * 0.999]
    if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size > 1:
        # two elements exchanged: the same sum, extremes and shape
        w = v.copy()
        f = w.reshape(-1)
        a, b = f.size // 3, f.size // 3 + f.size // 7 + 1
        f[[a, b]] = f[[b, a]]
        return [w, v[::-1].copy(), v * np.float32(1.01)]
    if isinstance(v, (list, tuple)) and len(v) < 9:
        return [type(v)(list(v[:i]) + [n] + list(v[i + 1:]))
                for i, x in enumerate(v) for n in near(x)]
    if isinstance(v, dict):
        return [dict(v, **{k: n}) for k, x in v.items() for n in near(x)]
    return []


def entry_after_near(name, rule):
    """The call after many others of the same function whose parameters
    differ in one place and by little."""
    fn, args, kwargs = table.ENTRIES[name](table.Data(rule))
    calls = [(args[:i] + (n,) + args[i + 1:], kwargs, a)
             for i, a in enumerate(args) for n in near(a)]
    calls += [(args, dict(kwargs, **{k: n}), a)
              for k, a in kwargs.items() for n in near(a)]
    # changed arrays last: those calls have the very parameters
    calls.sort(key=lambda c: isinstance(c[2], (np.ndarray, list, tuple)))
    for a, k, _ in calls:
        try:
            with np.errstate(all="ignore"):
                quiet(fn, *a, **k)
        except Exception:       # noqa
            pass
    return run_entry(name, rule)


def flatten(o):
    if isinstance(o, (list, tuple)):
        return [x for y in o for x in flatten(y)]
    if isinstance(o, dict):
        return [x for y in o.values() for x in flatten(y)]
    return [o]


def alike(name, got, want, what, rtol):
    check(got[0] == want[0], "%s: call ended with %s instead of %s" % (
        what, got[1] if got[0] == "error" else "ok",
        want[1] if want[0] == "error" else "ok"))
    if got[0] == "error":
        return
    a, b = flatten(got[1]), flatten(want[1])
    check(len(a) == len(b), what + ": number of results")
    name = name.split("/")[0]
    if name in CHAOTIC:
        # peaks between two pixels may flip at rounding level
        flips = 0
        for x, y in list(zip(a, b))[CHAOTIC[name]]:
            d = np.abs(np.asarray(x) - np.asarray(y)) > 1e-3
            check(np.mean(d) < 0.04, "%s: %d of %d shifts differ" % (
                what, d.sum(), d.size))
            flips += d.sum()
        if flips:
            return
    for x, y in zip(a, b):
        if x is None or isinstance(x, (str, bool)):
            check(x == y, "%s: %r, %r" % (what, x, y))
        else:
            same(np.atleast_1d(x), np.atleast_1d(y), what, rtol=rtol,
                 atol=1.01 if name in GREY else 1e-6)


def layouts(ctx, name):
    want = run_entry(name)
    check(want[0] == "ok", "valid call ended with %s" % (want[1],))
    for dtype in ("f4", "f8"):
        base = run_entry(name, dtype=dtype)
        for key, store in STORES.items():
            ctx.step()
            ctx.state((name, key, dtype))
            alike(name, run_entry(name, dtype=dtype, store=store), base,
                  "%s array of type %s" % (key, dtype), 1e-5)
    return name


def types(ctx, name):
    want = run_entry(name, dtype="f8")
    ctx.step(2)
    ctx.state((name, "f8"))
    alike(name, run_entry(name, dtype="f4"), want, "float32 against float64", 2e-3)
    if name.split("/")[0] in FLOAT_ONLY:
        return name
    want = run_entry(name, "ints", "i8")
    for dtype in ("i4", "u4", "i2", "u2"):
        ctx.step()
        ctx.state((name, dtype))
        alike(name, run_entry(name, "ints", dtype), want,
              "type %s against int64" % dtype, 2e-3)
    return name


FRESH = {}


def prepare(ctx):
    """Results of single calls, each in a process of its own (nothing was
    called in this process yet)."""
    if ctx.replay is not None and not ctx.replay.get("case", "").startswith(
            "history"):
        return
    todo = [(n, r) for n in sorted(table.ENTRIES)
            for r in ("plain", "extreme")]
    todo += [(n, "plain", "near") for n in sorted(table.ENTRIES)
             if n not in table.RANDOM]
    jobs = {}
    while todo or jobs:
        while todo and len(jobs) < 8:
            call = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    with os.fdopen(w, "wb") as fo:
                        pickle.dump(entry_after_near(*call[:2])
                                    if len(call) == 3 else run_entry(*call),
                                    fo)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            jobs[r] = (pid, call, [])
        for r in select.select(list(jobs), [], [])[0]:
            data = os.read(r, 1 << 20)
            pid, call, parts = jobs[r]
            parts.append(data)
            if not data:
                os.close(r)
                os.waitpid(pid, 0)
                FRESH[call] = pickle.loads(b"".join(parts))
                del jobs[r]


def nearby(ctx, name):
    ctx.step()
    ctx.state((name, "near"))
    alike(name, FRESH[(name, "plain", "near")], FRESH[(name, "plain")],
          "after calls with nearly the same parameters", 1e-5)


def walk(n):
    """Closed walk that uses every ordered pair (i, j), loops included, of n
    nodes once."""
    out = [0]
    for i in range(n):
        # i -> i, then i -> j -> i for all j > i; continues from i to i + 1
        out.append(i)
        for j in range(i + 2, n):
            out += [j, i]
        if i + 1 < n:
            out.append(i + 1)
    # missing: (i + 1, i)
    return out + list(range(n - 2, -1, -1))


def history(ctx, calls):
    seq = walk(len(calls))
    seen = set()
    prev = None
    for i in seq:
        name, rule = calls[i]
        ctx.step()
        got = run_entry(name, rule)
        before = ("nothing", "")
        if prev is not None:
            before = calls[prev]
            seen.add((prev, i))
            ctx.state((before, calls[i]))
        if name not in table.RANDOM:
            alike(name, got, FRESH[calls[i]], "%s (%s) after %s (%s)" % (
                name, rule, *before), 1e-5)
        prev = i
    check(len(seen) == len(calls) ** 2, "harness: pairs missing")
    return len(seen)


def blocks(calls, size):
    n = -(-len(calls) // size)
    return [calls[i::n] for i in range(n)]


def run(ctx):
    names = sorted(table.ENTRIES)
    for name in names:
        if name not in table.RANDOM:
            ctx.case("layout/" + name, layouts, ctx, name)
            ctx.case("types/" + name, types, ctx, name)
            ctx.case("history-near/" + name, nearby, ctx, name)
    calls = [(n, r) for r in ("plain", "extreme") for n in names]
    if ctx.thorough:
        parts = blocks(calls, 20)
    else:
        groups = {}
        for name in names:
            fn = table.ENTRIES[name](table.Data())[0]
            groups.setdefault(fn.__module__, []).append((name, "plain"))
        for g, members in sorted(groups.items()):
            cut = blocks(members, 12)
            for i, a in enumerate(cut):
                for b in cut[i:]:
                    ctx.case("history/%s/%d+%d" % (g, i, cut.index(b)),
                             history, ctx, a if a is b else a + b)
        # the same function with other values in between
        parts = []
        for name in names:
            ctx.case("values/" + name, history, ctx, [
                (name, "plain"), (name, "extreme")])
    for i, a in enumerate(parts):
        for j, b in enumerate(parts[i + 1:]):
            ctx.case("history/%d+%d" % (i, i + 1 + j), history, ctx, a + b)
