"""P54: functions can be used from several threads at once.

Every public array function is stopped in turn at every line it executes; at
that point another thread runs, to completion, (a) the same function on the
same argument objects, (b) the same function on other data of the same shape,
(c) the same function with other options, sizes or dimensions.
Oracle: both calls return what they return on their own.
"""
import itertools
import os
import warnings

import numpy as np

from mc import impulse, preempt, table
from mc.core import check, quiet

SHARDS = 8
TECHNIQUE = ("stateless exploration of all single pre-emptions (every line of "
             "the real code as switching point) of two concurrent calls")
LEVEL = "model_checking"
LEVEL_NOTE = ("one pre-emption, the other calls run as a whole; switching "
              "points: first visit of every line (thorough: first three); "
              "compiled kernels count as one step")
RULE = "case = function; state = (function, switching point)"
ASSUMPTIONS = ["the argument arrays are not written to by the caller "
               "meanwhile", "worker threads and processes inside a call are "
               "switched off (ncore=1)"]

SLOW = ("find_", "search_", "retrieve_", "vertical_rec", "dfi_")


def ready(name, change=None):
    """A call with its arguments already made."""
    D = impulse.Probe(change)
    fn, a, kw = table.ENTRIES[name](D)

    def go():
        with np.errstate(all="ignore"):
            return fn(*a, **kw)
    return go


def result(go):
    try:
        return [np.array(v) for v in impulse.leaves(go())]
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def alike(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    return len(a) == len(b) and all(
        x.shape == y.shape and x.dtype == y.dtype and np.allclose(
            x, y, rtol=1e-5, atol=1e-6, equal_nan=True)
        for x, y in zip(a, b))


def other(w):
    i = np.arange(w.size).reshape(w.shape)
    return 0.9 + 0.6 * np.sin(1.7 * i + 2.0) + 0.1 * np.cos(0.63 * i)


def pair(ctx, name, sibling, visits, part, parts):
    _, shapes = impulse.call(name)
    mine = ready(name)
    others = [("shared", mine), ("other", ready(name, {
        n: other for n in shapes}))]
    if sibling:
        others.append(("sibling", ready(sibling)))
    want_b = [result(y) for _, y in others]
    want_a, places = preempt.lines(lambda: result(mine))
    check(alike(want_a, result(mine)), "not repeatable")
    for where, visit in itertools.product(places[part::parts], visits):
        box = []

        def meanwhile():
            box.extend(preempt.other_thread(lambda y=y: result(y))
                       for _, y in others)
        got_a = preempt.stop(lambda: result(mine), where, meanwhile, visit)
        if not box:
            check(visit > 1, "switching point not reached", where)
            continue
        ctx.step(1 + len(others))
        ctx.state((name, where, visit))
        at = "%s:%d" % (os.path.basename(where[0]), where[1])
        check(alike(got_a, want_a), "stopped at %s while others run, the "
              "call gives another result" % at)
        for (kind, _), w, g in zip(others, want_b, box):
            check(alike(g(), w), "the call in between (%s) gives another "
                  "result when run at %s" % (kind, at))
    return len(places)


def families():
    """The other entries of the same function, in a circle."""
    fam, out = {}, {}
    for n in table.ENTRIES:
        fam.setdefault(n.split("/")[0], []).append(n)
    for ns in fam.values():
        for a, b in zip(ns, ns[1:] + ns[:1]):
            if a != b:
                out[a] = b
    return out


def run(ctx):
    fam = families()

    def one(*a):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return quiet(pair, *a)
    for name in table.ENTRIES:
        if name in table.RANDOM:
            continue
        parts = 8 if name.startswith(SLOW) else 1
        for k in range(parts):
            ctx.case("%s/part%d" % (name, k), one, ctx, name, fam.get(name),
                     (1, 2, 3) if ctx.thorough else (1,), k, parts)
