"""P55: an interrupted call leaves nothing behind.

Every public array function and every loader, saver, converter and dataset
tool is interrupted (as by Ctrl-C) in turn right before every line it
executes.
Oracle: the interruption reaches the caller; the arrays given are
bit-identical; process-wide settings (numpy error handling, warning filters,
environment, working directory, number of threads, random state where none is
drawn) are as before; no file stays open; input files and everything outside
the output location are as before; the call, repeated at once, gives the
undisturbed result.
"""
import gc
import itertools
import linecache
import multiprocessing as mp
import os
import pickle
import shutil
import sys
import warnings

import h5py
import joblib
import numba
import numpy as np
import PIL.Image

from mc import impulse, preempt, table
from mc.checks import p50
from mc.core import Violation, check, quiet

SHARDS = 8
TECHNIQUE = ("exhaustive enumeration of interruption points: every line of "
             "the real code, each followed by a repetition of the call")
LEVEL = "model_checking"
LEVEL_NOTE = ("one interruption per call, at the first visit of every line "
              "(thorough: first, second, third and tenth); array functions, "
              "file tools (worker threads, interruption in the calling "
              "thread); compiled kernels count as one step")
RULE = "case = function; state = (function, line, visit)"
ASSUMPTIONS = ["the interruption appears as an exception between two lines",
               "a partly written output may remain at the output location"]


def settings():
    """Process-wide state a library must not change."""
    return {"numpy errors": np.geterr(),
            "numpy error callback": np.geterrcall(),
            "print options": repr(np.get_printoptions()),
            "warning filters": list(warnings.filters),
            "directory": os.getcwd(),
            "environment": dict(os.environ),
            "numba threads": numba.get_num_threads(),
            "recursion": sys.getrecursionlimit(),
            "largest image": PIL.Image.MAX_IMAGE_PIXELS,
            "cpu count": mp.cpu_count,
            "stdout": sys.stdout, "stderr": sys.stderr,
            "random": np.random.get_state()[1].tobytes(),
            "joblib": repr(joblib.parallel.get_active_backend()[0].__class__)}


def same_settings(was, at, drawn=False):
    now = settings()
    diff = [k for k in was if now[k] != was[k] and not (
        drawn and k == "random")]
    check(not diff, "interrupted at %s: process-wide settings changed" % at,
          diff)


def interrupt(fn, where, visit):
    """(interruption reached, error that came out)."""
    hit = []

    def action():
        hit.append(1)
        raise preempt.Interrupted()
    try:
        preempt.stop(fn, where, action, visit)
        out = None
    except preempt.Interrupted:
        out = "interrupted"
    except BaseException as e:      # noqa
        out = "%s: %s" % (type(e).__name__, e)
    return bool(hit), out


PLACES = {}


def places_of(fn, most, seen):
    """Lines of a call; a line with nothing but ``try:`` has no instruction
    which an interruption could follow.  most: a line is taken in the calls
    of so many functions and options."""
    fn()
    out = []
    for w in preempt.lines(fn)[1]:
        if linecache.getline(*w).strip() == "try:" or not w[1]:
            continue
        seen[w] = seen.get(w, 0) + 1
        if most is None or seen[w] <= most:
            out.append(w)
    return out


def make(name):
    D = table.Data()
    fn, a, kw = table.ENTRIES[name](D)
    return D, fn, a, kw


def prepare(ctx):
    """The lines of every call, before the cases are dealt out (in a process
    of its own: pools of workers do not survive a fork)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            collect(ctx)
            with os.fdopen(w, "wb") as fo:
                pickle.dump(PLACES, fo)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fi:
        PLACES.update(pickle.load(fi))
    os.waitpid(pid, 0)


def collect(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        seen = {}
        for name in table.ENTRIES:
            D, fn, a, kw = make(name)
            np.random.seed(1)
            PLACES[name] = quiet(places_of, lambda: results(fn, a, kw),
                                 ctx.pick(2, None), seen)
        seen = {}
        for name in p50.CALLS:
            d = ctx.scratch("l")
            p50.prepare_inputs(name, d)
            fn = p50.CALLS[name][0]
            PLACES[name] = quiet(places_of, lambda: p50.value(fn(d)),
                                 ctx.pick(3, None), seen)
            gc.collect()
            ctx.drop(d)


def results(fn, a, kw):
    with np.errstate(all="ignore"):
        return [np.array(v) for v in impulse.leaves(fn(*a, **kw))]


def array_call(ctx, name, visits, part, parts):
    random = name in table.RANDOM
    D, fn, a, kw = make(name)
    np.random.seed(1)
    want = results(fn, a, kw)
    places = PLACES[name][part::parts]
    for where, visit in itertools.product(places, visits):
        at = "%s:%d" % (os.path.basename(where[0]), where[1])
        D, fn, a, kw = make(name)
        keep = [v.copy() for v in D.made]
        np.random.seed(1)
        was = settings()
        hit, out = interrupt(lambda: fn(*a, **kw), where, visit)
        if not hit:
            check(visit > 1, "harness: line not reached", at)
            continue
        ctx.step(2)
        ctx.state((name, where, visit))
        check(out == "interrupted", "the interruption at %s did not reach the "
              "caller" % at, out)
        same_settings(was, at, random)
        for u, v in zip(D.made, keep):
            check(u.dtype == v.dtype and u.tobytes() == v.tobytes(),
                  "interrupted at %s: a given array has changed" % at)
        np.random.seed(1)
        got = results(fn, a, kw)
        check(len(got) == len(want) and all(
            x.shape == y.shape and np.allclose(
                x, y, rtol=1e-5, atol=1e-6, equal_nan=True)
            for x, y in zip(got, want)),
            "interrupted at %s: the repeated call gives another result" % at)
    return len(places)


def open_files():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def file_call(ctx, name, visits, part, parts):
    fn, _, out = p50.CALLS[name]
    top = (out or "out").split("/")[0]
    _, want = p50.clean(ctx, name)
    d = ctx.scratch("l")
    places = PLACES[name][part::parts]
    for where, visit in itertools.product(places, visits):
        at = "%s:%d" % (os.path.basename(where[0]), where[1])
        shutil.rmtree(d)
        os.makedirs(d)
        p50.prepare_inputs(name, d)
        before = p50.snap(d, top)
        was = settings()
        files = open_files()
        hit, err = interrupt(lambda: p50.value(fn(d)), where, visit)
        gc.collect()
        if not hit:
            check(visit > 1, "harness: line not reached", at)
            continue
        ctx.step(2)
        ctx.state((name, where, visit))
        check(err == "interrupted", "the interruption at %s did not reach the "
              "caller" % at, err)
        same_settings(was, at)
        check(open_files() == files, "interrupted at %s: a file stays open"
              % at)
        try:
            p50.after_failure(ctx, name, d, before, want)
            p50.repeat(ctx, name, d, want)
        except Violation as e:
            raise Violation("interrupted at %s: %s" % (at, e))
        extra = [p for p in os.listdir(d) if p not in
                 {q.split(os.sep)[0] for q in before} | {top}]
        check(not extra, "interrupted at %s: left behind" % at, extra)
    ctx.drop(d)
    return len(places)


def run(ctx):
    def one(*a):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return quiet(*a)
    visits = ctx.pick((1,), (1, 2, 3, 10))
    for name in table.ENTRIES:
        parts = 8 if name.startswith(("find_", "search_", "retrieve_",
                                      "vertical_rec", "dfi_")) else 1
        for k in range(parts):
            ctx.case("array/%s/part%d" % (name, k), one, array_call, ctx,
                     name, visits, k, parts)
    for name in p50.CALLS:
        for k in range(3):
            ctx.case("file/%s/part%d" % (name, k), one, file_call, ctx, name,
                     visits, k, 3)
