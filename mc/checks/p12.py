"""P12: parallel_process_slices under every task schedule.

The slice method is a harness function with scheduling points at its start,
between its two reads of the input, and before its return; the real joblib
workers are held at these points and released one at a time, so that every
interleaving of the slice tasks is executed (stateless DFS).  A shared
input/output buffer, results taken in completion order or a lost error show as
a wrong value.  Free-running executions of the same bodies with thread and
process workers for every core count complement this.
Oracle: the method applied to each slice in a plain loop.
"""
import itertools
import os

import h5py
import numpy as np

from mc import sched
from mc.core import Violation, check, quiet, same
import algotom.util.utility as util

TECHNIQUE = ("stateless schedule exploration (DFS over all interleavings of "
             "the slice tasks under a controlled scheduler) on the real code")
LEVEL = "model_checking"
LEVEL_NOTE = ("All interleavings of up to 3 (thorough 4) slice tasks with "
              "2-3 workers and 2 scheduling points each; interleavings inside "
              "numpy/joblib calls and process start-up are not controlled.")
RULE = ("case = one complete schedule (or one free run) of one "
        "configuration; state = (configuration, schedule); outcome = result")
ASSUMPTIONS = ["the slice method returns 2D arrays of one common shape"]

CUR = {"s": None}


def tid_of(x):
    return int(x[0, 0])


def stepped(x, gain, off=0.0, fail=None):
    """Slice method with scheduling points; reads its input twice."""
    s = CUR["s"]
    t = tid_of(x)
    if s is not None:
        s.point(t, "a")
    first = np.array(x, dtype=np.float64)
    if fail is not None and tid_of(first) == fail:
        if s is not None:
            s.finish(failed=True)
        raise ZeroDivisionError("slice failed")
    if s is not None:
        s.point(t, "b")
    out = gain * (0.5 * first + 0.5 * np.asarray(x, dtype=np.float64)) + off
    if s is not None:
        s.finish()
    return out


def halve(x, gain, off=0.0, fail=None):
    out = stepped(x, gain, off, fail)
    return out[:, :out.shape[1] // 2]


def grow(x, gain, off=0.0, fail=None):
    out = stepped(x, gain, off, fail)
    return np.vstack([out, out[:1]])


def label_volume(n, axis):
    shape = [2, 2, 2]
    shape[axis] = n
    v = np.zeros(shape, dtype=np.float32)
    for i in range(n):
        sl = [slice(None)] * 3
        sl[axis] = i
        v[tuple(sl)] = i + np.array([[0, .25], [.5, .125]])
    return v


def reference(v, axis, method, args, kw):
    outs = [np.asarray(method(np.take(v, i, axis=axis), *args, **kw),
                       dtype=np.float64) for i in range(v.shape[axis])]
    return np.stack(outs, axis=axis)


def run(ctx):
    root = ctx.scratch("p")
    # ---- controlled schedules
    combos = [(2, 2), (3, 2), (3, 3)] + ctx.pick([], [(4, 2), (4, 3)])
    for (n, nc), axis in itertools.product(combos, range(3)):
        v = label_volume(n, axis)
        path = os.path.join(root, "v%d%d%d.hdf" % (n, nc, axis))
        if not os.path.exists(path):
            with h5py.File(path, "w") as f:
                f["d"] = v
        for kind, method, fail in (
                ("array", stepped, None), ("array", halve, None),
                ("hdf", stepped, None), ("array", stepped, n - 1),
                ("array", grow, 0)):
            if n * nc >= 9 and (kind == "hdf" or fail is not None or
                                method is halve) and not ctx.thorough:
                continue
            if (n, nc) == (4, 3) and (kind, method, fail) != (
                    "array", stepped, None):
                continue
            explore(ctx, path, v, axis, n, nc, kind, method, fail)
    free(ctx, root)
    ctx.drop(root)


def explore(ctx, path, v, axis, n, nc, kind, method, fail):
    cfg = "sched/n%d/nc%d/ax%d/%s/%s/fail%s" % (n, nc, axis, kind,
                                              method.__name__, fail)
    conc = {"v": nc}
    CUR["s"] = None
    want = reference(v, axis, method, [2.0], {"off": 1.0}) \
        if fail is None else None
    fobj = h5py.File(path, "r") if kind == "hdf" else None
    data = fobj["d"] if fobj is not None else v

    def execute(prefix):
        holder = {}

        def one():
            s = sched.Sched(prefix, n, conc["v"], 1.5)
            CUR["s"] = s
            try:
                val, err = s.run(lambda: util.parallel_process_slices(
                    data, method, [2.0], axis=axis, ncore=nc,
                    prefer="threads", off=1.0, fail=fail))
            finally:
                CUR["s"] = None
            if s.lowered:
                conc["v"] = s.conc
            holder["s"] = s
            ctx.step(len(s.choices))
            ctx.state((cfg, tuple(s.choices)))
            if fail is not None:
                check(isinstance(err, ZeroDivisionError) or err is not None,
                      "error in one slice was dropped")
                return (cfg, "error")
            if err is not None:
                raise err
            same(val, want, "result under schedule %s" % s.choices)
            return val
        cid = cfg + "/s" + "".join(map(str, prefix))
        ctx.case(cid, one)
        return holder.get("s")
    if ctx.replay is not None:
        c = ctx.replay["case"]
        if c.startswith(cfg + "/s"):
            execute([int(k) for k in c[len(cfg) + 2:]])
    else:
        sched.schedules(execute)
    if fobj is not None:
        fobj.close()


def free(ctx, root):
    """The same bodies, free-running, over all core counts and back-ends."""
    vols = [np.arange(24, dtype=np.float32).reshape(2, 3, 4),
            np.arange(5, dtype=np.float64).reshape(5, 1, 1),
            np.arange(12, dtype=np.uint16).reshape(1, 3, 4)]
    for vi, v in enumerate(vols):
        p = os.path.join(root, "f%d.hdf" % vi)
        with h5py.File(p, "w") as f:
            f["d"] = v
        for axis, kind, nc, prefer in itertools.product(
                range(3), ("array", "hdf", "view"),
                (None, 0, 1, 2, 3, 8), ("threads", "processes")):
            if prefer == "processes" and (nc not in (1, 2) or vi or
                                          kind == "view"):
                continue
            for m, par in ((stepped, [3.0]), (halve, [2.0, 1.0]),
                           (stepped, 4.0)):
                if m is halve and axis == 2 and v.shape[1] < 2:
                    continue
                if min(v.shape) == 1 and m is halve:
                    continue

                def one():
                    CUR["s"] = None
                    ctx.step()
                    args = par if isinstance(par, list) else [par]
                    want = reference(v, axis, m, args, {})
                    fo = None
                    if kind == "hdf":
                        fo = h5py.File(p, "r")
                        data = fo["d"]
                    elif kind == "view":
                        data = np.asfortranarray(v)
                    else:
                        data = v
                    try:
                        got = quiet(util.parallel_process_slices, data, m,
                                    par, axis=axis, ncore=nc, prefer=prefer)
                    finally:
                        if fo is not None:
                            fo.close()
                    same(got, want, "result")
                    return got
                ctx.case("free/%d/ax%d/%s/nc%s/%s/%s/%s" % (
                    vi, axis, kind, nc, prefer, m.__name__, par), one)
    for axis, nc, prefer, bad in itertools.product(
            range(3), (1, 2), ("threads", "processes"), (0, 1)):
        def err():
            ctx.step()
            v = label_volume(2, axis)
            try:
                quiet(util.parallel_process_slices, v, stepped, [1.0],
                      axis=axis, ncore=nc, prefer=prefer, fail=bad)
            except ZeroDivisionError:
                return "error"
            except Exception as e:
                return type(e).__name__
            raise Violation("error in slice %d was dropped" % bad)
        ctx.case("err/ax%d/nc%d/%s/%d" % (axis, nc, prefer, bad), err)
