"""P13: numba-parallel back-projection under every thread schedule.

Part 1 (memory-access level): each kernel's Python body runs with its
``prange`` loop and its arrays under control (mc/prange.py).  Per input, all
shared reads/writes of every iteration are recorded and checked pairwise for
conflicts; conflict-free runs have exactly one Mazurkiewicz trace; every order
of the iterations is executed as well.  Conflicting iterations are
interleaved at every conflicting access (every victim, every preemption
point) until the result differs.
Part 2: the compiled kernels, free-running with 1..8 threads, must equal the
reference for the same and larger inputs.
Oracle: float64 back-projection written from the definition.
"""
import itertools
import json
import math
import os
import subprocess
import sys

import numpy as np

from mc import prange
from mc.core import Violation, check, fill, same

TECHNIQUE = ("schedule exploration at memory-access level (conflict analysis "
             "of all iteration pairs = partial-order reduction; exhaustive "
             "preemption points where accesses conflict) on the kernels' own "
             "code")
LEVEL = "model_checking"
LEVEL_NOTE = ("All iteration pairs and all iteration orders for the listed "
              "small inputs; iterations are independent of how numba groups "
              "them into threads; hardware memory ordering only matters if a "
              "conflict exists, which is reported.")
RULE = ("case = one kernel input (all schedules) or one order or one "
        "compiled run; state = (input, schedule); outcome = image")
ASSUMPTIONS = ["numba compiles the Python body faithfully: scalars are "
               "private, whole-array += is a reduction"]

COMPILED = os.environ.get("P13_COMPILED")


def before_import():
    if not COMPILED:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
        import numba
        numba.config.DISABLE_JIT = True
        prange.install()


def interp(row, f, pad):
    n = len(row)
    if f < 0 or f > n - 1:
        if not pad:
            return 0.0
        return float(row[0] if f < 0 else row[-1])
    d = int(math.floor(f))
    u = min(d + 1, n - 1)
    return float(row[d]) + (float(row[u]) - float(row[d])) * (f - d)


def ref_slice(s, ang, c, pad):
    n = s.shape[1]
    ic = 0.5 * (n - 1)
    out = np.zeros((n, n))
    for y, x, i in np.ndindex(n, n, len(ang)):
        t = -float(ang[i])
        out[y, x] += interp(s[i], (x - ic) * math.cos(t) + (y - ic) *
                            math.sin(t) + c, pad)
    return out


def ref_vert(p, ang, xl, yl, c, pad):
    d, h, w = p.shape
    out = np.zeros((h, w))
    for i, j, n in np.ndindex(h, w, d):
        t = float(ang[n])
        out[i, j] += interp(p[n, i], float(xl[j]) * math.cos(t) + float(
            yl[j]) * math.sin(t) + c, pad)
    return out


def ref_chunk(p, ang, xm, ym, c, pad):
    return np.asarray([ref_vert(p, ang, x, y, c, pad)
                       for x, y in zip(xm, ym)])


REF = {"slice": ref_slice, "vert": ref_vert, "chunk": ref_chunk}


def inputs(deep):
    """(name, kernel tag, args) - angles avoid exact grid hits."""
    out = []
    ang = {n: np.float32(np.linspace(0.07, 0.07 + np.pi * (n - 1) / n, n))
           for n in (1, 2, 3, 4, 5)}
    for n, w, c, pad in itertools.product((1, 2, 3) if not deep else
                                          (1, 2, 3, 4), (2, 3, 4),
                                          (0.9, 1.53), (False, True)):
        s = fill((n, w), n * 10 + w, -1, 2)
        out.append(("slice/%dx%d/c%s/%d" % (n, w, c, pad), "slice",
                    (s, ang[n], c, pad)))
    for n, h, w, pad in itertools.product((1, 2, 3), (1, 2, 3), (2, 3),
                                          (False, True)):
        p = fill((n, h, w), n * 7 + h * 3 + w, -1, 2)
        k = np.float32(np.arange(w) - 0.5 * (w - 1))
        xl, yl = np.float32(k * 0.8 + 0.1), np.float32(k * 0.6 - 0.2)
        out.append(("vert/%dx%dx%d/%d" % (n, h, w, pad), "vert",
                    (p, ang[n], xl, yl, 0.5 * (w - 1) + 0.13, pad)))
        for ns in (1, 2, 3):
            xm = np.float32([xl + 0.3 * s for s in range(ns)])
            ym = np.float32([yl - 0.2 * s for s in range(ns)])
            out.append(("chunk/%dx%dx%d/%d/%d" % (n, h, w, ns, pad), "chunk",
                        (p, ang[n], xm, ym, 0.5 * (w - 1) + 0.13, pad)))
    return out


def kernels():
    import algotom.rec.reconstruction as rec
    import algotom.rec.vertrec as vr
    return {"slice": rec.back_projection_cpu,
            "vert": vr.vertical_back_projection_cpu,
            "chunk": vr.vertical_back_projection_cpu_chunk}


def run(ctx):
    ker = kernels()
    loops = {}
    ins = inputs(ctx.thorough)
    for name, tag, args in ins:
        want = REF[tag](*args)

        def explore():
            rec = prange.Recorder("record")
            got = prange.execute(ker[tag], args, rec)
            ctx.step(rec.accesses)
            loops[tag] = max(loops.get(tag, 0), rec.niter)
            same(got, want, "sequential result")
            bad = prange.conflicts(rec)
            ctx.state((name, "trace"))
            if not bad:
                return got
            # conflicting iterations: try every preemption point
            its = sorted({k[1] for k in set(rec.writes) | set(rec.reads)})
            for victim in its:
                k = 0
                while k < 400:
                    out, reached = prange.preempted(ker[tag], args, victim,
                                                    k, frozenset(bad))
                    if not reached:
                        break
                    ctx.step()
                    ctx.state((name, victim, k))
                    try:
                        same(out, want, "r")
                    except Violation as e:
                        raise Violation(
                            "data race: %d shared elements are accessed by "
                            "several iterations; preempting iteration %d "
                            "before its conflicting access %d while the "
                            "others run gives a different image (%s)" % (
                                len(bad), victim, k, e))
                    k += 1
            return got
        ctx.case("mem/" + name, explore)

        if tag == "slice":
            n = args[0].shape[0]
        else:
            n = args[0].shape[1] if tag == "vert" else len(args[2])
        m = max(n, args[0].shape[-1]) if tag == "slice" else n
        if m <= 3:
            for perm in itertools.permutations(range(m)):
                def ordered():
                    rec = prange.Recorder(
                        "order", order=lambda its: [
                            its[p] for p in perm if p < len(its)] +
                        list(its[len(perm):]))
                    got = prange.execute(ker[tag], args, rec)
                    ctx.step()
                    ctx.state((name, perm))
                    same(got, want, "result for iteration order %s" %
                         (perm,))
                    return got
                ctx.case("order/%s/%s" % (name, "".join(map(str, perm))),
                         ordered)
    ctx.extra["parallel_iterations_seen"] = loops
    compiled(ctx, ins)


def compiled(ctx, ins):
    """Free-running compiled kernels, separate interpreter with JIT on."""
    env = dict(os.environ)
    env.pop("NUMBA_DISABLE_JIT", None)
    env["P13_COMPILED"] = "1"
    out = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p13.npz")
    env["P13_OUT"] = out
    env["P13_DEEP"] = "1" if ctx.thorough else ""
    if ctx.replay is not None and not ctx.replay["case"].startswith(
            "compiled/"):
        return
    r = subprocess.run([sys.executable, "-c",
                        "import mc.checks.p13 as m; m.child()"], env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        def crash():
            raise Violation("compiled kernels failed: " + r.stderr[-600:])
        ctx.case("compiled/start", crash)
        return
    data = np.load(out)
    for key in sorted(data.files):
        if key.endswith("|want"):
            continue

        def cmp():
            ctx.step()
            same(data[key], data[key.rsplit("|", 1)[0] + "|want"],
                 "compiled kernel")
            return data[key]
        ctx.case("compiled/" + key, cmp)


def big_inputs():
    out = []
    a = np.float32(np.linspace(0.03, np.pi - 0.2, 41))
    s = fill((41, 33), 5, -1, 2)
    out.append(("big-slice", "slice", (s, a, 15.7, False)))
    out.append(("big-slice-pad", "slice", (s, a, 15.7, True)))
    p = fill((41, 17, 12), 6, -1, 2)
    k = np.float32(np.arange(12) - 5.5)
    out.append(("big-vert", "vert", (p, a, k * np.float32(.8), k * np.float32(
        .6), 5.8, True)))
    xm = np.float32([k * np.cos(t) for t in np.linspace(0.1, 3, 9)])
    ym = np.float32([k * np.sin(t) for t in np.linspace(0.1, 3, 9)])
    out.append(("big-chunk", "chunk", (p, a, xm, ym, 5.8, True)))
    return out


def child():
    import numba
    ker = kernels()
    res = {}
    reps = 30 if os.environ.get("P13_DEEP") else 8
    for name, tag, args in big_inputs() + inputs(False)[::7]:
        want = REF[tag](*args)
        res[name + "|want"] = want
        nmax = numba.config.NUMBA_NUM_THREADS
        for nt in sorted({1, 2, 3, nmax}):
            if nt > nmax:
                continue
            numba.set_num_threads(nt)
            worst = None
            for _ in range(reps):
                got = np.asarray(ker[tag](*args), dtype=np.float64)
                if worst is None or (got.shape == want.shape and np.abs(
                        got - want).max() > np.abs(worst - want).max()):
                    worst = got
            res["%s|nt%d" % (name, nt)] = worst
    np.savez(os.environ["P13_OUT"], **res)
