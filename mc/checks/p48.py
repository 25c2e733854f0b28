"""P48: external reconstruction back-ends get the right data, give it back
right, and leave nothing behind.

TomoPy and ASTRA are not installed here; stand-ins with their documented
interface (mc/stubs) are put on the path.  They keep tables of the objects
made, reject ill-formed calls and compute a plain back projection that depends
on every argument.
Enumerated: image widths x 2D/3D x centres x angle lists x mask ratio x padding
x logarithm (with zeros) x filter x number of cores x algorithms; every
availability of a GPU; a toolbox that refuses the algorithm; the visual and
metric centre searches driven through these back-ends.
Oracle: logarithm, edge padding, centring, cropping and masking written out
here, applied around the same stand-in.
"""
import itertools
import os
import sys

import numpy as np
import scipy.ndimage as ndi

from mc.core import VERIF, Violation, check, fill, quiet, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive product of call options on the real wrappers "
             "around stand-in toolboxes with object tables; oracle: "
             "independent preparation of the data around the same toolbox")
LEVEL = "model_checking"
LEVEL_NOTE = ("All combinations of the listed option alphabets; the toolboxes "
              "themselves are modelled by their documented interface.")
RULE = "case = one call; state = (function, options, GPU availability)"
ASSUMPTIONS = ["TomoPy and ASTRA behave as documented (stand-ins in mc/stubs "
               "replace them; neither is installed here)"]


def before_import():
    sys.path.insert(0, os.path.join(VERIF, "mc", "stubs"))


def prepare(ctx):
    import algotom.rec.reconstruction                   # noqa


def data(shape, zeros):
    a = np.float32(0.2 + 0.7 * fill(shape, 11, 0, 1, np.float64))
    if zeros:
        a.flat[3] = 0.0
        a.flat[a.size // 2] = -0.5
    return a


def neglog(a):
    a = np.asarray(a, np.float64)
    return -np.log(np.where(a <= 0, 1.0, a))


def mask(n, ratio, center):
    if ratio is None:
        return np.ones((n, n)), np.zeros((n, n), bool)
    if ratio == 0:
        ratio = min(center, n - center) / (0.5 * n)
    r = ratio * n // 2 if False else ratio * (n // 2)
    u = np.arange(n) - n // 2
    d = np.hypot(u[:, None], u[None])
    m = (d <= r).astype(float)
    return m, np.abs(d - r) < 1.01        # the rim is left open


def angles_of(kind, n):
    if kind is None:
        return None, np.linspace(0, np.pi, n)
    a = np.sort(np.linspace(0, 2.9, n) + 0.07 * (np.arange(n) % 3))
    return a, a


def edge(s, left, right):
    return np.concatenate([np.repeat(s[:, :1], left, 1), s,
                           np.repeat(s[:, -1:], right, 1)], 1)


def masked_same(got, want, rim, what, rtol=2e-4):
    got = np.where(rim, want, got) if got.shape == want.shape else got
    same(got, want, what, rtol=rtol)


def slices(a):
    return [a] if a.ndim == 2 else [a[:, i] for i in range(a.shape[1])]


def restack(out, ndim):
    return out[0] if ndim == 2 else np.stack(out, 1)


# ------------------------------------------------------------------ gridrec
def gridrec(ctx, shape, center, ang, ratio, pad, log, filt, par, ncore,
            zeros):
    import tomopy
    import algotom.rec.reconstruction as rec
    a = data(shape, zeros)
    keep = a.copy()
    given, true = angles_of(ang, shape[0])
    n = shape[-1]
    kw = {}
    if par is not None:
        kw["filter_par"] = par
    ctx.step()
    ctx.state(("gridrec", shape, center, ang, ratio, pad, log, filt, par,
               ncore, zeros))
    got = np.asarray(quiet(rec.gridrec_reconstruction, a, center,
                           angles=given, ratio=ratio, filter_name=filt,
                           apply_log=log, pad=pad, ncore=ncore, **kw))
    same(a, keep, "the input was changed", rtol=0)
    s = neglog(a) if log else np.asarray(a, np.float64)
    if pad is False:
        left = right = 0
    else:
        m = n + (0 if pad is True else 2 * pad)
        tot = 1
        while tot < m:
            tot *= 2
        left = (tot - n) // 2
        right = tot - n - left
    msk, rim = mask(n, ratio, center)
    out = []
    for sl in slices(s):
        r = tomopy.one(edge(sl, left, right), true, center + left,
                       filt or "shepp", 0.9 if par is None else par)
        out.append(r[left:left + n, left:left + n] * msk)
    want = restack(out, len(shape))
    if len(shape) == 3:
        rim = np.repeat(rim[:, None], shape[1], 1)
    masked_same(got, want, rim, "gridrec result")
    return round(float(np.abs(want).sum()), 2)


# -------------------------------------------------------------------- astra
def astra_want(a, center, true, ratio, method, it, filt, pad, log):
    import astra
    n = a.shape[-1]
    s = neglog(a) if log else np.asarray(a, np.float64)
    if pad is None:
        pad = min(int(0.15 * n), 150)
    pad = max(int(pad), 0)
    m = n + 2 * pad
    off = (center + pad) - (m - 1) / 2.0
    out = []
    msk, rim = mask(n, ratio, center)
    for sl in slices(s):
        e = np.float32(edge(sl, pad, pad))
        pos = np.arange(m) + off
        e = np.stack([ndi.map_coordinates(row, [pos], order=3,
                                          mode="nearest") for row in e])
        f = (filt or "ram-lak") if method.startswith("FBP") else None
        r = astra.one(e, true, method, f, it)
        out.append(r[pad:pad + n, pad:pad + n] * msk)
    if a.ndim == 3:
        rim = np.repeat(rim[:, None], a.shape[1], 1)
    return restack(out, a.ndim), rim


class Gpu:
    """Set whether a GPU is said to be available."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        from numba import cuda
        self.old = cuda.is_available
        cuda.is_available = lambda: self.on

    def __exit__(self, *a):
        from numba import cuda
        cuda.is_available = self.old


def nothing_left(what):
    import astra
    left = astra.alive()
    astra.clear()
    check(not any(left.values()), what + ": objects left in the toolbox",
          left)


def astra_case(ctx, shape, center, ang, ratio, method, it, filt, pad, log,
               ncore, zeros, gpu):
    import astra
    import algotom.rec.reconstruction as rec
    astra.clear()
    astra.BROKEN.clear()
    a = data(shape, zeros)
    keep = a.copy()
    given, true = angles_of(ang, shape[0])
    ctx.step()
    ctx.state(("astra", shape, center, ang, ratio, method, it, filt, pad, log,
               ncore, zeros, gpu))
    with Gpu(gpu):
        got = np.asarray(quiet(
            rec.astra_reconstruction, a, center, angles=given, ratio=ratio,
            method=method, num_iter=it, filter_name=filt, pad=pad,
            apply_log=log, ncore=ncore))
    same(a, keep, "the input was changed", rtol=0)
    eff = method if gpu else method.replace("_CUDA", "")
    want, rim = astra_want(a, center, true, ratio, eff, it, filt, pad, log)
    # the spline of the shift is applied in 32 bit
    masked_same(got, want, rim, "astra result", rtol=1e-3)
    nothing_left("after the reconstruction")
    return round(float(np.abs(want).sum()), 2)


def refused(ctx, what, fn, gpu=False):
    import astra
    astra.clear()
    ctx.step()
    with Gpu(gpu):
        try:
            quiet(fn)
        except ValueError:
            ctx.rejected += 1
            nothing_left("after the refusal")
            return "refused"
        except Exception as e:
            raise Violation("%s: %s instead of ValueError: %s" % (
                what, type(e).__name__, e))
    raise Violation("%s: not refused" % what)


def broken(ctx, method, shape, gpu, ncore):
    """The toolbox itself refuses the algorithm."""
    import astra
    import algotom.rec.reconstruction as rec
    astra.BROKEN.clear()
    astra.BROKEN.add(method)
    try:
        return refused(ctx, "algorithm refused by the toolbox", lambda:
                       rec.astra_reconstruction(
                           data(shape, False), 4.0, method=method,
                           ncore=ncore), gpu)
    finally:
        astra.BROKEN.clear()


# --------------------------------------------------------- centre searches
def expected(a, c, method, ang, ratio, filt, log, gpu=False):
    import tomopy
    true = np.linspace(0, np.pi, a.shape[0]) if ang is None else ang
    if method == "astra":
        return astra_want(a, c, true, ratio, "FBP_CUDA" if gpu else "FBP", 1,
                          filt, None, log)
    n = a.shape[1]
    s = neglog(a) if log else np.asarray(a, np.float64)
    tot = 1
    while tot < n + 200:
        tot *= 2
    left = (tot - n) // 2
    msk, rim = mask(n, ratio, c)
    r = tomopy.one(edge(s, left, tot - n - left), true, c + left,
                   filt or "shepp", 0.9)
    return r[left:left + n, left:left + n] * msk, rim


def visual(ctx, method, start, stop, step, ang, ratio, filt, log, gpu,
           ncore):
    import astra
    import algotom.rec.reconstruction as rec
    import algotom.io.loadersaver as losa
    astra.clear()
    a = data((6, 12), False)
    given, _ = angles_of(ang, 6)
    d = ctx.scratch()
    ctx.step()
    ctx.state(("visual", method, start, stop, step, ang, ratio, filt, log,
               gpu, ncore))
    with Gpu(gpu):
        base = quiet(rec.find_center_visual_slices, a, d, start, stop,
                     step=step, zoom=1.0, method=method, gpu=gpu,
                     angles=given, ratio=ratio, filter_name=filt,
                     apply_log=log, ncore=ncore)
    names = sorted(os.listdir(base))
    k, want = 0, []
    while start + k * step < stop + step - 1e-9:
        want.append(start + k * step)
        k += 1
    check(names == sorted("center_%.2f.tif" % c for c in want),
          "files written", names, want)
    for c in want:
        img = losa.load_image(os.path.join(base, "center_%.2f.tif" % c))
        ref, rim = expected(a, c, method, given, ratio, filt, log, gpu)
        masked_same(img, ref, rim, "slice for centre %g" % c, rtol=1e-3)
    nothing_left("after the run")
    ctx.drop(d)
    return len(want)


def metric(ctx, method, best, ncore, log, ang, gpu, prefer_inv):
    import astra
    import algotom.rec.reconstruction as rec
    astra.clear()
    a = data((6, 12), False)
    given, _ = angles_of(ang, 6)
    lo, hi = 3.0, 8.0
    ref, rim = expected(a, lo + best, method, given, 1.0, "hann", log, gpu)
    seen = []

    def fn(img, sign=1):
        dist = float(np.abs(np.where(rim, 0, img - ref)).max())
        seen.append(dist)
        return sign * dist
    ctx.step()
    ctx.state(("metric", method, best, ncore, log, ang, gpu, prefer_inv))
    with Gpu(gpu):
        got = quiet(rec.find_center_based_slice_metric, a, lo, hi, radius=0.0,
                    method=method, gpu=gpu, angles=given, apply_log=log,
                    ncore=ncore, sigma=0, metric_function=fn,
                    invert_metric=prefer_inv, sign=-1 if prefer_inv else 1)
    check(abs(float(got) - (lo + best)) < 1e-6, "centre found", got,
          lo + best)
    check(min(seen) < 1e-3 * float(np.abs(ref).max()),
          "the reconstruction at the true centre was never evaluated",
          min(seen))
    nothing_left("after the search")
    return float(got)


def run(ctx):
    import algotom.rec.reconstruction as rec
    T = ctx.thorough
    shapes = [(5, 8), (5, 11), (5, 1, 8), (6, 3, 9)]
    if T:
        shapes += [(4, 12), (7, 2, 7), (3, 16), (5, 2, 16)]
    for sh in shapes:
        n = sh[-1]
        cents = [0, 2.5, (n - 1) / 2.0, n - 1]
        for c, ang, ratio, pad, log in itertools.product(
                cents, [None, "list"], [1.0, 0.0, 0.6, None],
                [True, False, 0, 3, 100], [True, False]):
            ctx.case("gridrec/%s/%g/%s/%s/%s/%s" % (sh, c, ang, ratio, pad,
                                                    log),
                     gridrec, ctx, sh, c, ang, ratio, pad, log, "hann", None,
                     1, False)
        for filt, par, ncore, zeros, log in itertools.product(
                [None, "shepp", "hann", "ramlak"], [None, 0.3],
                [None, 0, 1, 3], [False, True], [True, False]):
            ctx.case("gridrec-opt/%s/%s/%s/%s/%s/%s" % (
                sh, filt, par, ncore, zeros, log), gridrec, ctx, sh, 3.5,
                None, 1.0, 4, log, filt, par, ncore, zeros)
        for c, ang, ratio, pad, log in itertools.product(
                cents, [None, "list"], [1.0, 0.0, 0.6, None],
                [None, 0, 3, -2, 2.0], [True, False]):
            ctx.case("astra/%s/%g/%s/%s/%s/%s" % (sh, c, ang, ratio, pad,
                                                  log),
                     astra_case, ctx, sh, c, ang, ratio, "FBP", 1, "hann",
                     pad, log, 1, False, False)
        cpu = ["BP", "FBP", "SIRT", "SART", "ART", "CGLS"]
        gpus = [m + "_CUDA" for m in ("BP", "FBP", "SIRT", "SART", "CGLS",
                                      "EM")]
        for m, gpu, filt, it, ncore, zeros in itertools.product(
                cpu + gpus, [False, True], [None, "hann", "parzen"], [1, 4],
                [None, 0, 1, 3] if len(sh) == 3 else [1], [False, True]):
            if m.startswith("EM") and not gpu:
                continue
            ctx.case("astra-opt/%s/%s/%s/%s/%s/%s/%s" % (
                sh, m, gpu, filt, it, ncore, zeros), astra_case, ctx, sh,
                3.5, None, 1.0, m, it, filt, None, True, ncore, zeros, gpu)
        for m, gpu, ncore in itertools.product(
                ["SART", "FBP", "FBP_CUDA"], [False, True], [1, 3]):
            if "CUDA" in m and not gpu:
                continue
            ctx.case("toolbox-refuses/%s/%s/%s/%s" % (sh, m, gpu, ncore),
                     broken, ctx, m, sh, gpu, ncore)
        g, s = rec.gridrec_reconstruction, rec.astra_reconstruction
        a = data(sh, False)
        bad = {
            "centre-negative": (-0.5, {}), "centre-width": (n, {}),
            "centre-beyond": (n + 3.5, {}),
            "angles-short": (3.0, {"angles": np.linspace(0, 3, sh[0] - 1)}),
            "angles-long": (3.0, {"angles": np.linspace(0, 3, sh[0] + 1)})}
        for k, (c, kw) in bad.items():
            ctx.case("refuse-gridrec/%s/%s" % (sh, k), refused, ctx, k,
                     lambda: g(a, c, **kw))
            for gpu in (False, True):
                ctx.case("refuse-astra/%s/%s/%s" % (sh, k, gpu), refused, ctx,
                         k, lambda: s(a, c, **kw), gpu)
        for m, gpu in (("EM_CUDA", False), ("XYZ", False), ("XYZ", True),
                       ("EM", False), ("XYZ_CUDA", True),
                       ("XYZ_CUDA", False)):
            ctx.case("refuse-method/%s/%s/%s" % (sh, m, gpu), refused, ctx, m,
                     lambda: s(a, 3.0, method=m), gpu)
    for method, (start, stop, step), ang, ratio, filt, log, gpu, ncore in \
            itertools.product(
                ["gridrec", "astra"],
                [(4, 6, 1), (3.5, 5, .5), (5, 5, 1)], [None, "list"],
                [1.0, None], ["hann", None], [True, False], [False, True],
                [None, 2]):
        ctx.case("visual/%s/%g-%g-%g/%s/%s/%s/%s/%s/%s" % (
            method, start, stop, step, ang, ratio, filt, log, gpu, ncore),
            visual, ctx, method, start, stop, step, ang, ratio, filt, log,
            gpu, ncore)
    for method, best, ncore, log, ang, gpu, inv in itertools.product(
            ["gridrec", "astra"], range(6), [None, 1, 3], [True, False],
            [None, "list"], [False, True], [False, True]):
        ctx.case("metric/%s/%d/%s/%s/%s/%s/%s" % (
            method, best, ncore, log, ang, gpu, inv), metric, ctx, method,
            best, ncore, log, ang, gpu, inv)
