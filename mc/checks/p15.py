"""P15: 360-degree <-> 180-degree sinograms.

A 360-degree scan of every object of a small set is simulated analytically
for every off-centre axis position on either side (a grid with sub-pixel
steps), every width of either parity and every number of views.  Converting it
must give the analytic 180-degree sinogram about the returned axis; extending
it must keep every value measured outside the overlap and put the axis in the
middle; converting 180 to 360 must give the analytic second half.
"""
import numpy as np

import algotom.prep.conversion as conv
from mc.core import check, fill, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of axis positions, widths and "
             "view counts on the real code against analytic sinograms")
LEVEL = "model_checking"
LEVEL_NOTE = "All axis positions, sizes and sides within the bounds."
RULE = "case = (width, views, axis); state = the same with its options"
ASSUMPTIONS = ["360-degree scans have an odd number of views (both ends "
               "included)", "smooth objects for sub-pixel axes"]


def obj(u, th, o):
    if o == 0:
        return 2 + 0.5 * np.cos(2 * np.pi * u / 23) + np.sin(
            2 * np.pi * u / 37.0) * np.sin(th)
    r, ph = 9.0, 0.4
    return 1.5 + np.exp(-(u - r * np.cos(th + ph)) ** 2 / 2 / 3.0 ** 2)


def sino(n, axis, th, o):
    return np.array([obj(np.arange(n) - axis, t, o) for t in th])


def to180(ctx, n, views, axis, o, form):
    th = np.linspace(0, 2 * np.pi, views)
    s = sino(n, axis, th, o)
    keep = s.copy()
    side = 0 if axis <= (n - 1) / 2.0 else 1
    ov = 2 * axis + 1 if side == 0 else 2 * (n - axis) - 1
    arg = axis if form == "cor" else (ov, side)
    for norm in (False, True):
        ctx.step()
        ctx.state((n, views, axis, o, form, norm))
        got, cor = conv.convert_sinogram_360_to_180(s, arg, norm=norm)
        check(np.array_equal(s, keep), "caller's sinogram changed")
        h, w = got.shape
        check(h == views // 2 + 1, "number of views", h)
        check(abs(w - (2 * n - ov)) <= 0.5 + 1e-6, "width", w, n, ov)
        check(abs(cor - (w - 1) / 2.0) < 1e-6,
              "returned axis is not the middle", cor, w)
        want = sino(w, cor, th[:h], o)
        m = 8
        whole = abs(ov - round(ov)) < 1e-9
        if whole:
            m = 0
        # edge values extended by a sub-pixel shift stay near the seams
        d = np.abs(got - want)
        if not whole:
            for e in (n, w - n):
                d[:, max(e - 2, 0):e + 2] = 0
        tol = (1e-4 if whole else 0.02) if not norm else 0.04
        check(d[:, m:w - m].max() < tol,
              "not the full-width sinogram about the returned axis",
              float(d[:, m:w - m].max()), cor)
        g2, c2 = conv.convert_sinogram_360_to_180(s, arg, norm=norm,
                                                  total_width=w + 5)
        check(g2.shape[1] == w + 5 and c2 == cor, "total width")
        same(g2[:, :w], got, "total width changes the data", 1e-6, 1e-6)
    if form == "cor" and abs(ov - round(ov)) < 1e-9:
        k = int(round(ov))
        for wt in (0.25, 1.0):
            w1, w2 = np.ones((h, n)), np.ones((h, n))
            if side == 1:
                w1[:, -k:], w2[:, :k] = wt, 1 - wt
            else:
                w1[:, :k], w2[:, -k:] = wt, 1 - wt
            ctx.step()
            got, cor = conv.convert_sinogram_360_to_180(
                s, arg, wei_mat1=w1, wei_mat2=w2, norm=False)
            same(got, sino(w, cor, th[:h], o), "given weights", 1e-4, 1e-4)
    return np.round(want, 2)


def extend(ctx, n, views, axis, o, form):
    th = np.linspace(0, 2 * np.pi, views)
    s = sino(n, axis, th, o)
    side = 0 if axis <= (n - 1) / 2.0 else 1
    ov = 2 * axis + 1 if side == 0 else 2 * (n - axis) - 1
    k = int(np.round(ov + 1e-3))
    whole = abs(ov - k) < 1e-9
    arg = axis if form == "cor" else (ov, side)
    for log in (False, True):
        given = np.exp(-s) if log else s
        keep = given.copy()
        ctx.step()
        ctx.state((n, views, axis, o, form, log))
        got, cor = conv.extend_sinogram(given, arg, apply_log=log)
        check(np.array_equal(given, keep), "caller's sinogram changed")
        h, w = got.shape
        check(h == views, "number of views", h)
        check(w == 2 * n - k, "width", w)
        check(abs(cor - (w - 1) / 2.0) < 1e-6, "axis not in the middle", cor)
        # measured values outside the overlap, doubled, about the axis
        want = 2 * sino(w, cor, th, o)
        if side == 1:
            a, z = 0, n - k
        else:
            a, z = w - n + k, w
        if not whole:
            a, z = a + (8 if side else 1), z - (1 if side else 8)
        if z > a:
            d = np.abs(got - want)[:, a:z].max()
            check(d < (1e-4 if whole else 0.03),
                  "measured values moved about the axis", float(d))
        # opposite views of the overlap add up to the measured value
        if whole:
            lo, hi = (n - k, n) if side == 1 else (w - n, w - n + k)
            check(hi - lo == k, "overlap")
            mid = got[:, lo:hi]
            opp = np.roll(mid[:-1], (views - 1) // 2, axis=0)[:, ::-1]
            same(mid[:-1] + opp, want[:-1, lo:hi], "overlap weights", 1e-3,
                 1e-3)
        else:
            lo, hi = (n - k, n) if side == 1 else (w - n, w - n + k)
        # beyond the measured area: nothing but the faded edge
        out = got[:, n:] if side == 1 else got[:, :w - n]
        if out.size:
            check(np.abs(out).max() < 1e-6, "padding is not empty",
                  float(np.abs(out).max()))
    return np.round(got, 2)


def to360(ctx, n, views, axis, o):
    th = np.linspace(0, np.pi, views)
    s = sino(n, axis, th, o)
    keep = s.copy()
    ctx.step()
    ctx.state((n, views, axis, o))
    got = conv.convert_sinogram_180_to_360(s, axis)
    check(np.array_equal(s, keep), "caller's sinogram changed")
    check(got.shape == (2 * views - 1, n), "shape", got.shape)
    same(got[:views], s, "first half changed", 1e-6, 1e-7)
    want = sino(n, axis, np.linspace(0, 2 * np.pi, 2 * views - 1), o)
    off = abs(2 * axis - (n - 1))
    whole = abs(2 * axis - round(2 * axis)) < 1e-9
    # columns whose mirror image lies inside the detector
    x = np.arange(n)
    ok = (2 * axis - x >= 0) & (2 * axis - x <= n - 1)
    if off > 1e-9:
        ok &= (2 * axis - x >= 5) & (2 * axis - x <= n - 6)
    d = np.abs(got - want)[:, ok]
    check(d.max() < (1e-4 if off < 1e-9 else 0.02),
          "second half is not the mirrored first half", float(d.max()),
          whole)
    if n % 2 and off < 1e-9 or n % 2 == 0 and off < 1e-9:
        r = fill((views, n), n, 0, 1, np.float64)
        g = conv.convert_sinogram_180_to_360(r, axis)
        same(g, np.vstack([r, r[1:, ::-1]]), "centred random sinogram", 1e-5,
             1e-6)
        i = (100 * r).astype(np.uint16)
        g = conv.convert_sinogram_180_to_360(i, axis)
        same(g, np.vstack([i, i[1:, ::-1]]), "integer sinogram", 1e-5, 1e-3)
    return np.round(want, 2)


def run(ctx):
    for n in ctx.pick([60, 61], [60, 61, 80, 83]):
        for views in ctx.pick([37, 73], [37, 49, 73]):
            step = ctx.pick(0.5, 0.25)
            offs = list(np.arange(10, n / 2.0 - 4, step * 5)) + \
                [12.1, 14.3, 15.7, 17.9, 20.05, 11.45, 13.6]
            axes = sorted(set(round(float(a), 3) for a in offs))
            axes += [round(n - 1 - a, 3) for a in axes]
            for a in axes:
                for o in (0, 1):
                    for form in ("cor", "tuple"):
                        ctx.case("to180/%d/%d/%g/%d/%s" % (
                            n, views, a, o, form), to180, ctx, n, views, a,
                            o, form)
                        ctx.case("extend/%d/%d/%g/%d/%s" % (
                            n, views, a, o, form), extend, ctx, n, views, a,
                            o, form)
            c = (n - 1) / 2.0
            for d in (0, 0.5, -0.5, 1, -1, 3, -3, 0.25, -0.3, 5.2, -4.7):
                for o in (0, 1):
                    for nv in (2, 3, views):
                        ctx.case("to360/%d/%d/%g/%d" % (n, nv, c + d, o),
                                 to360, ctx, n, nv, c + d, o)
