"""P29: surface reconstruction from gradients.

Every pair of frequencies of a small grid is reconstructed from its exact
gradient: on the cosine basis for the Frankot-Chellappa (FC) method, which
must be exact, and on the periodic basis for the Simchony (SCS) method, whose
published transfer function is known.  On top: linearity, mirror and
transposition symmetry, tilt and offset of the gradients, the windows, the
padding modes, the negative correction and the error exits.
"""
import numpy as np

import algotom.prep.phase as ph
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of shapes and frequency pairs "
             "on the real code against the surface")
LEVEL = "model_checking"
LEVEL_NOTE = ("All pairs of basis functions of all listed shapes; by "
              "linearity all surfaces of these shapes.")
RULE = "case = (method, shape, group); state = one surface or one option"
ASSUMPTIONS = ["the overall tilt (mean gradient) is not recovered by either "
               "method: surfaces without tilt",
               "SCS: surfaces periodic over the image"]

FC = ph.reconstruct_surface_from_gradient_FC_method
SCS = ph.reconstruct_surface_from_gradient_SCS_method


def call(name, gx, gy, **kw):
    kw.setdefault("correct_negative", False)
    return quiet(FC if name == "FC" else SCS, gx, gy, **kw)


def nodc(a):
    return a - a.mean()


def basis(name, h, w, ky, kx, phase):
    """Surface and gradient."""
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    if name == "FC":
        cx, cy = np.pi * kx / w, np.pi * ky / h
        x, y = x + 0.5, y + 0.5
        s = np.cos(cx * x) * np.cos(cy * y)
        gx = -cx * np.sin(cx * x) * np.cos(cy * y)
        gy = -cy * np.cos(cx * x) * np.sin(cy * y)
    else:
        cx, cy = 2 * np.pi * kx / w, 2 * np.pi * ky / h
        arg = cx * x + cy * y + phase
        s = np.cos(arg)
        gx, gy = -cx * np.sin(arg), -cy * np.sin(arg)
    return s, gx, gy


def gain(name, h, w, ky, kx):
    if name == "FC":
        return 1.0
    u, v = kx / w, ky / h
    num = 2 * np.pi * u * np.sin(2 * np.pi * u) + \
        2 * np.pi * v * np.sin(2 * np.pi * v)
    return num / (4 * (np.sin(np.pi * u) ** 2 + np.sin(np.pi * v) ** 2))


def modes(ctx, name, h, w):
    top = ((h - 1), (w - 1)) if name == "FC" else ((h - 1) // 2,
                                                   (w - 1) // 2)
    ny, nx = top
    for ky in range(0 if name == "FC" else -ny, ny + 1):
        for kx in range(0, nx + 1):
            if kx == 0 and ky == 0:
                continue
            if name == "FC" and (kx == 0 and ky % 2 or ky == 0 and kx % 2):
                continue        # carries a tilt
            for phase in ((0,) if name == "FC" else (0.0, 0.7, 2.2)):
                s, gx, gy = basis(name, h, w, ky, kx, phase)
                k = gx.copy(), gy.copy()
                ctx.step()
                ctx.state((name, h, w, ky, kx, phase))
                got = call(name, gx, gy)
                check(got.shape == (h, w), "shape %s" % (got.shape,))
                exact(gx, k[0], "x-gradient changed")
                exact(gy, k[1], "y-gradient changed")
                g = gain(name, h, w, ky, kx)
                d = np.abs(nodc(got) - g * nodc(s)).max()
                check(d < 2e-3, "frequencies (%d, %d): off by %.4g"
                      % (ky, kx, d))
    return (h, w)


def surfaces(h, w):
    y, x = np.mgrid[0:h, 0:w]
    y, x = (y + 0.5) / h, (x + 0.5) / w
    return {"hill": np.exp(-((x - 0.5) ** 2 + (y - 0.45) ** 2) / 0.02),
            "two": np.exp(-((x - 0.3) ** 2 + (y - 0.45) ** 2) / 0.015) -
            0.7 * np.exp(-((x - 0.65) ** 2 + (y - 0.6) ** 2) / 0.02),
            "wave": np.cos(2 * np.pi * x) * np.cos(2 * np.pi * y),
            "cliff": 1 / (1 + np.exp(20 * (np.hypot(x - .5, y - .5) - .25)))}


def numeric(ctx, name, h, w, pads):
    for sn, s in surfaces(h, w).items():
        gy, gx = np.gradient(s)
        for pad in pads:
            kws = [dict()] if pad is None else [
                dict(pad=pad, pad_mode=m) for m in
                ("linear_ramp", "constant", "edge", "reflect", "wrap")]
            for kw in kws:
                if sn == "wave" and kw:
                    continue        # not compact
                if pad == 20 and kw["pad_mode"] in ("reflect", "wrap"):
                    continue        # mirrors the surface into the border
                ctx.step()
                ctx.state((name, h, w, sn, str(kw)))
                got = call(name, gx, gy, **kw)
                check(got.shape == (h, w), "shape %s" % (got.shape,))
                d = np.abs(nodc(got) - nodc(s)).max() / np.ptp(s)
                lim = 0.16 if kw.get("pad_mode") in ("reflect",
                                                     "wrap") else 0.09
                check(d < lim, "surface %s %s: off by %.3g of its range"
                      % (sn, kw, d))
    return (h, w)


def algebra(ctx, name, h, w, pad):
    kw = {} if pad is None else dict(pad=pad)
    a = fill((h, w), 1, -1, 1, "f8")
    b = fill((h, w), 2, -1, 1, "f8")
    c = fill((h, w), 3, -1, 1, "f8")
    d = fill((h, w), 4, -1, 1, "f8")
    ctx.step(9)
    ra, rb = call(name, a, b, **kw), call(name, c, d, **kw)
    tol = dict(rtol=1e-3, atol=1e-3)
    same(call(name, 2 * a - c, 2 * b - d, **kw), 2 * ra - rb, "linearity",
         **tol)
    same(call(name, b.T.copy(), a.T.copy(), **kw).T, ra, "transposed",
         **tol)
    same(nodc(call(name, np.fliplr(-a).copy(), np.fliplr(b).copy(), **kw))
         if name == "FC" else ra,
         nodc(np.fliplr(ra)) if name == "FC" else ra, "mirrored in x", **tol)
    same(nodc(call(name, np.flipud(a).copy(), np.flipud(-b).copy(), **kw))
         if name == "FC" else ra,
         nodc(np.flipud(ra)) if name == "FC" else ra, "mirrored in y", **tol)
    if pad:
        for m in ("linear_ramp", "constant", "edge", "reflect", "symmetric",
                  "wrap"):
            ctx.step(2)
            got = call(name, a, b, pad=pad, pad_mode=m)
            want = call(name, np.pad(a, pad, mode=m), np.pad(b, pad, mode=m))
            same(got, want[pad:-pad, pad:-pad], "padding mode " + m, **tol)
    if pad in (None, 0):
        #  SCS shifts with the image
        if name == "SCS":
            for sh in ((1, 0), (0, 1), (h // 2, w // 3)):
                got = call(name, np.roll(a, sh, (0, 1)),
                           np.roll(b, sh, (0, 1)))
                same(got, np.roll(ra, sh, (0, 1)), "rolled by %s" % (sh,),
                     **tol)
        same(nodc(call(name, a + 0.3, b - 0.2, **kw)), nodc(ra),
             "constant added to the gradients", **tol)
    same(call(name, a.astype("f4"), b.astype("f4"), **kw), ra,
         "single precision", **tol)
    z = call(name, np.zeros((h, w)), np.zeros((h, w)), **kw)
    check(np.abs(z).max() == 0, "flat surface: %.3g" % np.abs(z).max())
    cor = call(name, a, b, correct_negative=True, **kw)
    off = cor - ra
    check(np.ptp(off) < 1e-3, "negative correction is not an offset")
    check(cor.min() >= -1e-6, "negative value left")
    if ra.min() >= 0:
        same(cor, ra, "corrected without need")
    return (h, w)


def windows(ctx, name, h, w):
    a = fill((h, w), 1, -1, 1, "f8")
    b = fill((h, w), 2, -1, 1, "f8")
    base = call(name, a, b)
    if name == "FC":
        v, u = np.mgrid[-h:h, -w:w].astype(np.float64)
        u, v = u / (2 * w), v / (2 * h)
        win = u ** 2 + v ** 2
        win[h, w] = 1.0
        win = 1 / win
        win[h, w] = 0.0
    else:
        v, u = np.mgrid[0:h, 0:w].astype(np.float64)
        u, v = u / w, v / h
        win = np.sin(np.pi * u) ** 2 + np.sin(np.pi * v) ** 2
        win[0, 0] = 1.0
        win = 1 / (4j * win)
        win[0, 0] = 0.0
        u, v = np.sin(2 * np.pi * u), np.sin(2 * np.pi * v)
    keep = [u.copy(), v.copy(), win.copy()]
    for kind in (list, tuple):
        ctx.step()
        ctx.state((name, h, w, kind.__name__))
        got = call(name, a, b, window=kind((u, v, win)))
        same(got, base, "given window (%s)" % kind.__name__, rtol=1e-3,
             atol=1e-3)
    for x, k in zip((u, v, win), keep):
        exact(x, k, "window changed")
    half = call(name, a, b, window=[u, v, win * 0.5])
    same(half, base * 0.5, "window of half the strength", rtol=1e-3,
         atol=1e-3)
    for bad in (win, (u, v), [u, v, win, win], [u, v, win[:-1]],
                [u, v, win[:, :-1]]):
        ctx.step()
        ok = raises(lambda: call(name, a, b, window=bad))
        check(ok is True, "bad window accepted: %s" % ok)
    for bad in (a[:-1], a[:, :-1], a.T if h != w else a[:-1]):
        ctx.step()
        ok = raises(lambda: call(name, bad, b))
        check(ok is True, "gradients of different shapes: %s" % ok)
    return (h, w)


def run(ctx):
    dims = ctx.pick((4, 5, 7, 8, 12), (3, 4, 5, 6, 7, 8, 9, 12, 16))
    for name in ("FC", "SCS"):
        for h in dims:
            for w in dims:
                ctx.case("modes/%s/%dx%d" % (name, h, w), modes, ctx, name, h,
                         w)
                pads = (None,) if name == "FC" else (0, 1, 3)
                for pad in pads:
                    ctx.case("algebra/%s/%dx%d/p%s" % (name, h, w, pad),
                             algebra, ctx, name, h, w, pad)
                ctx.case("windows/%s/%dx%d" % (name, h, w), windows, ctx,
                         name, h, w)
        for h, w in ctx.pick([(32, 48), (47, 32), (33, 33)],
                             [(32, 48), (47, 32), (33, 33), (64, 40),
                              (41, 80)]):
            ctx.case("numeric/%s/%dx%d" % (name, h, w), numeric, ctx, name,
                     h, w, (None,) if name == "FC" else (0, 1, 7, 20))
