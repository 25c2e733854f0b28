"""P21: beam-hardening curve, MTF deconvolution, sinogram up-sampling.

Beam hardening: every (q, n, direction) of a parameter grid and every ordered
pair of grey levels of a level grid, in arrays of 1 to 3 dimensions.
Deconvolution: every image size inside every window size and padding, against
an independent Fourier model (and the round trip convolve -> deconvolve).
Up-sampling: every scale, sinogram type, size and phantom, against the
analytic sinogram at the refined angles.
"""
import itertools

import numpy as np

import algotom.prep.correction as corr
from mc.core import check, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of parameters, grey-level pairs "
             "and sizes on the real code against reference models")
LEVEL = "model_checking"
LEVEL_NOTE = ("All parameter combinations and level pairs within the bounds; "
              "the up-sampling oracle is analytic with a tolerance.")
RULE = ("case = one parameter set; state = (parameters, pair of grey levels "
        "| image and window size | sinogram)")
ASSUMPTIONS = ["grey levels in [0, 1] or (integer n) up to 0.1 beyond the end "
               "where the curve stays defined; windows without zeros",
               "up-sampling is an interpolation: agreement within 15 % of "
               "the peak for padded, angularly well-sampled sinograms"]


def hardening(ctx, q, n, opt, levels):
    v = np.linspace(0.0, 1.0, levels)
    ref = quiet(corr.beam_hardening_correction, v, q, n, opt)
    ctx.step()
    check(np.shape(ref) == v.shape, "shape", np.shape(ref))
    ref = np.asarray(ref, dtype=np.float64)
    check(bool(np.isfinite(ref).all()), "not finite", ref)
    check(abs(ref[0]) < 1e-6, "0 does not map to 0", ref[0])
    check(abs(ref[-1] - 1) < 1e-6, "1 does not map to 1", ref[-1])
    for i, j in itertools.combinations(range(levels), 2):
        ctx.state((q, n, opt, i, j))
        check(ref[i] <= ref[j] + 1e-9, "grey levels swapped order",
              v[i], v[j], ref[i], ref[j])
    check(bool((np.diff(ref[::5]) > 0).all()), "curve is flat", ref)
    check(bool(((ref <= v + 1e-9) if opt else (ref >= v - 1e-9)).all()),
          "curve bends the wrong way", q, n, opt)
    if float(n).is_integer() and q * n * 0.1 < 0.9:
        # noise takes pixels a little beyond the ends of the scale
        t = np.linspace(-0.1, 1.0, 2 * levels)
        t = t if not opt else (1.0 - t)[::-1]
        ctx.step()
        out = np.asarray(quiet(corr.beam_hardening_correction, t, q, n, opt),
                         np.float64)
        check(bool(np.isfinite(out).all()), "not finite beyond the scale",
              out)
        check(bool((np.diff(out) > 0).all()), "order lost beyond the ends of "
              "the scale", t, out)
    for shape in ((levels, 2), (2, levels), (2, 3, levels)):
        m = np.zeros(shape)
        m[...] = v[:, None] if shape == (levels, 2) else v
        w = np.zeros(shape)
        w[...] = ref[:, None] if shape == (levels, 2) else ref
        ctx.step()
        same(quiet(corr.beam_hardening_correction, m, q, n, opt), w,
             "array %s" % (shape,), 1e-6, 1e-7)
        same(quiet(corr.beam_hardening_correction, m.astype(np.float32), q,
                   n, opt), w, "float32 array %s" % (shape,), 1e-3, 1e-4)
    return ref


def harden_reject(ctx):
    m = np.linspace(0, 1, 9)
    ctx.step(5)
    for a in ((2.5 * m, 1, 3), (m, 1, 1), (m, 1, 1.5)):
        check(raises(lambda: corr.beam_hardening_correction(*a)) is True,
              "invalid input accepted", a)
        ctx.rejected += 1


def gaussian(h, w, depth):
    y, x = np.mgrid[0:h, 0:w].astype(float)
    r = ((y - h // 2) / max(h, 2)) ** 2 + 2 * ((x - w // 2) / max(w, 2)) ** 2
    return 1 - depth * (1 - np.exp(-8 * r))


def ref_mtf(mat, win, pad):
    m = np.pad(mat, ((0, win.shape[0] - mat.shape[0]),
                     (0, win.shape[1] - mat.shape[1])), mode="edge")
    m = np.pad(m, pad, mode="reflect")
    w = np.pad(win, pad, mode="constant", constant_values=1.0)
    # frequency k of the transform sits at index (k + n//2) of the window
    f = np.fft.fft2(m)
    for i in range(f.shape[0]):
        for j in range(f.shape[1]):
            f[i, j] /= w[(i + f.shape[0] // 2) % f.shape[0],
                         (j + f.shape[1] // 2) % f.shape[1]]
    r = np.real(np.fft.ifft2(f))[pad:, pad:]
    return r[:mat.shape[0], :mat.shape[1]]


def mtf(ctx, hw, win_hw, pad, depth):
    h, w = hw
    wh, ww = win_hw
    mat = fill((h, w), h * 7 + w, 0.5, 1.5, np.float64)
    win = gaussian(wh, ww, depth)
    if h > wh or w > ww:
        ctx.rejected += 1
        check(raises(lambda: corr.mtf_deconvolution(mat, win, pad)) is True,
              "window smaller than the image accepted")
        return "rejected"
    if pad >= min(wh, ww):
        return "skip"
    ctx.step()
    ctx.state((hw, win_hw, pad, depth))
    got = corr.mtf_deconvolution(mat, win, pad)
    same(got, ref_mtf(mat, win, pad), "deconvolution", 1e-6, 1e-6)
    same(corr.mtf_deconvolution(mat, np.ones((wh, ww)), pad), mat,
         "flat window is not the identity", 1e-6, 1e-7)
    if pad == 0 and hw == win_hw:
        m2 = np.fft.ifft2(np.fft.fft2(mat) * np.roll(
            win, (-(wh // 2), -(ww // 2)), (0, 1)))
        if np.abs(m2.imag).max() < 1e-9:
            same(corr.mtf_deconvolution(m2.real, win, 0), mat,
                 "convolve and deconvolve", 1e-6, 1e-6)
    return got


def phantom(n, w, cen, pts, span):
    th = np.linspace(0, span, n)[:, None]
    x = np.arange(w)[None]
    s = np.zeros((n, w))
    for r, ph, a, sg in pts:
        s += a * np.exp(-(x - cen - r * np.cos(th + ph)) ** 2 / 2 / sg ** 2)
    return s


def upsample(ctx, n, w, scale, typ, cen, spot):
    pts = [(w * 0.25, 0.4, 1, 2.0), (w * 0.1, 2.0, 0.6, 2.5)]
    pts = [pts[k] for k in spot]
    span = np.pi if typ == "180" else 2 * np.pi
    s = phantom(n, w, cen, pts, span)
    kw = {"center": cen} if typ == "180" else {}
    ctx.step()
    ctx.state((n, w, scale, typ, cen, spot))
    got = corr.upsample_sinogram(s, scale, sino_type=typ, pad=20, **kw)
    want = phantom(scale * (n - 1) + 1, w, cen, pts, span)
    check(got.shape == want.shape, "shape", got.shape, want.shape)
    err = np.abs(got - want).max() / want.max()
    check(err < 0.15, "up-sampled sinogram is off", err)
    g2 = corr.upsample_sinogram(s * 3.0, scale, sino_type=typ, pad=20, **kw)
    same(g2, 3.0 * got, "not proportional to the input", 1e-3, 1e-4)
    return np.round(got, 2)


def run(ctx):
    qs = ctx.pick([0.005, 0.1, 1, 10, 50], [0.005, 0.02, 0.1, 0.5, 1, 3, 10,
                                            25, 50])
    ns = ctx.pick([2, 2.5, 3, 5, 10], [2, 2.2, 2.5, 3, 4, 5, 7, 10, 20])
    for q in qs:
        for n in ns:
            for opt in (True, False):
                ctx.case("hard/%g/%g/%s" % (q, n, opt), hardening, ctx, q, n,
                         opt, ctx.pick(41, 101))
    ctx.case("hard/reject", harden_reject, ctx)
    sz = ctx.pick([1, 4, 5, 8], [1, 2, 3, 4, 5, 8, 9])
    for hw in itertools.product(sz, repeat=2):
        for whw in itertools.product(sz, repeat=2):
            for pad in (0, 1, 3):
                for depth in (0.3, 0.9):
                    ctx.case("mtf/%s/%s/%d/%g" % (hw, whw, pad, depth), mtf,
                             ctx, hw, whw, pad, depth)
    for n in ctx.pick([37, 60], [37, 48, 60, 91]):
        for w in ctx.pick([24, 25], [20, 24, 25, 40]):
            for scale in (2, 4, 6):
                for spot in ((0,), (1,), (0, 1)):
                    for typ in ("180", "360"):
                        for off in ((0.0,) if typ == "360"
                                    else (0.0, 1.0, -1.3)):
                            cen = (w - 1) / 2.0 + off
                            ctx.case("up/%d/%d/%d/%s/%g/%s" % (
                                n, w, scale, typ, off, spot), upsample, ctx,
                                n, w, scale, typ, cen, spot)
    for bad in (1, 3, 5):
        ctx.case("up/reject/%d" % bad, lambda: check(raises(
            lambda: corr.upsample_sinogram(np.ones((8, 8)), bad,
                                           sino_type="360")) is True,
            "odd scale accepted", bad))
