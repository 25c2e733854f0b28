"""P39: filters keep the mean level and act along the intended axis.

Alphabet   every small image shape of either parity, paddings, padding modes,
           axes, strengths, windows given or default, logarithm on or off.
Oracle     laws on every configuration (shape, constant image, linearity,
           mirror image, transposition, row independence) and exact models:
           the analytic gain of every cosine mode (Fresnel, Gaussian), the
           solution of the regularised least-squares system by a dense solver,
           the direct (non-Fourier) convolution with the ramp kernel, the
           preserved column sums of the double-wedge filter.
"""
import itertools

import numpy as np
import scipy.signal as sig

import algotom.prep.conversion as conv
import algotom.prep.filtering as filt
import algotom.rec.reconstruction as rec
import algotom.util.utility as util
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of image shapes and filter "
             "options, compared with analytic gains, dense linear algebra and "
             "direct convolution")
LEVEL = "model_checking"
LEVEL_NOTE = ("all shapes up to 9x9 (12x12 thorough), all Fourier modes of "
              "each, paddings, modes, axes and strengths")
RULE = "each filter/shape/option combination is one case state"
ASSUMPTIONS = ["windows of even size have one unpaired frequency, which is "
               "left out of the symmetry test",
               "the smoothing windows of the ramp filter are those of "
               "scipy.signal"]
TOL = dict(rtol=1e-4, atol=1e-5)


def laws(ctx, f, h, w, what, constant=1.0, lr=True, ud=True, rows=False,
         tol=TOL):
    """Laws every filter here obeys; f takes an image only."""
    a = fill((h, w), 1, 0.5, 2.0, "f8")
    b = fill((h, w), 2, -1.0, 1.0, "f8")
    keep = a.copy()
    ctx.step(7)
    fa, fb = np.asarray(f(a)), np.asarray(f(b))
    exact(a, keep, what + ": input changed")
    check(fa.shape == (h, w), "%s: shape %s" % (what, fa.shape))
    check(np.all(np.isfinite(fa)), what + ": not finite")
    same(f(2.0 * a - 3.0 * b), 2.0 * fa - 3.0 * fb, what + ": linearity",
         **tol)
    if constant is not None:
        same(f(np.full((h, w), 1.7)), np.full((h, w), 1.7 * constant),
             what + ": constant image", **tol)
    if lr:
        same(f(a[:, ::-1].copy()), fa[:, ::-1], what + ": mirrored left-right",
             **tol)
    if ud:
        same(f(a[::-1].copy()), fa[::-1], what + ": mirrored up-down", **tol)
    if rows:
        k = h // 2
        c = b.copy()
        c[k] = a[k]
        same(np.asarray(f(c))[k], fa[k], what + ": one row alone", **tol)
    same(f(np.float32(a)), fa, what + ": float32", rtol=1e-3, atol=1e-3)
    return fa


def modes(h, w):
    for u in range(w // 2 + 1):
        for v in range(h // 2 + 1):
            yield u, v


def centred(win, what, axes=(0, 1)):
    """Symmetric about the zero frequency n // 2 along the given axes."""
    for ax in axes:
        m = np.moveaxis(win, ax, 0)
        n = m.shape[0]
        c = n // 2
        for k in range(1, (n - 1) // 2 + 1):
            same(m[c + k], m[c - k], "%s: frequencies +-%d along axis %d"
                 % (what, k, ax), **TOL)


# ---------------------------------------------------------------- fresnel
def fresnel(ctx, h, w, dim):
    for ratio in (0.0, 1.0, 30.0, 500.0):
        win = filt.make_fresnel_window(h, w, ratio, dim)
        check(win.shape == (h, w), "window shape %s" % (win.shape,))
        centred(win, "window", (0, 1) if dim == 2 else (1,))
        u, v = np.fft.fftfreq(w), np.fft.fftfreq(h)
        full = 1 + ratio * (u[None] ** 2 + (v[:, None] ** 2 if dim == 2
                                            else 0 * v[:, None]))
        same(np.fft.ifftshift(win), full, "window", **TOL)
        for pad in (0, 1, 2, 7):
            ctx.state(("fresnel", h, w, dim, ratio, pad))
            def f(m):
                return filt.fresnel_filter(m, ratio, dim=dim, pad=pad,
                                           apply_log=False)
            what = "fresnel dim %d ratio %g pad %d" % (dim, ratio, pad)
            # padding repeats the last window value on either side; for
            # even sizes the two differ (by one frequency step)
            sym = pad == 0 or dim == 1 or (h % 2 == 1 and w % 2 == 1)
            fa = laws(ctx, f, h, w, what, lr=sym, ud=sym, rows=dim == 1)
            a = fill((h, w), 1, 0.5, 2.0, "f8")
            ctx.step(3)
            same(filt.fresnel_filter(a, ratio, dim=dim, window=win, pad=pad,
                                     apply_log=False), fa,
                 what + ": window given", **TOL)
            same(filt.fresnel_filter(np.exp(-a), ratio, dim=dim, pad=pad),
                 np.exp(-fa), what + ": logarithm", **TOL)
            if ratio == 0.0:
                same(fa, a, what + ": identity", **TOL)
            if dim == 2:
                same(filt.fresnel_filter(a.T.copy(), ratio, dim=2, pad=pad,
                                         apply_log=False).T, fa,
                     what + ": transposed", **TOL)
        # gain of every cosine mode
        x, y = np.arange(w), np.arange(h)[:, None]
        for ku, kv in modes(h, w):
            m = np.cos(2 * np.pi * ku * x / w) * np.cos(
                2 * np.pi * kv * y / h)
            g = 1 + ratio * ((ku / w) ** 2 + (kv / h) ** 2 * (dim == 2))
            ctx.step()
            same(filt.fresnel_filter(m, ratio, dim=dim, pad=0,
                                     apply_log=False), m / g,
                 "gain of mode (%d, %d), ratio %g" % (ku, kv, ratio), **TOL)
    return (h, w, dim)


# --------------------------------------------------------------- gaussian
def gaussian(ctx, h, w):
    for sx, sy in ((1, 1), (2, 1), (1, 3), (5, 2)):
        win = util.make_2d_gaussian_window(h, w, sx, sy)
        check(win.shape == (h, w), "window shape %s" % (win.shape,))
        centred(win, "Gaussian window")
        check(abs(win[h // 2, w // 2] - 1) < 1e-6, "zero frequency")
        x, y = np.arange(w), np.arange(h)[:, None]
        for ku, kv in modes(h, w):
            m = np.cos(2 * np.pi * ku * x / w) * np.cos(
                2 * np.pi * kv * y / h)
            g = np.exp(-ku ** 2 / (2 * sx ** 2) - kv ** 2 / (2 * sy ** 2))
            ctx.step()
            same(util.apply_gaussian_filter(m, sx, sy, pad=0), g * m,
                 "gain of mode (%d, %d), sigma (%d, %d)" % (ku, kv, sx, sy),
                 **TOL)
        for pad in (None, 0, 1, 3):
            for mode in (None, "reflect", "edge", ("edge", "mean"),
                         ["reflect", "edge"]):
                if pad and "reflect" in str(mode) and min(h, w) < 2:
                    continue
                ctx.state(("gauss", h, w, sx, sy, pad, str(mode)))
                what = "Gaussian (%d, %d) pad %s %s" % (sx, sy, pad, mode)
                def f(m):
                    return util.apply_gaussian_filter(m, sx, sy, pad=pad,
                                                      mode=mode)
                fa = laws(ctx, f, h, w, what)
                if isinstance(mode, str):
                    a = fill((h, w), 1, 0.5, 2.0, "f8")
                    ctx.step(2)
                    same(util.apply_gaussian_filter(
                        a.T.copy(), sy, sx, pad=pad, mode=mode).T, fa,
                        what + ": transposed", **TOL)
                    same(util.apply_gaussian_filter(
                        a, sx, sy, pad=pad, mode=(mode, mode)), fa,
                        what + ": mode given twice", **TOL)
        #  the first mode is for the columns, the second for the rows
        a = fill((h, w), 1, 0.5, 2.0, "f8")
        for m1, m2 in itertools.permutations(
                ("edge", "wrap", "symmetric", "mean"), 2):
            for pad in (1, 2, 4):
                ctx.step(2)
                ctx.state(("gauss", h, w, sx, sy, pad, m1, m2))
                b = np.pad(np.pad(a, ((0, 0), (pad, pad)), mode=m1),
                           ((pad, pad), (0, 0)), mode=m2)
                b = util.apply_gaussian_filter(b, sx, sy, pad=0)
                same(util.apply_gaussian_filter(a, sx, sy, pad=pad,
                                                mode=(m1, m2)),
                     b[pad:-pad, pad:-pad], "Gaussian padded by %d, modes %s, "
                     "%s" % (pad, m1, m2), **TOL)
    return (h, w)


# ---------------------------------------------------------- regularization
def regularization(ctx, h, w, alpha):
    coe = util.calculate_regularization_coefficient(w, alpha)
    check(coe.shape == (w, w), "shape")
    same(coe, coe.T, "not symmetric", **TOL)
    same(coe, coe[::-1, ::-1], "not symmetric under mirroring", rtol=1e-4,
         atol=1e-4 * np.abs(coe).max())
    d = np.diff(np.eye(w), axis=0)
    lap = d.T @ d
    solve = np.linalg.inv(np.eye(w) * alpha + lap) * alpha
    a = fill((h, w), 1, 0.5, 2.0, "f8")
    model = a @ solve.T
    # the filter adds the correction computed from the gradient
    model = a - (a @ lap) @ np.linalg.inv(np.eye(w) * alpha + lap).T
    for axis in (0, 1):
        for ncore in (1, 2, None):
            if ncore == 2 and not ctx.thorough:
                continue
            ctx.state(("reg", h, w, alpha, axis, ncore))
            def f(m):
                return util.apply_regularization_filter(m, alpha, axis=axis,
                                                        ncore=ncore)
            hh, ww = (h, w) if axis == 1 else (w, h)
            what = "regularization alpha %g axis %d" % (alpha, axis)
            fa = laws(ctx, f, hh, ww, what, rows=axis == 1,
                      tol=dict(rtol=1e-3, atol=1e-3))
            m = a if axis == 1 else a.T.copy()
            ctx.step()
            want = model if axis == 1 else model.T
            same(f(m), want, what + ": least-squares solution", rtol=1e-3,
                 atol=1e-3)
    for k in range(h):
        ctx.step()
        same(util.apply_1d_regularizer(a[k], coe), model[k], "single row",
             rtol=1e-3, atol=1e-3)
    return (h, w, alpha)


def regularization_wide(ctx, w, alpha):
    ctx.step()
    ctx.state(("wide", w, alpha))
    coe = util.calculate_regularization_coefficient(w, alpha)
    check(np.all(np.isfinite(coe)), "coefficients of a line of %d are not "
          "finite" % w)
    line = np.float64(1 + 0.1 * np.sin(np.arange(w) / 3.0))
    got = util.apply_1d_regularizer(line, coe)
    d = np.zeros((3, w))            # banded solver
    d[1] = 2 + alpha
    d[1, [0, -1]] = 1 + alpha
    d[0, 1:] = d[2, :-1] = -1
    import scipy.linalg as sl
    want = sl.solve_banded((1, 1), d, alpha * line)
    same(got, want, "line of %d" % w, rtol=1e-3, atol=1e-3)
    return (w, alpha)


# ------------------------------------------------------------ double wedge
def wedge(ctx, h, w):
    for ratio in (1.0, 0.5):
        for pad in (0, 3, 10):
            for it in (1, 3):
                ctx.state(("wedge", h, w, ratio, pad, it))
                def f(m):
                    return filt.double_wedge_filter(
                        m, sino_type="360", iteration=it, ratio=ratio,
                        pad=pad)
                what = "double wedge ratio %g pad %d x%d" % (ratio, pad, it)
                fa = laws(ctx, f, h, w, what, ud=False)
                a = fill((h, w), 1, 0.5, 2.0, "f8")
                same(fa.sum(0), a.sum(0), what + ": sum over the views",
                     **TOL)
                ctx.step(2)
                mask = filt.make_double_wedge_mask(h, w + 2 * pad,
                                                   ratio * w / 2.0)
                check(mask.shape == (h, w + 2 * pad) and
                      set(np.unique(mask)) <= {0.0, 1.0}, "mask")
                same(filt.double_wedge_filter(
                    a, sino_type="360", iteration=it, mask=mask, pad=pad),
                    fa, what + ": mask given", **TOL)
                step = a
                for _ in range(it):
                    step = filt.double_wedge_filter(
                        step, sino_type="360", iteration=1, ratio=ratio,
                        pad=pad)
                same(step, fa, what + ": one by one", **TOL)
                for bad in (mask[1:], mask[:, 1:], np.pad(mask, 1)):
                    ok = raises(lambda: filt.double_wedge_filter(
                        a, sino_type="360", mask=bad, pad=pad), ValueError)
                    check(ok is True, "mask of a wrong shape: %s" % ok)
    for c in (w // 2, (w - 1) / 2.0, w // 2 - 1):
        for pad in (0, 5):
            a = fill((h, w), 4, 0.5, 2.0, "f4")
            keep = a.copy()
            ctx.step(2)
            ctx.state(("wedge180", h, w, c, pad))
            got = filt.double_wedge_filter(a, center=c, iteration=2, pad=pad)
            full = conv.convert_sinogram_180_to_360(a, c)
            want = filt.double_wedge_filter(full, sino_type="360",
                                            iteration=2, pad=pad)
            same(got, want[:h], "180-degree sinogram", **TOL)
            exact(a, keep, "input changed")
    for kw in (dict(center=0), dict(center=3, sino_type="270")):
        ok = raises(lambda: filt.double_wedge_filter(a, **kw), ValueError)
        check(ok is True, "accepted %s: %s" % (kw, ok))
    return (h, w)


def wedge_object(ctx, h, w):
    """A sinogram of a real object passes, views out of place do not."""
    th = np.linspace(0, 2 * np.pi, h, endpoint=False)
    for r, phi in ((0, 0), (w / 6, 0.3), (w / 4, 2.0)):
        s = w / 16
        pos = (w - 1) / 2 + r * np.cos(th + phi)
        sino = np.exp(-(np.arange(w) - pos[:, None]) ** 2 / (2 * s * s))
        ctx.step()
        ctx.state(("object", h, w, r))
        got = filt.double_wedge_filter(sino, sino_type="360", iteration=1,
                                       pad=w // 2)
        d = np.sqrt(np.mean((got - sino) ** 2) / np.mean(sino ** 2))
        check(d < 0.1, "object at radius %g changed by %.3g" % (r, d))
        bad = sino.copy()
        bad[h // 3] = np.roll(bad[h // 3], w // 3)
        got = filt.double_wedge_filter(bad, sino_type="360", iteration=5,
                                       pad=w // 2)
        before = np.abs(bad[h // 3] - sino[h // 3]).max()
        after = np.abs(got[h // 3] - sino[h // 3]).max()
        check(after < 0.85 * before, "displaced view: error %.3g of %.3g "
              "left" % (after, before))
    return (h, w)


# ------------------------------------------------------------------- ramp
NAMES = (None, "hann", "bartlett", "blackman", "hamming", "nuttall", "parzen",
         "triang")


def ramp(ctx, h, w):
    a = fill((h, w), 1, 0.5, 2.0, "f8")
    for pad in (None, 0, 1, 4):
        p = min(int(0.15 * w), 150) if pad is None else pad
        for mode in ("edge", "constant", "reflect"):
            if mode == "reflect" and p >= w:
                continue
            for name in NAMES:
                ctx.state(("ramp", h, w, pad, mode, name))
                def f(m):
                    return rec.apply_ramp_filter(m, filter_name=name, pad=pad,
                                                 pad_mode=mode)
                what = "ramp %s pad %s %s" % (name, pad, mode)
                fa = laws(ctx, f, h, w, what, constant=None, rows=True,
                          lr=(w + 2 * p) % 2 == 1 or name is None)
                ctx.step(2)
                win = rec.make_2d_ramp_window(h, w + 2 * p, name)
                same(rec.apply_ramp_filter(a, ramp_win=win, pad=pad,
                                           pad_mode=mode), fa,
                     what + ": window given", **TOL)
                same(rec.apply_ramp_filter(a, ramp_win=win[:, :-1],
                                           filter_name=name, pad=pad,
                                           pad_mode=mode), fa,
                     what + ": window of a wrong shape", **TOL)
                if name is None:
                    # direct circular convolution of the padded rows
                    m = np.pad(a, ((0, 0), (p, p)), mode=mode)
                    n = m.shape[1]
                    ker = np.zeros(n)
                    for k in range(-(n // 2), n - n // 2):
                        ker[k % n] = 0.25 if k == 0 else (
                            -1.0 / (k * np.pi) ** 2 if k % 2 else 0.0)
                    want = np.asarray([[sum(row[j] * ker[(i - j) % n]
                                            for j in range(n))
                                        for i in range(n)] for row in m])
                    same(fa, want[:, p:p + w], what + ": convolution", **TOL)
                else:
                    # never stronger than the plain filter
                    m = np.pad(a, ((0, 0), (p, p)), mode=mode)
    for name in NAMES:
        ctx.step()
        win = rec.make_smoothing_window(name, w)
        check(win.shape == (w,), "window shape")
        same(win, win[::-1], "window %s" % name, **TOL)
        check(win.max() <= 1 + 1e-6, "window %s above one" % name)
        same(win, np.ones(w) if name is None else sig.get_window(
            name, w, fftbins=False), "window %s" % name, **TOL)
        two = rec.make_2d_ramp_window(h, w, name)
        check(two.shape == (h, w), "ramp window shape")
        check(np.all(two == two[0]), "ramp window differs between rows")
    return (h, w)


def circular(ctx, n):
    a = fill((n, n), 1, 0.5, 2.0, "f8")
    for pad in (None, 0, 3):
        for name in NAMES[:4]:
            for mode in ("edge", "constant"):
                ctx.state(("circular", n, pad, name, mode))
                def f(m):
                    return rec.apply_circular_ramp_filter(
                        m, filter_name=name, pad=pad, pad_mode=mode)
                p = min(int(0.15 * n), 150) if pad is None else pad
                what = "circular ramp %s pad %s" % (name, pad)
                fa = laws(ctx, f, n, n, what, constant=None,
                          lr=n % 2 == 1, ud=n % 2 == 1)
                ctx.step(2)
                if n % 2:
                    same(f(a.T.copy()).T, fa, what + ": transposed",
                         rtol=1e-3, atol=1e-3)
                    same(np.rot90(f(np.rot90(a).copy()), -1), fa,
                         what + ": turned", rtol=1e-3, atol=1e-3)
                win = rec.make_circular_ramp_window(n + 2 * p, name)
                check(win.shape == (n + 2 * p,) * 2, "window shape")
                same(rec.apply_circular_ramp_filter(
                    a, ramp_win=win, pad=pad, pad_mode=mode), fa,
                    what + ": window given", **TOL)
    return n


def radial(ctx, n):
    """A 1D window turned into 2D depends on the radius only."""
    c = n // 2
    for k, prof in enumerate((np.ones(n), 1.0 * np.abs(np.arange(n) - c),
                              np.exp(-(np.arange(n) - c) ** 2 / 8.0))):
        for mode in ("reflect", "nearest"):
            ctx.step()
            ctx.state(("radial", n, k, mode))
            win = util.transform_1d_window_to_2d(prof, mode=mode)
            check(win.shape == (n, n), "shape %s" % (win.shape,))
            for i in range(n):
                for j in range(n):
                    r = np.hypot(i - c, j - c)
                    if r > (n - 1) // 2 - 1:
                        continue
                    lo, fr = int(np.floor(r)), r - np.floor(r)
                    want = prof[c + lo] * (1 - fr) + (
                        prof[c + lo + 1] * fr if fr else 0)
                    check(abs(win[i, j] - want) < 1e-3 * max(1, abs(want)),
                          "window at radius %.3f: %g, not %g"
                          % (r, win[i, j], want))
            mid = win[c, 1:] if n % 2 == 0 else win[c]
            line = prof[1:] if n % 2 == 0 else prof
            same(mid, line, "middle row", rtol=1e-3, atol=1e-3)
    return n


def fitted(ctx, h, w):
    for order in (1, 2, 3):
        for chunk in (1, 2):
            for axis in (0, 1):
                n = (h if axis == 0 else w) // chunk
                n = n if n % 2 else n - 1
                if n <= order:
                    continue
                ctx.state(("fit", h, w, order, chunk, axis))
                def f(m):
                    return util.generate_fitted_image(m, order, axis=axis,
                                                      num_chunk=chunk)
                what = "fit of order %d, axis %d, %d chunk(s)" % (
                    order, axis, chunk)
                fa = laws(ctx, f, h, w, what, rows=axis == 1)
                a = fill((h, w), 1, 0.5, 2.0, "f8")
                ctx.step(2)
                same(util.generate_fitted_image(a.T.copy(), order,
                                                axis=1 - axis,
                                                num_chunk=chunk).T, fa,
                     what + ": transposed", **TOL)
                t = np.arange(h if axis == 0 else w, dtype=float)
                for d in range(order + 1):
                    line = (t / len(t) - 0.3) ** d
                    m = np.tile(line, (3, 1))
                    m = m.T.copy() if axis == 0 else m
                    got = util.generate_fitted_image(m, order, axis=axis,
                                                     num_chunk=chunk)
                    g = got[:, 1] if axis == 0 else got[1]
                    half = n // 2
                    same(g[half:len(t) - half], line[half:len(t) - half],
                         what + ": polynomial of degree %d" % d, **TOL)
    return (h, w)


def run(ctx):
    big = ctx.pick((2, 3, 5, 6, 8, 9), (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12))
    for h in big:
        for w in big:
            for dim in (1, 2):
                ctx.case("fresnel/%dx%d/%d" % (h, w, dim), fresnel, ctx, h, w,
                         dim)
            ctx.case("gaussian/%dx%d" % (h, w), gaussian, ctx, h, w)
            if w >= 3:
                ctx.case("ramp/%dx%d" % (h, w), ramp, ctx, h, w)
    for h in ctx.pick((2, 5, 6, 9), (1, 2, 3, 4, 5, 6, 9)):
        for w in ctx.pick((3, 5, 6, 9, 20), (2, 3, 4, 5, 6, 7, 8, 9, 20, 33)):
            for alpha in (5e-4, 0.01, 0.3, 2.0):
                ctx.case("regularization/%dx%d/%g" % (h, w, alpha),
                         regularization, ctx, h, w, alpha)
    for w in (150, 1000, ctx.pick(1500, 3000)):
        for alpha in (5e-4, 0.02, 0.5, 3.0):
            ctx.case("wide/%d/%g" % (w, alpha), regularization_wide, ctx, w,
                     alpha)
    for h in ctx.pick((9, 12), (7, 8, 9, 12, 15)):
        for w in ctx.pick((8, 11), (6, 8, 9, 11, 14)):
            ctx.case("wedge/%dx%d" % (h, w), wedge, ctx, h, w)
    for h, w in ctx.pick([(90, 48)], [(90, 48), (121, 48), (90, 65)]):
        ctx.case("wedge-object/%dx%d" % (h, w), wedge_object, ctx, h, w)
    for n in ctx.pick((5, 8, 11), (3, 4, 5, 8, 9, 11, 14, 21)):
        ctx.case("circular/%d" % n, circular, ctx, n)
        if n > 3:
            ctx.case("radial/%d" % n, radial, ctx, n)
    for h in ctx.pick((7, 12), (5, 7, 8, 12, 15)):
        for w in ctx.pick((9, 14), (6, 9, 14, 17)):
            ctx.case("fitted/%dx%d" % (h, w), fitted, ctx, h, w)
