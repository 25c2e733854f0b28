"""P35: correlation maps, peak location and global shifts.

All small images over a small alphabet, all shapes; all peak positions on a
quarter-pixel grid; all 3x3 maps over three values; all integer shifts within
the margin.  Oracle: Pearson's coefficient by definition, the analytic peak,
the known shift.
"""
import itertools

import numpy as np
import scipy.ndimage as ndi

from mc.core import check, quiet, raises, fill, same
import algotom.util.correlation as corr

SHARDS = 8
TECHNIQUE = ("exhaustive enumeration of small images, peak maps and shifts "
             "on the real code against the definitions")
LEVEL = "model_checking"
LEVEL_NOTE = ("All 2x3/2x2 images over a small alphabet, all shapes up to "
              "6x6, all 3x3 maps over three values, quarter-pixel peak "
              "positions, all integer shifts within the margin.")
RULE = "case = group of inputs; state = one input"
ASSUMPTIONS = ["finite images; poly-fit refinement stays within its window "
               "for arbitrary maps and is exact for quadratic ones"]


def pearson(ref, mat):
    h, w = mat.shape[-2:]
    H, W = ref.shape[-2:]
    out = np.zeros((H - h + 1, W - w + 1))
    b = np.float64(mat).ravel()
    b = b - b.mean()
    for i, j in np.ndindex(*out.shape):
        a = np.float64(ref[..., i:i + h, j:j + w]).ravel()
        a = a - a.mean()
        n = np.sqrt((a * a).sum() * (b * b).sum())
        out[i, j] = (a * b).sum() / n if n > 1e-9 else 0
    return out


def cmap(ctx, ref, mat):
    ctx.step()
    ctx.state((ref, mat))
    got = quiet(corr.generate_correlation_map, ref, mat)
    want = pearson(ref, mat)
    check(got.shape == want.shape, "shape", got.shape, want.shape)
    check(np.abs(got - want).max() < 2e-4, "coefficients", got, want)


def tiny(ctx, first):
    vals = (0, 1, 3)
    for rest in itertools.product(vals, repeat=4):
        ref = np.array(first + rest, np.float32).reshape(2, 3)
        for m in itertools.product((0, 2), repeat=4):
            cmap(ctx, ref, np.array(m, np.float32).reshape(2, 2))
        for m in itertools.product((0, 1), repeat=3):
            cmap(ctx, ref, np.array(m, np.float32).reshape(1, 3))


def shapes(ctx, H, W, depth, dt):
    full = fill((depth or 1, H, W), H * 7 + W, 0, 200, np.float64)
    full[0, 0, 0] = 255
    for h, w in itertools.product(range(1, H + 1), range(1, W + 1)):
        m = fill((depth or 1, h, w), h * 7 + w, 0, 200, np.float64)
        a, b = full.astype(dt), m.astype(dt)
        if not depth:
            a, b = a[0], b[0]
        k = (a.copy(), b.copy())
        cmap(ctx, a, b)
        same(a, k[0], "input changed")
        same(b, k[1], "input changed")
        cmap(ctx, np.asfortranarray(a), b[..., ::-1, :])
    if H > 2 and W > 2:
        i, j = H - 2, 1
        cut = full.astype(dt)[:, i:i + 2, j:j + 2]
        if len(np.unique(cut)) > 1:
            a = full.astype(dt)
            got = quiet(corr.generate_correlation_map, a if depth else a[0],
                        cut if depth else cut[0])
            check(abs(got[i, j] - 1) < 1e-3, "coefficient of the same area",
                  got[i, j])


def quad(h, w, y0, x0, a, b, c):
    y, x = np.mgrid[:h, :w].astype(np.float64)
    return 5 - a * (x - x0) ** 2 - b * (y - y0) ** 2 - c * (x - x0) * (y - y0)


def peak(ctx, h, w, y0, x0, method, dim, size, mx):
    for a, b, c in ((1, 1, 0), (.5, 1.2, 0), (1, 1, .6), (1.5, .4, -.5)):
        if c and dim == 1:
            continue
        m = quad(h, w, y0, x0, a, b, c)
        iy, ix = np.unravel_index(np.argmax(m), m.shape)
        yb, xb = iy in (0, h - 1), ix in (0, w - 1)
        if c and (yb or xb):
            continue
        # several equal maxima (half-pixel): any is fine, refined it is exact
        data = m if mx else -m
        ctx.step(2)
        ctx.state((h, w, y0, x0, method, dim, size, mx, a, b, c))
        keep = data.copy()
        px, py = quiet(corr.locate_peak, data, sub_pixel=True, method=method,
                       dim=dim, size=size, max_peak=mx)
        same(data, keep, "map changed")
        wx = float(ix) if xb else x0
        wy = float(iy) if yb else y0
        check(abs(px - wx) < 1e-4 and abs(py - wy) < 1e-4,
              "peak (x, y)", (px, py), (wx, wy), (a, b, c))
        px, py = quiet(corr.locate_peak, data, sub_pixel=False, max_peak=mx)
        check(px == int(px) and py == int(py) and
              m[int(py), int(px)] == m.max(), "integer peak", px, py)


def maps3(ctx, first):
    for rest in itertools.product((0, 1, 2), repeat=6):
        m = np.array(first + rest, np.float64).reshape(3, 3)
        big = np.zeros((5, 4))
        big[1:4, :3] = m
        for arr in (m, big):
            ctx.state(arr)
            ctx.step(4)
            for dim, mx in itertools.product((1, 2), (True, False)):
                px, py = quiet(corr.locate_peak, arr, dim=dim, max_peak=mx)
                ok = arr == (arr.max() if mx else arr.min())
                d = [max(abs(px - x), abs(py - y))
                     for y, x in zip(*np.nonzero(ok))]
                check(min(d) < 1, "peak is a pixel or more away from the "
                      "extremum", (px, py), arr)
                h, w = arr.shape
                check(0 <= px <= w - 1 and 0 <= py <= h - 1, "outside",
                      (px, py))


def texture(h, w, depth, seed):
    v = fill((depth or 1, h, w), seed, 0, 1, np.float64)
    v = ndi.gaussian_filter(v, (0, 0.9, 0.9), mode="wrap")
    return v if depth else v[0]


def shift(ctx, margin, sy, sx, depth, axis, crop, dt, sub):
    h, w = 2 * margin + 9, 2 * margin + 11
    ref = texture(h, w, depth, 3)
    if np.dtype(dt).kind == "u":
        ref = np.round(ref * 250)
    ref = ref.astype(dt)
    big = np.pad(ref, [(0, 0)] * (ref.ndim - 2) + [(margin, margin)] * 2,
                 mode="wrap")
    dy, dx = (0 if axis == 1 else sy), (0 if axis == 0 else sx)
    # mat[i] = ref[i + shift]
    mat = big[..., margin + dy:margin + dy + h, margin + dx:margin + dx + w]
    if crop:
        if axis != 1:
            mat = mat[..., margin:-margin, :]
        if axis != 0:
            mat = mat[..., margin:-margin]
    ctx.step()
    ctx.state((margin, sy, sx, depth, axis, crop, str(dt), sub))
    x, y = quiet(corr.find_shift_based_correlation_map, ref, mat,
                 margin=margin, axis=axis, sub_pixel=sub)
    tol = 0.5 if sub else 1e-9
    check(abs(x - dx) <= tol and abs(y - dy) <= tol, "shift (x, y)",
          (float(x), float(y)), (dx, dy))


def subshift(ctx, sy, sx, method, dim):
    y, x = np.mgrid[:24, :26].astype(float)

    def img(oy, ox):
        s = 0
        for a, b, c in ((6, 7, 1), (15, 9, .8), (10, 18, 1.2), (18, 19, .6)):
            s = s + c * np.exp(-((y + oy - a) ** 2 + (x + ox - b) ** 2) / 12)
        return s
    ctx.step()
    ctx.state((sy, sx, method, dim))
    gx, gy = quiet(corr.find_shift_based_correlation_map, img(0, 0),
                   img(sy, sx), margin=3, method=method, dim=dim)
    check(abs(gx - sx) < 0.1 and abs(gy - sy) < 0.1, "sub-pixel shift",
          (gx, gy), (sx, sy))


def rejects():
    z = np.ones((6, 6))
    f, g = corr.generate_correlation_map, corr.find_shift_based_correlation_map
    for fun in (lambda: f(z, np.ones((7, 6))), lambda: f(z, np.ones((6, 7))),
                lambda: f(np.ones((2, 6, 6)), np.ones((3, 4, 4))),
                lambda: f(np.ones(6), np.ones(6)),
                lambda: g(z, z, margin=3), lambda: g(z, z, margin=2, axis=0),
                lambda: g(z, np.ones((5, 5)), margin=2)):
        check(raises(lambda: quiet(fun)) is True, "accepted")


def normalised(ctx, d, h, w, kind):
    """Stacks: zero mean and unit deviation, lifted to a minimum of zero;
    images: in addition divided by the profiles along both directions."""
    ctx.step()
    a = fill((d, h, w) if d else (h, w), 3 + h, 0.2, 0.9, "f8")
    if kind == "zero-row":
        a[..., 0, :] = 0
    elif kind == "zero-column":
        a[..., 1] = 0
    elif kind == "signed":
        a = a - 0.7
    if d:
        want = (a - a.mean()) / a.std()
        want = want - want.min()
    else:
        x, y = a.sum(0), a.sum(1)
        x[x == 0], y[y == 0] = 1, 1
        want = a / x[None] / y[:, None]
        if want.std() < 1e-6:
            return
        want = (want - want.mean()) / want.std()
    same(corr.normalize_image(a), want, "normalised", 1e-5, 1e-5)


def run(ctx):
    for first in itertools.product((0, 1, 3), repeat=2):
        ctx.case("tiny/%d_%d" % first, tiny, ctx, first)
    for H, W, depth, dt in itertools.product(
            range(1, ctx.pick(6, 9)), range(1, ctx.pick(6, 9)), (0, 1, 3),
            (np.float32, np.float64, np.uint8, np.uint16, np.int16)):
        ctx.case("shapes/%d/%d/%d/%s" % (H, W, depth, np.dtype(dt).name),
                 shapes, ctx, H, W, depth, dt)
    q = np.arange(0, 1, 0.25)
    for (h, w), (method, size), dim, mx in itertools.product(
            ((5, 5), (5, 8), (7, 5), (3, 3), (3, 9)),
            (("diff", 3), ("diff", 7), ("poly_fit", 3), ("poly_fit", 5),
             ("poly_fit", 7)), (1, 2), (True, False)):
        if method == "poly_fit" and size > min(h, w):
            continue
        for y0 in np.arange(-0.5, h - 0.4, 0.25):
            for x0 in np.arange(-0.5, w - 0.4, 0.25):
                ctx.case("peak/%d_%d/%s/%s/%s%d/%d/%d" % (
                    h, w, y0, x0, method, size, dim, mx), peak, ctx, h, w,
                    y0, x0, method, dim, size, mx)
    for first in itertools.product((0, 1, 2), repeat=3):
        ctx.case("maps/%d%d%d" % first, maps3, ctx, first)
    for margin in ctx.pick((2, 3), (2, 3, 5)):
        r = range(-margin, margin + 1)
        for sy, sx, depth, axis, crop, dt, sub in itertools.product(
                r, r, (0, 2), (None, 0, 1), (False, True),
                (np.float32, np.uint16), (False, True)):
            ctx.case("shift/%d/%d_%d/%d/%s/%d/%s/%d" % (
                margin, sy, sx, depth, axis, crop, np.dtype(dt).name, sub),
                shift, ctx, margin, sy, sx, depth, axis, crop, dt, sub)
    for sy, sx, method, dim in itertools.product(
            np.arange(-2, 2.1, 0.25), np.arange(-2, 2.1, 0.25),
            ("diff", "poly_fit"), (1, 2)):
        ctx.case("sub/%s_%s/%s/%d" % (sy, sx, method, dim), subshift, ctx,
                 float(sy), float(sx), method, dim)
    for d, h, w in itertools.product((0, 1, 2, 5), (2, 3, 8, 9), (2, 3, 8, 11)):
        for kind in ("plain", "zero-row", "zero-column", "signed"):
            ctx.case("normalise/%d/%d/%d/%s" % (d, h, w, kind), normalised,
                     ctx, d, h, w, kind)
    ctx.case("reject", rejects)
