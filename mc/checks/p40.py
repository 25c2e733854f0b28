"""P40: polar transforms and ring removal keep the image geometry.

Alphabet   image sizes of either parity, polar sizes, every pixel; blobs on a
           grid of positions; rings at every radius and of either sign; each
           ring-removal method, sorted or not.
Oracle     the coordinate maps are inverse to each other at every pixel; a
           polar value is the bilinear sample at its physical point (own
           interpolation); ring removal is compared with what it does to the
           ring alone (suppressed) and to ring-free images (kept).
"""
import numpy as np

import algotom.post.postprocessing as post
import algotom.util.utility as util
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of image and polar sizes, pixels, "
             "ring radii and blob positions, compared with the geometry of "
             "the transform")
LEVEL = "model_checking"
LEVEL_NOTE = ("every pixel of all listed sizes; every ring radius and a grid "
              "of object positions for each method")
RULE = "each size/radius/position/option combination is one case state"
ASSUMPTIONS = ["images are square; polar maps of wider images use the larger "
               "half width as radius",
               "ring-removal bounds: a one-pixel ring is reduced to below 62 "
               "% (fft) or 82 % (wavelet) of its rms, a smooth blob keeps 80 % of its shape"]


def geometry(ctx, n, wp, hp):
    c = (n - 1) * 0.5
    rmax = np.floor(c)
    ctx.step(2)
    ctx.state((n, wp, hp))
    x, y = util.rectangular_from_polar(n, n, wp, hp)
    check(x.shape == (hp, wp) and y.shape == (hp, wp), "shape %s" %
          (x.shape,))
    for t in range(hp):
        for k in range(wp):
            r = rmax * k / (wp - 1)
            a = 2 * np.pi * t / (hp - 1)
            check(abs(x[t, k] - (c + r * np.cos(a))) < 1e-3 and
                  abs(y[t, k] - (c + r * np.sin(a))) < 1e-3,
                  "polar point (%d, %d) is at (%g, %g)" % (t, k, x[t, k],
                                                           y[t, k]))
    r, th = util.polar_from_rectangular(wp, hp, n, n)
    check(r.shape == (n, n) and th.shape == (n, n), "shape")
    for i in range(n):
        for j in range(n):
            d = np.hypot(i - c, j - c)
            if d > rmax:
                check(r[i, j] <= wp - 1 and 0 <= th[i, j] <= hp - 1,
                      "point outside the polar image")
                continue
            rr = r[i, j] * rmax / (wp - 1)
            a = th[i, j] * 2 * np.pi / (hp - 1)
            check(abs(c + rr * np.cos(a) - j) < 1e-3 and
                  abs(c + rr * np.sin(a) - i) < 1e-3,
                  "pixel (%d, %d) is taken from radius %.4f instead of %.4f, "
                  "angle %.4f" % (i, j, rr, d, a))
    return (n, wp, hp)


def bilinear(mat, x, y):
    h, w = mat.shape
    out = np.zeros(x.shape)
    for p in np.ndindex(x.shape):
        x0, y0 = int(np.floor(x[p])), int(np.floor(y[p]))
        fx, fy = x[p] - x0, y[p] - y0
        x1, y1 = min(x0 + 1, w - 1), min(y0 + 1, h - 1)
        out[p] = (mat[y0, x0] * (1 - fx) + mat[y0, x1] * fx) * (1 - fy) + (
            mat[y1, x0] * (1 - fx) + mat[y1, x1] * fx) * fy
    return out


def sampling(ctx, n):
    mat = fill((n, n), 3, 0, 1, "f4")
    keep = mat.copy()
    x, y = util.rectangular_from_polar(n, n, n, n)
    r, th = util.polar_from_rectangular(n, n, n, n)
    ctx.step(6)
    ctx.state(("sampling", n))
    fwd = util.transform_slice_forward(mat)
    tol = dict(rtol=1e-3, atol=1e-3)
    same(fwd, bilinear(mat, x, y), "forward", **tol)
    same(util.transform_slice_forward(mat, (x, y)), fwd, "forward, given "
         "coordinates", **tol)
    back = util.transform_slice_backward(mat)
    same(back, bilinear(mat, r, th), "backward", **tol)
    same(util.transform_slice_backward(mat, (r, th)), back, "backward, given "
         "coordinates", **tol)
    exact(mat, keep, "input changed")
    for f in (util.transform_slice_forward, util.transform_slice_backward):
        for bad in (lambda: f(mat[1:]), lambda: f(mat, (x[1:], y)),
                    lambda: f(mat, (x, y[:, 1:]))):
            ok = raises(bad, ValueError)
            check(ok is True, "bad shape accepted: %s" % ok)
    # general mapping
    h, w = n, n + 3
    img = fill((h, w), 4, 0, 1, "f4")
    gx, gy = np.meshgrid(np.linspace(0, w - 1, 2 * w), np.linspace(
        0, h - 1, h + 4))
    same(util.mapping(img, gx, gy), bilinear(img, gx, gy), "mapping", **tol)
    ix, iy = np.meshgrid(np.arange(w), np.arange(h))
    for order in range(6):
        ctx.step()
        same(util.mapping(img, ix, iy, order=order), img, "mapping at the "
             "pixels, order %d" % order, rtol=1e-3, atol=2e-3)
        same(util.mapping(img, ix[:, ::-1], iy, order=order), img[:, ::-1],
             "mirrored mapping", rtol=1e-3, atol=2e-3)
    # circle masks
    for ratio in (0.0, 0.3, 0.5, 0.99, 1.0, 1.3, 2.0):
        ctx.step()
        m = util.make_circle_mask(n, ratio)
        check(m.shape == (n, n), "mask shape")
        c = n // 2
        yy, xx = np.mgrid[:n, :n]
        d = np.hypot(yy - c, xx - c)
        check(np.all(m[d < ratio * c - 1e-6] == 1) and
              np.all(m[d > ratio * c + 1e-6] == 0), "mask %g" % ratio)
    return n


def blob(n, cy, cx, s):
    y, x = np.mgrid[:n, :n]
    return np.exp(-((y - cy) ** 2 + (x - cx) ** 2) / (2 * s * s))


def inside(n, margin=1.5):
    c = (n - 1) * 0.5
    y, x = np.mgrid[:n, :n]
    return np.hypot(y - c, x - c) < np.floor(c) - margin


def round_trip(ctx, n):
    m = inside(n)
    c = (n - 1) * 0.5
    x, y = util.rectangular_from_polar(n, n, n, 4 * n)
    r, th = util.polar_from_rectangular(n, 4 * n, n, n)
    for s, lim in ((n / 12.0, 0.04), (n / 8.0, 0.02)):
        for ry in range(-4, 5):
            for rx in range(-4, 5):
                if np.hypot(ry, rx) > 4.5:
                    continue
                img = blob(n, c + ry * n / 10, c + rx * n / 10, s)
                ctx.step(2)
                ctx.state((n, s, ry, rx))
                got = util.mapping(util.mapping(img, x, y), r, th)
                d = np.abs(got - img)[m].max()
                lim1 = lim * (48.0 / n if n < 48 else 1)
                check(d < lim1, "object at (%d, %d) comes back changed by "
                      "%.3g" % (ry, rx, d))
                got = util.transform_slice_backward(
                    util.transform_slice_forward(img))
                d = np.abs(got - img)[m].max()
                check(d < 5 * lim1, "square polar image: object at (%d, %d) "
                      "comes back changed by %.3g" % (ry, rx, d))
    same(util.transform_slice_backward(util.transform_slice_forward(
        np.full((n, n), 2.5))), np.full((n, n), 2.5), "constant", rtol=1e-5,
        atol=1e-5)
    return n


def ring(n, rad, wid=0.6, arc=None):
    c = (n - 1) * 0.5
    y, x = np.mgrid[:n, :n]
    d = np.hypot(y - c, x - c)
    out = np.exp(-(d - rad) ** 2 / (2 * wid * wid))
    if arc is not None:
        out = out * (np.arctan2(y - c, x - c) % (2 * np.pi) < arc)
    return out


def straight(ctx, n):
    """Rings become straight columns at the right place."""
    rmax = np.floor((n - 1) * 0.5)
    for rad in range(4, int(rmax) - 1):
        ctx.step()
        ctx.state(("straight", n, rad))
        pol = util.transform_slice_forward(ring(n, rad, 1.2))
        col = rad * (n - 1) / rmax
        k = np.argmax(pol, axis=1)
        check(np.all(np.abs(k - col) <= 1.01), "ring of radius %d is at "
              "columns %d..%d, not %.2f" % (rad, k.min(), k.max(), col))
        check(np.ptp(pol, axis=0).max() < 0.35, "stripe is not uniform: %g"
              % np.ptp(pol, axis=0).max())
    return n


METHODS = {
    "fft": lambda m, sort=False, **k: post.remove_ring_based_fft(
        m, sort=sort, **dict(dict(u=2, n=8, v=1), **k)),
    "wavelet": lambda m, sort=False, **k: post.remove_ring_based_wavelet_fft(
        m, sort=sort, **dict(dict(level=5, size=1, wavelet_name="db5"), **k))}


def removal(ctx, name, n, sort):
    f = METHODS[name]
    c = (n - 1) * 0.5
    rmax = np.floor(c)
    m = inside(n, 2.5)
    bases = [np.full((n, n), 1.0),
             1.0 + 0.6 * blob(n, c + n * 0.15, c - n * 0.1, n / 7.0) -
             0.3 * blob(n, c - n * 0.2, c + n * 0.15, n / 9.0)]
    mask = util.make_circle_mask(n, 1.0)
    for b, base in enumerate(bases):
        keep = base.copy()
        ctx.step()
        got = f(base, sort)
        exact(base, keep, "input changed")
        check(got.shape == (n, n) and np.all(np.isfinite(got)), "shape")
        check(not np.any(got[mask == 0]), "outside of the circle is not zero")
        d = np.abs(got - base)[m].max()
        lim = 1e-3 if b == 0 else 0.17
        check(d < lim, "ring-free image %d changed by %.3g" % (b, d))
        clean = got
        for rad in range(int(rmax * 0.4) + 1, int(rmax) - 2):
            for amp in (0.5, -0.5):
                ctx.step()
                ctx.state((name, n, sort, b, rad, amp))
                r = ring(n, rad)
                got = f(base + amp * r, sort)
                check(got.shape == (n, n) and np.all(np.isfinite(got)),
                      "not finite")
                d = (got - clean)[m] / amp
                left = np.sqrt(np.mean(d ** 2) / np.mean(r[m] ** 2))
                lim = (0.62, 0.47) if name == "fft" else (0.82, 0.72)
                check(left < lim[0] and np.abs(d).max() < lim[1],
                      "ring of radius %d, height %g: %.2f of it is left (at "
                      "most %.2f)" % (rad, amp, left, np.abs(d).max()))
    return (name, n, sort)


def algebra(ctx, name, n):
    f = METHODS[name]
    a, b = fill((n, n), 1, 0, 1, "f8"), fill((n, n), 2, 0, 1, "f8")
    ctx.step(5)
    ctx.state(("algebra", name, n))
    same(f(2 * a - b), 2 * f(a) - f(b), "linearity", rtol=1e-3, atol=1e-3)
    for s in (False, True):
        same(f(3 * a, s), 3 * f(a, s), "scaling", rtol=1e-3, atol=1e-3)
        same(f(a.astype(np.float32), s), f(a, s), "float32", rtol=1e-2,
             atol=1e-2)
    for bad in (a[1:], a[:, 1:]):
        ok = raises(lambda: f(bad), ValueError)
        check(ok is True, "image not square: %s" % ok)
    return n


def strength(ctx, n):
    """Options act in the documented direction."""
    m = inside(n, 2.5)
    base = np.full((n, n), 1.0)
    for rad in range(n // 6, n // 2 - 4, 2):
        r = 0.5 * ring(n, rad)
        left = []
        for u in (2, 5, 10, 20):
            ctx.step()
            ctx.state(("u", n, rad, u))
            left.append(np.abs(METHODS["fft"](base + r, u=u) - 1)[m].max())
        check(all(x < y + 0.02 for x, y in zip(left, left[1:])),
              "ring left for u=2,5,10,20: %s" % np.round(left, 3))
        left = []
        for size in (1, 2, 4):
            ctx.step()
            ctx.state(("size", n, rad, size))
            left.append(np.abs(METHODS["wavelet"](base + r, size=size) - 1)[
                m].max())
        check(all(x + 0.02 > y for x, y in zip(left, left[1:])),
              "ring left for size=1,2,4: %s" % np.round(left, 3))
    return n


def run(ctx):
    for n in ctx.pick((7, 8, 16, 21), (5, 6, 7, 8, 11, 16, 21, 30, 33)):
        for wp, hp in ((n, n), (n + 3, n), (2 * n, 4 * n), (n, 2 * n - 1)):
            ctx.case("geometry/%d/%dx%d" % (n, wp, hp), geometry, ctx, n, wp,
                     hp)
    for n in ctx.pick((7, 12), (5, 6, 7, 9, 12, 20)):
        ctx.case("sampling/%d" % n, sampling, ctx, n)
    for n in ctx.pick((48, 65), (32, 41, 48, 64, 65, 100)):
        ctx.case("round-trip/%d" % n, round_trip, ctx, n)
        ctx.case("straight/%d" % n, straight, ctx, n)
    for name in METHODS:
        sizes = ctx.pick((48, 65), (48, 64, 65, 81, 100)) if name == "fft" \
            else ctx.pick((129,), (128, 129, 161, 256))
        for n in sizes:
            for sort in (False, True):
                ctx.case("removal/%s/%d/%s" % (name, n, sort), removal, ctx,
                         name, n, sort)
        for n in ctx.pick((20, 33), (17, 20, 33, 48)):
            ctx.case("algebra/%s/%d" % (name, n), algebra, ctx, name, n)
    for n in ctx.pick((48,), (48, 65, 96)):
        ctx.case("strength/%d" % n, strength, ctx, n)
