"""P37: calibration tools return the true values of known targets.

Alphabet   every binary image of a small shape (all 2^n of them) for the dot
           tools; discs at every position of a grid, of several sizes, bright
           or dark, with and without a background gradient, holes and smaller
           satellites for the distance; every combination of half axes,
           rotation, centre, number of points and arc for the ellipse and for
           the tilt and roll.
Oracle     a flood fill written here (4-neighbours) gives the dots and their
           sizes; geometry gives distance, ellipse, tilt and roll.  Laws:
           order of the points, translation, mirroring.
"""
import itertools

import numpy as np

import algotom.util.calibration as calib
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of binary images and of "
             "calibration geometries, compared with a flood-fill model and "
             "with the generating geometry")
LEVEL = "model_checking"
LEVEL_NOTE = ("all binary images up to 4x4 (thorough), all positions, sizes, "
              "axes, angles and options of the listed grids")
RULE = "each image/geometry/option combination is one case state"
ASSUMPTIONS = ["dots are 4-connected", "a size range given by a ratio is "
               "only decided for sizes at least one pixel outside it",
               "tilt by the linear fit is accurate to the smoothing of the "
               "distances (sigma of two points)"]


# ------------------------------------------------------------------- dots
def dots_of(mat):
    h, w = mat.shape
    seen = np.zeros((h, w), bool)
    out = []
    for i in range(h):
        for j in range(w):
            if mat[i, j] and not seen[i, j]:
                todo, dot = [(i, j)], []
                seen[i, j] = True
                while todo:
                    a, b = todo.pop()
                    dot.append((a, b))
                    for c, d in ((a + 1, b), (a - 1, b), (a, b + 1),
                                 (a, b - 1)):
                        if 0 <= c < h and 0 <= d < w and mat[c, d] \
                                and not seen[c, d]:
                            seen[c, d] = True
                            todo.append((c, d))
                out.append(dot)
    return out


def all_dots(ctx, h, w, top, ntop):
    low = h * w - top
    for k in range(2 ** low):
        bits = [(ntop >> i) & 1 for i in range(top)] + [
            (k >> i) & 1 for i in range(low)]
        mat = np.asarray(bits, dtype=np.int16).reshape(h, w)
        dots = dots_of(mat)
        if not dots:
            continue
        ctx.state(("dots", h, w, bits))
        sizes = [len(d) for d in dots]
        keep = mat.copy()
        ctx.step(4)
        for opt, f in (("max", max), ("min", min), ("mean", np.mean),
                       ("median", np.median)):
            got = calib.get_dot_size(mat, size_opt=opt)
            check(abs(got - f(sizes)) < 1e-6, "%s size of %s: %s, not %s"
                  % (opt, bits, got, f(sizes)))
        for ds in sorted(set(sizes)) + [float(np.mean(sizes))]:
            for ratio in (0.01, 0.5):
                ctx.step()
                got = np.asarray(calib.select_dot_based_size(mat, ds,
                                                             ratio=ratio))
                lo, hi = ds * (1 - ratio), ds * (1 + ratio)
                for d in dots:
                    on = [bool(got[p]) for p in d]
                    if lo <= len(d) <= hi:
                        check(all(on), "dot %s of size %d left out of "
                              "[%g, %g] in %s" % (d, len(d), lo, hi, bits))
                    elif len(d) <= lo - 1 or len(d) >= hi + 1:
                        check(not any(on), "dot %s of size %d is in [%g, %g]"
                              " in %s" % (d, len(d), lo, hi, bits))
                check(not np.any(got[mat == 0]), "background selected")
        exact(mat, keep, "image changed")
    return (h, w, ntop)


def sizes_in_range(ctx, n):
    for size in range(0, n + 1):
        mat = np.zeros((n, 3))
        mat[:size, 1] = 1
        for lo in range(0, n + 1):
            for hi in range(0, n + 1):
                ctx.step()
                got = calib.check_dot_size(mat, lo, hi)
                check(bool(got) == (lo <= size <= hi), "size %d in [%d, %d]:"
                      " %s" % (size, lo, hi, got))
    ctx.state(("range", n))
    return n


# --------------------------------------------------------------- distance
def disc(h, w, cy, cx, r, hole=0):
    y, x = np.ogrid[:h, :w]
    d = (y - cy) ** 2 + (x - cx) ** 2
    m = (d <= r * r).astype(np.float32)
    if hole:
        m[d <= hole * hole] = 0
    return m


def picture(h, w, dot, bright, bgr, gradient):
    y, x = np.mgrid[:h, :w]
    img = np.where(dot > 0, 0.25, 1.0) if bgr == "bright" else np.where(
        dot > 0, 1.0, 0.25)
    if gradient:
        img = img * (1 + 0.1 * x / w + 0.05 * y / h)
    return img.astype(np.float32)


def distance(ctx, h, w, r, bgr, opts):
    grid_y = sorted({r + 1, h // 2, h - r - 2})
    grid_x = sorted({r + 1, w // 3, w // 2, w - r - 2})
    pts = list(itertools.product(grid_y, grid_x))
    for (y1, x1), (y2, x2) in itertools.product(pts, pts):
        for hole in (0, 1) if r >= 3 else (0,):
            a = picture(h, w, disc(h, w, y1, x1, r, hole), 1, bgr,
                        opts.get("_gradient"))
            b = picture(h, w, disc(h, w, y2, x2, r), 1, bgr,
                        opts.get("_gradient"))
            kw = {k: v for k, v in opts.items() if k[0] != "_"}
            ka, kb = a.copy(), b.copy()
            ctx.step()
            if "threshold" not in kw and not all(
                    0.26 < calib.calculate_threshold(m, bgr=bgr) < 0.99
                    for m in (a, b)):
                continue        # dots too small or too large for it
            ctx.state((h, w, r, bgr, y1, x1, y2, x2, hole, str(opts)))
            got = quiet(calib.calculate_distance, a, b, bgr=bgr, **kw)
            want = np.hypot(y1 - y2, x1 - x2)
            check(abs(got - want) < 1e-3 + opts.get("_tol", 0),
                  "distance of (%d, %d) and (%d, %d), radius %d, %s: %.4f, "
                  "not %.4f" % (y1, x1, y2, x2, r, opts, got, want))
            exact(a, ka, "image changed")
            exact(b, kb, "image changed")
    return (h, w, r, bgr)


def satellites(ctx, h, w):
    """A large and a small dot: size_opt selects which one is measured."""
    rb, rs = 5, 3
    for (by, bx), (sy, sx) in itertools.product(
            [(8, 9), (h - 9, 9), (9, w - 12)],
            [(h // 2, w // 2), (h - 10, w - 10), (h // 2 - 1, w // 2 + 3)]):
        if np.hypot(by - sy, bx - sx) < rb + rs + 3:
            continue
        one = disc(h, w, by, bx, rb) + disc(h, w, sy, sx, rs)
        for dy, dx in ((2, 1), (-1, 3), (0, -2)):
            two = disc(h, w, by + dy, bx + dx, rb) + disc(
                h, w, sy - dy, sx + 2 * (dx > 0), rs)
            for bgr in ("bright", "dark"):
                a, b = (picture(h, w, m, 1, bgr, 0) for m in (one, two))
                for opt, want in (("max", np.hypot(dy, dx)),
                                  ("min", np.hypot(dy, 2 * (dx > 0)))):
                    ctx.step()
                    ctx.state(("sat", by, bx, sy, sx, dy, dx, bgr, opt))
                    got = calib.calculate_distance(
                        a, b, size_opt=opt, threshold=0.6, bgr=bgr)
                    check(abs(got - want) < 1e-3, "%s dot moved by %.4f, "
                          "reported %.4f" % (opt, want, got))
    return (h, w)


def binary(ctx, h, w, r):
    for cy in range(r + 1, h - r - 1, 2):
        for cx in range(r + 1, w - r - 1, 3):
            dot = disc(h, w, cy, cx, r)
            for bgr in ("bright", "dark"):
                for thr in (None, 0.6):
                    for den in (True, False):
                        for inv in (True, False):
                            img = picture(h, w, dot, 1, bgr, 0)
                            keep = img.copy()
                            ctx.step()
                            ctx.state((h, w, r, cy, cx, bgr, thr, den, inv))
                            if thr is None:
                                t = calib.calculate_threshold(img, bgr=bgr)
                                if not 0.26 < t < 0.99:
                                    # too few pixels in the dot for the
                                    # automatic threshold
                                    continue
                            got = calib.binarize_image(
                                img, threshold=thr, bgr=bgr, denoise=den,
                                invert=inv)
                            check(set(np.unique(got)) <= {0, 1}, "not binary")
                            if inv or bgr == "dark":
                                core = disc(h, w, cy, cx, r - 1) > 0
                                far = disc(h, w, cy, cx, r + 1) == 0
                                check(np.all(got[core] == 1), "dot at (%d, "
                                      "%d) lost" % (cy, cx))
                                check(np.all(got[far] == 0), "background at "
                                      "(%d, %d) kept" % (cy, cx))
                                if not den:
                                    exact(np.asarray(got),
                                          dot.astype(np.int16), "dot")
                            exact(img, keep, "image changed")
    img = picture(h, w, disc(h, w, h // 2, w // 2, r), 1, "dark", 0)
    for bad in (0.1, 1.5):
        ok = raises(lambda: calib.binarize_image(img, threshold=bad),
                    ValueError)
        check(ok is True, "threshold outside the grey levels: %s" % ok)
    # contrast: the minority is made white
    for n in range(h * w + 1):
        m = np.zeros(h * w, np.int16)
        m[:n] = 1
        m = m.reshape(h, w)
        got = calib.invert_dot_contrast(m)
        exact(got, 1 - m if n / (h * w) > 0.5 else m, "contrast")
        ctx.step()
    return (h, w, r)


def backgrounds(ctx, h, w):
    y, x = np.mgrid[:h, :w]
    for k, bck in enumerate((np.ones((h, w)), 3 + 0.5 * x / w + 0.2 * y / h,
                             2 + np.cos(x / w) * np.cos(y / h))):
        for level in (1.0, 7.5):
            for name, f in (("median", lambda m: calib.normalize_background(
                    m, 5)), ("fft", lambda m:
                             calib.normalize_background_based_fft(
                                 m, sigma=2, pad=20))):
                img = (level * bck).astype(np.float32)
                keep = img.copy()
                ctx.step()
                ctx.state(("bck", h, w, k, level, name))
                got = f(img)
                check(got.shape == (h, w), "shape")
                lim = 1e-5 if k == 0 else 0.12
                check(np.ptp(got) <= lim * level * np.mean(bck),
                      "%s: background %d left: %g of %g"
                      % (name, k, np.ptp(got), np.mean(got)))
                check(abs(np.mean(got) / np.mean(img) - 1) < 0.05,
                      "%s: mean level %g became %g"
                      % (name, np.mean(img), np.mean(got)))
                exact(img, keep, "image changed")
                # zero pixels stay finite
                img2 = img.copy()
                img2[0, :3] = 0
                check(np.all(np.isfinite(f(img2))), "not finite")
    return (h, w)


# ---------------------------------------------------------------- ellipse
def path(a, b, roll, xc, yc, n, arc=360.0, start=0.0):
    t = np.deg2rad(start + np.linspace(0.0, arc, n,
                                       endpoint=arc < 360.0))
    r = np.deg2rad(roll)
    u, v = a * np.cos(t), b * np.sin(t)
    return xc + u * np.cos(r) - v * np.sin(r), \
        yc + u * np.sin(r) + v * np.cos(r)


def turn(d):
    """Difference of two axis directions in degrees."""
    return abs((d + 90.0) % 180.0 - 90.0)


def ellipse(ctx, a, b, centre, n):
    xc, yc = centre
    for roll in list(range(-85, 91, 5)) + [-1, 1, 44.5, -0.2, 0.2, 89.5]:
        for arc, start in ((360.0, 0.0), (360.0, 33.0), (270.0, 40.0)):
            x, y = path(a, b, roll, xc, yc, n, arc, start)
            kx, ky = x.copy(), y.copy()
            for order in (slice(None), slice(None, None, -1)):
                ctx.step()
                ctx.state((a, b, centre, n, roll, arc, start,
                           order.step))
                got = calib.fit_points_to_ellipse(x[order], y[order])
                tol = 2e-3 * a
                if a != b:
                    check(turn(got[0] - roll) < 0.05 * a / (a - b),
                          "roll %g reported as %g" % (roll, got[0]))
                    check(-90.001 <= got[0] <= 90.001, "roll %g" % got[0])
                check(abs(got[1] - 2 * a) < tol and abs(got[2] - 2 * b) < tol,
                      "half axes %g, %g reported as axes %g, %g (roll %g)"
                      % (a, b, got[1], got[2], roll))
                check(abs(got[3] - xc) < tol and abs(got[4] - yc) < tol,
                      "centre (%g, %g) reported as (%g, %g)"
                      % (xc, yc, got[3], got[4]))
            exact(x, kx, "points changed")
            exact(y, ky, "points changed")
    for bad in (n - 1, 0):
        ok = raises(lambda: calib.fit_points_to_ellipse(x, y[:bad]),
                    ValueError)
        check(ok is True, "lists of different lengths: %s" % ok)
    return (a, b, centre, n)


def no_ellipse(ctx):
    t = np.linspace(-2, 2, 41)
    for name, x, y in (("hyperbola", np.cosh(t), np.sinh(t)),
                       ("hyperbola 2", np.sinh(t), np.cosh(t)),
                       ("tilted hyperbola", t + 1 / (t + 9), t - 1 /
                        (t + 9))):
        ctx.step()
        ctx.state(name)
        ok = raises(lambda: calib.fit_points_to_ellipse(x, y), ValueError)
        check(ok is True, "%s accepted as an ellipse: %s" % (name, ok))
        tilt, roll = quiet(calib.find_tilt_roll, 50 * x, 50 * y)
        check(np.isfinite(tilt) and np.isfinite(roll), "no fall-back")
    return 0


def tilt_roll(ctx, a, ratio, n):
    b = a * ratio
    for roll in (-20, -10, -5, -2, -0.5, 0, 0.5, 2, 5, 10, 20):
        for xc, yc in ((0, 0), (600.0, 300.0)):
            x, y = path(a, b, roll, xc, yc, n)
            kx, ky = x.copy(), y.copy()
            want = np.rad2deg(np.arctan2(b, a))
            res = {}
            for m in ("ellipse", "linear"):
                ctx.step(4)
                ctx.state((a, ratio, n, roll, xc, m))
                got = quiet(calib.find_tilt_roll, x, y, method=m)
                res[m] = got
                loose = m == "linear" or b < 1.6
                # regression of y on x sees a slightly smaller slope
                s, c = np.sin(np.deg2rad(roll)), np.cos(np.deg2rad(roll))
                bias = abs(np.rad2deg(np.arctan(
                    (1 - ratio ** 2) * s * c / (c * c + ratio ** 2 * s * s)))
                    - roll) if loose else 0
                t_lim = (0.01 + 0.55 * (4 * np.pi / n) ** 2 + 0.4 *
                         np.sin(np.deg2rad(bias)) / ratio
                         if loose else 1e-3) * max(want, 0.05)
                check(abs(got[0] - want) < t_lim + 1e-3,
                      "%s: tilt %.4f reported as %.4f (roll %g)"
                      % (m, want, got[0], roll))
                check(abs(got[1] - roll) < bias + (0.2 if loose else 0.01),
                      "%s: roll %g reported as %.4f" % (m, roll, got[1]))
                for what, p, q, sign in (
                        ("moved", x + 13, y - 7, 1),
                        ("mirrored in y", x, -y, -1),
                        ("mirrored in x", -x, y, -1),
                        ("turned", -x, -y, 1)):
                    t2, r2 = quiet(calib.find_tilt_roll, p, q, method=m)
                    check(abs(t2 - got[0]) < 1e-3 and
                          abs(r2 - sign * got[1]) < 1e-3,
                          "%s %s: (%.4f, %.4f) became (%.4f, %.4f)"
                          % (m, what, got[0], got[1], t2, r2))
            exact(x, kx, "points changed")
            exact(y, ky, "points changed")
    for f in (lambda: calib.find_tilt_roll(x, y[1:]),
              lambda: calib.find_tilt_roll(x, y, method="circle")):
        ok = raises(f, ValueError)
        check(ok is True, "bad request accepted: %s" % ok)
    return (a, ratio, n)


def run(ctx):
    shapes = ctx.pick([(1, 5), (2, 4), (3, 4)], [(1, 8), (2, 6), (3, 4),
                                                 (4, 4), (3, 5)])
    for h, w in shapes:
        top = min(h * w - 1, 4)
        for ntop in range(2 ** top):
            ctx.case("dots/%dx%d/%d" % (h, w, ntop), all_dots, ctx, h, w, top,
                     ntop)
    ctx.case("range", sizes_in_range, ctx, 7)
    optss = [dict(threshold=0.6), dict(threshold=0.6, denoise=False),
             dict(threshold=0.6, _gradient=True), dict(),
             dict(denoise=False)]
    for h, w in ctx.pick([(40, 52)], [(40, 52), (47, 33), (64, 64)]):
        for r in ctx.pick((3, 5), (2, 3, 4, 5, 7)):
            for bgr in ("bright", "dark"):
                for k, opts in enumerate(optss):
                    if "threshold" not in opts and r < 5:
                        continue    # too few pixels to find the threshold
                    ctx.case("distance/%dx%d/r%d/%s/%d" % (h, w, r, bgr, k),
                             distance, ctx, h, w, r, bgr, opts)
    ctx.case("satellites", satellites, ctx, 50, 60)
    for h, w, r in ctx.pick([(24, 30, 4)], [(24, 30, 4), (31, 23, 5),
                                            (40, 40, 3)]):
        ctx.case("binary/%dx%d/%d" % (h, w, r), binary, ctx, h, w, r)
    for h, w in ctx.pick([(20, 30), (31, 17)], [(20, 30), (31, 17), (16, 16),
                                                (15, 40), (41, 15)]):
        ctx.case("background/%dx%d" % (h, w), backgrounds, ctx, h, w)
    for a in ctx.pick((100.0, 400.0), (20.0, 100.0, 400.0, 1000.0)):
        for q in ctx.pick((0.05, 0.5, 0.9), (0.02, 0.05, 0.2, 0.5, 0.8, 0.9,
                                             0.99)):
            for centre in ((0.0, 0.0), (640.0, 420.0), (-300.0, 900.0)):
                for n in ctx.pick((12, 61), (6, 7, 12, 37, 61, 181)):
                    ctx.case("ellipse/%g/%g/%g_%g/%d" % ((a, q) + centre +
                                                         (n,)),
                             ellipse, ctx, a, a * q, centre, n)
    ctx.case("no-ellipse", no_ellipse, ctx)
    for a in ctx.pick((200.0, 900.0), (100.0, 200.0, 500.0, 900.0, 2000.0)):
        for q in (0.005, 0.02, 0.05, 0.1):
            for n in ctx.pick((61,), (37, 61, 91, 181)):
                ctx.case("tilt/%g/%g/%d" % (a, q, n), tilt_roll, ctx, a, q, n)
