"""P23: centre-of-rotation finding on analytically projected objects.

Objects are sums of Gaussian blobs, whose projections are known in closed
form for every angle and every (sub-pixel) centre.  Every centre on a half-
or quarter-pixel grid over the search range, both halves, every method and
option; all integer image shifts for phase correlation.
"""
import itertools

import numpy as np
import scipy.ndimage as ndi

from mc.core import check, fill, quiet
import algotom.prep.calculation as calc

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of centres, shifts and options "
             "on the real code against analytically known centres")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every centre of the grid within the search range, each method "
              "and option; a few objects.")
RULE = "case = one search; outcome = centre found"
ASSUMPTIONS = ["textured object inside the field of view (180 degrees) or "
               "larger than it (360 degrees), enough projections at uniform "
               "angles including both "
               "ends"]


def blobs(n, radius, seed):
    v = fill((n, 5), seed, 0, 1, np.float64)
    r = radius * np.sqrt(v[:, 0])
    t = 2 * np.pi * v[:, 1]
    return [(a * np.cos(b), a * np.sin(b), 1 + c, 1.2 + 1.5 * d, e)
            for a, b, (c, d, e) in zip(r, t, v[:, 2:])]


def sino(w, ang, c, bl):
    t = np.arange(w)[None]
    s = np.zeros((len(ang), w))
    for x, y, a, sg, _ in bl:
        p = c + x * np.cos(ang) + y * np.sin(ang)
        s += a * np.exp(-(t - p[:, None]) ** 2 / (2 * sg * sg))
    return s


def proj(h, w, th, c, bl):
    z = np.arange(h)[:, None]
    t = np.arange(w)[None]
    s = np.zeros((h, w))
    for x, y, a, sg, u in bl:
        p = c + x * np.cos(th) + y * np.sin(th)
        s += a * np.exp(-((t - p) ** 2 + (z - u * h) ** 2) / (2 * sg * sg))
    return s


def vo(ctx, w, n, c, obj, kw, tol):
    s = sino(w, np.linspace(0, np.pi, n), c, obj).astype(np.float32)
    keep = s.copy()
    ctx.step()
    got = float(quiet(calc.find_center_vo, s, **kw))
    check(abs(got - c) <= tol, "centre", got, c)
    check(np.array_equal(s, keep), "input changed")
    return got


def full(ctx, w, n, c, obj, win, kw, tol):
    s = sino(w, np.linspace(0, 2 * np.pi, n), c, obj)
    ctx.step()
    got = quiet(calc.find_center_360, s, win, **kw)
    side = 0 if c < (w - 1) / 2 else 1
    ov = 2 * c + 1 if side == 0 else 2 * (w - c) - 1
    check(abs(float(got[0]) - c) <= tol, "centre", got, c)
    check(int(got[2]) == side, "side", got, side)
    check(abs(float(got[1]) - ov) <= 2 * tol, "overlap", got, ov)
    return tuple(map(float, got))


def pair(ctx, w, h, c, obj, fun, kw, tol, flip):
    m1 = proj(h, w, 0.3, c, obj)
    m2 = proj(h, w, 0.3 + np.pi, c, obj)
    if not flip:
        m2 = m2[:, ::-1]
    ctx.step()
    got = float(quiet(fun, m1, m2, flip=flip, **kw))
    check(abs(got - c) <= tol, "centre", got, c)
    return got


def shift(ctx, big, h, w, dy, dx, grad):
    m1 = big[12:12 + h, 12:12 + w]
    m2 = big[12 + dy:12 + dy + h, 12 + dx:12 + dx + w]
    ctx.step()
    ty, tx = quiet(calc.find_shift_based_phase_correlation, m1, m2,
                   gradient=grad)
    # m1(x + d) = m2(x): image 1 is image 2 moved by d
    check(abs(ty - dy) <= 0.6 and abs(tx - dx) <= 0.6, "shift", (ty, tx),
          (dy, dx))
    return ty, tx


def run(ctx):
    q = ctx.pick(0.5, 0.25)
    for w, n in ((64, 61), (65, 90)):
        for k, c in enumerate(np.arange(w // 2 - w // 16 + 1,
                                        w // 2 + w // 16 - 1 + 0.01, q)):
            for seed in ctx.pick((3,), (3, 4, 5)):
                for nm, kw, tol in (
                        ("default", {}, 0.26),
                        ("nodsp", {"dsp": False, "ncore": 1}, 0.26),
                        ("fine", {"ncore": 1, "step": 0.125, "radius": 2},
                         0.3),
                        ("coarse", {"step": 0.5, "ncore": 3}, 0.51),
                        ("drop", {"ncore": 1, "hor_drop": 2, "ver_drop": 2,
                                  "ratio": 0.8}, 0.26)):
                    ctx.case("vo/%dx%d/c%s/%s/s%d" % (n, w, c, nm, seed), vo,
                             ctx, w, n, c, blobs(12, w * 0.3, seed), kw, tol)
        for c in np.arange(w * 0.3, w * 0.7, 1.0 if ctx.pick(1, 0) else 0.5):
            c = round(c * 2) / 2
            ctx.case("vo-wide/%dx%d/c%s" % (n, w, c), vo, ctx, w, n, c,
                     blobs(12, w * 0.18, 7),
                     {"start": int(c) - 9, "stop": int(c) + 9, "ncore": 1,
                      "dsp": bool(int(c) % 2)}, 0.26)
    # sinograms large enough to be downsampled in the coarse step
    for w, n, cs in ((1300, 401, (640.5, 655.0)), (64, 1900, (30.0, 33.5))):
        for c in cs:
            bl = [(x * w / 64, y * w / 64, a, sg * max(1, w / 200), u)
                  for x, y, a, sg, u in blobs(12, 19, 3)]
            ctx.case("vo-dsp/%dx%d/c%s" % (n, w, c), vo, ctx, w, n, c, bl,
                     {"start": c - 14, "stop": c + 17}, 0.51)

    for w, n, win in ((64, 181, 8), (65, 120, 11), (64, 91, 14)):
        left = np.arange(win + 1, w / 2 - 7, q)
        for c in list(left) + list(w - 1 - left):
            side = 0 if c < w / 2 else 1
            for nm, kw in (("auto", {}), ("given", {"side": side,
                                                    "ncore": 1}),
                           ("raw", {"side": side, "denoise": False,
                                    "ncore": 1}),
                           ("comb", {"side": side, "use_overlap": True,
                                     "ncore": 1}),
                           ("norm", {"side": side, "norm": True,
                                     "ncore": 2})):
                ctx.case("360/%dx%d/win%d/c%s/%s" % (n, w, win, c, nm), full,
                         ctx, w, n, c, blobs(40, w * 0.75, 5), win, kw, 0.4)

    for w, h in ((64, 40), (65, 31)):
        mid = (w - 1) / 2
        for c in np.arange(w // 2 - 9, w // 2 + 9.01, q):
            # the search window cannot leave the image: the overlap is only
            # resolved to two pixels when it is nearly the whole image
            tol = 1.05 if abs(c - mid) <= 1.5 else 0.3
            for nm, kw in (("default", {}), ("raw", {"denoise": False}),
                           ("norm", {"norm": True, "win_width": 14}),
                           ("comb", {"use_overlap": True, "ncore": 1}),
                           ("rows", {"chunk_height": 20, "start_row": 4,
                                     "ncore": 1}),
                           ("part", {"chunk_height": 0.75, "ncore": 1}),
                           ("full", {"chunk_height": 1.0, "start_row": 1,
                                     "ncore": 1})):
                for flip in (True, False):
                    if not flip and nm not in ("default", "rows"):
                        continue
                    ctx.case("proj/%dx%d/c%s/%s/%d" % (h, w, c, nm, flip),
                             pair, ctx, w, h, c, blobs(40, w * 0.33, 4),
                             calc.find_center_projection, kw, tol, flip)
            for grad, flip in itertools.product((True, False), repeat=2):
                ctx.case("phase/%dx%d/c%s/%d%d" % (h, w, c, grad, flip),
                         pair, ctx, w, h, c, blobs(40, w * 0.33, 4),
                         calc.find_center_based_phase_correlation,
                         {"gradient": grad}, 0.26, flip)
    big = ndi.gaussian_filter(fill((72, 72), 9, 0, 1, np.float64), 1.0)
    r = ctx.pick(6, 10)
    for (h, w), dy, dx, grad in itertools.product(
            ((44, 47), (45, 44)), range(-r, r + 1), range(-r, r + 1),
            (True, False)):
        ctx.case("shift/%dx%d/%d_%d/%d" % (h, w, dy, dx, grad), shift, ctx,
                 big, h, w, dy, dx, grad)
