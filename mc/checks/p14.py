"""P14: stitching and joining images.

Two images: every width pair, every whole-pixel overlap, both sides, with and
without normalisation, float and integer images, default and given weights,
requested widths, against a ramp-blend model; sub-pixel overlaps on a smooth
scene: the result must be that scene, sampled on one regular grid, and the
grid must sit symmetrically.  Several images: every way of cutting a scene
into 2-4 overlapping (or gapped) pieces and every order of attaching them.
"""
import itertools

import numpy as np

import algotom.prep.conversion as conv
from mc.core import check, fill, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of image widths, overlaps, "
             "sides and cutting orders on the real code against a scene "
             "model")
LEVEL = "model_checking"
LEVEL_NOTE = "All overlaps, sides, widths and orders within the bounds."
RULE = ("case = one geometry (or one order of pieces); state = geometry with "
        "its options")
ASSUMPTIONS = ["overlaps of at least one pixel and non-zero mean grey level",
               "joining may smooth up to 3 pixels on either side of a gap"]


def model_stitch(m1, m2, ov, side, norm, w1=None, w2=None):
    left, right = (m1, m2) if side == 1 else (m2, m1)
    left, right = left.astype(np.float64), right.astype(np.float64)
    nl, nr = left.shape[1], right.shape[1]
    if norm:
        fl, fr = left[:, nl - ov:].mean(), right[:, :ov].mean()
        if side == 1:
            right = right * fl / fr
        else:
            left = left * fr / fl
    if w1 is None:
        down = np.array([1.0]) if ov == 1 else np.linspace(1, 0, ov)
        wl, wr = np.ones(nl), np.ones(nr)
        if ov == 1 and side == 0:
            # image 2 on the left, the single overlap pixel comes from it
            wl[nl - 1:], wr[:1] = 1, 0
        else:
            wl[nl - ov:], wr[:ov] = down, 1 - down
        wl, wr = wl[None, :], wr[None, :]
    else:
        wl, wr = (w1, w2) if side == 1 else (w2, w1)
    out = np.zeros((left.shape[0], nl + nr - ov))
    out[:, :nl] += left * wl
    out[:, nl - ov:] += right * wr
    return out


def two(ctx, n1, n2, side, dt):
    h = 3
    hi = 200 if dt == "uint8" else 1000
    for ov in range(1, min(n1, n2) + 1):
        m1 = fill((h, n1), 3 + n1 + ov, 10, hi, np.float64)
        m2 = fill((h, n2), 5 + n2 + ov, 10, hi, np.float64)
        if ov == 1:
            # weights of a one-pixel overlap are a free choice
            e1, e2 = (-1, 0) if side == 1 else (0, -1)
            m2[:, e2] = m1[:, e1]
        m1, m2 = m1.astype(dt), m2.astype(dt)
        k1, k2 = m1.copy(), m2.copy()
        w1 = np.tile(np.linspace(0.2, 0.9, n1), (h, 1))
        w2 = np.tile(np.linspace(0.7, 0.1, n2), (h, 1))
        for norm in (True, False):
            ctx.step(3)
            ctx.state((n1, n2, side, dt, ov, norm))
            want = model_stitch(m1, m2, ov, side, norm)
            total = n1 + n2 - ov
            got = conv.stitch_image(m1, m2, ov, side, norm=norm)
            same(got, want, "overlap %d" % ov, 1e-4, 1e-3)
            for tw in (total - 1, total, total + 1, total + 4):
                got = conv.stitch_image(m1, m2, ov, side, norm=norm,
                                        total_width=tw)
                pw = np.pad(want, ((0, 0), (0, max(tw - total, 0))), "edge")
                same(got, pw, "overlap %d total width %d" % (ov, tw), 1e-4,
                     1e-3)
            got = conv.stitch_image(m1, m2, float(ov), side, w1, w2, norm)
            same(got, model_stitch(m1, m2, ov, side, norm, w1, w2),
                 "given weights", 1e-4, 1e-3)
        a1, a2 = conv.make_weight_matrix(m1, m2, ov, side)
        check(a1.shape == m1.shape and a2.shape == m2.shape, "weight shape")
        s = np.asarray(a1, float)[:, n1 - ov:] + np.asarray(
            a2, float)[:, :ov] if side == 1 else \
            np.asarray(a1, float)[:, :ov] + np.asarray(
                a2, float)[:, n2 - ov:]
        check(np.abs(s - 1).max() < 1e-5, "weights do not add up to one", s)
        exact_same(m1, k1, m2, k2)
        scene = fill((h, n1 + n2 - ov), 9, 10, hi, np.float64).astype(dt)
        l, r = scene[:, :n1 if side else n2], scene[:, -(n2 if side else n1):]
        one, two_ = (l, r) if side == 1 else (r, l)
        for norm in (True, False):
            ctx.step()
            same(conv.stitch_image(one, two_, ov, side, norm=norm), scene,
                 "scene not re-assembled (overlap %d)" % ov, 1e-4, 1e-3)
    return (n1, n2, side, dt)


def exact_same(*pairs):
    for a, b in zip(pairs[::2], pairs[1::2]):
        check(np.array_equal(a, b), "caller's image changed")


def wave(x):
    return 2 + np.sin(2 * np.pi * x / 17.) + .5 * np.cos(2 * np.pi * x / 29.)


def fit(row, x, keep):
    """Offset t with row ~ wave(x + t), its error, on pixels keep."""
    best = None
    for t in np.arange(-0.5, 0.501, 0.025):
        e = np.abs(row - wave(x + t))[keep].max()
        if best is None or e < best[0]:
            best = (e, t)
    return best


def subpixel(ctx, n, w, side, kind, dt):
    k = int(np.round(w + 1e-3))
    ctx.step()
    ctx.state((n, w, side, kind, dt))
    gap = w if kind == "join" else -w
    scale = 1.0 if dt == "float64" else 1000.0
    one = np.tile(wave(np.arange(n)), (3, 1))
    pos = n + gap if side == 1 else -n - gap
    two_ = np.tile(wave(pos + np.arange(n)), (3, 1))
    one, two_ = [(scale * m).astype(dt) for m in (one, two_)]
    kept = one.copy(), two_.copy()
    fn = conv.join_image if kind == "join" else conv.stitch_image
    got = fn(one, two_, w, side, norm=False)
    exact_same(one, kept[0], two_, kept[1])
    total = 2 * n + (k if kind == "join" else -k)
    check(got.shape == (3, total), "width", got.shape, total)
    x = np.arange(total) - (0 if side == 1 else total - n)
    keep = np.ones(total, bool)
    keep[:8] = keep[-8:] = False
    if kind == "join":
        keep[n - 8:n + k + 8] = False
    else:
        # the borders of the shifted images are extended by edge values
        keep[n - k - 1:n - k + 2] = keep[n - 2:n + 1] = False
    err, t = fit(got[1] / scale, x, keep)
    check(err < 0.02, "the two images do not lie on one grid", err, t)
    return (round(float(t), 2),)


def reject(ctx):
    a, b = np.ones((4, 9)), np.ones((5, 9))
    ctx.step(4)
    for fn in (lambda: conv.stitch_image(a, b, 3, 1),
               lambda: conv.join_image(a, b, 3, 1),
               lambda: conv.stitch_image_multiple([a], []),
               lambda: conv.join_image_multiple([a], [])):
        check(raises(fn) is True, "invalid input accepted")
        ctx.rejected += 1


def pieces(ctx, widths, rel, order_sides, norm, kind):
    """Attach pieces to the first one, each at the left or right end."""
    n = len(widths)
    # lay pieces out: sides[k] says at which end piece k+1 is attached
    lefts, rights = 0, widths[0]
    spans = [(0, widths[0])]
    for w, r, s in zip(widths[1:], rel, order_sides):
        if s == 1:
            a = rights - r if kind == "stitch" else rights + r
            spans.append((a, a + w))
            rights = a + w
        else:
            z = lefts + r if kind == "stitch" else lefts - r
            spans.append((z - w, z))
            lefts = z - w
    total = rights - lefts
    if kind == "stitch":
        scene = fill((3, total), 11, 20, 90, np.float64)
    else:
        scene = np.tile(20.0 + np.arange(total), (3, 1)) + np.arange(3)[
            :, None]
    mats = [scene[:, a - lefts:z - lefts].copy() for a, z in spans]
    info = [(r, s) for r, s in zip(rel, order_sides)]
    keep = [m.copy() for m in mats]
    fn = conv.stitch_image_multiple if kind == "stitch" else \
        conv.join_image_multiple
    ctx.step()
    ctx.state((widths, rel, order_sides, norm, kind))
    if norm and kind == "stitch":
        # different intensities are brought to the first image's
        given = [m * f for m, f in zip(mats, (1, 3.0, 0.5, 2.0))]
    else:
        given = mats
    if kind == "stitch" or not norm:    # (a ramp is no scene to normalise)
        got = fn(given, info, norm=norm)
        same(got, scene, "scene not re-assembled", 1e-4, 1e-3)
        got = fn(given, info, norm=norm, total_width=total + 3)
        same(got, np.pad(scene, ((0, 0), (0, 3)), "edge"), "total width",
             1e-4, 1e-3)
        got = fn(given, info, norm=norm, total_width=1)
        same(got, scene, "too small total width", 1e-4, 1e-3)
    exact_same(*[x for p in zip(mats, keep) for x in p])
    #  pieces of different intensity: as attaching them one by one
    given = [m * f for m, f in zip(mats, (1, 3.0, 0.5, 2.0))]
    one = conv.stitch_image if kind == "stitch" else conv.join_image
    want = given[0]
    for m, (r, s) in zip(given[1:], info):
        ctx.step()
        want = one(want, m, r, s, norm=norm)
    same(fn(given, info, norm=norm), want, "%s with norm=%s differs from "
         "attaching the pieces one by one" % (kind, norm), 1e-4, 1e-3)
    return scene


def join_two(ctx, n1, n2, side, dt):
    h = 3
    for j in range(0, 6):
        m1 = fill((h, n1), 3 + n1, 10, 200, np.float64).astype(dt)
        m2 = fill((h, n2), 5 + n2, 10, 200, np.float64).astype(dt)
        for norm in (True, False):
            ctx.step()
            ctx.state((n1, n2, side, dt, j, norm))
            got = conv.join_image(m1, m2, j, side, norm=norm)
            total = n1 + n2 + j
            check(got.shape == (h, total), "width", got.shape, total)
            l, r = (m1, m2) if side == 1 else (m2, m1)
            l, r = l.astype(float), r.astype(float)
            if norm:
                fl, fr = l[:, -3:].mean(), r[:, :3].mean()
                if side == 1:
                    r = r * fl / fr
                else:
                    l = l * fr / fl
            nl = l.shape[1]
            same(got[:, :nl - 3], l[:, :-3], "left image", 1e-5, 1e-4)
            same(got[:, nl + j + 3:], r[:, 3:], "right image", 1e-5, 1e-4)
            # bridged part: between the values at its two ends
            mid = got[:, nl - 4:nl + j + 4].astype(float)
            d = mid[:, 1:-1]
            lo = np.minimum(l[:, -4:].min(1), r[:, :4].min(1))[:, None]
            hi = np.maximum(l[:, -4:].max(1), r[:, :4].max(1))[:, None]
            check(bool((d >= lo - 1e-3).all() and (d <= hi + 1e-3).all()),
                  "bridge leaves the range of its borders", d)
            for tw in (total - 2, total + 3):
                g2 = conv.join_image(m1, m2, j, side, norm=norm,
                                     total_width=tw)
                same(g2, np.pad(got, ((0, 0), (0, max(tw - total, 0))),
                                "edge"), "total width", 1e-5, 1e-4)
        # the two (three) columns next to the joint are smoothed over
        a, b = np.full((h, n1), 7.0), np.full((h, n2), 7.0)
        l, r = (a, b) if side == 1 else (b, a)
        l[:, -2:] = [[9, 1]]
        r[:, :3] = [[0, 11, 5]]
        ctx.step()
        got = conv.join_image(a, b, j, side, norm=False)
        same(got, np.full((h, n1 + n2 + j), 7.0), "columns next to the "
             "joint", 1e-5, 1e-4)
        # one linear scene with a gap comes back in full
        scene = np.tile(30 + 2.0 * np.arange(n1 + n2 + j), (h, 1)) \
            + 5 * np.arange(h)[:, None]
        l = scene[:, :n1 if side == 1 else n2]
        r = scene[:, -(n2 if side == 1 else n1):]
        a, b = (l, r) if side == 1 else (r, l)
        ctx.step()
        got = conv.join_image(a, b, j, side, norm=False)
        same(got, scene, "linear scene with a gap of %d" % j, 1e-4, 1e-3)
    return (n1, n2, side, dt)


def run(ctx):
    sz = ctx.pick([1, 2, 3, 5, 8, 11], [1, 2, 3, 4, 5, 6, 7, 8, 11, 14])
    for n1 in sz:
        for n2 in sz:
            for side in (0, 1):
                for dt in ("float32", "float64", "uint16", "uint8", "int32"):
                    ctx.case("stitch/%d/%d/%d/%s" % (n1, n2, side, dt), two,
                             ctx, n1, n2, side, dt)
    for n1 in [s for s in sz if s >= 5]:
        for n2 in [s for s in sz if s >= 5]:
            for side in (0, 1):
                for dt in ("float32", "float64", "uint16"):
                    ctx.case("join/%d/%d/%d/%s" % (n1, n2, side, dt),
                             join_two, ctx, n1, n2, side, dt)
    for n1, n2 in ((5, 60), (60, 5), (12, 61), (61, 12), (5, 200), (200, 5),
                   (101, 150)):
        for side in (0, 1):
            ctx.case("join/%d/%d/%d" % (n1, n2, side), join_two, ctx, n1,
                     n2, side, "float32")
            ctx.case("stitch/%d/%d/%d" % (n1, n2, side), two, ctx, n1, n2,
                     side, "float32")
    fr = ctx.pick([0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9],
                  [i / 20.0 for i in range(20)])
    for n in ctx.pick([60], [60, 61, 75]):
        for base in ctx.pick([20, 21], [16, 20, 21, 27]):
            for f in fr:
                for side in (0, 1):
                    for kind in ("stitch", "join"):
                        w = base + f if kind == "stitch" else base - 18 + f
                        for dt in ("float64", "uint16"):
                            ctx.case("sub/%s/%d/%g/%d/%s" % (
                                kind, n, w, side, dt), subpixel, ctx, n, w,
                                side, kind, dt)
    for k in (2, 3, 4):
        ws = ctx.pick([6, 9], [6, 7, 9])
        for widths in itertools.product(ws, repeat=k):
            for sides in itertools.product((0, 1), repeat=k - 1):
                for rel in itertools.product((2, 3), repeat=k - 1):
                    for norm in (True, False):
                        for kind in ("stitch", "join"):
                            ctx.case("many/%s/%s/%s/%s/%s" % (
                                kind, widths, rel, sides, norm), pieces, ctx,
                                widths, rel, sides, norm, kind)
    ctx.case("reject", reject, ctx)
