"""P38: simulated phantoms, sinograms and artifacts are what they claim to be.

Alphabet   small sizes of either parity, centres on a half-integer grid
           (also outside the image), axis lengths, rotations of either sign;
           every stripe size, position (also out of range), strength and type.
Oracle     point-in-shape tests written here, mass and centre-of-mass of every
           projection, mirror image at the opposite angle, superposition;
           column-wise definitions of the stripe types.
"""
import itertools

import numpy as np

import algotom.util.simulation as sim
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of shapes, positions, angles and "
             "artifacts, compared with point-in-shape and mass models")
LEVEL = "model_checking"
LEVEL_NOTE = ("all listed sizes, half-integer centres, lengths, angles and "
              "all stripe positions and widths of small sinograms")
RULE = "each shape/projection/artifact is one case state"
ASSUMPTIONS = ["a pixel within 1 % (2 % for safety) of the half axis from "
               "the outline may be in or out",
               "objects of the simulated projections are smooth and vanish "
               "at the image border"]


def grid(size, centre):
    ic = size // 2
    x = np.arange(size) - ic - centre[0]
    y = ic - np.arange(size) - centre[1]
    return np.meshgrid(x, y)


def local(size, centre, angle):
    x, y = grid(size, centre)
    a = np.deg2rad(angle)
    return x * np.cos(a) + y * np.sin(a), -x * np.sin(a) + y * np.cos(a)


def verdict(mask, r, what):
    """r < 1 inside, > 1 outside; the band around 1.01 is left open."""
    check(set(np.unique(mask)) <= {0.0, 1.0}, "%s: not a mask" % what)
    bad = (r < 0.99) & (mask != 1)
    check(not bad.any(), "%s: %d pixel(s) inside missing, first %s"
          % (what, bad.sum(), np.argwhere(bad)[:1]))
    bad = (r > 1.021) & (mask != 0)
    check(not bad.any(), "%s: %d pixel(s) outside set, first %s"
          % (what, bad.sum(), np.argwhere(bad)[:1]))


def masks(ctx, size, angle):
    cs = ctx.pick((0.0, 2.0, -3.5), (0.0, 1.0, 2.5, -3.5, -2.0, 0.25))
    far = size
    lens = ctx.pick((1.0, 5.0, 9.5), (1.0, 2.0, 5.0, 9.5, 14.0))
    for cx, cy in list(itertools.product(cs, cs)) + [(far, 0), (0, -far)]:
        for lx, ly in itertools.product(lens, lens):
            u, v = local(size, (cx, cy), angle)
            ctx.step(2)
            ctx.state((size, angle, cx, cy, lx, ly))
            m = sim.make_elliptic_mask(size, (cx, cy), (lx, ly), angle)
            check(m.shape == (size, size), "shape")
            verdict(m, np.hypot(u / (lx / 2), v / (ly / 2)),
                    "ellipse %s %s %g" % ((cx, cy), (lx, ly), angle))
            m = sim.make_rectangular_mask(size, (cx, cy), (lx, ly), angle)
            check(m.shape == (size, size), "shape")
            verdict(m, np.maximum(abs(u) / (lx / 2), abs(v) / (ly / 2)),
                    "rectangle %s %s %g" % ((cx, cy), (lx, ly), angle))
    for c in cs:
        for ln in lens:
            ctx.step(2)
            for f in (sim.make_elliptic_mask, sim.make_rectangular_mask):
                exact(f(size, c, ln, angle), f(size, (c, c), (ln, ln), angle),
                      "scalar centre and length")
    return (size, angle)


def triangles(ctx, size):
    for lx, ly in itertools.product((12, 20, 31), (10, 17, 26)):
        base = sim.make_triangular_mask(size, 0, (lx, ly), 0.0)
        check(set(np.unique(base)) <= {0.0, 1.0}, "not a mask")
        outline = 2 * np.hypot(lx, ly / 2) + ly
        for angle in (0.0, 30.0, -30.0, 90.0, 145.0, 180.0, -90.0):
            ctx.step()
            ctx.state(("tri", size, lx, ly, angle))
            m = sim.make_triangular_mask(size, 0, (lx, ly), angle)
            area = m.sum()
            check(abs(area - lx * ly / 2) < 0.75 * outline,
                  "triangle %s: area %g, not %g" % ((lx, ly, angle), area,
                                                    lx * ly / 2))
            box = sim.make_rectangular_mask(size, 0, (lx, ly), angle)
            check(not np.any((m > 0) & (box == 0)), "outside its box")
            for dx, dy in ((3, 0), (0, -4), (-2, 5)):
                ctx.step()
                got = sim.make_triangular_mask(size, (dx, dy), (lx, ly),
                                               angle)
                check(np.sum(got != np.roll(m, (-dy, dx), (0, 1))) <= 4,
                      "moved by %s" % ((dx, dy),))
            got = sim.make_triangular_mask(size, 0, (lx, ly), angle + 180.0)
            turned = m[::-1, ::-1] if size % 2 else np.roll(
                m[::-1, ::-1], (1, 1), (0, 1))
            check(np.sum(got != turned) <= 0.2 * outline, "turned by 180 deg")
        flip = base[::-1] if size % 2 else np.roll(base[::-1], 1, 0)
        check(np.sum(base != flip) <= 2, "not isosceles")
    return size


def phantoms(ctx, size):
    ctx.step(2)
    ctx.state(("phantom", size))
    face = sim.make_face_phantom(size)
    check(face.shape == (size, size) and np.all(np.isfinite(face)), "face")
    if size % 2:
        check(np.sum(np.abs(face - face[:, ::-1]) > 1e-5) <= 0.01 * size ** 2,
              "face is not symmetric")
    x, y = grid(size, (0, 0))
    check(not np.any(face[np.hypot(x / (size / 2.6), y / (size / 2)) > 1.03]),
          "face leaves its outline")
    check(face.max() <= 1.01 and face.min() > -0.5, "range of the face")
    line = sim.make_line_target(size)
    check(line.shape == (size, size), "shape")
    check(set(np.unique(line)) <= {0.0, 1.0}, "line target: %s"
          % np.unique(line))
    exact(line, line.T.copy(), "line target is not symmetric")
    # radius of the disc and contents
    rr = np.hypot(x, y)
    check(line[0, 0] == 0 and line.sum() > 0.1 * (line > -1).sum(), "empty")
    # the finest pattern is a 1-pixel comb
    row = line[size // 2]
    runs = [len(list(g)) for k, g in itertools.groupby(row) if k == 0]
    check(min(runs) == 1, "finest line is %d pixel wide" % min(runs))
    return size


def blob(size, cx, cy, s):
    x, y = grid(size, (cx, cy))
    return np.exp(-(x * x + y * y) / (2.0 * s * s)).astype(np.float32)


def projections(ctx, size, kw):
    angles = np.deg2rad(ctx.pick(
        [0, 30, 45, 90, 135, 150, 180, -30, 205, 330, -260],
        list(range(-180, 361, 15)) + [1, 0.5, 179, 181, 359, -260]))
    s = size / 16.0
    col = np.arange(size) - size // 2
    cs = [round(k * size / 8.0 * 2) / 2 for k in (-1.5, -1, 0, 0.5, 1)]
    total = 0
    tot_img = 0
    for cx, cy in itertools.product(cs, cs):
        img = blob(size, cx, cy, s)
        keep = img.copy()
        ctx.step()
        ctx.state((size, str(kw), cx, cy))
        sino = sim.make_sinogram(img, angles, **kw)
        exact(img, keep, "image changed")
        check(sino.shape == (len(angles), size), "shape %s" % (sino.shape,))
        mass = img.sum()
        for a, p in zip(angles, sino):
            check(abs(p.sum() / mass - 1) < 0.02,
                  "mass %.4f of %.4f at %.3f rad" % (p.sum(), mass, a))
            want = cx * np.cos(a) + cy * np.sin(a)
            model = mass / (s * np.sqrt(2 * np.pi)) * np.exp(
                -(col - want) ** 2 / (2 * s * s))
            d = np.abs(p - model).max() / model.max()
            check(d < 0.05, "object at (%g, %g): projection at %.3f rad is "
                  "off by %.3g" % (cx, cy, a, d))
        total = total + sino
        tot_img = tot_img + img
    ctx.step(4)
    same(sim.make_sinogram(tot_img, angles, **kw), total, "superposition",
         rtol=1e-3, atol=1e-3 * np.abs(total).max())
    same(sim.make_sinogram(2.0 * tot_img, angles, **kw), 2 * total, "scaling",
         rtol=1e-3, atol=1e-3 * np.abs(total).max())
    # the opposite view is the mirrored view
    opp = sim.make_sinogram(tot_img, [a - np.pi if a > 0 else a + np.pi
                                      for a in angles], **kw)
    mirror = total[:, ::-1] if size % 2 else np.roll(total[:, ::-1], 1, 1)
    same(opp, mirror, "opposite views", rtol=1e-3,
         atol=5e-3 * np.abs(total).max())
    # one angle at a time
    one = np.vstack([sim.make_sinogram(tot_img, [a], **kw) for a in angles])
    same(one, total, "view by view", rtol=1e-3,
         atol=1e-3 * np.abs(total).max())
    ok = raises(lambda: sim.make_sinogram(tot_img[1:], angles), ValueError)
    check(ok is True, "image not square: %s" % ok)
    return (size, str(kw))


def stripes(ctx, h, w, typ, dt):
    base = fill((h, w), 3, 0.2, 2.0, dt)
    keep = base.copy()
    for size in range(1, w):
        for pos in range(-1, w + 2):
            for q in (0.0, 0.2, 0.5, 1.0, 1.7):
                ctx.step()
                ctx.state((h, w, typ, dt, size, pos, q))
                np.random.seed(4)
                got = sim.add_stripe_artifact(base, size, pos,
                                              strength_ratio=q,
                                              stripe_type=typ)
                what = "%s stripe of %d at %d of %d, strength %g" % (
                    typ, size, pos, w, q)
                exact(base, keep, what + ": input changed")
                check(got.shape == (h, w), what + ": shape")
                check(np.all(np.isfinite(got)), what + ": not finite")
                p = min(max(pos, 0), w - size)
                inside = np.zeros(w, bool)
                inside[p:p + size] = True
                exact(got[:, ~inside], base[:, ~inside],
                      what + ": other columns")
                s = min(q, 1.0)
                a, b = base[:, inside], got[:, inside]
                if typ == "full":
                    same(b, a * (1 - s), what, rtol=1e-5, atol=1e-6)
                elif typ == "dead":
                    same(b, np.full_like(a, s * base.max()), what, rtol=1e-5,
                         atol=1e-6)
                elif typ == "partial":
                    # brighter pixels lose more, at most the fraction s
                    # (views over the column's lower part are untouched)
                    for j in range(size):
                        o = np.argsort(a[:, j], kind="stable")
                        f = b[o, j] / a[o, j]
                        n = int((1 - s) * h)
                        check(np.all(np.abs(f[:max(n - 1, 0)] - 1) < 1e-4),
                              what + ": dark part changed")
                        check(np.all(np.diff(f) < 1e-4), what + ": factors "
                              "%s" % f)
                        if h - n >= 2:
                            check(abs(f[-1] - (1 - s)) < 1e-4,
                                  what + ": last factor %g" % f[-1])
                else:
                    if q == 0:
                        same(b, a, what, rtol=1e-6, atol=1e-7)
                    else:
                        check(np.all(np.any(b != a, axis=0)),
                              what + ": column not changed")
                        dev = np.abs(b - a).max()
                        check(dev < 6 * base.mean() * s, what +
                              ": fluctuation %g" % dev)
    return (h, w, typ)


def others(ctx, h, w):
    for lo in (0.0, 0.3, -0.5):
        s = fill((h, w), 5, lo, 2.0, "f4")
        keep = s.copy()
        for gmax in (None, 1.0, 3.7):
            ctx.step()
            ctx.state(("xray", h, w, lo, gmax))
            same(sim.convert_to_Xray_image(s, global_max=gmax),
                 np.exp(-s / (s.max() if gmax is None else gmax)),
                 "X-ray image", rtol=1e-5, atol=1e-6)
        for q in (0.0, 0.1, 0.5, 1.0):
            ctx.step(2)
            ctx.state(("rand", h, w, lo, q))
            np.random.seed(1)
            got = sim.add_background_fluctuation(s, strength_ratio=q)
            check(got.shape == (h, w), "shape")
            f = got / np.where(np.abs(s) > 1e-3, s, np.nan)
            f = f[np.isfinite(f)]
            check(np.all(f >= -1e-6) and np.all(f <= 1 + 1e-5),
                  "factors outside [0, 1]: %g %g" % (f.min(), f.max()))
            if q == 0.0:
                g = got[np.abs(s) > 1e-3] / s[np.abs(s) > 1e-3]
                row = np.exp(-0.5 * ((np.arange(w) - (w - 1) / 2) /
                                     (0.5 * w)) ** 2)
                same(g, np.tile(row, (h, 1))[np.abs(s) > 1e-3],
                     "beam profile", rtol=1e-4, atol=1e-5)
            if lo >= 0:
                np.random.seed(1)
                got = sim.add_noise(s, noise_ratio=q)
                check(got.shape == (h, w), "shape")
                m = np.mean(s[s != 0]) * q
                check(np.all(np.abs(got - s - m) <= 3.5 * m + 1e-6),
                      "noise %g of mean %g" % (np.abs(got - s).max(), m))
                if q:
                    check(len(np.unique(got - s)) > 0.9 * h * w,
                          "noise repeats")
        exact(s, keep, "input changed")
    return (h, w)


def run(ctx):
    for size in ctx.pick((11, 16), (9, 11, 16, 17, 24)):
        for angle in ctx.pick((0, 30, -30, 90, 117.5), list(
                range(-180, 181, 15)) + [1.5, 117.5, 270]):
            ctx.case("masks/%d/%g" % (size, angle), masks, ctx, size, angle)
    for size in ctx.pick((64, 65), (64, 65, 80, 91)):
        ctx.case("triangle/%d" % size, triangles, ctx, size)
    for size in ctx.pick((96, 128, 129), (96, 101, 128, 129, 192, 255,
                                          256, 300, 401)):
        ctx.case("phantom/%d" % size, phantoms, ctx, size)
    for size in ctx.pick((32, 33), (32, 33, 48, 51, 64)):
        for k, kw in enumerate((dict(), dict(pad_rate=1.0),
                                dict(pad_rate=0.7, pad_mode="constant"))):
            ctx.case("projection/%d/%d" % (size, k), projections, ctx, size,
                     kw)
    for h, w in ctx.pick([(7, 6), (6, 9)], [(7, 6), (6, 9), (5, 5), (12, 8),
                                            (4, 13)]):
        for typ in ("partial", "full", "dead", "fluctuating"):
            for dt in ctx.pick(("f4",), ("f4", "f8")):
                ctx.case("stripe/%dx%d/%s/%s" % (h, w, typ, dt), stripes,
                         ctx, h, w, typ, dt)
    for h, w in ((8, 11), (9, 8)):
        ctx.case("others/%dx%d" % (h, w), others, ctx, h, w)
