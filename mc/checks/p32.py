"""P32: geometry and strength of the reconstructed image.

A Gaussian blob has a closed-form projection for every angle and centre.
Every blob position of a grid x every centre x every angular arrangement x
every CPU method; filters; detector shift with its centre.
Oracle: the blob itself, at its place and strength.
Convention (from the code): fbp/bpf put the axis at (w-1)/2, dfi at w//2.
"""
import itertools
import math

import numpy as np

from mc.core import check, fill, quiet, raises
import algotom.rec.reconstruction as rec

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of object positions, centres "
             "and angle lists on the real code against the closed-form "
             "object")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every object position of the grid, every centre of a half-"
              "pixel grid, all angle arrangements, all CPU methods.")
RULE = "case = one reconstruction; state = (method, position, centre, angles)"
ASSUMPTIONS = ["the object's projections stay on the detector; angles cover "
               "180 or 360 degrees (uniformly for dfi, which has no "
               "per-angle weights)"]
SIG = 1.5


def sino(w, ang, c, x, y):
    """x, y: offsets from the rotation axis in pixels (y downwards)."""
    t = np.arange(w)[None]
    p = c + x * np.cos(ang) - y * np.sin(ang)
    return SIG * math.sqrt(2 * np.pi) * np.exp(
        -(t - p[:, None]) ** 2 / 2 / SIG ** 2)


def blob(w, cx, cy):
    y, x = np.mgrid[:w, :w]
    return np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / 2 / SIG ** 2)


def call(method, s, c, **kw):
    if method != "dfi":
        kw["gpu"] = False
    return quiet(getattr(rec, method + "_reconstruction"), s, c, **kw)


def axis(method, w):
    return w // 2 if method == "dfi" else (w - 1) / 2


def place(ctx, method, w, ang, given, c, x, y, filt, ratio, log):
    s = sino(w, ang, c, x, y).astype(np.float32)
    if log:
        s = np.exp(-s)
    ctx.step()
    ctx.state((method, w, c, x, y, given is None, float(ang[0]),
               float(ang[-1]), filt, ratio, log))
    img = call(method, s, c, angles=given, ratio=ratio, filter_name=filt,
               apply_log=log)
    ax = axis(method, w)
    want = blob(w, ax + x, ax + y)
    check(img.shape == (w, w), "shape", img.shape)
    check(np.isfinite(img).all(), "not finite")
    if filt is None:
        err = np.abs(img - want)
        check(err.max() < (0.2 if method == "bpf" else 0.12), "image of the object: largest error %.3f" %
              err.max(), np.unravel_index(np.argmax(img), img.shape),
              (ax + y, ax + x))
    m = np.clip(img - 0.15 * img.max(), 0, None) * (want > 0.02)
    yy, xx = np.mgrid[:w, :w]
    cy, cx = (m * yy).sum() / m.sum(), (m * xx).sum() / m.sum()
    check(abs(cx - ax - x) < 0.3 and abs(cy - ax - y) < 0.3,
          "place of the object (row, column)", (cy, cx), (ax + y, ax + x))
    check(img.max() > 0.3 and img.max() < 1.15, "strength", img.max())
    check(np.abs(img[want < 1e-3]).max() < 0.12, "ghosts")
    return np.round(img, 3)


def moved(ctx, method, w, n, k):
    ang = np.linspace(0, np.pi, n)
    c = (w - 1) / 2
    a = sino(w, ang, c, 2, -1).astype(np.float32)
    b = np.roll(a, k, axis=1)
    ctx.step(2)
    i1 = call(method, a, c, apply_log=False)
    i2 = call(method, b, c + k, apply_log=False)
    check(np.abs(i1 - i2).max() < 0.03, "image changed when sinogram and "
          "centre moved together", float(np.abs(i1 - i2).max()))
    return k


def order(ctx, method, n, w, a0, log):
    """The rows of a sinogram may come in any order their angles follow (dfi:
    forwards or backwards)."""
    s = fill((n, w), n + w, 0.2, 0.9, "f4")
    ang = a0 + np.linspace(0, np.pi, n)
    kw = dict(apply_log=log, ratio=None)
    ref = call(method, s, w / 2 - 0.7, angles=ang, **kw)
    perms = itertools.permutations(range(n)) if n <= 4 else [
        range(n)[::-1], [i ^ 1 if i ^ 1 < n else i for i in range(n)],
        [(i + n // 2) % n for i in range(n)]]
    for p in perms:
        p = list(p)
        if method == "dfi" and p != list(range(n))[::-1]:
            continue
        ctx.step()
        ctx.state((method, n, w, a0, log, tuple(p)))
        img = call(method, s[p], w / 2 - 0.7, angles=ang[p], **kw)
        err = np.abs(img - ref).max()
        check(err <= 1e-4 * np.abs(ref).max(), "order of the projections "
              "changes the image by %.2g" % err, p)
    return n


def angle_sets(n):
    li = np.linspace
    pi = np.pi
    full = 2 * n - 1
    return {"std": li(0, pi, n), "open": li(0, pi, n, endpoint=False),
            "rev": li(pi, 0, n), "down": li(0, -pi, n),
            "off": li(0.7, 0.7 + pi, n), "neg": li(-1.2, pi - 1.2, n),
            "revoff": li(2 + pi, 2, n), "revneg": li(0.4, 0.4 - pi, n),
            "late": li(2 * pi + 0.5, 3 * pi + 0.5, n),
            "second": li(pi, 2 * pi, n),
            "360": li(0, 2 * pi, full), "360off": li(1, 1 + 2 * pi, full),
            "360rev": li(2 * pi, 0, full),
            "360revoff": li(2 * pi + 0.8, 0.8, full),
            "irreg": li(0, 1, n) ** 1.1 * pi}


def run(ctx):
    n = 61
    sets = angle_sets(n)
    for w in ctx.pick((23, 24), (23, 24, 31)):
        r = w // 2 - 7
        pos = [(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1)
               if x * x + y * y <= r * r + 1]
        mid = (w - 1) / 2
        for method, (x, y), d, (nm, ang) in itertools.product(
                ("fbp", "bpf", "dfi"), pos, (-1.5, 0.0, 1.0),
                sets.items()):
            if method == "dfi" and nm == "irreg":
                continue
            if d == 1.0 and not ctx.thorough and (x + y) % 2:
                continue
            ctx.case("place/%s/%d/%d_%d/%s/%s" % (method, w, x, y, d, nm),
                     place, ctx, method, w, ang, ang, mid + d, x, y, None,
                     None, False)
        for method, (x, y), filt, log in itertools.product(
                ("fbp", "bpf", "dfi"), [p for p in pos if sum(p) % 3 == 0],
                (None, "hann", "bartlett", "blackman", "hamming", "nuttall",
                 "parzen", "triang"), (False, True)):
            ctx.case("filter/%s/%d/%d_%d/%s/%d" % (method, w, x, y, filt,
                                                   log), place, ctx, method,
                     w, sets["std"], None, mid - 0.5, x, y, filt, 1.0, log)
        for method, k in itertools.product(("fbp", "bpf", "dfi"),
                                           range(-3, 4)):
            ctx.case("moved/%s/%d/%d" % (method, w, k), moved, ctx, method,
                     w, n, k)

    for method, m, w, a0, log in itertools.product(
            ("fbp", "bpf", "dfi"), range(2, 13), (15, 16), (0.0, 0.7, -1.0),
            (False, True)):
        ctx.case("order/%s/%d/%d/%g/%d" % (method, m, w, a0, log), order,
                 ctx, method, m, w, a0, log)

    def rejects():
        s = np.ones((n, 24), np.float32)
        for m in ("fbp", "bpf", "dfi"):
            for c in (-1, 24, 30.5):
                check(raises(lambda: call(m, s, c)) is True,
                      "centre outside the image accepted", m, c)
            check(raises(lambda: call(m, s, 11.5, angles=sets["360"])) is
                  True, "angle list of wrong length accepted", m)
        ctx.step(12)
        ctx.rejected += 12
    ctx.case("reject", rejects)
