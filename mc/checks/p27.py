"""P27: stripe detection and interpolation inside stripes.

Detection: every position and sign pattern of up to a quarter of outliers on a
profile whose sorted values are exactly linear, every sensitivity, every
rotation of the order; and noisy profiles without outliers.  Interpolation:
every binary mask of every small width, every spline kind, against the image.
"""
import itertools

import numpy as np

import algotom.util.utility as util
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of outlier positions and column "
             "masks on the real code against exact models")
LEVEL = "model_checking"
LEVEL_NOTE = "All masks, positions and sign patterns within the bounds."
RULE = "case = (length, positions) or mask prefix; state = one profile | mask"
ASSUMPTIONS = ["ordinary noise: sorted values nearly linear",
               "the two outermost columns count as good"]


def perm(n, k):
    """A fixed non-trivial order of n values."""
    return (np.arange(n) * k) % n


def detection(ctx, n, pos):
    base = np.linspace(0.95, 1.05, n)
    mults = [k for k in (1, 7, n - 1) if np.gcd(k, n) == 1]
    for signs in itertools.product((1, -1), repeat=len(pos)):
        for k in mults:
            order = perm(n, k)
            prof = base[order]
            for snr in (1.5, 3.0, 5.0):
                for off in (1.3, 4.0):
                    ctx.step()
                    ctx.state((n, pos, signs, k, snr, off))
                    p = prof.copy()
                    for q, s in zip(pos, signs):
                        # the remaining values keep their linear order, the
                        # fitted range grows by the removed ones
                        p[q] = 1.0 + s * (0.05 + 0.12 * (snr * off + 1))
                    keep = p.copy()
                    got = quiet(util.detect_stripe, p, snr)
                    exact(p, keep, "caller's profile changed")
                    check(len(got) == n, "length")
                    want = np.zeros(n)
                    want[list(pos)] = 1
                    exact(np.asarray(got, float), want,
                          "flags for outliers %s %s snr %g" % (pos, signs,
                                                               snr))
                    g2 = quiet(util.detect_stripe, 3.0 * p + 2.0, snr)
                    exact(np.asarray(g2, float), want, "scaled profile")
    return (n, pos)


def signs(ctx, n, a, b):
    """Bright and dark outliers of any size are treated alike."""
    base = np.linspace(0.95, 1.05, n)[perm(n, 7 if n % 7 else 5)]
    base = base + fill((n,), 3, -0.004, 0.004, np.float64)
    for i, j in ((0, n // 2), (n // 3, n - 1), (1, 2)):
        for snr in (1.1, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0):
            p = base.copy()
            p[i] = 1 + 0.1003 * a
            p[j] = 1 - 0.1003 * b
            ctx.step(2)
            ctx.state((n, a, b, i, j, snr))
            one = np.asarray(quiet(util.detect_stripe, p, snr)) > 0
            two = np.asarray(quiet(util.detect_stripe, 2 - p, snr)) > 0
            exact(one, two, "outliers of +%g and -%g at snr %g: flags of the "
                  "negative profile differ" % (a, b, snr))
    return (n, a, b)


def clean(ctx, n, seed, kind):
    u = fill((n,), seed, 0.0, 1.0, np.float64)
    if kind == "uniform":
        p = 1 + 0.1 * (u - 0.5)
    elif kind == "sum":
        u2 = fill((n,), seed + 1000, 0.0, 1.0, np.float64)
        p = 1 + 0.1 * (u + u2 - 1)
    else:
        p = 1 + 0.1 * np.linspace(0, 1, n)[perm(n, 7 if n % 7 else 5)]
    for snr in (3.0, 4.0, 5.0):
        ctx.step()
        ctx.state((n, seed, kind, snr))
        got = quiet(util.detect_stripe, p, snr)
        check(not np.any(got), "ordinary noise flagged", np.where(got)[0])
    return round(float(p[0]), 6)


def reject(ctx):
    for v in (0.0, 1.0, 57.5):
        ctx.step()
        ctx.rejected += 1
        check(raises(lambda: quiet(util.detect_stripe, np.full(20, v),
                                   3.0)) is True, "noise-free accepted", v)
    check(raises(lambda: util.interpolate_inside_stripe(
        np.ones((5, 8)), np.zeros(7))) is True, "mask length accepted")


def interp(ctx, w, h, prefix, kind):
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    lin = 3.0 + 0.7 * x - 0.4 * y
    rnd = fill((h, w), w * 7 + h, 0, 9, np.float64)
    deg = {"linear": 1, "cubic": 2, "quintic": 3}[kind]
    for rest in itertools.product((0, 1), repeat=w - len(prefix)):
        m = np.array(prefix + rest)
        eff = m.copy()
        eff[:2] = eff[-2:] = 0
        good = np.where(eff == 0)[0]
        if len(good) <= deg:
            continue
        ctx.state((w, h, tuple(m), kind))
        for mdt in ("float32", "uint8", "bool"):
            mask = m.astype(mdt)
            km = mask.copy()
            for mat in (lin, rnd):
                mat = mat.copy()
                mat[:, eff > 0] = -77.0
                keep = mat.copy()
                ctx.step()
                got = util.interpolate_inside_stripe(mat, mask, kind)
                exact(mat, keep, "caller's image changed")
                exact(mask, km, "caller's mask changed")
                exact(got[:, good], mat[:, good], "unflagged columns, mask "
                      "%s" % m)
                check(bool(np.isfinite(got).all()), "not finite")
                if mat[0, good[0]] == lin[0, good[0]]:
                    same(got, lin, "linear image, mask %s" % m, 1e-6, 1e-6)
                elif kind == "linear":
                    want = np.array([np.interp(np.arange(w), good, r[good])
                                     for r in mat])
                    same(got, want, "linear interpolation, mask %s" % m,
                         1e-6, 1e-6)
    return (w, h, prefix, kind)


def run(ctx):
    size = ctx.pick((0.5, 1.1, 1.27, 1.9, 3.3), (
        0.5, 0.8, 1.1, 1.27, 1.6, 1.9, 2.4, 3.3, 4.7))
    for n in ctx.pick((31, 60), (31, 45, 60, 101)):
        for a, b in itertools.product(size, size):
            ctx.case("signs/%d/%g/%g" % (n, a, b), signs, ctx, n, a, b)
    for n in ctx.pick([16, 25], [16, 20, 25, 32]):
        for pos in itertools.combinations(range(n), 1):
            ctx.case("detect/%d/%s" % (n, pos), detection, ctx, n, pos)
        for pos in itertools.combinations(range(n), 2):
            ctx.case("detect/%d/%s" % (n, pos), detection, ctx, n, pos)
        if n == 16 or ctx.thorough and n == 20:
            for pos in itertools.combinations(range(n), 3):
                ctx.case("detect/%d/%s" % (n, pos), detection, ctx, n, pos)
    for n in (30, 64, 101, 200):
        for seed in range(1, ctx.pick(40, 200)):
            ctx.case("clean/%d/uniform/%d" % (n, seed), clean, ctx, n, seed,
                     "uniform")
        ctx.case("clean/%d/line" % n, clean, ctx, n, 0, "line")
    ctx.case("reject", reject, ctx)
    for w in ctx.pick([4, 5, 6, 7, 9], [4, 5, 6, 7, 8, 9, 11]):
        for h in (4, 6):
            for prefix in itertools.product((0, 1), repeat=3):
                for kind in ("linear", "cubic", "quintic"):
                    ctx.case("interp/%d/%d/%s/%s" % (w, h, prefix, kind),
                             interp, ctx, w, h, prefix, kind)
