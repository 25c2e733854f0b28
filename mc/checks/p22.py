"""P22: overlap search on every overlap of scenes cut in two.

Every overlap of the searchable range, both sides, side given or automatic,
every option combination, window widths (also wider than half an image),
unequal image widths, 1-3 cores, chains of up to four images, blank areas.
Oracle: the cut itself; automatic = the explicit result for the reported
side; cores never matter; a chain is the list of its pairs.
"""
import itertools

import numpy as np
import scipy.ndimage as ndi

from mc.core import check, fill, quiet, raises
import algotom.prep.calculation as calc

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of overlaps, sides and options "
             "on the real code against the known cut")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every overlap between the search limits for the listed image "
              "and window widths; two textured scenes.")
RULE = "case = one call set for a cut; outcome = (overlap, side, position)"
ASSUMPTIONS = ["textured scene (no repeating pattern); the overlap is at "
               "least three pixels wider than the search window and smaller "
               "than the image by three pixels"]

# denoising mirrors the image border into the window, which biases the peak
TOL = {False: 0.6, True: 1.3}


def scene(h, w, seed):
    a = fill((h, w), seed, 0.0, 1.0, np.float64)
    a = ndi.gaussian_filter(a, 1.2, mode="wrap")
    a = (a - a.min()) / (a.max() - a.min())
    return 0.5 + 2.0 * a


def cut(h, w1, w2, ov, side, seed):
    big = scene(h, w1 + w2, seed)
    if side == 1:
        return big[:, :w1], big[:, w1 - ov:w1 - ov + w2]
    return big[:, w2 - ov:w2 - ov + w1], big[:, :w2]


def call(ctx, m1, m2, win, sd, opts, nc):
    ctx.step()
    got = quiet(calc.find_overlap, m1, m2, win, side=sd, denoise=opts[0],
                norm=opts[1], use_overlap=opts[2], ncore=nc)
    check(len(got) == 3, "result", got)
    return tuple(float(g) for g in got)


def one(ctx, m1, m2, ov, side, win, opts, cores, sd):
    k1, k2 = m1.copy(), m2.copy()
    # whichever filter the automatic mode applies, the cut is found
    tol = TOL[bool(opts[0]) or sd is None]
    res = []
    for nc in cores:
        got = call(ctx, m1, m2, win, sd, opts, nc)
        check(int(got[1]) == side, "side", got)
        check(abs(got[0] - ov) <= tol, "overlap", got, ov)
        res.append(got)
    for r in res[1:]:
        check(np.allclose(r, res[0], atol=2e-2),
              "different numbers of cores give different results", res)
    # the reported position is the middle of the window in the first image
    p = res[0][2]
    edge = ov - (m1.shape[1] - p) if side == 1 else ov - p
    half = [w // 2 for w in range(max(6, min(win, 7)), win + 1)]
    check(any(abs(edge - h) <= tol for h in half), "window position", p, ov)
    check(np.array_equal(m1, k1) and np.array_equal(m2, k2), "input changed")
    return res[0]


def auto(ctx, m1, m2, side, win, opts):
    got = call(ctx, m1, m2, win, None, opts, 1)
    want = call(ctx, m1, m2, win, int(got[1]), opts, 1)
    check(np.allclose(got, want, atol=2e-2), "the automatic side gives "
          "another result than that side given explicitly", got, want)
    return got


def chain(ctx, cuts, win, side, opts):
    den, nrm, use = opts
    ctx.step()
    got = quiet(calc.find_overlap_multiple, cuts, win, side=side,
                denoise=den, norm=nrm, use_overlap=use, ncore=1)
    check(len(got) == len(cuts) - 1, "number of overlaps", len(got))
    for i, r in enumerate(got):
        ctx.step()
        want = quiet(calc.find_overlap, cuts[i], cuts[i + 1], win, side=side,
                     denoise=den, norm=nrm, use_overlap=use, ncore=1)
        check(np.allclose(np.float64(r), np.float64(want), atol=1e-3),
              "pair %d of the chain" % i, r, want)
    return [tuple(map(float, r)) for r in got]


def run(ctx):
    opts = list(itertools.product((True, False), repeat=3))
    h = 14
    geo = [(40, 40, 8), (41, 36, 9), (36, 41, 12)]
    big = [(40, 40, 20), (40, 40, 33), (44, 40, 19), (36, 40, 18),
           (40, 33, 21)]
    if ctx.thorough:
        geo += [(64, 64, 16), (50, 31, 6), (31, 50, 7), (48, 64, 22)]
    for w1, w2, win in geo + big:
        eff = min(win, min(w1, w2) // 2)
        half = (eff // 2) * 2
        lo, hi = half + 3, min(w1, w2) - 3
        for ov in range(lo, hi + 1):
            for side in (0, 1):
                for k, op in enumerate(opts):
                    if not ctx.thorough and (
                            (w1, w2, win) != (40, 40, 8)) and (
                                k % 8 not in (ov % 8, (ov + 4) % 8)):
                        continue
                    for seed in ctx.pick((1,), (1, 2)):
                        m1, m2 = cut(h, w1, w2, ov, side, seed)
                        n2 = m2
                        if op[1]:
                            n2 = m2 * np.linspace(0.7, 1.4, h)[:, None]
                        cores = (1, 3) if ov % 5 == k % 5 else (1,)
                        tag = "%dx%d/win%d/ov%d/side%d/%s/s%d" % (
                            w1, w2, win, ov, side, "".join(
                                "01"[o] for o in op), seed)
                        ctx.case("cut/" + tag, one, ctx, m1, n2, ov, side,
                                 win, op, cores, side)
                        # rows are only scaled when both options are on, so
                        # that the cut stays recognisable either way
                        a2 = n2 if op[0] == op[1] else m2
                        ctx.case("auto/" + tag, one, ctx, m1, a2, ov, side,
                                 win, op, cores, None)
                        ctx.case("autoopt/" + tag, auto, ctx, m1, a2, side,
                                 win, op)
    for n, side, op in itertools.product((2, 3, 4), (0, 1, None), opts):
        if n == 4 and not ctx.thorough and op[2]:
            continue
        big_ = scene(h, 200, 5)
        pos, cuts = 0, []
        ovs = (13, 19, 15)
        for i in range(n):
            cuts.append(big_[:, pos:pos + 40])
            pos += 40 - ovs[min(i, 2)]
        if side == 0:
            cuts = cuts[::-1]
        ctx.case("chain/%d/%s/%s" % (n, side, "".join("01"[o] for o in op)),
                 chain, ctx, cuts, 10, side, op)
    # blank areas outside of the overlap, and rows blank in both images
    for ov, side, op, area in itertools.product(
            ctx.pick((13, 18), range(11, 24)), (0, 1), opts,
            ("far1", "far2", "row", "wide1")):
        m1, m2 = (m.copy() for m in cut(h, 40, 40, ov, side, 1))
        if area == "row":
            m1[3:5], m2[3:5] = 0.0, 0.0
        else:
            m, sd = (m1, side) if area[-1] == "1" else (m2, 1 - side)
            n = 12 if area[:3] == "far" else 40 - ov - 3
            if sd == 1:
                m[:, :n] = 0.0
            else:
                m[:, 40 - n:] = 0.0
        ctx.case("blank/%d/%d/%s/%s" % (ov, side, "".join(
            "01"[o] for o in op), area), one, ctx, m1, m2, ov, side, 8, op,
            (1,), side)
    m1, m2 = cut(h, 40, 40, 20, 1, 1)

    def rejects():
        r = raises(lambda: quiet(calc.find_overlap, m1[:-1], m2, 8, side=1))
        check(r is True, "images of different heights accepted", r)
        r = raises(lambda: quiet(calc.find_overlap_multiple, [m1], 8))
        check(r is True, "a chain of one image accepted", r)
        ctx.rejected += 2
        ctx.step(2)
    ctx.case("reject", rejects)
