"""P28: phase unwrapping.

lattice   every phase map of small grids over a set of levels whose
          differences stay below pi, several offsets: the cosine-transform
          method returns it up to a constant.
smooth    every shape of a set (both parities, non-square, single row or
          column), surfaces, amplitudes and offsets, for the three methods,
          default and given windows.
congruent the iterative result agrees with the input modulo two pi.
quality   the quality map is small on smooth areas and flags a noisy block
          at every place.
"""
import itertools

import numpy as np

import algotom.prep.phase as ph
from mc.core import check, exact, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of phase maps and shapes on the "
             "real code against the true phase")
LEVEL = "model_checking"
LEVEL_NOTE = "All level assignments of the small grids, all listed shapes."
RULE = ("case = (family, shape, surface or map prefix); state = one phase "
        "map")
ASSUMPTIONS = ["neighbouring differences stay below pi (cosine transform), "
               "below 1 (one-step FFT, sizes from 8, result within 3%), below 2.4 "
               "(iterative FFT)"]

TWO = 2 * np.pi


def wrap(a):
    return (a + np.pi) % TWO - np.pi


def congruent(got, mat, tol, what):
    d = np.exp(1j * (got - mat))
    m = d.mean()
    check(abs(m) > 0.5, what + ": not congruent")
    d = np.abs(np.angle(d / (m / abs(m)))).max()
    check(d <= tol, "%s: off by %.3g modulo 2 pi" % (what, d))


def nodc(got, true, tol, what):
    check(got.shape == true.shape, what + ": shape %s" % (got.shape,))
    check(np.isfinite(got).all(), what + ": not finite")
    d = got - true
    d = np.abs(d - d.mean()).max()
    check(d <= tol, "%s: off by %.4g (range of the phase %.3g)"
          % (what, d, np.ptp(true)))


def lattice(ctx, h, w, levels, prefix):
    n = h * w - len(prefix)
    for rest in itertools.product(levels, repeat=n):
        true = np.array(prefix + rest, dtype=np.float64).reshape(h, w)
        for off in (0.0, 2.0, -3.0):
            mat = wrap(true + off)
            ctx.step()
            got = ph.unwrap_phase_based_cosine_transform(mat)
            nodc(got, true, 1e-9, "offset %g" % off)
        ctx.state((h, w, true.tobytes()))
    return prefix


def surface(h, w, kind):
    y, x = np.mgrid[0:h, 0:w]
    y = (y + 0.5) / h
    x = (x + 0.5) / w
    return {"plane+": x + 0.6 * y, "plane-": 0.7 * x - y,
            "flat": np.zeros((h, w)),
            "bowl": (x - 0.4) ** 2 + (y - 0.6) ** 2,
            "hill": np.exp(-((x - 0.5) ** 2 + (y - 0.45) ** 2) / 0.08),
            "pit": -np.exp(-((x - 0.3) ** 2 + (y - 0.6) ** 2) / 0.1),
            "wavex": np.cos(TWO * x), "wavey": np.cos(TWO * y),
            "both": np.cos(np.pi * x) * np.cos(TWO * y),
            "saddle": (x - 0.5) * (y - 0.5) * 2}[kind]


KINDS = ("plane+", "plane-", "flat", "bowl", "hill", "pit", "wavex", "wavey",
         "both", "saddle")


def step_of(s):
    d = [0.0]
    for ax in (0, 1):
        if s.shape[ax] > 1:
            d.append(np.abs(np.diff(s, axis=ax)).max())
    return max(d)


def smooth(ctx, h, w, kind):
    base = surface(h, w, kind)
    for amp in (0.5, 2.0, 4.0, 9.0, 20.0):
        true = base * amp
        step = step_of(true)
        rng = max(1.0, np.ptp(true))
        for off in (0.0, 1.0, -2.5, 3.1):
            mat = wrap(true + off)
            ctx.state((h, w, kind, amp, off))
            keep = mat.copy()
            if step < 3.1:
                ctx.step(2)
                got = ph.unwrap_phase_based_cosine_transform(mat)
                nodc(got, true, 1e-8 * rng, "cosine")
                congruent(got, mat, 1e-7, "cosine")
                got = ph.unwrap_phase_based_cosine_transform(
                    mat.astype(np.float32))
                nodc(got, true, 2e-3 * rng, "cosine f4")
            if step < 1.0 and min(h, w) >= 8:
                ctx.step()
                nodc(ph.unwrap_phase_based_fft(mat), true, 0.03 * rng, "fft")
            if step < 2.4 and min(h, w) >= 8:
                for it in (4, 6):
                    ctx.step()
                    got = ph.unwrap_phase_iterative_fft(mat, iteration=it)
                    nodc(got, true, 0.01 * rng, "iterative %d" % it)
                    congruent(got, mat, 0.01, "iterative %d" % it)
                ctx.step()
                got = ph.unwrap_phase_iterative_fft(
                    mat, iteration=4, weight_map=np.ones((h, w)))
                nodc(got, true, 0.01 * rng, "iterative, weights 1")
            exact(mat, keep, "caller's phase image changed")
    return (h, w, kind)


def improve(ctx, h, w):
    """More iterations never make the result less congruent."""
    for kind in KINDS:
        for amp in (2.0, 6.0):
            true = surface(h, w, kind) * amp
            if step_of(true) > 1.5:
                continue
            mat = wrap(true)
            last = None
            for it in range(0, 6):
                ctx.step()
                ctx.state((h, w, kind, amp, it))
                got = ph.unwrap_phase_iterative_fft(mat, iteration=it)
                d = got - true
                d = np.abs(d - d.mean()).max()
                check(last is None or d <= last + 1e-6,
                      "iteration %d is worse: %.3g after %.3g" %
                      (it, d, last or 0))
                last = d
            one = ph.unwrap_phase_based_fft(mat)
            same(ph.unwrap_phase_iterative_fft(mat, iteration=0), one,
                 "no iteration", rtol=1e-9, atol=1e-9)
    return (h, w)


def windows(ctx, h, w):
    true = surface(h, w, "hill") * 3
    mat = wrap(true)
    y, x = np.mgrid[0:h, 0:w]
    cw = 2.0 * (np.cos(np.pi * y / h) + np.cos(np.pi * x / w) - 2.0)
    cw[0, 0] = 1.0
    ctx.step(4)
    same(ph.unwrap_phase_based_cosine_transform(mat, window=cw.copy()),
         ph.unwrap_phase_based_cosine_transform(mat), "given cosine window",
         rtol=1e-9, atol=1e-9)
    v, u = np.mgrid[-h:h, -w:w]
    win = (u / w) ** 2 + (v / h) ** 2
    back = win.copy()
    back[h, w] = 1.0
    kf, kb = win.copy(), back.copy()
    same(ph.unwrap_phase_based_fft(mat, win, back),
         ph.unwrap_phase_based_fft(mat), "given windows", rtol=1e-9,
         atol=1e-9)
    same(ph.unwrap_phase_iterative_fft(mat, 3, win, back),
         ph.unwrap_phase_iterative_fft(mat, 3), "given windows, iterative",
         rtol=1e-9, atol=1e-9)
    exact(win, kf, "forward window changed")
    exact(back, kb, "backward window changed")
    for bad in ((h + 1, w), (h, w + 1), (2 * h, w)):
        ctx.step(3)
        ctx.state((h, w, bad))
        ok = raises(lambda: ph.unwrap_phase_based_cosine_transform(
            mat, window=np.ones(bad)))
        check(ok is True, "cosine window of shape %s: %s" % (bad, ok))
        ok = raises(lambda: ph.unwrap_phase_based_fft(
            mat, win_for=np.ones(bad)))
        check(ok is True, "forward window of shape %s: %s" % (bad, ok))
        ok = raises(lambda: ph.unwrap_phase_based_fft(
            mat, win_back=np.ones(bad)))
        check(ok is True, "backward window of shape %s: %s" % (bad, ok))
    return (h, w)


def quality(ctx, h, w, size):
    y, x = np.mgrid[0:h, 0:w]
    #  no extremum of the wrapped gradient: quality is zero for a plane
    plane = wrap(0.2 * x + 0.13 * y)
    ctx.step()
    q = ph.get_quality_map(plane, size)
    check(q.shape == (h, w) and np.isfinite(q).all(), "shape/finite")
    r = size // 2 + 1
    check(np.abs(q[r + 1:-r - 1, r + 1:-r - 1]).max() < 1e-3,
          "plane: quality %.3g" % np.abs(q[r + 1:-r - 1, r + 1:-r - 1]).max())
    rng = np.random.default_rng(5)
    blk = rng.uniform(-np.pi, np.pi, (6, 6))
    for i in range(r + 2, h - 8 - r, 3):
        for j in range(r + 2, w - 8 - r, 3):
            mat = plane.copy()
            mat[i:i + 6, j:j + 6] = blk
            ctx.step(2)
            ctx.state((h, w, size, i, j))
            q = ph.get_quality_map(mat, size)
            inn = q[i + 1:i + 5, j + 1:j + 5].min()
            out = q.copy()
            out[i - r - 1:i + 7 + r, j - r - 1:j + 7 + r] = 0
            out = out[r + 1:-r - 1, r + 1:-r - 1].max()
            check(inn > 10 * out + 0.05, "noise at (%d, %d): quality %.3g "
                  "inside, %.3g outside" % (i, j, inn, out))
            #  shifting by a constant (mod 2 pi) changes nothing
            same(ph.get_quality_map(wrap(mat + 1.3), size), q,
                 "quality of the shifted phase", rtol=1e-4, atol=1e-5)
            mask = ph.get_weight_mask(q, snr=1.5)
            check(set(np.unique(mask)) <= {0.0, 1.0}, "mask not binary")
            check(mask[i + 1:i + 5, j + 1:j + 5].all(),
                  "noisy block not flagged")
            d = mask.copy()
            d[i - r - 1:i + 7 + r, j - r - 1:j + 7 + r] = 0
            check(d[r + 1:-r - 1, r + 1:-r - 1].sum() == 0,
                  "smooth area flagged")
    return (h, w, size)


def run(ctx):
    lev = (0.0, 1.5, 3.0)
    for h, w in ctx.pick([(1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4)],
                         [(1, 7), (7, 1), (2, 3), (3, 2), (2, 5), (5, 2),
                          (3, 3), (4, 2)]):
        n = min(2, h * w - 1)
        for prefix in itertools.product(lev, repeat=n):
            ctx.case("lattice/%dx%d/%s" % (h, w, "_".join(
                "%g" % v for v in prefix)), lattice, ctx, h, w, lev, prefix)
    if not ctx.thorough:
        lev2 = (0.0, 3.0)
        for prefix in itertools.product(lev2, repeat=3):
            ctx.case("lattice/3x3b/%s" % "_".join(
                "%g" % v for v in prefix), lattice, ctx, 3, 3, lev2, prefix)
    dims = ctx.pick((8, 9, 16, 21), (8, 9, 12, 15, 16, 21, 32, 33))
    for h in dims:
        for w in dims:
            for kind in KINDS:
                ctx.case("smooth/%dx%d/%s" % (h, w, kind), smooth, ctx, h, w,
                         kind)
            ctx.case("windows/%dx%d" % (h, w), windows, ctx, h, w)
    for h, w in ((1, 12), (12, 1), (2, 15), (15, 2), (3, 3), (64, 9)):
        for kind in KINDS:
            ctx.case("smooth/%dx%d/%s" % (h, w, kind), smooth, ctx, h, w,
                     kind)
    for h, w in ctx.pick([(16, 21), (21, 16), (24, 24)],
                         [(16, 21), (21, 16), (24, 24), (33, 40), (41, 32)]):
        ctx.case("improve/%dx%d" % (h, w), improve, ctx, h, w)
    for h, w in [(30, 33), (33, 30)]:
        for size in (3, 5):
            ctx.case("quality/%dx%d/s%d" % (h, w, size), quality, ctx, h, w,
                     size)
