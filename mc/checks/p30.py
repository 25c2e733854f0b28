"""P30: speckle stacks.

align      every integer shift of a range, per image of stacks of length 1-3:
           align_image_stacks brings reference and sample (and the samples
           among each other) together on the common area, for every fill mode.
shifts     every integer shift within the margin is found between stacks and
           between samples of one stack, for methods, points and core counts.
signal     transmission and dark field of a sample with constant transmission
           and visibility, for every shift within the margin, piecewise shift
           maps, stack lengths, window sizes, core counts and chunk splits.
track      the whole retrieval: shifts of a shifted speckle field, flat phase,
           transmission and dark field, and the phase of the returned shifts.
"""
import itertools

import joblib
import numpy as np
import scipy.ndimage as ndi

import algotom.prep.phase as ph
from mc.core import check, exact, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of shifts, stack lengths, "
             "windows and core counts on the real code against the simulated "
             "speckle field")
LEVEL = "model_checking"
LEVEL_NOTE = "All integer shifts within the margins, all listed options."
RULE = "case = (group, options); state = one set of shifts"
ASSUMPTIONS = ["speckles of about three pixels, noise-free",
               "shifts are integers and stay within the margin",
               "joblib workers are run as threads"]


def before_import():
    import os
    os.environ.setdefault("NUMBA_NUM_THREADS", "1")


def speckle(n, seed):
    a = ndi.gaussian_filter(np.random.default_rng(seed).normal(
        size=(n, n)), 1.3)
    return 1.0 + 0.25 * a / a.std()


PAD = 24


def cut(big, h, w, dy, dx):
    """Image whose features sit dx, dy further than in cut(big, h, w, 0, 0)"""
    return big[PAD - dy:PAD - dy + h, PAD - dx:PAD - dx + w].copy()


MODES = ("reflect", "constant", "nearest", "mirror", "wrap")


def common(h, w, shifts):
    m = int(np.max(np.abs(shifts))) + 1
    return slice(m, h - m), slice(m, w - m)


def align(ctx, n, mode, sam, dt, first):
    h, w = 22, 26
    bigs = [speckle(h + w + 2 * PAD, i) for i in range(n)]
    obj = speckle(h + w + 2 * PAD, 99)
    for rest in itertools.product((-3, 0, 2), repeat=2 * n - 2):
        d = np.array(first + rest).reshape(n, 2)          # dx, dy per image
        ref = np.array([cut(b, h, w, 0, 0) for b in bigs]).astype(dt)
        if sam:
            #  object moves by m between images, reference moves by d
            m = np.array([[0, 0], [2, -1], [-2, 3]])[:n]
            smp = np.array([cut(obj, h, w, m[i, 1], m[i, 0])
                            for i in range(n)]).astype(dt)
        else:
            m = None
            smp = np.array([cut(b, h, w, d[i, 1], d[i, 0])
                            for i, b in enumerate(bigs)]).astype(dt)
        keep = ref.copy(), smp.copy()
        ctx.step()
        ctx.state((n, mode, sam, dt, d.tolist()))
        for form in (np.float64, list):
            sr = (-d).astype(np.float64)
            ss = None if m is None else (-m).astype(np.float64)
            if form is list:
                sr = sr.tolist()
                ss = None if ss is None else ss.tolist()
            r1, s1 = ph.align_image_stacks(ref, smp, sr, ss, mode=mode)
            exact(ref, keep[0], "reference stack changed")
            exact(smp, keep[1], "sample stack changed")
            check(r1.shape == ref.shape and s1.shape == smp.shape, "shape")
            cy, cx = common(h, w, d if m is None else
                            np.abs(d) + np.abs(m))
            for i in range(n):
                if m is None:
                    same(r1[i][cy, cx], smp[i][cy, cx], "reference %d "
                         "aligned to its sample" % i, rtol=1e-4, atol=1e-4)
                    exact(s1[i], smp[i], "sample moved")
                else:
                    same(s1[i][cy, cx], smp[0][cy, cx], "sample %d aligned "
                         "to the first" % i, rtol=1e-4, atol=1e-4)
                    want = cut(bigs[i], h, w, d[i, 1] - m[i, 1],
                               d[i, 0] - m[i, 0])
                    same(r1[i][cy, cx], want[cy, cx], "reference %d moved "
                         "along" % i, rtol=1e-4, atol=1e-4)
        if n == 1:
            r2, s2 = ph.align_image_stacks(
                ref[0], smp[0], sr, ss, mode=mode)
            same(r2, r1, "2d input", rtol=1e-6, atol=1e-6)
            same(s2, s1, "2d input", rtol=1e-6, atol=1e-6)
    return first


def bad_align(ctx):
    a = np.ones((2, 8, 9))
    for args in ((a, a[:1], [[0, 0]]), (a, a, [[0, 0]]),
                 (a, a, [[0, 0]] * 3), (a, a, [[0, 0]] * 2, [[0, 0]]),
                 (a, a[:, :7], [[0, 0]] * 2)):
        ctx.step()
        ok = raises(lambda: ph.align_image_stacks(*args))
        check(ok is True, "stacks and shifts of different lengths: %s" % ok)
    for f in (ph.find_shift_between_image_stacks,):
        ok = raises(lambda: f(a, a[:1], 3, 2, [4, 4]))
        check(ok is True, "stacks of different shapes: %s" % ok)
    ok = raises(lambda: ph.get_transmission_dark_field_signal(
        a, a, a[0], a[0], 7, 3, ncore=1))
    check(ok is True, "images smaller than the window: %s" % ok)
    ok = raises(lambda: ph.get_transmission_dark_field_signal(
        a[0, 0], a[0, 0], a[0], a[0], 3, 1, ncore=1))
    check(ok is True, "1d input: %s" % ok)


POINTS = ([20, 22], [[16, 24, 20], [18, 20, 26]], [[22], [20]])


def shifts(ctx, method, gl, pts, norm, n):
    h, w = 42, 44
    margin = 4
    bigs = [speckle(h + w + 2 * PAD, 10 + i) for i in range(n)]
    ref = np.array([cut(b, h, w, 0, 0) for b in bigs])
    lim = {"diff": 0.3, "poly_fit": 0.3, None: 1e-6}[method]
    sub = method is not None
    rng = range(-margin + 1, margin)
    for dy in rng:
        for dx in rng:
            d = np.array([[dx, dy], [-dy, dx], [dy, -dx]])[:n]
            smp = np.array([cut(b, h, w, d[i, 1], d[i, 0])
                            for i, b in enumerate(bigs)])
            if (dx + dy) % 2:
                # blank borders (slits): outside of all windows
                for a in (ref, smp):
                    a[:, :1] = a[:, -1:] = 0.5
                    a[:, :, :1] = a[:, :, -1:] = 0.25
            ctx.step()
            ctx.state((method, gl, str(pts), norm, n, dy, dx))
            for core in (1, 2):
                with joblib.parallel_config(backend="threading"):
                    got = quiet(ph.find_shift_between_image_stacks, ref, smp,
                                11, margin, pts, global_value=gl,
                                sub_pixel=sub, method=method or "diff",
                                ncore=core, norm=norm)
                got = np.asarray(got)
                check(got.shape == (n, 2), "shape %s" % (got.shape,))
                e = np.abs(got + d).max()
                check(e <= lim, "shift %s found as %s (%d cores)"
                      % ((-d).tolist(), got.tolist(), core))
            if n == 1:
                with joblib.parallel_config(backend="threading"):
                    one = quiet(ph.find_shift_between_image_stacks, ref[0],
                                smp[0], 11, margin, pts, global_value=gl,
                                sub_pixel=sub, method=method or "diff",
                                ncore=1, norm=norm)
                same(np.asarray(one), got, "2d input", atol=1e-6)
            if n > 1 and dx % 2:
                # the same sample image each time, references that moved
                rf = np.array([cut(bigs[0], h, w, -d[i, 1], -d[i, 0])
                               for i in range(n)])
                sm = np.array([cut(bigs[0], h, w, 0, 0)] * n)
                with joblib.parallel_config(backend="threading"):
                    for a, b, sg in ((rf, sm, 1), (sm, rf, -1)):
                        g2 = np.asarray(quiet(
                            ph.find_shift_between_image_stacks, a, b, 11,
                            margin, pts, global_value=gl, sub_pixel=sub,
                            method=method or "diff", ncore=1, norm=norm))
                        e = np.abs(g2 + sg * d).max()
                        check(e <= lim, "repeated image: shift %s found as "
                              "%s" % ((-sg * d).tolist(), g2.tolist()))
            r1, s1 = ph.align_image_stacks(ref, smp, np.round(got))
            m = margin + 2
            same(r1[:, m:-m, m:-m], s1[:, m:-m, m:-m], "aligned with the "
                 "found shifts", rtol=1e-4, atol=1e-4)
    return (method, gl)


def between(ctx, n, method):
    """Samples move by m, sample i against reference i by s."""
    h, w = 46, 44
    margin = 4
    bigs = [speckle(h + w + 2 * PAD, 30 + i) for i in range(n)]
    obj = 0.5 + 0.3 * speckle(h + w + 2 * PAD, 77)
    for dx, dy in itertools.product((-2, 0, 1, 3), repeat=2):
        m = np.array([[0, 0], [dx, dy], [-dy, dx]])[:n]
        for s in (np.zeros((n, 2), int),
                  np.array([[1, -2], [0, 2], [-1, 1]])[:n]):
            ref = np.array([cut(b, h, w, 0, 0) for b in bigs])
            #  sample(x) = object(x - m + s) * reference(x + s)
            smp = np.array([
                cut(b, h, w, -s[i, 1], -s[i, 0]) *
                cut(obj, h, w, m[i, 1] - s[i, 1], m[i, 0] - s[i, 0])
                for i, b in enumerate(bigs)])
            ctx.step()
            ctx.state((n, method, dx, dy, s.tolist()))
            with joblib.parallel_config(backend="threading"):
                got = quiet(ph.find_shift_between_sample_images, ref, smp,
                            s.astype(float), 11, margin,
                            [[18, 20], [18, 21]], method=method, ncore=1)
            got = np.asarray(got)
            check(got.shape == (n, 2), "shape %s" % (got.shape,))
            check((got[0] == 0).all(), "first sample moved")
            e = np.abs(got + m).max()
            check(e <= 0.3, "movement %s found as %s" % ((-m).tolist(),
                                                         got.tolist()))
    return (n, method)


def expected(ref, smp, sy, sx, win, margin):
    """Definition: sample window against the reference window it comes
    from."""
    r = win // 2
    p = r + margin
    n, h, w = ref.shape
    tr = np.zeros((h - 2 * p, w - 2 * p))
    da = np.zeros_like(tr)
    for i in range(p, h - p):
        for j in range(p, w - p):
            y, x = i + int(sy[i, j]), j + int(sx[i, j])
            t = d = 0.0
            for k in range(n):
                a = ref[k, y - r:y + r + 1, x - r:x + r + 1]
                b = smp[k, i - r:i + r + 1, j - r:j + r + 1]
                tk = b.mean() / a.mean()
                t += tk / n
                d += b.std() / a.std() / tk / n
            tr[i - p, j - p], da[i - p, j - p] = t, d
    return np.pad(tr, p, mode="edge"), np.pad(da, p, mode="edge")


def tile(h, w, per, seed):
    """Speckle of period per: every window of that size has the same mean"""
    a = np.random.default_rng(seed).uniform(0.5, 1.5, (per, per))
    return np.tile(a, (h // per + 2, w // per + 2))


def signal(ctx, n, win, t, v, h, w):
    r = win // 2
    per = [tile(h + 40, w + 40, win, 50 + k) for k in range(n)]
    big = [speckle(h + w + 2 * PAD, 60 + k) for k in range(n)]
    margin = 3
    for dy in range(-margin, margin + 1):
        for dx in range(-margin, margin + 1):
            sx = np.full((h, w), dx, np.float64)
            sy = np.full((h, w), dy, np.float64)
            #  periodic speckle: exact values
            ref = np.array([p[10:10 + h, 10:10 + w] for p in per])
            mov = np.array([p[10 + dy:10 + dy + h, 10 + dx:10 + dx + w]
                            for p in per])
            mean = np.array([p.mean() for p in per])[:, None, None]
            smp = t * (mean + v * (mov - mean))
            for mg in (margin, None):
                ctx.step()
                ctx.state((n, win, t, v, h, w, dy, dx, mg))
                tr, da = ph.get_transmission_dark_field_signal(
                    ref, smp, sx, sy, win, mg, ncore=1)
                check(tr.shape == (h, w) and da.shape == (h, w), "shape")
                same(tr, np.full((h, w), t), "transmission", rtol=1e-3)
                same(da, np.full((h, w), v), "dark field", rtol=1e-3)
            #  aperiodic speckle: only matching windows give the values
            ref = np.array([cut(b, h, w, 0, 0) for b in big])
            mov = np.array([cut(b, h, w, -dy, -dx) for b in big])
            ctx.step()
            tr, da = ph.get_transmission_dark_field_signal(
                ref, t * mov, sx, sy, win, margin, ncore=1)
            same(tr, np.full((h, w), t), "transmission, shifted by "
                 "(%d, %d)" % (dy, dx), rtol=1e-3)
            same(da, np.full((h, w), 1.0), "dark field, shifted by "
                 "(%d, %d)" % (dy, dx), rtol=2e-3)
            if n == 1:
                one = ph.get_transmission_dark_field_signal(
                    ref[0], t * mov[0], sx, sy, win, margin, ncore=1)
                same(one[0], tr, "2d input", rtol=1e-6)
                same(one[1], da, "2d input", rtol=1e-6)
    return (n, win)


def pieces(ctx, n, win, seed):
    """Shift maps that change from pixel to pixel."""
    h, w, margin = 26, 24, 2
    rng = np.random.default_rng(seed)
    ref = np.array([speckle(64, 80 + k)[:h, :w] for k in range(n)])
    smp = np.array([speckle(64, 90 + k)[:h, :w] for k in range(n)])
    sy = rng.integers(-margin, margin + 1, (h, w)).astype(np.float64)
    sx = rng.integers(-margin, margin + 1, (h, w)).astype(np.float64)
    ctx.step()
    ctx.state((n, win, seed))
    keep = [a.copy() for a in (ref, smp, sy, sx)]
    got = ph.get_transmission_dark_field_signal(ref, smp, sx, sy, win,
                                                margin, ncore=1)
    want = expected(ref, smp, sy, sx, win, margin)
    same(got[0], want[0], "transmission", rtol=1e-3)
    same(got[1], want[1], "dark field", rtol=1e-3)
    for a, k in zip((ref, smp, sy, sx), keep):
        exact(a, k, "input changed")
    fr = ph.get_transmission_dark_field_signal(
        ref, smp, sx + 0.3, sy - 0.4, win, margin, ncore=1)
    same(fr[0], want[0], "fractional shifts are rounded", rtol=1e-3)
    return seed


def cores(ctx, h, n, win, margin):
    w = 20
    rng = np.random.default_rng(3)
    ref = np.array([speckle(h + 2, k)[:h, :w] for k in range(n)])
    smp = np.array([speckle(h + 2, 20 + k)[:h, :w] for k in range(n)])
    sy = rng.integers(-margin, margin + 1, (h, w)).astype(np.float64)
    sx = rng.integers(-margin, margin + 1, (h, w)).astype(np.float64)
    base = ph.get_transmission_dark_field_signal(ref, smp, sx, sy, win,
                                                 margin, ncore=1)
    for core in range(2, 8):
        ctx.step()
        ctx.state((h, n, win, margin, core))
        with joblib.parallel_config(backend="threading"):
            got = ph.get_transmission_dark_field_signal(
                ref, smp, sx, sy, win, margin, ncore=core)
        exact(got[0], base[0], "transmission on %d cores" % core)
        exact(got[1], base[1], "dark field on %d cores" % core)
    return h


def track(ctx, find, dim, surf, dy, dx):
    h, w, n = 40, 44, 3
    win, margin = 7, 4
    t, v = 0.7, 0.6
    big = [speckle(h + w + 2 * PAD, 40 + k) for k in range(n)]
    ref = np.array([cut(b, h, w, 0, 0) for b in big])
    mov = np.array([cut(b, h, w, -dy, -dx) for b in big])
    smp = t * (1 + v * (mov - 1))
    kw = dict(find_shift=find, dim=dim, win_size=win, margin=margin,
              ncore=1, surf_method=surf, pad=5, filter_name=None)
    args = ref, smp
    keep = ref.copy(), smp.copy()
    ctx.step(4)
    ctx.state((find, dim, surf, dy, dx))
    with joblib.parallel_config(backend="threading"):
        f = ph.retrieve_phase_based_speckle_tracking
        xs, ys, phase = quiet(f, *args, return_shift=True, **kw)
        full = quiet(f, *args, return_shift=True, dark_signal=True, **kw)
        three = quiet(f, *args, dark_signal=True, **kw)
        alone = quiet(f, *args, **kw)
        two = quiet(f, *args, return_shift=True, **dict(kw, ncore=2))
        chk = quiet(f, *args, return_shift=True, **dict(kw, chunk_size=7, norm=False))
        nonorm = quiet(f, *args, return_shift=True, **dict(kw, norm=False))
    exact(ref, keep[0], "reference stack changed")
    exact(smp, keep[1], "sample stack changed")
    check(len(full) == 5 and len(three) == 3, "number of results")
    for a in (xs, ys, phase, *full, *three, alone):
        check(a.shape == (h, w) and np.isfinite(a).all(), "shape/finite")
    tol = 0.3
    if dim == 2 or find == "umpa" or dx * dy == 0:
        for name, got, want in (("x", xs, dx), ("y", ys, dy)):
            e = np.abs(np.median(got) - want)
            check(e <= tol, "%s-shift %d: median %.3f" % (name, want,
                                                        np.median(got)))
            if dim == 2 or find == "umpa":
                check(np.abs(got - want).max() <= 0.7, "%s-shift %d: from "
                      "%.2f to %.2f" % (name, want, got.min(), got.max()))
    if find != "umpa":      # umpa: another cost function with dark field
        same(full[0], xs, "x-shift with dark field", rtol=1e-5, atol=1e-5)
        same(full[1], ys, "y-shift with dark field", rtol=1e-5, atol=1e-5)
    for nm, a, b in (("phase", full[2], three[0]), ("phase", phase, alone),
                     ("x-shift, 2 cores", xs, two[0]),
                     ("y-shift, 2 cores", ys, two[1]),
                     ("x-shift, chunks", nonorm[0], chk[0]),
                     ("y-shift, chunks", nonorm[1], chk[1])):
        same(b, a, nm, rtol=1e-5, atol=1e-5)
    same(three[1], full[3], "transmission", rtol=1e-6)
    same(three[2], full[4], "dark field", rtol=1e-6)
    rec = (ph.reconstruct_surface_from_gradient_SCS_method(xs, ys, pad=5)
           if surf == "SCS" else
           ph.reconstruct_surface_from_gradient_FC_method(xs, ys))
    same(phase, rec, "phase of the shifts", rtol=1e-4, atol=1e-3)
    if dim == 2 or find == "umpa":
        tr, da = full[3], full[4]
        e = margin + win
        check(np.abs(np.median(tr[e:-e, e:-e]) - t) < 0.06,
              "transmission %.3f, true %.3f" % (np.median(tr[e:-e, e:-e]),
                                                t))
        check(np.abs(np.median(da[e:-e, e:-e]) - v) < 0.08,
              "dark field %.3f, true %.3f" % (np.median(da[e:-e, e:-e]), v))
    return (find, dim)


def run(ctx):
    for n in (1, 2, 3) if ctx.thorough else (1, 2):
        for mode in MODES:
            for sam in (False, True):
                for dt in ("f4", "f8"):
                    for first in itertools.product(
                            (-4, -1, 0, 3) if n == 1 else (-3, 0, 2),
                            repeat=2):
                        if n == 3 and (mode != "reflect" or dt != "f8"):
                            continue
                        ctx.case("align/n%d/%s/%d/%s/%d_%d" % (
                            n, mode, sam, dt, *first), align, ctx, n, mode,
                            sam, dt, first)
    ctx.case("errors", bad_align, ctx)
    for method in ("diff", "poly_fit", None):
        for gl in ("median", "mean", "mixed"):
            for ip, pts in enumerate(POINTS):
                for norm in (False, True):
                    for n in ctx.pick((1, 2), (1, 2, 3)):
                        if n == 2 and not ctx.thorough and gl != "mixed":
                            continue
                        ctx.case("shifts/%s/%s/p%d/%d/n%d" % (
                            method, gl, ip, norm, n), shifts, ctx, method,
                            gl, pts, norm, n)
    for n in (1, 2, 3):
        for method in ("diff", "poly_fit"):
            ctx.case("between/n%d/%s" % (n, method), between, ctx, n, method)
    for n in (1, 2, 3):
        for win in (3, 5, 7):
            for t, v in ((1.0, 1.0), (0.6, 0.5), (1.3, 0.8)):
                for h, w in ctx.pick([(24, 27)], [(24, 27), (27, 24),
                                                  (31, 31)]):
                    ctx.case("signal/n%d/w%d/%g/%g/%dx%d" % (
                        n, win, t, v, h, w), signal, ctx, n, win, t, v, h, w)
            for seed in range(ctx.pick(4, 20)):
                ctx.case("pieces/n%d/w%d/%d" % (n, win, seed), pieces, ctx,
                         n, win, seed)
    for h in ctx.pick((50, 67, 90, 133), range(46, 160, 3)):
        for n in (1, 2):
            ctx.case("cores/%d/n%d" % (h, n), cores, ctx, h, n, 3, 2)
    for find, dim in (("correl", 1), ("correl", 2), ("umpa", 2)):
        for surf in ("SCS", "FC"):
            for dy in ctx.pick((-2, 0, 3), range(-3, 4)):
                for dx in ctx.pick((-3, 0, 1), range(-3, 4)):
                    ctx.case("track/%s/%d/%s/%d_%d" % (
                        find, dim, surf, dy, dx), track, ctx, find, dim,
                        surf, dy, dx)
