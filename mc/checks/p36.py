"""P36: local shift maps, whatever way the work is divided.

Every integer shift within the margin for every method; every chunk size x
number of cores x container x reported core count for a non-uniform pattern;
every subset of points for the global shift.  Oracle: the known shift; the
undivided single-core result; the local map.
"""
import itertools
import multiprocessing as mp

import h5py
import joblib
import numpy as np
import scipy.ndimage as ndi

from mc.core import check, quiet, raises, fill, same
import algotom.util.correlation as corr

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of shifts, work divisions and "
             "point subsets on the real code against known shifts and the "
             "undivided result")
LEVEL = "model_checking"
LEVEL_NOTE = ("All integer shifts in the margin, all chunk sizes x cores x "
              "containers x core counts reported by the machine, all point "
              "subsets up to size 4.")
RULE = "case = one call; state = its parameters"
ASSUMPTIONS = ["threads stand in for joblib's worker processes except in a "
               "few cases; textured pattern"]
H, W = 19, 21


def texture(depth, seed=3):
    v = fill((depth or 1, H + 8, W + 8), seed, 0, 1, np.float64)
    v = ndi.gaussian_filter(v, (0, 0.7, 0.7), mode="wrap") + 0.5
    return v if depth else v[0]


def pair(depth, sy, sx, dt=np.float32):
    """mat[i, j] = ref[i + sy, j + sx]"""
    t = texture(depth)
    if np.dtype(dt).kind == "u":
        t = np.round(t * (120 if np.dtype(dt).itemsize == 1 else 30000))
    t = t.astype(dt)
    return (np.ascontiguousarray(t[..., 4:4 + H, 4:4 + W]),
            np.ascontiguousarray(t[..., 4 + sy:4 + sy + H,
                                   4 + sx:4 + sx + W]))


def mixed_pair(depth, dt=np.float32):
    """Shift varies over the image."""
    t = texture(depth)
    y, x = np.mgrid[:H, :W].astype(float)
    fy, fx = y + 4 + 0.8 * np.sin(x / 6), x + 4 + 1.1 * np.cos(y / 5)
    one = [ndi.map_coordinates(k, (fy, fx), order=3)
           for k in (t if depth else t[None])]
    mat = np.asarray(one) if depth else one[0]
    ref = t[..., 4:4 + H, 4:4 + W]
    if np.dtype(dt).kind == "u":
        ref, mat = np.round(ref * 20000), np.round(mat * 20000)
    return np.ascontiguousarray(ref.astype(dt)), mat.astype(dt)


def call(fn, ref, mat, threads=True, **kw):
    fun = {"2d": corr.find_local_shifts, "3d1": corr.find_local_shifts,
           "3d2": corr.find_local_shifts,
           "umpa": corr.find_local_shifts_umpa,
           "umpadark": corr.find_local_shifts_umpa}[fn]
    kw["gpu"] = False
    if fn == "3d1":
        kw["dim"] = 1
    elif fn == "3d2":
        kw["dim"] = 2
    elif fn == "umpadark":
        kw["dark_signal"] = True
    if threads:
        with joblib.parallel_config(backend="threading"):
            return quiet(fun, ref, mat, **kw)
    return quiet(fun, ref, mat, **kw)


def border(a, edge, axes, what):
    inner = np.zeros(a.shape, bool)
    inner[edge if 0 in axes else 0:H - edge if 0 in axes else H,
          edge if 1 in axes else 0:W - edge if 1 in axes else W] = True
    check(np.all(a[~inner] == 0), what, "not zero on the border")
    return a[inner]


def uniform(ctx, fn, win, margin, sy, sx, dt, opts):
    depth = 0 if fn == "2d" else 3
    if fn == "3d1" and sy and sx:
        return
    ref, mat = pair(depth, sy, sx, dt)
    k = ref.copy(), mat.copy()
    ctx.step()
    ctx.state((fn, win, margin, sy, sx, str(dt), sorted(opts.items())))
    out = call(fn, ref, mat, win_size=win, margin=margin, ncore=1, **opts)
    same(ref, k[0], "reference changed")
    same(mat, k[1], "image changed")
    check(len(out) == (4 if fn == "umpadark" else 2), "outputs", len(out))
    edge = margin + win // 2
    for a, s, name, ax in ((out[0], sx, "x", 1), (out[1], sy, "y", 0)):
        check(a.shape == (H, W), "shape", a.shape)
        if fn == "3d1":
            v = border(a, edge, (ax,), name)
            if (sy if ax == 1 else sx):
                continue
        else:
            v = border(a, edge, (0, 1), name)
        check(np.isfinite(v).all() and np.abs(v - s).max() < 0.5, name +
              "-shift", float(v.min()), float(v.max()), "true", s)
        check(abs(np.mean(v) - s) < 0.2, "mean " + name + "-shift", np.mean(v))


BASE = {}


def baseline(fn, dt, method, size, opts):
    key = (fn, str(dt), method, size, tuple(sorted(opts.items())))
    if key not in BASE:
        ref, mat = mixed_pair(0 if fn == "2d" else 2, dt)
        kw = dict(opts)
        if fn[:4] != "umpa":
            kw.setdefault("norm", False)
        BASE[key] = [np.array(a) for a in call(
            fn, ref, mat, win_size=5, margin=3, ncore=1, chunk_size=None,
            method=method, size=size, **kw)]
    return BASE[key]


def divided(ctx, fn, dt, method, size, chunk, ncore, hdf, cpus, opts,
            threads=True):
    ref, mat = mixed_pair(0 if fn == "2d" else 2, dt)
    want = baseline(fn, dt, method, size, opts)
    kw = dict(opts)
    if fn[:4] != "umpa":
        kw.setdefault("norm", False)
    f = d = None
    a, b = ref, mat
    if hdf:
        d = ctx.scratch()
        f = h5py.File(d + "/a.hdf", "w")
        a, b = f.create_dataset("a", data=ref), f.create_dataset("b",
                                                                 data=mat)
    real = mp.cpu_count
    mp.cpu_count = lambda: cpus
    ctx.step()
    ctx.state((fn, str(dt), method, size, chunk, ncore, hdf, cpus,
               sorted(opts.items())))
    try:
        got = call(fn, a, b, threads, win_size=5, margin=3, ncore=ncore,
                   chunk_size=chunk, method=method, size=size, **kw)
    finally:
        mp.cpu_count = real
        if not threads:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
        if f:
            f.close()
            ctx.drop(d)
    check(len(got) == len(want), "outputs", len(got))
    for k, (g, w) in enumerate(zip(got, want)):
        d = np.abs(np.float64(g) - w)
        # a near-tie between two candidates may flip on rounding when the
        # images were rescaled
        lim = 1e-4 if not opts.get("norm_global") else 5e-3
        check(np.max(d) <= lim, "map %d" % k, "differs from the "
              "undivided result", np.argwhere(d > lim)[:4].tolist(),
              float(d.max()))


def pointwise(ctx, fn, dt, method, size, win, margin, ncore, chunk):
    """Every pixel of the map against the correlation of its own window."""
    ref, mat = mixed_pair(0 if fn == "2d" else 2, dt)
    ctx.step()
    ctx.state(("point", fn, str(dt), method, size, win, margin, ncore, chunk))
    out = call(fn, ref, mat, win_size=win, margin=margin, ncore=ncore,
               chunk_size=chunk, method=method, size=size, norm=False)
    r = win // 2
    e = r + margin
    maps = [np.zeros((H, W)), np.zeros((H, W))]
    find = corr.find_shift_based_correlation_map
    kw = dict(margin=margin, sub_pixel=True, method=method, size=size)
    for i in range(H):
        for j in range(W):
            iy, ix = e <= i < H - e, e <= j < W - e
            if fn == "3d1":
                if ix:
                    maps[0][i, j] = find(
                        ref[:, i, j - e:j + e + 1], mat[:, i, j - r:j + r + 1],
                        axis=1, dim=1, **kw)[0]
                if iy:
                    maps[1][i, j] = find(
                        ref[:, i - e:i + e + 1, j], mat[:, i - r:i + r + 1, j],
                        axis=1, dim=1, **kw)[0]
            elif iy and ix:
                maps[0][i, j], maps[1][i, j] = find(
                    ref[..., i - e:i + e + 1, j - e:j + e + 1],
                    mat[..., i - r:i + r + 1, j - r:j + r + 1], axis=None,
                    dim=2, **kw)
    for name, g, w in zip("xy", out, maps):
        d = np.abs(np.float64(g) - w)
        check(np.max(d) <= 1e-3, name + "-map differs from the shifts of "
              "the single windows", np.argwhere(d > 1e-3)[:4].tolist(),
              float(d.max()))


GLOB = {}


def points(ctx, pts, mode, ncore, norm):
    ref, mat = mixed_pair(0)
    if norm not in GLOB:
        GLOB[norm] = call("2d", ref, mat, win_size=5, margin=3, ncore=1,
                          norm=norm)
    mx, my = GLOB[norm]
    li, lj = [p[0] for p in pts], [p[1] for p in pts]
    arg = [li, lj] if len(pts) > 1 or ncore == 2 else [li[0], lj[0]]
    kw = dict(list_ij=arg, norm=norm, ncore=ncore)
    ctx.step(2)
    ctx.state((pts, mode, ncore, norm))
    f = corr.find_global_shift_based_local_shifts
    with joblib.parallel_config(backend="threading"):
        xs, ys = quiet(f, ref, mat, 5, 3, return_list=True, **kw)
        gx, gy = quiet(f, ref, mat, 5, 3, global_value=mode, **kw)
    for g, m, vals in ((gx, mx, xs), (gy, my, ys)):
        w = np.asarray([m[p] for p in pts])
        check(len(vals) == len(pts) and np.allclose(vals, w, atol=1e-4),
              "local shifts of the points", vals, w)
        if mode == "median" or (mode == "mixed" and len(pts) < 3):
            e = np.median(w)
            check(abs(g - e) < 1e-4, mode, float(g), e)
        elif len(pts) <= 6:
            check(abs(g - w.mean()) < 1e-4, mode, float(g), w.mean())
        check(w.min() - 1e-4 <= g <= w.max() + 1e-4, "outside of the values")


def order(ctx, mode, norm, k):
    """The order in which the points are given is irrelevant."""
    ref, mat = mixed_pair(0)
    pool = list(itertools.product((6, 9, 12), (6, 8, 11, 14)))[:k]
    f = corr.find_global_shift_based_local_shifts
    for i in range(k):
        for pts in (pool[i:] + pool[:i], (pool[i:] + pool[:i])[::-1]):
            ctx.step()
            ctx.state((mode, norm, k, i, pts[0]))
            arg = [[p[0] for p in pts], [p[1] for p in pts]]
            g = quiet(f, ref, mat, 5, 3, list_ij=arg, global_value=mode,
                      norm=norm, ncore=1)
            if i == 0 and pts[0] == pool[0]:
                first = g
            check(np.allclose(g, first, atol=1e-4), "order of the points",
                  [float(v) for v in g], [float(v) for v in first])


def auto(ctx, n, mode, sy, sx):
    ref, mat = pair(0, sy, sx)
    ctx.step()
    ctx.state((n, mode, sy, sx))
    with joblib.parallel_config(backend="threading"):
        gx, gy = quiet(corr.find_global_shift_based_local_shifts, ref, mat, 5,
                       3, num_point=n, global_value=mode, ncore=2)
    check(abs(gx - sx) < 0.4 and abs(gy - sy) < 0.4, "global shift",
          (float(gx), float(gy)), (sx, sy))


def rejects():
    ref, mat = pair(0, 1, 1)
    r3, m3 = pair(3, 1, 1)
    f, u = corr.find_local_shifts, corr.find_local_shifts_umpa
    g = corr.find_global_shift_based_local_shifts
    for fun in (lambda: f(ref, mat[1:], margin=2),
                lambda: f(ref, mat, margin=9, ncore=1),
                lambda: f(r3, m3[:2], margin=2, ncore=1),
                lambda: f(r3, m3, dim=2, margin=9, ncore=1),
                lambda: u(r3, m3[:, 1:], gpu=False),
                lambda: u(r3, m3, margin=9, gpu=False),
                lambda: u(ref, mat, gpu=False, margin=2),
                lambda: g(ref, mat[:, 1:], 5, 2), lambda: g(ref, mat, 5, 9),
                lambda: g(ref, mat, 5, 2, list_ij=[0, 9]),
                lambda: g(ref, mat, 5, 2, list_ij=[[5, 6], [9]]),
                lambda: g(ref, mat, 5, 2, list_ij=[5]),
                lambda: g(ref, mat, 5, 2, list_ij=[[0, 1], [0, 2]])):
        check(raises(lambda: quiet(fun)) is True, "accepted")


def run(ctx):
    fns = ("2d", "3d1", "3d2", "umpa", "umpadark")
    for fn, (win, margin) in itertools.product(fns, ((5, 2), (4, 3), (7, 2))):
        r = range(-margin, margin + 1)
        for sy, sx, dt in itertools.product(r, r, (np.float32, np.uint16)):
            if fn == "3d1" and sy and sx:
                continue
            if (dt == np.uint16 or win == 7) and (sy + sx) % 2 and \
                    not ctx.thorough:
                continue
            opts = {}
            if fn[:2] in ("2d", "3d") and (sy + 2 * sx) % 3 == 0:
                opts["norm"] = False
            ctx.case("uniform/%s/%d_%d/%d_%d/%s" % (
                fn, win, margin, sy, sx, np.dtype(dt).name), uniform, ctx,
                fn, win, margin, sy, sx, dt, opts)
    for fn, dt, (method, size), hdf in itertools.product(
            fns, (np.float32, np.float64, np.uint16),
            (("diff", 3), ("poly_fit", 5)), (False, True)):
        if fn == "2d" and hdf:
            continue
        for chunk, ncore in itertools.product(
                (None, 1, 2, 4, 7, H, 100) if fn != "2d" else (100,),
                (1, 2, None)):
            if not ctx.thorough and method != "diff" and ncore == 2:
                continue
            if not ctx.thorough and dt == np.float64 and chunk in (2, 7):
                continue
            cpus = 8 if ncore else (1, 2, 8)[((chunk or 0) + hdf) % 3]
            opts = {}
            if fn[:2] == "3d" and (chunk or 0) % 2:
                opts["norm_global"] = True
            ctx.case("divided/%s/%s/%s/%d/%s/%s" % (
                fn, np.dtype(dt).name, method, hdf, chunk, ncore), divided,
                ctx, fn, dt, method, size, chunk, ncore, hdf, cpus, opts)
    for fn, dt, (method, size), (win, margin), (ncore, chunk) in \
            itertools.product(
                ("2d", "3d1", "3d2"), (np.float32, np.uint16),
                (("diff", 3), ("diff", 5), ("poly_fit", 3), ("poly_fit", 5),
                 ("poly_fit", 7)), ((5, 3), (3, 4)),
                ((1, 100), (1, 4), (2, 100), (2, 4))):
        if not ctx.thorough and (dt == np.uint16) != (chunk == 4):
            continue
        ctx.case("pointwise/%s/%s/%s%d/%d_%d/%d_%d" % (
            fn, np.dtype(dt).name, method, size, win, margin, ncore, chunk),
            pointwise, ctx, fn, dt, method, size, win, margin, ncore, chunk)
    for fn in fns:
        ctx.case("processes/" + fn, divided, ctx, fn, np.float32, "diff", 3,
                 5, 2, False, 8, {}, False)
    pool = [(6, 6), (6, 14), (9, 10), (12, 7), (11, 13)]
    for n in (1, 2, 3, 4, 5):
        for pts in itertools.combinations(pool, n):
            for mode, ncore, norm in itertools.product(
                    ("median", "mean", "mixed"), (1, 2, None),
                    (False, True)):
                ctx.case("points/%s/%s/%s/%d" % (
                    "_".join("%d.%d" % p for p in pts), mode, ncore, norm),
                    points, ctx, pts, mode, ncore, norm)
    for n, mode, s in itertools.product((None, 1, 5, 12),
                                        ("median", "mean", "mixed"),
                                        ((0, 2), (-1, 1), (2, -2))):
        ctx.case("auto/%s/%s/%d_%d" % ((n, mode) + s), auto, ctx, n, mode,
                 *s)
    for mode, norm, k in itertools.product(("median", "mean", "mixed"),
                                           (False, True), (3, 7, 8, 9, 12)):
        ctx.case("order/%s/%s/%d" % (mode, norm, k), order, ctx, mode, norm,
                 k)
    ctx.case("reject", rejects)
