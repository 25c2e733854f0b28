"""P56: the size of the data changes nothing but the size of the result.

Data made of a repeated pattern: every function is run on a small number of
repeats and on numbers that take one dimension beyond 128, 256, 1024, 2048 and
4096 32768 elements (thorough: more classes, up to 65536), for several element types.
Oracle: a function that works on the elements along a dimension one by one or
within a window gives the repeated pattern again (the ends as for few repeats,
the middle pattern as often as needed); a mean, a sorted order, a fitted or
accumulated value does not change when the data are repeated.
"""
import os

import numpy as np

import algotom.io.converter as cvt
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post
import algotom.prep.conversion as conv
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as remo
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vrec
import algotom.util.correlation as correl
import algotom.util.utility as util
from mc.core import check, fill, quiet

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of functions x long dimension x "
             "number of repeats x element type on the real code, against the "
             "result for few repeats")
LEVEL = "model_checking"
LEVEL_NOTE = ("every listed function, every size class of the ladder; the "
              "other dimensions stay small")
RULE = "case = (function, element type); state = number of repeats"
ASSUMPTIONS = ["up to the rounding of float32 arithmetic",
               "data are a repeated pattern along the long dimension"]

K0 = 5                       # repeats of the reference run
ENTRIES = {}
F = ("f4", "u2", "u1")


def add(name, shape, axis, fn, rel, dtypes=F, sizes="std", tol=3e-5):
    """fn(x, k): x has its pattern k times along the axis; rel: per output
    (axis, period) or None (the same result)."""
    ENTRIES[name] = (shape, axis, fn, rel, dtypes, sizes, tol)


def pattern(shape, dt):
    if dt[0] == "f":
        return fill(shape, 5, 0.2, 0.9, dt)
    return fill(shape, 5, 40, 250 if dt == "u1" else 60000, "f8").astype(dt)


def like(x, shape, s):
    """Another array in the unit of x, not repeated."""
    hi = 1 if x.dtype.kind == "f" else (255 if x.itemsize == 1 else 65535)
    return (hi * fill(shape, s, 0.3, 0.9, "f8")).astype(x.dtype)


def expected(small, k, rel):
    if rel is None:
        return small
    ax, p = rel
    small = np.moveaxis(small, ax, 0)
    mid = small[2 * p:3 * p]
    out = np.concatenate([small[:2 * p]] + [mid] * (k - K0 + 1)
                         + [small[3 * p:]])
    return np.moveaxis(out, 0, ax)


# ------------------------------------------------------------ conversion
for _n in (False, True):
    for _s in (0, 1):
        for _f in ("stitch", "join"):
            # (mean grey levels of the overlap do not change with the rows)
            add("%s/rows/%d/%d" % (_f, _n, _s), (4, 12), 0,
                lambda x, k, f=_f, n=_n, s=_s: getattr(conv, f + "_image")(
                    x, x[:, ::-1].copy(), 4, s, norm=n), [(0, 4)])
add("join_image/columns", (4, 8), 1, lambda x, k: conv.join_image(
    x, x, 2.0, 1, norm=False)[:, :x.shape[1] - 2], [(1, 8)])
add("stitch_image/columns", (4, 8), 1, lambda x, k: conv.stitch_image(
    x, x, 6.0, 1, norm=False)[:, :x.shape[1] - 6], [(1, 8)])
add("stitch_image_multiple/columns", (3, 8), 1, lambda x, k:
    conv.stitch_image_multiple([x, x[:, :24], x[:, :24]],
                               [(5, 1), (6, 1)], norm=False)[
                                   :, :x.shape[1] - 5], [(1, 8)])

# ------------------------------------------------------------ correction
def _ffc(x, k, sh, **kw):
    return corr.flat_field_correction(x, like(x, sh, 3) + 1,
                                      like(x, sh, 4) // 4 if
                                      x.dtype.kind != "f" else
                                      like(x, sh, 4) / 4, **kw)


add("flat_field_correction/depth", (6, 4, 7), 0, lambda x, k: _ffc(
    x, k, x.shape[1:]), [(0, 6)])
add("flat_field_correction/sino-rows", (6, 9), 0, lambda x, k: _ffc(
    x, k, x.shape[1:]), [(0, 6)])
add("flat_field_correction/columns", (3, 4, 7), 2, lambda x, k:
    corr.flat_field_correction(x, x[0] // 2 + 1 if x.dtype.kind != "f" else
                               x[0] / 2, x[1] // 8 if x.dtype.kind != "f"
                               else x[1] / 8), [(2, 7)])
add("flat_field_correction/no-dark/rows", (3, 4, 7), 1, lambda x, k:
    corr.flat_field_correction(x, x[0] // 2 + 1, None, use_dark=False),
    [(1, 4)])
for _ax in (0, 1):
    add("unwarp_projection/%d" % _ax, (5, 6), _ax, lambda x, k:
        corr.unwarp_projection(x, 2.0, 3.0, [1.0]), [(_ax, (5, 6)[_ax])])
for _ax, _o in ((0, 0), (2, 1)):
    add("unwarp_sinogram/%d" % _ax, (4, 5, 6), _ax, lambda x, k:
        corr.unwarp_sinogram(x, 2, 2.0, 3.0, [1.0]),
        [(_o, (4, 5, 6)[_ax])])
    add("generate_tilted_sinogram/%d" % _ax, (4, 5, 6), _ax, lambda x, k:
        corr.generate_tilted_sinogram(x, 2, 0.0), [(_o, (4, 5, 6)[_ax])])
for _ax in (0, 1, 2):
    add("unwarp_sinogram_chunk/%d" % _ax, (4, 5, 6), _ax, lambda x, k:
        corr.unwarp_sinogram_chunk(x, 0, x.shape[1], 2.0, 3.0, [1.0]),
        [(_ax, (4, 5, 6)[_ax])])
    add("generate_tilted_sinogram_chunk/%d" % _ax, (4, 5, 6), _ax,
        lambda x, k: corr.generate_tilted_sinogram_chunk(
            x, 0, x.shape[1], 0.0), [(_ax, (4, 5, 6)[_ax])])
add("beam_hardening_correction", (4, 7), 0, lambda x, k:
    corr.beam_hardening_correction(x, 1.5, 2), [(0, 4)], ("f4",))

# --------------------------------------------------------------- removal
add("sorting/rows", (6, 14), 0, lambda x, k:
    remo.remove_stripe_based_sorting(x, 5, 1), [(0, 6)], ("f4", "u2"))
for _d in (1, 2):
    add("sorting/columns/%d" % _d, (6, 9), 1, lambda x, k, d=_d:
        remo.remove_stripe_based_sorting(x, 5, d), [(1, 9)])
for _s in (False, True):
    add("normalization/rows/%d" % _s, (6, 14), 0, lambda x, k, s=_s:
        remo.remove_stripe_based_normalization(x, 3, 1, s), [(0, 6)],
        ("f4",), "wide", 2e-4)
    add("normalization/columns/%d" % _s, (6, 28), 1, lambda x, k, s=_s:
        remo.remove_stripe_based_normalization(x, 3, 2, s), [(1, 28)],
        ("f4",))
    add("regularization/rows/%d" % _s, (6, 14), 0, lambda x, k, s=_s:
        remo.remove_stripe_based_regularization(x, 0.01, 1, False, s),
        [(0, 6)], ("f4",), "wide", 2e-4)
    add("large_stripe/rows/%d" % _s, (10, 34), 0, lambda x, k, s=_s:
        remo.remove_large_stripe(x, 2.0, 9, 0.2, s), [(0, 10)], ("f4",),
        "wide", 3e-4)
    add("large_stripe/rows-all/%d" % _s, (10, 34), 0, lambda x, k, s=_s:
        remo.remove_large_stripe(x, 2.0, 9, 0.0, s), [(0, 10)], ("f4",),
        "wide", 3e-4)
    add("interpolation/rows/%d" % _s, (10, 34), 0, lambda x, k, s=_s:
        remo.remove_stripe_based_interpolation(x, 2.0, 9, 0.2, s),
        [(0, 10)], ("f4",), "wide", 3e-4)
    add("zinger/rows/%d" % _s, (9, 11), 0, lambda x, k, s=_s:
        remo.remove_zinger(x, 0.08, 1 + _s), [(0, 9)])
    add("zinger/columns/%d" % _s, (9, 11), 1, lambda x, k, s=_s:
        remo.remove_zinger(x, 0.08, 1 + s), [(1, 11)])
for _ax in (0, 1):
    add("remove_blob/%d" % _ax, (6, 13), _ax, lambda x, k, a=_ax:
        remo.remove_blob(x, np.tile(fill((6, 13), 9, 0, 1, "f4") < 0.12,
                                    (k, 1) if a == 0 else (1, k)).astype(
            "f4")), [(_ax, (6, 13)[_ax])], ("f4",))
add("remove_blob_1d", (13,), 0, lambda x, k: remo.remove_blob_1d(
    x, np.tile(fill((13,), 8, 0, 1, "f4") < 0.2, k).astype("f4")),
    [(0, 13)], ("f4",))
add("check_zinger_size", (5, 6), 0, lambda x, k: np.array(
    [remo.check_zinger_size(x[:5 * K0] > 0.8, z) for z in range(1, 9)]),
    [None], ("f4",))

# ------------------------------------------------- filters and utilities
for _log in (False, True):
    add("fresnel_filter/rows/%d" % _log, (5, 12), 0, lambda x, k, g=_log:
        filt.fresnel_filter(x, 20, 1, pad=10, apply_log=g), [(0, 5)],
        ("f4",))
for _a in (0, 1):
    _o = 1 - _a
    _p = (6, 9)
    for _n, _f in (
            ("separate_frequency", lambda x, a:
             util.separate_frequency_component(x, a)),
            ("fitted", lambda x, a: util.generate_fitted_image(x, 2, a)),
            ("regularizer", lambda x, a: util.apply_regularization_filter(
                x, 0.01, a, 1)),
            ("sort", lambda x, a: util.sort_forward(x, a)),
            ("sort_back", lambda x, a: util.sort_backward(
                *util.sort_forward(x, a), axis=a))):
        _r = (_o, _p[_o])
        add("%s/other/%d" % (_n, _a), _p, _o, lambda x, k, f=_f, a=_a:
            f(x, a), [_r, _r] if _n in ("separate_frequency", "sort") else
            [_r], ("f4",))
    add("sort_back/along/%d" % _a, _p, _a, lambda x, k, a=_a:
        util.sort_backward(*util.sort_forward(x, a), axis=a),
        [(_a, _p[_a])], F)
    add("sort/along/%d" % _a, _p, _a, lambda x, k, a=_a: np.take(
        util.sort_forward(x, a)[0], np.arange(k // 2, _p[a] * k, k), a),
        [None], F)
    add("parallel_process_slices/%d" % _a, (4, 5, 6), _a, lambda x, k, a=_a:
        util.parallel_process_slices(x, remo.remove_zinger, [0.08, 1],
                                     axis=a, ncore=1), [(_a, (4, 5)[_a])],
        ("f4",), "mid")
    add("mapping/%d" % _a, (5, 6), _a, lambda x, k: util.mapping(
        x, *np.meshgrid(np.arange(x.shape[1]) * 1.0,
                        np.arange(x.shape[0]) * 1.0)),
        [(_a, (5, 6)[_a])])
add("detect_stripe", (40,), 0, lambda x, k: util.detect_stripe(
    np.where(np.arange(x.size) % 40 == 9, 20.0, x), 3.0), [(0, 40)],
    ("f4", "f8"), "huge")
for _kd in ("linear", "cubic"):
    add("interpolate_inside_stripe/" + _kd, (4, 12), 0, lambda x, k, d=_kd:
        util.interpolate_inside_stripe(x, np.isin(np.arange(12), (
            4, 5)).astype("f4"), d), [(0, 4)], ("f4",))
for _ax in (0, 1):
    for _m in ("mean", "median", "max", "min"):
        add("downsample/%s/%d" % (_m, _ax), (4, 6), _ax, lambda x, k,
            m=_m: post.downsample(x, (2, 3), m),
            [(_ax, (2, 2)[_ax])])
for _ax in (0, 1, 2):
    for _b in (8, 16):
        add("rescale/%d/%d" % (_b, _ax), (3, 5, 6), _ax, lambda x, k, b=_b:
            post.rescale(x, b), [(_ax, (3, 5, 6)[_ax])])
    add("statistics/%d" % _ax, (3, 5, 6), _ax, lambda x, k: np.array(
        post.get_statistical_information(x), float), [None], F, "std", 1e-4)

# -------------------------------------------------------- reconstruction
ANG = np.linspace(0, np.pi, 10)


def _many(method, x, k, **kw):
    """Every projection k times."""
    ang = np.tile(np.linspace(0, np.pi, 10, endpoint=False), k)
    return getattr(rec, method + "_reconstruction")(
        x, 5.4, angles=ang, gpu=False, ncore=1, apply_log=False,
        **kw) * (10 * k - 1) / k


for _m in ("fbp", "bpf"):
    add(_m + "/projections", (10, 13), 0, lambda x, k, m=_m: _many(m, x, k),
        [None], ("f4",), "wide", 2e-4)
    add(_m + "/slices", (10, 3, 13), 1, lambda x, k, m=_m: getattr(
        rec, m + "_reconstruction")(x, 5.4, angles=ANG, gpu=False, ncore=2,
                                    apply_log=False), [(1, 3)], ("f4",),
        "mid")
add("dfi/slices", (10, 3, 13), 1, lambda x, k: rec.dfi_reconstruction(
    x, 5.4, angles=ANG, ncore=2, apply_log=False), [(1, 3)], ("f4",), "mid",
    tol=1e-4)
add("back_projection_cpu/projections", (10, 13), 0, lambda x, k:
    rec.back_projection_cpu(x, np.tile(ANG, k).astype("f4"), 5.4) / k,
    [None], ("f4",), "wide", 2e-4)
add("apply_ramp_filter/rows", (6, 13), 0, lambda x, k:
    rec.apply_ramp_filter(x), [(0, 6)], ("f4",))
VKW = dict(gpu=False, ncore=1, apply_log=False, show_progress=False)
add("vertical/rows", (10, 4, 13), 1, lambda x, k:
    vrec.vertical_reconstruction(x, 6, 5.4, angles=ANG, **VKW), [(0, 4)],
    ("f4",), tol=1e-4)
for _c in (30, 7):
    # (the sum over the projections is divided by their number less one)
    add("vertical/projections/%d" % _c, (10, 4, 13), 0, lambda x, k, c=_c:
        vrec.vertical_reconstruction(
            x, 6, 5.4, angles=np.tile(ANG, k), chunk_size=c, **VKW)
        * (10 * k - 1) / k, [None], ("f4",), "mid", 1e-4)
    add("vertical_multiple/projections/%d" % _c, (10, 4, 13), 0,
        lambda x, k, c=_c: vrec.vertical_reconstruction_multiple(
            x, 3, 7, 5.4, angles=np.tile(ANG, k), chunk_size=c, **VKW)
        * (10 * k - 1) / k, [None], ("f4",), "mid", 1e-4)
add("vertical_multiple/rows", (10, 4, 13), 1, lambda x, k:
    vrec.vertical_reconstruction_multiple(x, 3, 7, 5.4, angles=ANG, **VKW),
    [(1, 4)], ("f4",), "mid", 1e-4)
add("vertical_different_angles/rows", (10, 4, 13), 1, lambda x, k:
    vrec.vertical_reconstruction_different_angles(
        x, [3, 6], [0.0, 30.0], 5.4, angles=ANG, **VKW), [(1, 4)], ("f4",),
    "mid", 1e-4)

# ------------------------------------------------- speckles and matching
for _ax in (0, 1):
    add("correlation_map/%d" % _ax, (7, 8), _ax, lambda x, k:
        correl.generate_correlation_map(x, x[2:5, 3:6].copy()),
        [(_ax, (7, 8)[_ax])], ("f4",), tol=1e-4)
for _ax in (1, 2):
    add("align_image_stacks/%d" % _ax, (2, 8, 9), _ax, lambda x, k: list(
        ps.align_image_stacks(x, x[::-1].copy(), [[1, 2], [-1, 0]],
                              mode="nearest")),
        [(_ax, (0, 8, 9)[_ax])] * 2, ("f4",))
add("align_image_stacks/0", (3, 6, 7), 0, lambda x, k: list(
    ps.align_image_stacks(x, x[::-1].copy(), [[1, 2], [-1, 0], [0, 1]] * k,
                          mode="nearest")), [(0, 3)] * 2, ("f4",))
for _ax in (0, 1):
    for _d in (2,):
        add("find_local_shifts/%d/%d" % (_d, _ax), (2, 16, 17), _ax + 1,
            lambda x, k, d=_d: list(correl.find_local_shifts(
                np.roll(x, 1, 2), x, dim=d, win_size=5, margin=3,
                method="diff", gpu=False, ncore=1)),
            [(_ax, (16, 17)[_ax])] * 2, ("f4",), "short", 1e-3)


# ------------------------------------------------------------- containers
def folder(ctx, x, k):
    """Stacks of many frames through files and back."""
    base = ctx.scratch("many")
    f = base + "/tif"
    n = len(x)
    paths = ["%s/img_%05d.tif" % (f, i) for i in range(n)]
    losa.save_image_multiple(paths, x, axis=0, ncore=1)
    found = losa.find_file(f + "/*.tif")
    check([os.path.basename(p) for p in found] == [
        os.path.basename(p) for p in paths], "names of %d files" % n)
    out = [losa.load_image_multiple(found, ncore=1), losa.get_tif_stack(f)]
    quiet(cvt.convert_tif_to_hdf, f, base + "/a.hdf")
    out.append(np.asarray(losa.load_hdf(base + "/a.hdf", "entry/data")))
    quiet(cvt.extract_tif_from_hdf, base + "/a.hdf", base + "/back",
          "entry/data", axis=0)
    back = losa.find_file(base + "/back/*.tif")
    check(len(back) == n, "%d files for %d frames" % (len(back), n))
    out.append(losa.load_image_multiple(back, ncore=1))
    quiet(post.downsample_dataset, f, base + "/small.hdf", (2, 2, 2))
    out.append(np.asarray(losa.load_hdf(base + "/small.hdf",
                                        "entry/data")))
    quiet(post.rescale_dataset, f, base + "/r.hdf", nbit=8, skip=1)
    out.append(np.asarray(losa.load_hdf(base + "/r.hdf", "entry/data")))
    for ax in (1, 2):
        quiet(post.reslice_dataset, base + "/a.hdf", base + "/s%d" % ax,
              axis=ax, key_path="entry/data")
        out.append(losa.get_tif_stack(base + "/s%d" % ax))
    quiet(post.reslice_dataset, f, base + "/s.hdf", axis=1, chunk=2)
    out.append(np.asarray(losa.load_hdf(base + "/s.hdf", "entry/data")))
    ctx.drop(base)
    return out


def one(ctx, name, dt, sizes):
    if name.startswith("folder"):
        ax = int(name[-1])
        shape = (4, 4, 6)
        axis, tol = ax, 1e-5
        p = shape[ax]
        fn = lambda x, k: folder(ctx, x, k)  # noqa
        rel = [(ax, p)] * 4 + [(ax, p // 2), (ax, p)] + [
            (o.index(ax), p) for o in ((1, 0, 2), (2, 0, 1), (1, 0, 2))]
    else:
        shape, axis, fn, rel, _, _, tol = ENTRIES[name]
    pat = pattern(shape, dt)

    def call(k):
        reps = [1] * len(shape)
        reps[axis] = k
        x = np.tile(pat, reps)
        old = x.copy()
        out = fn(x, k) if name.startswith("folder") else quiet(fn, x, k)
        out = list(out) if isinstance(out, (list, tuple)) else [out]
        check(np.array_equal(x, old), "the data given were changed")
        return [np.asarray(o) for o in out]
    small = call(K0)
    check(len(small) == len(rel), "harness: outputs", len(small))
    for k in sizes:
        ctx.step()
        ctx.state((name, dt, k))
        for n, (s, r, b) in enumerate(zip(small, rel, call(k))):
            want = expected(s, k, r)
            check(b.shape == want.shape, "%d repeats: output %d has shape %s,"
                  " not %s" % (k, n, b.shape, want.shape))
            check(b.dtype == s.dtype, "%d repeats: output %d is of type %s, "
                  "not %s" % (k, n, b.dtype, s.dtype))
            w, g = want.astype(complex), b.astype(complex)
            lim = tol * np.abs(w).max() + (
                1 if b.dtype.kind in "ui" and "rescale" in name else 0)
            e = np.abs(w - g)
            e[np.isnan(e)] = np.inf
            check(e.max() <= lim, "%d repeats (%d elements): output %d is "
                  "off by %.3g of %.3g, first at %s" % (
                      k, k * shape[axis], n, e.max(), np.abs(w).max(),
                      np.argwhere(e > lim)[:1].tolist()))
    return len(small)


def run(ctx):
    quick = (129, 257, 1025, 2049, 4097)
    ladder = {
        "std": ctx.pick(quick + (32769,), quick + (513, 8193, 16385, 32769,
                                          65537)),
        "huge": ctx.pick(quick + (140001,), quick + (8193, 65537, 131073,
                                                     140001, 300001)),
        "wide": ctx.pick(quick, quick + (8193,)),
        "mid": ctx.pick((129, 257, 1025), (129, 257, 513, 1025, 2049, 4097)),
        "short": ctx.pick((129, 257), (129, 257, 513, 1025))}

    def reps(kind, p):
        return [n // p + 1 for n in ladder[kind]]
    for name in sorted(ENTRIES):
        shape, axis, _, _, dts, kind, _ = ENTRIES[name]
        for dt in dts:
            ctx.case("%s/%s" % (name, dt), one, ctx, name, dt,
                     reps(kind, shape[axis]))
    for ax in (0, 1, 2):
        for dt in F:
            ctx.case("folder/%d/%s" % (ax, dt), one, ctx, "folder/%d" % ax,
                     dt, reps("mid", (4, 4, 6)[ax]))
