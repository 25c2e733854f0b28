"""P53: nothing leaks and nothing is ignored.

Every public array function is probed by changing one element of one of its
arrays at a time and recording which elements of the results change.
Oracle: the reach of an element stated by the definition of the operation -
rows, columns, slices, frames and wavelet components that are worked on
separately do not influence one another, pixel-wise operations touch one
pixel, windowed ones the window - and, where the operation uses all data, that
every element has an influence and every element of the result depends on the
data.
"""
import numpy as np

import algotom.rec.reconstruction as rec
from mc import impulse, table
from mc.core import check

SHARDS = 8
TECHNIQUE = ("exhaustive enumeration of all single-element changes of every "
             "array of every public function on the real code; the set of "
             "changed results is compared with the declared reach")
LEVEL = "model_checking"
LEVEL_NOTE = ("every element of every array (quick: large arrays by an even "
              "stride), one data set per function")
RULE = "case = (function, array); state = (element, changed results)"
ASSUMPTIONS = ["a change is one above 2e-5 of the largest value of the result"]

# (function, array) -> [(axis of the array, output, axis of the output,
#                        allowed differences or function index -> indices)]
REACH = {}
FULL_IN, FULL_OUT = set(), set()


def win(lo, hi=None):
    hi = -lo if hi is None else hi
    lo, hi = min(lo, hi), max(lo, hi)
    return frozenset(range(lo, hi + 1))


OWN = frozenset([0])


def reach(names, arr, *rel):
    for n in names.split():
        REACH.setdefault((n, arr), []).extend(
            (r + (OWN,))[:4] for r in rel)


def full(names, *arrs, out=True):
    for n in names.split():
        for a in arrs or (0,):
            FULL_IN.add((n, a))
            if out:
                FULL_OUT.add((n, a))


# pixel by pixel
PIX = (0, 0, 0), (1, 0, 1)
_names = ("flat_field_correction/1d flat_field_correction/2d "
          "beam_hardening_correction beam_hardening_correction/False "
          "remove_large_stripe/0 remove_dead_stripe/0 "
          "remove_stripe_based_interpolation/0 rescale/8/minmax "
          "rescale/16/minmax invert_dot_contrast/bright "
          "convert_to_Xray_image/max")
reach(_names, 0, *PIX)
full(" ".join(n for n in _names.split() if "minmax" not in n), 0)
reach("flat_field_correction/1d", 1, (0, 0, 1))
reach("flat_field_correction/1d", 2, (0, 0, 1))
reach("flat_field_correction/2d", 1, *PIX)
reach("flat_field_correction/2d", 2, *PIX)
full("flat_field_correction/1d flat_field_correction/2d "
     "flat_field_correction/3d", 1, 2)
_names = "flat_field_correction/3d flat_field_correction/no-dark"
reach(_names, 0, (0, 0, 0), (1, 0, 1), (2, 0, 2))
reach(_names, 1, (0, 0, 1), (1, 0, 2))
reach("flat_field_correction/3d", 2, (0, 0, 1), (1, 0, 2))
full(_names, 0, 1)
reach("flat_field_correction/3d-options", 0, (1, 0, 1), (2, 0, 2, win(2)))
for _k in (1, 2):
    reach("flat_field_correction/3d-options", _k, (0, 0, 1),
          (1, 0, 2, win(2)))
reach("non_linear_function", 0, (0, 0, 0))
full("non_linear_function")
# row by row, column by column
_names = "stitch_image/0/0 stitch_image/1/0 join_image/0/0 join_image/1/0"
reach(_names, 0, (0, 0, 0))
reach(_names, 1, (0, 0, 0))
full("stitch_image/0/0 stitch_image/1/0", 0, 1, out=False)
reach("extend_sinogram/0 extend_sinogram/1", 0, (0, 0, 0))
full("extend_sinogram/0 extend_sinogram/1", 0, out=False)
reach("convert_sinogram_360_to_180/weights", 0,
      (0, 0, 0, frozenset([0, -4])))
reach("convert_sinogram_180_to_360", 0, (0, 0, 0, frozenset([0, 8])))
full("convert_sinogram_360_to_180/weights convert_sinogram_180_to_360", 0,
     out=False)
_names = ("generate_sinogram_helical_scan/180 "
          "generate_sinogram_helical_scan/360 "
          "generate_full_sinogram_helical_scan/180 "
          "generate_full_sinogram_helical_scan/360")
reach(_names, 3, (2, 0, 1))
reach(_names, 1, (1, 0, 1))
reach(_names, 2, (1, 0, 1))
_names = "fresnel_filter/1/0 fresnel_filter/1/1 fresnel_filter/window"
reach(_names, 0, (0, 0, 0))
full(_names + " fresnel_filter/2/0 fresnel_filter/2/1")
reach("apply_ramp_filter apply_ramp_filter/window", 0, (0, 0, 0))
full("apply_ramp_filter apply_ramp_filter/window apply_circular_ramp_filter "
     "apply_circular_ramp_filter/window back_projection_cpu/0 "
     "back_projection_cpu/1")
reach("interpolate_inside_stripe/linear interpolate_inside_stripe/cubic "
      "remove_blob", 0, (0, 0, 0))
reach("interpolate_inside_stripe/linear", 0, (1, 0, 1, win(2)))
reach("remove_blob", 0, (1, 0, 1, win(1)))
reach("remove_blob_1d", 0, (0, 0, 0, win(2)))
for _a in (0, 1):
    _o = 1 - _a
    reach("sort_backward/%d separate_frequency_component/%d "
          "separate_frequency_component/window/%d generate_fitted_image/%d "
          "apply_regularization_filter/%d sort_forward/%d" % ((_a,) * 6),
          0, (_o, 0, _o))
    reach("separate_frequency_component/%d sort_forward/%d "
          "separate_frequency_component/window/%d" % ((_a,) * 3), 0,
          (_o, 1, _o))
    full("sort_backward/%d separate_frequency_component/%d "
         "separate_frequency_component/window/%d generate_fitted_image/%d "
         "apply_regularization_filter/%d" % ((_a,) * 5))
    reach("parallel_process_slices/%d" % _a, 0, (_a, 0, _a),
          (2, 0, 2, win(1)))
# windows
reach("unwarp_projection", 0, (0, 0, 0, win(1)), (1, 0, 1, win(1)))
full("unwarp_projection mtf_deconvolution")
_names = ("unwarp_sinogram unwarp_sinogram/factors-array "
          "generate_tilted_sinogram")
reach(_names, 0, (0, 0, 0), (2, 0, 1, win(1)))
_names = "unwarp_sinogram_chunk generate_tilted_sinogram_chunk"
reach(_names, 0, (0, 0, 0), (1, 0, 1, win(-4, -2)), (2, 0, 2, win(1)))
reach("generate_tilted_profile_line", 0, (1, 0, 0, win(1)))
reach("generate_tilted_profile_chunk", 0, (0, 0, 0, win(-4, -2)),
      (1, 0, 1, win(1)))
for _d in "12":
    reach("remove_stripe_based_sorting/%s remove_stripe_based_filtering/%s"
          % (_d, _d), 0, (1, 0, 1, win(2)))
    full("remove_stripe_based_filtering/" + _d)
    reach("remove_all_stripe/" + _d, 0, (1, 0, 1, win(7)))
reach("remove_stripe_based_filtering/nosort", 0, (1, 0, 1, win(2)))
reach("remove_large_stripe/1 remove_dead_stripe/1 "
      "remove_stripe_based_interpolation/1", 0, (1, 0, 1, win(5)))
reach("remove_zinger/0", 0, (0, 0, 0, win(2)), (1, 0, 1, win(2)))
reach("remove_zinger/1", 0, (0, 0, 0, win(4)), (1, 0, 1, win(4)))
full("remove_stripe_based_filtering/nosort "
     "remove_stripe_based_2d_filtering_sorting/1 "
     "remove_stripe_based_2d_filtering_sorting/2 "
     "remove_stripe_based_fft/0 remove_stripe_based_wavelet_fft/0 "
     "remove_stripe_based_normalization/0/1 "
     "remove_stripe_based_normalization/0/2 "
     "remove_stripe_based_regularization/0/1/0 "
     "remove_stripe_based_regularization/0/2/0 "
     "remove_stripe_based_fitting/0/1 remove_stripe_based_fitting/0/2 "
     "double_wedge_filter/180 double_wedge_filter/360 "
     "double_wedge_filter/mask")
# two chunks of 12 rows each, worked on separately; columns mix
reach("remove_stripe_based_normalization/0/2 "
      "remove_stripe_based_regularization/0/2/0 "
      "remove_stripe_based_regularization/0/2/1", 0,
      (0, 0, 0, lambda i: set(range(i // 12 * 12, i // 12 * 12 + 12))))
for _m in ("mean", "median", "max", "min"):
    reach("downsample/" + _m, 0, (0, 0, 0, lambda i: {i // 2}),
          (1, 0, 1, lambda i: {i // 3}))
reach("generate_correlation_map/2d", 0, (0, 0, 0, win(-3, 0)),
      (1, 0, 1, win(-4, 0)))
reach("generate_correlation_map/3d", 0, (1, 0, 0, win(-3, 0)),
      (2, 0, 1, win(-4, 0)))
full("generate_correlation_map/2d generate_correlation_map/3d", 0, out=False)
full("generate_correlation_map/2d generate_correlation_map/3d", 1)
for _k in (0, 1):
    # window +-2, displacement +-1 beyond it, gradient and interpolation
    reach("get_transmission_dark_field_signal", _k, (1, 0, 0, win(6)),
          (2, 0, 1, win(6)), (1, 1, 0, win(6)), (2, 1, 1, win(6)))
# frames and slices
reach("align_image_stacks align_image_stacks/sample", 0, (0, 0, 0),
      (0, 1, 0, frozenset()))
reach("align_image_stacks align_image_stacks/sample", 1, (0, 1, 0),
      (0, 0, 0, frozenset()))
full("align_image_stacks align_image_stacks/sample", 0, 1, out=False)
reach(" ".join("%s_reconstruction/3d/%d" % (m, g) for m in (
    "fbp", "bpf", "dfi") for g in (0, 1)), 0, (1, 0, 1))
full("fbp_reconstruction/0 fbp_reconstruction/1 bpf_reconstruction/0 "
     "bpf_reconstruction/1 dfi_reconstruction/0 dfi_reconstruction/1 "
     "fbp_reconstruction/3d/0 fbp_reconstruction/3d/1 "
     "bpf_reconstruction/3d/0 bpf_reconstruction/3d/1 "
     "fbp_reconstruction/window bpf_reconstruction/window", 0, out=False)
for _k, _r in ((0, (1, 0, 0)), (1, (0, 0, 0)), (2, (0, 0, 0))):
    reach("vertical_reconstruction/before/0 vertical_reconstruction/before/1 "
          "vertical_reconstruction/after/0 vertical_reconstruction/after/1",
          _k, _r)
    reach("vertical_reconstruction/crop", _k, _r + (frozenset([-1]),))
    reach("vertical_reconstruction_multiple "
          "vertical_reconstruction_different_angles", _k,
          (_r[0], 0, 1))
full("vertical_reconstruction/before/0 vertical_reconstruction/before/1", 0,
     1, 2)
reach("vertical_back_projection_cpu", 0, (1, 0, 0))
reach("vertical_back_projection_cpu_chunk", 0, (1, 0, 1))
# wavelet components
for _o in range(3):
    _n = "apply_filter_to_wavelet_component/%d" % _o
    for _c in range(7):
        # the approximation and three details per level
        hit = _c and (_c - 1) % 3 == _o
        for _x in range(7):
            if _x != _c:
                reach(_n, _c, (0, _x, 0, frozenset()))
        if not hit:
            reach(_n, _c, (0, _c, 0), (1, _c, 1))
full("apply_wavelet_decomposition apply_wavelet_reconstruction", 0)
full("apply_wavelet_reconstruction", 1, 2, 3, 4, 5, 6)
full("mapping/3 apply_gaussian_filter apply_1d_regularizer make_sinogram "
     "normalize_image normalize_image/3d rescale/8 rescale/16 "
     "unwrap_phase_based_cosine_transform unwrap_phase_based_fft", 0)
_names = " ".join("reconstruct_surface_from_gradient_%s_method/%d" % (m, c)
                  for m in ("FC", "SCS") for c in (0, 1))
full(_names, 0, 1)
full("get_statistical_information get_statistical_information_dataset "
     "downsample_dataset rescale_dataset", 0, out=False)


# rays that fall exactly onto the columns, the first and the last included
for _e in (0, 1):
    table.ENTRIES["back_projection_cpu/exact/%d" % _e] = lambda D, e=_e: (
        rec.back_projection_cpu, (D.sino(3, 9), D.given(
            np.zeros(3, np.float32)), 4.0, bool(e)), {})
reach("back_projection_cpu/exact/0 back_projection_cpu/exact/1", 0,
      (1, 0, 1))
full("back_projection_cpu/exact/0 back_projection_cpu/exact/1")


def _changed(b, x):
    with np.errstate(all="ignore"):
        lim = 2e-5 * max(float(np.nanmax(np.abs(b))), 1e-12)
        return ~(np.abs(x.astype(complex) - b) <= lim)


def probe(ctx, name, n, cap):
    base, shapes = impulse.call(name)
    shp = shapes[n]
    size = int(np.prod(shp))
    rels = REACH.get((name, n), [])
    idx = range(size)
    if size > cap:
        step = size / cap
        idx = sorted({int(k * step) for k in range(cap)} | {0, size - 1})
    seen = [np.zeros(b.shape, bool) for b in base]
    total = 0
    for k in idx:
        def bump(w):
            w.flat[k] = w.flat[k] * 1.6 + 0.15
            return w
        new, _ = impulse.call(name, {n: bump})
        ctx.step()
        check(len(new) == len(base), "number of outputs")
        pos = np.unravel_index(k, shp)
        any_ = False
        for o, (b, x) in enumerate(zip(base, new)):
            check(b.shape == x.shape, "shape of output", o)
            if not b.size:
                continue
            ch = _changed(b, x)
            any_ = any_ or bool(ch.any())
            total += int(ch.sum())
            seen[o] |= ch
            for ax, out, q, allow in rels:
                if out != o or not ch.any():
                    continue
                hit = np.nonzero(ch.any(axis=tuple(
                    z for z in range(ch.ndim) if z != q)))[0]
                ok = allow(pos[ax]) if callable(allow) else {
                    pos[ax] + v for v in allow}
                bad = sorted(set(int(h) for h in hit) - ok)
                check(not bad, "element %s of array %d changes output %d at "
                      "indices %s of axis %d" % (
                          tuple(int(p) for p in pos), n, o, bad[:6], q))
        if (name, n) in FULL_IN:
            check(any_, "element %s of array %d has no influence" % (
                tuple(int(p) for p in pos), n))
        ctx.state((name, n, k))
    if (name, n) in FULL_OUT and size <= cap:
        for o, s in enumerate(seen):
            check(s.all(), "output %d does not depend on array %d at %s" % (
                o, n, np.argwhere(~s)[:4].tolist()))
    return total


def run(ctx):
    cap = 8000 if ctx.thorough else 260
    keys = list(REACH) + sorted((FULL_IN | FULL_OUT) - set(REACH))
    for name, n in keys:
        ctx.case("%s/%d" % (name, n), probe, ctx, name, n, cap)
