"""P45: the unit and the background of the grey levels do not matter.

Alphabet   every public array function and option branch (mc/table.py) with
           ordinary values, values with zeros, with negative numbers, with
           outliers; all inputs of the call multiplied by a power of two
           (exact in floating point: no rounding enters), or a constant added.
Oracle     per entry, stated below: the result carries the unit of the input
           (E), is a pure number, position or decision (I), or carries the
           squared unit (Q); likewise it moves with an added constant (E) or
           does not (I).
"""
import warnings

import numpy as np

import algotom.post.postprocessing as post
import algotom.rec.reconstruction as rec
import algotom.util.calibration as calib
from mc import table
from mc.core import check, quiet

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive metamorphic enumeration: every public "
             "function x value pattern x element type x power-of-two unit "
             "(and added constant), each compared with the untouched run")
LEVEL = "model_checking"
LEVEL_NOTE = ("all combinations of the listed alphabets for all functions of "
              "mc/table.py that carry a unit class")
RULE = "state = (function, value pattern, type, unit)"
ASSUMPTIONS = [
    "small arrays; functions that need a GPU or an optional package are not "
    "called",
    "functions whose input has a fixed unit (phase in radians, the logarithm "
    "of a transmission, parameters given in grey levels) are left out"]

# class of the result when all grey levels are multiplied
UNIT = {
    "E": """
        add_background_fluctuation add_noise add_stripe_artifact/dead
        add_stripe_artifact/fluctuating add_stripe_artifact/full
        add_stripe_artifact/partial align_image_stacks
        align_image_stacks/sample apply_1d_regularizer
        apply_circular_ramp_filter apply_circular_ramp_filter/window
        apply_filter_to_wavelet_component/0
        apply_filter_to_wavelet_component/1
        apply_filter_to_wavelet_component/2 apply_gaussian_filter
        apply_ramp_filter apply_ramp_filter/window
        apply_regularization_filter/0 apply_regularization_filter/1
        apply_wavelet_decomposition apply_wavelet_reconstruction
        apply_wavelet_reconstruction/ignore back_projection_cpu/0
        back_projection_cpu/1 bpf_reconstruction/0 bpf_reconstruction/3d/0
        calculate_center_metric calculate_threshold/bright
        calculate_threshold/dark complex_gradient
        convert_sinogram_180_to_360 dfi_reconstruction/0
        dfi_reconstruction/3d/0 double_wedge_filter/180
        double_wedge_filter/360 double_wedge_filter/mask downsample/max
        downsample/mean downsample/median downsample/min downsample_cor
        fbp_reconstruction/0 fbp_reconstruction/3d/0 fresnel_filter/1/0
        fresnel_filter/1/1 fresnel_filter/2/0 fresnel_filter/2/1
        fresnel_filter/window generate_fitted_image/0
        generate_fitted_image/1 generate_tilted_profile_chunk
        generate_tilted_profile_line generate_tilted_sinogram
        generate_tilted_sinogram_chunk interpolate_inside_stripe/cubic
        interpolate_inside_stripe/linear join_image/0/0 join_image/0/1
        join_image/1/0 join_image/1/1 join_image_multiple make_sinogram
        mapping/0 mapping/1 mapping/3 mtf_deconvolution
        normalize_background normalize_background_based_fft
        parallel_process_slices/0 parallel_process_slices/1
        reconstruct_surface_from_gradient_FC_method/0
        reconstruct_surface_from_gradient_FC_method/1
        reconstruct_surface_from_gradient_SCS_method/0
        reconstruct_surface_from_gradient_SCS_method/1 remove_all_stripe/1
        remove_all_stripe/2 remove_blob remove_blob_1d
        remove_dead_stripe/0 remove_dead_stripe/1 remove_large_stripe/0
        remove_large_stripe/1 remove_ring_based_fft
        remove_ring_based_wavelet_fft
        remove_stripe_based_2d_filtering_sorting/1
        remove_stripe_based_2d_filtering_sorting/2
        remove_stripe_based_fft/0 remove_stripe_based_fft/1
        remove_stripe_based_filtering/1 remove_stripe_based_filtering/2
        remove_stripe_based_filtering/nosort
        remove_stripe_based_fitting/0/1 remove_stripe_based_fitting/0/2
        remove_stripe_based_fitting/1/1 remove_stripe_based_fitting/1/2
        remove_stripe_based_fitting/opt
        remove_stripe_based_interpolation/0
        remove_stripe_based_interpolation/1
        remove_stripe_based_normalization/0/1
        remove_stripe_based_normalization/0/2
        remove_stripe_based_normalization/1/1
        remove_stripe_based_normalization/1/2
        remove_stripe_based_normalization/opt
        remove_stripe_based_regularization/0/1/0
        remove_stripe_based_regularization/0/1/1
        remove_stripe_based_regularization/0/2/0
        remove_stripe_based_regularization/0/2/1
        remove_stripe_based_regularization/1/1/0
        remove_stripe_based_regularization/1/1/1
        remove_stripe_based_regularization/1/2/0
        remove_stripe_based_regularization/1/2/1
        remove_stripe_based_sorting/1 remove_stripe_based_sorting/2
        remove_stripe_based_sorting/opt remove_stripe_based_wavelet_fft/0
        remove_stripe_based_wavelet_fft/1
        remove_stripe_based_wavelet_fft/opt remove_zinger/0
        remove_zinger/1 separate_frequency_component/0
        separate_frequency_component/1
        separate_frequency_component/window/0
        separate_frequency_component/window/1 sort_backward/0
        sort_backward/1 stitch_image/0/0 stitch_image/0/1 stitch_image/1/0
        stitch_image/1/1 stitch_image/weights stitch_image_multiple
        transform_slice_backward transform_slice_forward
        transform_slice_forward/coord unwarp_projection unwarp_sinogram
        unwarp_sinogram/factors-array unwarp_sinogram_chunk
        upsample_sinogram upsample_sinogram/360
        vertical_back_projection_cpu vertical_back_projection_cpu_chunk
    """.split(),
    "EEEEEEQ": """
        get_statistical_information get_statistical_information_dataset
    """.split(),
    "EI": """
        convert_sinogram_360_to_180 convert_sinogram_360_to_180/weights
        extend_sinogram/0 sort_forward/0 sort_forward/1
    """.split(),
    "I": """
        binarize_image/bright/0 binarize_image/bright/1
        binarize_image/dark/0 binarize_image/dark/1 coarse_search_cor
        convert_to_Xray_image correlation_metric detect_sample
        downsample_dataset find_center_360/default find_center_360/denoise
        find_center_360/norm find_center_360/norm-use_overlap
        find_center_360/use_overlap find_center_based_phase_correlation/0
        find_center_based_phase_correlation/1 find_center_projection
        find_center_vertical_slice find_center_vo
        find_global_shift_based_local_shifts/mean
        find_global_shift_based_local_shifts/median
        find_global_shift_based_local_shifts/mixed find_local_shifts/1/0
        find_local_shifts/1/1 find_local_shifts/2/0 find_local_shifts/2/1
        find_local_shifts/2d find_local_shifts_umpa find_overlap/default
        find_overlap/denoise find_overlap/norm
        find_overlap/norm-use_overlap find_overlap/use_overlap
        find_overlap_multiple find_shift_based_correlation_map
        find_shift_based_phase_correlation/0
        find_shift_based_phase_correlation/1
        find_shift_between_image_stacks/mean
        find_shift_between_image_stacks/median
        find_shift_between_image_stacks/mixed
        find_shift_between_sample_images fine_search_cor
        flat_field_correction/1d flat_field_correction/2d
        flat_field_correction/3d flat_field_correction/3d-options
        flat_field_correction/no-dark flat_field_correction/options
        generate_blob_mask generate_correlation_map/2d
        generate_correlation_map/3d
        generate_full_sinogram_helical_scan/180
        generate_full_sinogram_helical_scan/360
        generate_sinogram_helical_scan/180
        generate_sinogram_helical_scan/360
        generate_sinogram_helical_scan/mask
        get_transmission_dark_field_signal get_weight_mask
        locate_peak/noise/0 locate_peak/noise/1 make_weight_matrix/0
        make_weight_matrix/1 normalize_image normalize_image/3d rescale/16
        rescale/8 rescale_dataset retrieve_phase_based_speckle_tracking/FC
        retrieve_phase_based_speckle_tracking/correl/1
        retrieve_phase_based_speckle_tracking/correl/2
        retrieve_phase_based_speckle_tracking/umpa/2
        search_overlap/default/0 search_overlap/default/1
        search_overlap/denoise/0 search_overlap/denoise/1
        search_overlap/norm-use_overlap/0
        search_overlap/norm-use_overlap/1 search_overlap/norm/0
        search_overlap/norm/1 search_overlap/use_overlap/0
        search_overlap/use_overlap/1 vertical_reconstruction/after/0
        vertical_reconstruction/after/1 vertical_reconstruction/before/0
        vertical_reconstruction/before/1 vertical_reconstruction/crop
        vertical_reconstruction_different_angles
        vertical_reconstruction_multiple
    """.split(),
}

# class of the result when a constant is added to all grey levels
SHIFT = {
    "E": """
        align_image_stacks align_image_stacks/sample apply_1d_regularizer
        apply_filter_to_wavelet_component/0
        apply_filter_to_wavelet_component/1
        apply_filter_to_wavelet_component/2 apply_gaussian_filter
        apply_regularization_filter/0 apply_regularization_filter/1
        calculate_threshold/bright calculate_threshold/dark
        convert_sinogram_180_to_360 double_wedge_filter/180
        double_wedge_filter/360 double_wedge_filter/mask downsample/max
        downsample/mean downsample/median downsample/min downsample_cor
        fresnel_filter/1/0 fresnel_filter/2/0 generate_fitted_image/0
        generate_fitted_image/1 generate_tilted_profile_chunk
        generate_tilted_profile_line generate_tilted_sinogram
        generate_tilted_sinogram_chunk interpolate_inside_stripe/cubic
        interpolate_inside_stripe/linear join_image/0/0 join_image/1/0
        mapping/0 mapping/1 mapping/3 parallel_process_slices/0
        parallel_process_slices/1 remove_blob remove_blob_1d
        remove_dead_stripe/0 remove_large_stripe/0
        remove_stripe_based_2d_filtering_sorting/1
        remove_stripe_based_2d_filtering_sorting/2
        remove_stripe_based_fft/0 remove_stripe_based_fft/1
        remove_stripe_based_filtering/1 remove_stripe_based_filtering/2
        remove_stripe_based_filtering/nosort
        remove_stripe_based_interpolation/0
        remove_stripe_based_normalization/0/1
        remove_stripe_based_normalization/0/2
        remove_stripe_based_normalization/1/1
        remove_stripe_based_normalization/1/2
        remove_stripe_based_normalization/opt
        remove_stripe_based_regularization/0/1/0
        remove_stripe_based_regularization/0/2/0
        remove_stripe_based_regularization/1/1/0
        remove_stripe_based_regularization/1/2/0
        remove_stripe_based_sorting/1 remove_stripe_based_sorting/2
        remove_stripe_based_sorting/opt remove_stripe_based_wavelet_fft/0
        remove_stripe_based_wavelet_fft/1
        remove_stripe_based_wavelet_fft/opt sort_backward/0
        sort_backward/1 stitch_image/0/0 stitch_image/1/0
        transform_slice_backward transform_slice_forward
        transform_slice_forward/coord unwarp_projection unwarp_sinogram
        unwarp_sinogram/factors-array unwarp_sinogram_chunk
    """.split(),
    "EEEEEEI": """
        get_statistical_information get_statistical_information_dataset
    """.split(),
    "EI": """
        sort_forward/0 sort_forward/1
    """.split(),
    "I": """
        binarize_image/bright/0 coarse_search_cor complex_gradient
        correlation_metric detect_sample downsample_dataset
        find_center_360/denoise find_center_based_phase_correlation/0
        find_center_based_phase_correlation/1 find_center_vo
        find_local_shifts/1/0 find_local_shifts/2/0
        find_overlap/denoise find_overlap_multiple
        find_shift_based_correlation_map
        find_shift_based_phase_correlation/0
        find_shift_between_image_stacks/mean
        find_shift_between_image_stacks/median
        find_shift_between_image_stacks/mixed fine_search_cor
        flat_field_correction/1d flat_field_correction/3d
        flat_field_correction/3d-options flat_field_correction/options
        generate_blob_mask generate_correlation_map/2d
        generate_correlation_map/3d
        generate_full_sinogram_helical_scan/180
        generate_full_sinogram_helical_scan/360
        generate_sinogram_helical_scan/180
        generate_sinogram_helical_scan/360
        generate_sinogram_helical_scan/mask get_quality_map
        get_weight_mask locate_peak/noise/0 locate_peak/noise/1
        make_weight_matrix/0 make_weight_matrix/1 normalize_image/3d
        reconstruct_surface_from_gradient_FC_method/0
        reconstruct_surface_from_gradient_FC_method/1 rescale/16 rescale/8
        rescale_dataset retrieve_phase_based_speckle_tracking/FC
        search_overlap/default/0 search_overlap/default/1
        search_overlap/denoise/0 search_overlap/denoise/1
        search_overlap/use_overlap/0 search_overlap/use_overlap/1
        unwrap_phase_based_cosine_transform unwrap_phase_based_fft
        unwrap_phase_based_fft/windows unwrap_phase_iterative_fft
        vertical_reconstruction/after/0 vertical_reconstruction/after/1
        vertical_reconstruction/before/0 vertical_reconstruction/before/1
        vertical_reconstruction/crop
        vertical_reconstruction_different_angles
        vertical_reconstruction_multiple
    """.split(),
}

# logarithm or division: only for positive data
POSITIVE = ("fresnel_filter", "generate_sinogram_helical_scan",
            "generate_full_sinogram_helical_scan", "vertical_reconstruction",
            "find_shift_between_sample_images")
CLASS = {"unit": {n: c for c, v in UNIT.items() for n in v},
         "shift": {n: c for c, v in SHIFT.items() for n in v}}


def _own():
    """Calls in which a parameter is given in grey levels as well."""
    k = table.k
    own = {}
    for b in (8, 16):
        own["rescale/%d/co" % b] = ("I", lambda D, c, b=b: (
            post.rescale, k(D.img(9, 10), b, [0.3 * c, 0.7 * c])))
    for b in ("bright", "dark"):
        own["binarize_image/%s/co" % b] = ("I", lambda D, c, b=b: (
            calib.binarize_image, k(table._dots(D, b == "dark"), 0.5 * c, b)))
    for m, f in (("std", lambda m, **kw: float(np.std(m))),):
        own["find_center_based_slice_metric/" + m] = ("I", lambda D, c, f=f: (
            rec.find_center_based_slice_metric, k(
                D.sino(13, 17), 6, 10, 1, angles=D.angles(13), gpu=False,
                ncore=1, apply_log=False, sigma=0, metric_function=f)))
    own["find_center_based_slice_metric/default"] = ("I", lambda D, c: (
        rec.find_center_based_slice_metric, k(
            D.sino(13, 17), 6, 10, 1, angles=D.angles(13), gpu=False,
            ncore=1, apply_log=False)))
    return own


OWN = _own()


def walk(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from walk(x)
    elif isinstance(o, dict):
        for x in o.values():
            yield from walk(x)
    elif o is not None and not isinstance(o, str):
        yield np.asarray(o)


def call(name, rule, dtype, factor=1.0):
    D = table.Data(rule, dtype)
    if name in OWN:
        fn, (args, kwargs) = OWN[name][1](D, factor)
    else:
        fn, args, kwargs = table.ENTRIES[name](D)
    np.random.seed(1)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        return list(walk(quiet(fn, *args, **kwargs)))


def derived(base, kind, val):
    """Rule that applies a unit or a constant to the values of a rule."""
    name = "%s*%s%g" % (base, kind, val)

    def rule(v, i):
        w = np.asarray(table.RULES[base](v, i), np.float32).astype(float)
        return w * val if kind == "unit" else w + val
    table.RULES[name] = rule
    return name


def one(ctx, name, base, dtype, kind, vals):
    cls = OWN[name][0] if name in OWN else CLASS[kind][name]
    ref = call(name, base, dtype)
    kinds = [a.dtype.kind for a in ref]
    ok = all(np.isfinite(a.astype(complex)).all() for a in ref)
    check(ok, "the result for ordinary values is not finite")
    for val in vals:
        ctx.step()
        ctx.state((name, base, dtype, kind, val))
        got = call(name, derived(base, kind, val), dtype,
                   val if kind == "unit" else 1.0)
        check(len(got) == len(ref), "another number of results: %d not %d" % (
            len(got), len(ref)))
        for n, (a, b) in enumerate(zip(ref, got)):
            c = cls if len(cls) == 1 else cls[n]
            check(a.shape == b.shape, "%s %g changed the shape of result %d "
                  "from %s to %s" % (kind, val, n, a.shape, b.shape))
            if a.size == 0:
                continue
            a, b = a.astype(complex), b.astype(complex)
            size = np.abs(a).max()
            if kind == "unit":
                f = {"E": val, "I": 1.0, "Q": val * val}[c]
                want, tol = a * f, 2e-5 * size * abs(f)
            else:
                want = a + (val if c == "E" else 0.0)
                tol = 2e-5 * (size + abs(val) + (size * abs(val) if
                                                 c == "I" else 0))
                if kinds[n] in "ui":       # quantised
                    tol += 1.0
            err = np.abs(want - b).max()
            check(err <= tol, "%s %g: result %d should %s; it is off by %.3g "
                  "of %.3g" % (kind, val, n, {
                      "E": "follow", "I": "stay", "Q": "follow squared"}[c],
                      err, np.abs(want).max()))
    return (name, len(ref))


def run(ctx):
    dtypes = ctx.pick(("f4",), ("f4", "f8"))
    unit = ctx.pick((4.0, 2.0 ** 14, 2.0 ** -14, 2.0 ** -26),
                    tuple(2.0 ** e for e in (-30, -26, -20, -14, -8, -1, 1, 2,
                                             7, 14, 16, 20, 24)))
    shift = ctx.pick((1.0,), (0.25, 0.5, 1.0, 2.0, 4.0))
    names = sorted(n for n in CLASS["unit"] if n in table.ENTRIES)
    bases = ("plain", "zeros", "negative", "extreme")
    for name in names + sorted(OWN):
        for base in bases:
            if name.startswith(POSITIVE) and base != "plain":
                continue
            for dt in dtypes:
                # divides by (image + 1e-9)
                vals = [u for u in unit if u >= 1 or not name.startswith(
                    "find_shift_between_sample_images")]
                ctx.case("unit/%s/%s/%s" % (name, base, dt), one, ctx, name,
                         base, dt, "unit", vals)
    for name in sorted(n for n in CLASS["shift"] if n in table.ENTRIES):
        for base in bases:
            if name.startswith(POSITIVE) and base != "plain":
                continue
            ctx.case("shift/%s/%s" % (name, base), one, ctx, name, base,
                     "f8", "shift", shift)
