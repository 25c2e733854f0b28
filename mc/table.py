"""All public array functions of algotom with small arguments.

``ENTRIES`` maps a name to a builder: ``builder(D)`` returns ``(function,
args, kwargs)`` where every array was made by the data source ``D`` (which
decides the values, the type and the storage of the arrays).
"""
import numpy as np
import scipy.ndimage as ndi

import algotom.post.postprocessing as post
import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as remo
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vrec
import algotom.util.calibration as calib
import algotom.util.correlation as correl
import algotom.util.simulation as sim
import algotom.util.utility as util
from mc.core import fill

RULES = {
    "plain": lambda v, i: v,
    "zeros": lambda v, i: np.where(i % 5 == 2, 0.0, v),
    "negative": lambda v, i: np.where(i % 5 == 2, -v, v),
    "extreme": lambda v, i: np.where(i % 7 == 3, 40.0 * v, np.where(
        i % 7 == 5, 0.0, v)),
    "nan": lambda v, i: np.where(i % 11 == 4, np.nan, v),
    "constant": lambda v, i: np.full_like(v, 0.5),
    "all-zero": lambda v, i: np.zeros_like(v),
    "ints": lambda v, i: np.clip(np.rint(v * 100), 1, 250),
}


class Data:
    """Source of the arrays of a call."""

    def __init__(self, rule="plain", dtype="f4", store=None):
        self.rule, self.dtype, self.store = rule, dtype, store
        self.made = []

    def out(self, v, ruled=True):
        v = np.asarray(v, dtype=np.float64)
        if ruled:
            i = np.arange(v.size).reshape(v.shape)
            v = RULES[self.rule](v, i)
        # the values can be held by every float type
        v = v.astype(np.float32)
        if self.dtype[0] in "ui":
            v = np.rint(np.nan_to_num(v) * (1 if self.rule == "ints"
                                            else 100))
            if self.dtype[0] == "u":
                v = np.abs(v)
        v = v.astype(self.dtype)
        if self.store is not None:
            v = self.store(v)
        self.made.append(v)
        return v

    def img(self, h, w, seed=1, lo=0.2, hi=0.9):
        return self.out(fill((h, w), seed, lo, hi, "f4"))

    def vec(self, n, seed=1, lo=0.2, hi=0.9):
        return self.out(fill((n,), seed, lo, hi, "f4"))

    def stack(self, d, h, w, seed=1, lo=0.2, hi=0.9):
        return self.out(fill((d, h, w), seed, lo, hi, "f4"))

    def sino(self, h, w, seed=1):
        """Smooth structure with a fine texture."""
        y, x = np.mgrid[:h, :w]
        t = np.pi * y / max(1, h - 1)
        c = (w - 1) / 2.0
        v = 0.25 + 0.5 * np.exp(-((x - c - 0.2 * w * np.cos(t)) / (
            0.1 * w)) ** 2) + 0.03 * fill((h, w), seed, -1, 1, "f8")
        return self.out(v)

    def speckle(self, d, h, w, dy=0.0, dx=0.0, seed=3):
        base = np.asarray([ndi.gaussian_filter(fill(
            (h + 8, w + 8), seed + k, 0, 1, "f8"), 1.0) for k in range(d)])
        v = np.asarray([ndi.shift(b, (dy, dx), order=3, mode="wrap")[
            4:-4, 4:-4] for b in base])
        return self.out(v)

    def mask(self, h, w, seed=9, frac=0.1):
        return self.out(fill((h, w), seed, 0, 1, "f4") < frac, ruled=False)

    def given(self, v):
        """An array whose values matter: never changed by the rule."""
        dt, self.dtype = self.dtype, (
            "f8" if self.dtype[0] in "ui" else self.dtype)
        v = self.out(v, ruled=False)
        self.dtype = dt
        return v

    def angles(self, n, full=False):
        return self.given(np.linspace(0, (2 if full else 1) * np.pi, n))


ENTRIES = {}


def add(name, fn, build):
    if name in ENTRIES:
        raise KeyError(name)

    def make(D):
        out = build(D)
        args, kwargs = out if isinstance(out, tuple) and len(out) == 2 and \
            isinstance(out[1], dict) and isinstance(out[0], tuple) else (
                out, {})
        return fn, args, kwargs
    ENTRIES[name] = make


def k(*args, **kwargs):
    return args, kwargs


# ------------------------------------------------------------- conversion
add("make_weight_matrix/1", conv.make_weight_matrix, lambda D: k(
    D.img(6, 12), D.img(6, 10, 2), 4, 1))
add("make_weight_matrix/0", conv.make_weight_matrix, lambda D: k(
    D.img(6, 12), D.img(6, 10, 2), 4, 0))
for _side in (0, 1):
    for _norm in (False, True):
        add("stitch_image/%d/%d" % (_side, _norm), conv.stitch_image,
            lambda D, s=_side, n=_norm: k(D.img(6, 12), D.img(6, 10, 2), 4.4,
                                          s, norm=n))
        add("join_image/%d/%d" % (_side, _norm), conv.join_image,
            lambda D, s=_side, n=_norm: k(D.img(6, 12), D.img(6, 10, 2), 3,
                                          s, norm=n))
add("stitch_image/weights", conv.stitch_image, lambda D: k(
    D.img(6, 12), D.img(6, 10, 2), 4, 1, D.given(fill((6, 12), 3)), D.given(fill((6, 10), 4)),
    total_width=16))
add("stitch_image_multiple", conv.stitch_image_multiple, lambda D: k(
    [D.img(6, 12), D.img(6, 10, 2), D.img(6, 11, 3)], [[4, 1], [3.5, 1]]))
add("join_image_multiple", conv.join_image_multiple, lambda D: k(
    [D.img(6, 12), D.img(6, 10, 2), D.img(6, 11, 3)], [[2, 1], [1.5, 1]]))
add("convert_sinogram_360_to_180", conv.convert_sinogram_360_to_180,
    lambda D: k(D.sino(9, 12), 3.3))
add("convert_sinogram_360_to_180/weights", conv.convert_sinogram_360_to_180,
    lambda D: k(D.sino(9, 12), 9.3, D.given(fill((5, 12), 3)), D.given(
        fill((5, 12), 4)), norm=0))
add("convert_sinogram_180_to_360", conv.convert_sinogram_180_to_360,
    lambda D: k(D.sino(9, 12), 5.3))
for _log in (False, True):
    add("extend_sinogram/%d" % _log, conv.extend_sinogram,
        lambda D, g=_log: k(D.sino(9, 12), 3.3, apply_log=g))


def _helical(D, **kw):
    n = 97
    kw = dict(dict(angles=D.given(22.5 * np.arange(n)),
                   flat=D.img(30, 12, 5, .9, 1), dark=D.img(
                       30, 12, 6, 0, .1)), **kw)
    return k(24, D.stack(n, 30, 12), 9, 1.0, 0.0, 60.0, 10.0, **kw)


for _t in ("180", "360"):
    add("generate_sinogram_helical_scan/" + _t,
        conv.generate_sinogram_helical_scan,
        lambda D, t=_t: _helical(D, scan_type=t))
    add("generate_full_sinogram_helical_scan/" + _t,
        conv.generate_full_sinogram_helical_scan,
        lambda D, t=_t: _helical(D, scan_type=t))
add("generate_sinogram_helical_scan/mask",
    conv.generate_sinogram_helical_scan,
    lambda D: _helical(D, mask=D.mask(30, 12)))

# ------------------------------------------------------------- correction
add("flat_field_correction/1d", corr.flat_field_correction, lambda D: k(
    D.img(6, 9), D.vec(9, 2), D.vec(9, 3, 0, .1)))
add("flat_field_correction/2d", corr.flat_field_correction, lambda D: k(
    D.img(6, 9), D.img(6, 9, 2), D.img(6, 9, 3, 0, .1), ratio=0.8))
add("flat_field_correction/3d", corr.flat_field_correction, lambda D: k(
    D.stack(3, 6, 9), D.img(6, 9, 2), D.img(6, 9, 3, 0, .1)))
add("flat_field_correction/no-dark", corr.flat_field_correction, lambda D: k(
    D.stack(3, 6, 9), D.img(6, 9, 2), D.img(6, 9, 3, 0, .1), use_dark=False))
add("flat_field_correction/options", corr.flat_field_correction, lambda D: k(
    D.img(12, 31), D.img(12, 31, 2), D.img(12, 31, 3, 0, .1),
    option1={"method": "remove_stripe_based_sorting", "para1": 5},
    option2={"method": "fresnel_filter", "para1": 5}))
add("flat_field_correction/3d-options", corr.flat_field_correction,
    lambda D: k(D.stack(12, 3, 31), D.img(3, 31, 2), D.img(3, 31, 3, 0, .1),
                option1={"method": "remove_stripe_based_sorting",
                         "para1": 5}))
FACT = (1.0, 1e-3, 1e-5)
add("unwarp_projection", corr.unwarp_projection, lambda D: k(
    D.img(12, 14), 6.5, 5.5, list(FACT)))
add("unwarp_sinogram", corr.unwarp_sinogram, lambda D: k(
    D.stack(4, 12, 14), 5, 6.5, 5.5, list(FACT)))
add("unwarp_sinogram/factors-array", corr.unwarp_sinogram, lambda D: k(
    D.stack(4, 12, 14), 5, 6.5, 5.5, D.given(np.asarray(FACT))))
add("unwarp_sinogram_chunk", corr.unwarp_sinogram_chunk, lambda D: k(
    D.stack(4, 12, 14), 3, 8, 6.5, 5.5, list(FACT)))
add("mtf_deconvolution", corr.mtf_deconvolution, lambda D: k(
    D.img(12, 14), D.given(fill((16, 18), 3, .5, 1.)), 2))
add("generate_tilted_sinogram", corr.generate_tilted_sinogram, lambda D: k(
    D.stack(4, 12, 14), 5, 3.0))
add("generate_tilted_sinogram_chunk", corr.generate_tilted_sinogram_chunk,
    lambda D: k(D.stack(4, 12, 14), 3, 8, 3.0))
add("generate_tilted_profile_line", corr.generate_tilted_profile_line,
    lambda D: k(D.img(12, 14), 5, 3.0))
add("generate_tilted_profile_chunk", corr.generate_tilted_profile_chunk,
    lambda D: k(D.img(12, 14), 3, 8, 3.0))
add("beam_hardening_correction", corr.beam_hardening_correction, lambda D: k(
    D.img(8, 9), 0.005, 2.5))
add("beam_hardening_correction/False", corr.beam_hardening_correction,
    lambda D: k(D.img(8, 9), 5.0, 2.5, False))
add("non_linear_function", corr.non_linear_function, lambda D: k(
    D.vec(8), 0.005, 2.5))
add("upsample_sinogram", corr.upsample_sinogram, lambda D: k(
    D.sino(12, 15), 2, 7.0, pad=4))
add("upsample_sinogram/360", corr.upsample_sinogram, lambda D: k(
    D.sino(13, 15), 2, sino_type="360", pad=4))

# ------------------------------------------------------------ calculation
add("coarse_search_cor", calc.coarse_search_cor, lambda D: k(
    D.sino(21, 24), 8, 15, ncore=1))
add("fine_search_cor", calc.fine_search_cor, lambda D: k(
    D.sino(21, 24), 11, 2, .5, ncore=1))
add("downsample_cor", calc.downsample_cor, lambda D: k(D.img(9, 13), 2, 3))
add("find_center_vo", calc.find_center_vo, lambda D: k(
    D.sino(21, 24), 9, 14, ncore=1))
add("calculate_center_metric", calc.calculate_center_metric, lambda D: k(
    11.2, D.sino(11, 24), D.sino(11, 24, 2), D.sino(11, 24, 3),
    D.given(fill((22, 24), 5, 0, 1.))))
add("calculate_curvature", calc.calculate_curvature, lambda D: k(D.given(
    np.array([3., 2., 1.2, 1., 1.3, 2., 3.1, 4.]))))
add("correlation_metric", calc.correlation_metric, lambda D: k(
    D.img(6, 7), D.img(6, 7, 2)))
for _kw in (dict(), dict(denoise=False), dict(norm=True),
            dict(use_overlap=True), dict(norm=True, use_overlap=True)):
    _n = "-".join(sorted(_kw)) or "default"
    for _side in (0, 1):
        add("search_overlap/%s/%d" % (_n, _side), calc.search_overlap,
            lambda D, kw=_kw, s=_side: k(D.sino(9, 30), D.sino(9, 30, 2), 6,
                                         s, ncore=1, **kw))
    add("find_overlap/" + _n, calc.find_overlap, lambda D, kw=_kw: k(
        D.sino(9, 30), D.sino(9, 30, 2), 6, ncore=1, **kw))
    add("find_center_360/" + _n, calc.find_center_360, lambda D, kw=_kw: k(
        D.sino(19, 30), 6, ncore=1, **kw))
add("find_overlap_multiple", calc.find_overlap_multiple, lambda D: k(
    [D.sino(9, 30), D.sino(9, 30, 2), D.sino(9, 30, 3)], 6, 1, ncore=1))
for _g in (False, True):
    add("find_shift_based_phase_correlation/%d" % _g,
        calc.find_shift_based_phase_correlation,
        lambda D, g=_g: k(D.img(16, 18), D.img(16, 18, 2), g))
    add("find_center_based_phase_correlation/%d" % _g,
        calc.find_center_based_phase_correlation,
        lambda D, g=_g: k(D.img(16, 18), D.img(16, 18, 2), gradient=g))
add("find_center_projection", calc.find_center_projection, lambda D: k(
    D.sino(16, 30), D.sino(16, 30, 2), win_width=6, chunk_height=10,
    start_row=2, ncore=1))
add("complex_gradient", calc.complex_gradient, lambda D: k(D.img(6, 7)))

# ---------------------------------------------------------------- removal
GAU = {"method": "gaussian_filter", "para1": (1, 1)}
S = lambda D: D.sino(24, 33)                                       # noqa
for _d in (1, 2):
    add("remove_stripe_based_sorting/%d" % _d,
        remo.remove_stripe_based_sorting, lambda D, d=_d: k(S(D), 5, d))
    add("remove_stripe_based_filtering/%d" % _d,
        remo.remove_stripe_based_filtering, lambda D, d=_d: k(S(D), 3, 5, d))
    add("remove_all_stripe/%d" % _d, remo.remove_all_stripe,
        lambda D, d=_d: k(D.img(24, 48), 2.0, 11, 5, dim=d))
    add("remove_stripe_based_2d_filtering_sorting/%d" % _d,
        remo.remove_stripe_based_2d_filtering_sorting,
        lambda D, d=_d: k(S(D), 3, 5, d))
add("remove_stripe_based_sorting/opt", remo.remove_stripe_based_sorting,
    lambda D: k(S(D), 5, 1, options=dict(GAU)))
add("remove_stripe_based_filtering/nosort",
    remo.remove_stripe_based_filtering, lambda D: k(S(D), 3, 5, 1, False))
for _s in (False, True):
    for _c in (1, 2):
        add("remove_stripe_based_fitting/%d/%d" % (_s, _c),
            remo.remove_stripe_based_fitting,
            lambda D, s=_s, c=_c: k(S(D), 2, 5, s, c))
        add("remove_stripe_based_normalization/%d/%d" % (_s, _c),
            remo.remove_stripe_based_normalization,
            lambda D, s=_s, c=_c: k(S(D), 5, c, s))
        for _log in (False, True):
            add("remove_stripe_based_regularization/%d/%d/%d" % (
                _s, _c, _log), remo.remove_stripe_based_regularization,
                lambda D, s=_s, c=_c, g=_log: k(S(D), 0.001, c, g, s))
    add("remove_stripe_based_fft/%d" % _s, remo.remove_stripe_based_fft,
        lambda D, s=_s: k(S(D), 5, 8, 1, s))
    add("remove_stripe_based_wavelet_fft/%d" % _s,
        remo.remove_stripe_based_wavelet_fft,
        lambda D, s=_s: k(D.sino(32, 40), 2, 1, sort=s))
    add("remove_large_stripe/%d" % _s, remo.remove_large_stripe,
        lambda D, s=_s: k(D.img(24, 48), 2.0, 11, norm=s))
    add("remove_dead_stripe/%d" % _s, remo.remove_dead_stripe,
        lambda D, s=_s: k(D.img(24, 48), 2.0, 11, residual=s))
    add("remove_stripe_based_interpolation/%d" % _s,
        remo.remove_stripe_based_interpolation,
        lambda D, s=_s: k(D.img(24, 48), 2.0, 11, norm=s))
    add("remove_zinger/%d" % _s, remo.remove_zinger,
        lambda D, s=_s: k(S(D), 0.02, 2, s))
add("remove_stripe_based_fitting/opt", remo.remove_stripe_based_fitting,
    lambda D: k(S(D), 2, 5, options={"method": "gaussian_filter",
                                     "para1": (1, 5)}))
add("remove_stripe_based_normalization/opt",
    remo.remove_stripe_based_normalization,
    lambda D: k(S(D), 5, options={"method": "gaussian_filter", "para1": 5}))
add("remove_stripe_based_wavelet_fft/opt",
    remo.remove_stripe_based_wavelet_fft,
    lambda D: k(D.sino(32, 40), 2, options=dict(GAU)))
add("check_zinger_size", remo.check_zinger_size, lambda D: k(
    D.mask(9, 9), 3))
add("select_zinger", remo.select_zinger, lambda D: k(D.mask(9, 9), 3))
add("generate_blob_mask", remo.generate_blob_mask, lambda D: k(
    D.img(20, 48, 3, .4, .9), 31, 1.5))
add("remove_blob_1d", remo.remove_blob_1d, lambda D: k(
    D.vec(15), D.given(np.isin(np.arange(15), (3, 4, 9)) * 1.0)))
add("remove_blob", remo.remove_blob, lambda D: k(D.img(7, 15), D.mask(7, 15)))

# -------------------------------------------------------- filtering, phase
for _d in (1, 2):
    for _log in (False, True):
        add("fresnel_filter/%d/%d" % (_d, _log), filt.fresnel_filter,
            lambda D, d=_d, g=_log: k(S(D), 20, d, pad=6, apply_log=g))
add("fresnel_filter/window", filt.fresnel_filter, lambda D: k(
    S(D), 20, 1, D.given(filt.make_fresnel_window(24, 33, 20, 1)),
    pad=6))
add("double_wedge_filter/180", filt.double_wedge_filter, lambda D: k(
    D.sino(20, 25), 12.0, iteration=2, pad=5))
add("double_wedge_filter/360", filt.double_wedge_filter, lambda D: k(
    D.sino(21, 25), 0, "360", 2, pad=5))
add("double_wedge_filter/mask", filt.double_wedge_filter, lambda D: k(
    D.sino(21, 25), 0, "360", 2, D.given(filt.make_double_wedge_mask(
        21, 25 + 10, 10)), 0.9, pad=5))
PH = lambda D, s=1: D.img(12, 14, s, -3, 3)                        # noqa
add("get_quality_map", ps.get_quality_map, lambda D: k(PH(D), 5))
add("get_weight_mask", ps.get_weight_mask, lambda D: k(PH(D)))
add("unwrap_phase_based_cosine_transform",
    ps.unwrap_phase_based_cosine_transform, lambda D: k(PH(D)))
add("unwrap_phase_based_fft", ps.unwrap_phase_based_fft, lambda D: k(PH(D)))
add("unwrap_phase_based_fft/windows", ps.unwrap_phase_based_fft,
    lambda D: k(PH(D), D.given(ps._make_window(24, 28, "forward")),
                D.given(ps._make_window(24, 28, "backward"))))
add("unwrap_phase_iterative_fft", ps.unwrap_phase_iterative_fft,
    lambda D: k(PH(D), 2))
add("unwrap_phase_iterative_fft/weight", ps.unwrap_phase_iterative_fft,
    lambda D: k(PH(D), 2, weight_map=D.given(fill((12, 14), 4))))
for _c in (False, True):
    add("reconstruct_surface_from_gradient_FC_method/%d" % _c,
        ps.reconstruct_surface_from_gradient_FC_method,
        lambda D, c=_c: k(PH(D), PH(D, 2), c))
    add("reconstruct_surface_from_gradient_SCS_method/%d" % _c,
        ps.reconstruct_surface_from_gradient_SCS_method,
        lambda D, c=_c: k(PH(D), PH(D, 2), c, pad=3))
RS = lambda D: D.speckle(2, 24, 26)                                # noqa
SS = lambda D: D.speckle(2, 24, 26, .6, -.7)                       # noqa
PTS = [[10, 12], [11, 14]]
for _gv in ("median", "mean", "mixed"):
    add("find_shift_between_image_stacks/" + _gv,
        ps.find_shift_between_image_stacks,
        lambda D, g=_gv: k(RS(D), SS(D), 5, 3, [list(p) for p in PTS],
                           global_value=g, ncore=1))
add("find_shift_between_sample_images", ps.find_shift_between_sample_images,
    lambda D: k(RS(D), SS(D), D.given([[0, 0], [.5, -.6]]), 5, 3,
                [list(p) for p in PTS], ncore=1))
add("align_image_stacks", ps.align_image_stacks, lambda D: k(
    RS(D), SS(D), D.given([[0, 0], [.5, -.6]])))
add("align_image_stacks/sample", ps.align_image_stacks, lambda D: k(
    RS(D), SS(D), D.given([[0, 0], [.5, -.6]]),
    D.given([[0, 0], [.3, .4]])))
add("get_transmission_dark_field_signal",
    ps.get_transmission_dark_field_signal, lambda D: k(
        RS(D), SS(D), D.given(fill((24, 26), 5, -1, 1)),
        D.given(fill((24, 26), 6, -1, 1)), 5, ncore=1))
for _f in ("correl", "umpa"):
    for _d in ((1, 2) if _f == "correl" else (2,)):
        add("retrieve_phase_based_speckle_tracking/%s/%d" % (_f, _d),
            ps.retrieve_phase_based_speckle_tracking,
            lambda D, f=_f, d=_d: k(
                D.speckle(2, 16, 17), D.speckle(2, 16, 17, .6, -.7),
                find_shift=f, dim=d, win_size=5, margin=2, dark_signal=True,
                return_shift=True, pad=2, ncore=1))
add("retrieve_phase_based_speckle_tracking/FC",
    ps.retrieve_phase_based_speckle_tracking, lambda D: k(
        D.speckle(1, 16, 17), D.speckle(1, 16, 17, .6, -.7), dim=2,
        win_size=5, margin=2, surf_method="FC", ncore=1))

# --------------------------------------------------------- reconstruction
SN = lambda D: D.sino(13, 17)                                      # noqa
add("apply_ramp_filter", rec.apply_ramp_filter, lambda D: k(SN(D)))
add("apply_ramp_filter/window", rec.apply_ramp_filter, lambda D: k(
    SN(D), D.given(rec.make_2d_ramp_window(13, 17 + 6, "hann")), pad=3))
for _e in (False, True):
    add("back_projection_cpu/%d" % _e, rec.back_projection_cpu,
        lambda D, e=_e: k(SN(D), D.angles(13), 8.2, e))
add("apply_circular_ramp_filter", rec.apply_circular_ramp_filter,
    lambda D: k(D.img(14, 14), filter_name="hann"))
add("apply_circular_ramp_filter/window", rec.apply_circular_ramp_filter,
    lambda D: k(D.img(14, 14), D.given(rec.make_circular_ramp_window(
        14 + 6, "hann")), pad=3))
for _m in ("fbp", "bpf", "dfi"):
    _fn = getattr(rec, _m + "_reconstruction")
    _kw = {} if _m == "dfi" else dict(gpu=False)
    for _log in (False, True):
        add("%s_reconstruction/%d" % (_m, _log), _fn,
            lambda D, g=_log, kw=_kw: k(SN(D), 8.2, apply_log=g, ncore=1,
                                        **kw))
        add("%s_reconstruction/3d/%d" % (_m, _log), _fn,
            lambda D, g=_log, kw=_kw: k(D.stack(13, 2, 17), 8.2,
                                        D.angles(13), apply_log=g, ncore=1,
                                        **kw))
add("fbp_reconstruction/window", rec.fbp_reconstruction, lambda D: k(
    SN(D), 8.2, D.angles(13), 0.8, D.given(rec.make_2d_ramp_window(
        13, 17 + 8, "hann")), pad=4, gpu=False))
add("bpf_reconstruction/window", rec.bpf_reconstruction, lambda D: k(
    SN(D), 8.2, D.angles(13), 0.8, D.given(rec.make_circular_ramp_window(
        17 + 8, "hann")), pad=4, gpu=False))
add("find_center_based_slice_metric", rec.find_center_based_slice_metric,
    lambda D: k(SN(D), 6, 10, 1, angles=D.angles(13), gpu=False, ncore=1))
add("find_center_based_slice_metric/custom",
    rec.find_center_based_slice_metric,
    lambda D: k(SN(D), 6, 10, 1, gpu=False, ncore=1, sigma=0,
                metric_function=lambda m, **kw: float(np.std(m))))


def _vert(D, n=9, **kw):
    return dict(dict(flat_field=D.img(12, 15, 5, .9, 1), dark_field=D.img(
        12, 15, 6, 0, .1), angles=D.angles(n), gpu=False, ncore=1,
        chunk_size=4, show_progress=False), **kw)


for _r in ("before", "after"):
    for _log in (False, True):
        add("vertical_reconstruction/%s/%d" % (_r, _log),
            vrec.vertical_reconstruction,
            lambda D, r=_r, g=_log: k(D.stack(9, 12, 15), 7, 7.2, 20.0, **_vert(
                D, ramp_filter=r, apply_log=g)))
add("vertical_reconstruction_multiple",
    vrec.vertical_reconstruction_multiple, lambda D: k(
        D.stack(9, 12, 15), 5, 8, 7.2, 20.0, **_vert(D)))
add("vertical_reconstruction_different_angles",
    vrec.vertical_reconstruction_different_angles, lambda D: k(
        D.stack(9, 12, 15), [5, 8], [10.0, 60.0], 7.2, **_vert(D)))
add("vertical_reconstruction/crop", vrec.vertical_reconstruction,
    lambda D: k(D.stack(9, 12, 15), 5, 7.2, 20.0, **_vert(
        D, 7, crop=(1, 1, 1, 1), proj_start=1, proj_stop=8)))
add("find_center_vertical_slice", vrec.find_center_vertical_slice,
    lambda D: k(D.stack(9, 12, 15), 7, 6, 9, angles=D.angles(9), gpu=False,
                ncore=1, chunk_size=4, show_progress=False))
add("vertical_back_projection_cpu", vrec.vertical_back_projection_cpu,
    lambda D: k(D.stack(9, 12, 15), D.angles(9), D.given(
        np.linspace(-4, 4, 15)), D.given(np.linspace(-3, 3, 15)), 7.2))
add("vertical_back_projection_cpu_chunk",
    vrec.vertical_back_projection_cpu_chunk, lambda D: k(
        D.stack(9, 12, 15), D.angles(9), D.given(
            np.tile(np.linspace(-4, 4, 15), (2, 1))), D.given(
            np.tile(np.linspace(-3, 3, 15), (2, 1))), 7.2))

# ---------------------------------------------------------------- utility
for _ax in (0, 1):
    add("parallel_process_slices/%d" % _ax, util.parallel_process_slices,
        lambda D, a=_ax: k(D.stack(5, 6, 7), remo.remove_stripe_based_sorting,
                           [3, 1], axis=a, ncore=1))
    add("sort_forward/%d" % _ax, util.sort_forward, lambda D, a=_ax: k(
        D.img(6, 7), a))
    add("sort_backward/%d" % _ax, util.sort_backward, lambda D, a=_ax: k(
        D.img(6, 7), D.given(np.argsort(np.argsort(fill(
            (6, 7), 3), axis=a), axis=a)).astype("i8"), a))
    add("separate_frequency_component/%d" % _ax,
        util.separate_frequency_component, lambda D, a=_ax: k(
            D.img(21, 21), a))
    add("separate_frequency_component/window/%d" % _ax,
        util.separate_frequency_component, lambda D, a=_ax: k(
            D.img(21, 21), a, D.given(fill((21,), 5))))
    add("generate_fitted_image/%d" % _ax, util.generate_fitted_image,
        lambda D, a=_ax: k(D.img(12, 13), 2, a, 2))
    add("apply_regularization_filter/%d" % _ax,
        util.apply_regularization_filter, lambda D, a=_ax: k(
            D.img(7, 8), 0.01, a, 1))
for _o in (0, 1, 3):
    add("mapping/%d" % _o, util.mapping, lambda D, o=_o: k(
        D.img(7, 8), D.given(fill((5, 6), 2, 0, 7)), D.given(
            fill((5, 6), 3, 0, 6)), o))
add("detect_stripe", util.detect_stripe, lambda D: k(D.given(
    np.where(np.arange(40) == 20, 3.0, 1.0) + fill((40,), 3, -.1, .1)), 2.0))
add("apply_wavelet_decomposition", util.apply_wavelet_decomposition,
    lambda D: k(D.img(34, 36), "db3"))
add("apply_wavelet_reconstruction", util.apply_wavelet_reconstruction,
    lambda D: k([D.img(9, 9), tuple(D.img(9, 9, i) for i in (2, 3, 4)),
                 tuple(D.img(14, 14, i) for i in (5, 6, 7))], "db3"))
add("apply_wavelet_reconstruction/ignore",
    util.apply_wavelet_reconstruction, lambda D: k(
        [D.img(9, 9), tuple(D.img(9, 9, i) for i in (2, 3, 4)),
         tuple(D.img(14, 14, i) for i in (5, 6, 7))], "db3", 1))
for _o in (0, 1, 2):
    add("apply_filter_to_wavelet_component/%d" % _o,
        util.apply_filter_to_wavelet_component, lambda D, o=_o: k(
            [D.img(9, 9), tuple(D.img(9, 9, i) for i in (2, 3, 4)),
             tuple(D.img(14, 14, i) for i in (5, 6, 7))], order=o,
            para=[(1, 3)]))
add("check_level", util.check_level, lambda D: k([1, 2], 3))
for _kd in ("linear", "cubic"):
    add("interpolate_inside_stripe/" + _kd, util.interpolate_inside_stripe,
        lambda D, kd=_kd: k(D.img(6, 12), D.given(
            np.isin(np.arange(12), (4, 5, 8)) * 1.0), kd))
add("transform_slice_forward", util.transform_slice_forward, lambda D: k(
    D.img(11, 11)))
add("transform_slice_backward", util.transform_slice_backward, lambda D: k(
    D.img(11, 11)))
add("transform_slice_forward/coord", util.transform_slice_forward,
    lambda D: k(D.img(11, 11), tuple(D.given(m) for m in
                                     util.rectangular_from_polar(
                                         11, 11, 11, 11))))
add("apply_gaussian_filter", util.apply_gaussian_filter, lambda D: k(
    D.img(9, 10), 3, 4, 4))
add("apply_1d_regularizer", util.apply_1d_regularizer, lambda D: k(
    D.vec(9), D.given(util.calculate_regularization_coefficient(9, .01))))
add("transform_1d_window_to_2d", util.transform_1d_window_to_2d,
    lambda D: k(D.given(fill((11,), 3))))
add("detect_sample", util.detect_sample, lambda D: k(D.sino(21, 25), "180"))
_META = np.array([[[3.0, 1], [4.0, 1]], [[0, 0], [5., 1]]])
add("fix_non_sample_areas", util.fix_non_sample_areas, lambda D: k(
    D.given(_META)))
_META1 = np.array([[[3.0, 1, 5.0]], [[4.0, 1, 6.0]]])
add("locate_slice", util.locate_slice, lambda D: k(
    12, 10, D.given(_META1)))
add("locate_slice_chunk", util.locate_slice_chunk, lambda D: k(
    4, 12, 10, D.given(_META1)))

# --------------------------------------------------------- post-processing
add("get_statistical_information", post.get_statistical_information,
    lambda D: k(D.img(9, 10), (5, 95), True))
add("get_statistical_information_dataset",
    post.get_statistical_information_dataset, lambda D: k(
        D.stack(6, 9, 10), skip=1, denoise=True))
for _m in ("mean", "median", "max", "min"):
    add("downsample/" + _m, post.downsample, lambda D, m=_m: k(
        D.img(9, 10), (2, 3), m))
for _b in (8, 16):
    add("rescale/%d" % _b, post.rescale, lambda D, b=_b: k(D.img(9, 10), b))
    add("rescale/%d/minmax" % _b, post.rescale, lambda D, b=_b: k(
        D.img(9, 10), b, [0.3, 0.7]))
add("downsample_dataset", post.downsample_dataset, lambda D: k(
    D.stack(6, 8, 10), None, (2, 2, 2), rescaling=True, nbit=8))
add("rescale_dataset", post.rescale_dataset, lambda D: k(
    D.stack(6, 8, 10), None, 8, skip=1))
add("remove_ring_based_fft", post.remove_ring_based_fft, lambda D: k(
    D.img(24, 24), 3))
add("remove_ring_based_wavelet_fft", post.remove_ring_based_wavelet_fft,
    lambda D: k(D.img(34, 34), 1, sort=True))

# ------------------------------------------------------------ correlation
add("normalize_image", correl.normalize_image, lambda D: k(D.img(9, 10)))
add("normalize_image/3d", correl.normalize_image, lambda D: k(
    D.stack(2, 9, 10)))
add("generate_correlation_map/2d", correl.generate_correlation_map,
    lambda D: k(D.img(9, 10), D.img(4, 5, 2)))
add("generate_correlation_map/3d", correl.generate_correlation_map,
    lambda D: k(D.stack(2, 9, 10), D.stack(2, 4, 5, 2)))
for _m in ("diff", "poly_fit"):
    add("locate_peak/1d/" + _m, correl.locate_peak, lambda D, m=_m: k(
        D.given(np.outer([.1, .4, .9, .7, .2], [.2, .8, .7, .5, .1])),
        method=m, dim=1))
    add("locate_peak/2d/" + _m, correl.locate_peak, lambda D, m=_m: k(
        D.given(np.outer([.1, .4, .9, .7, .2], [.2, .8, .7, .5, .1])),
        method=m))
for _m in (True, False):
    add("locate_peak/noise/%d" % _m, correl.locate_peak, lambda D, m=_m: k(
        D.img(7, 7), max_peak=m))
add("find_shift_based_correlation_map", correl.find_shift_based_correlation_map,
    lambda D: k(D.speckle(1, 24, 26)[0], D.speckle(1, 24, 26, .6, -.7)[0],
                3))
for _d in (1, 2):
    for _nm in (False, True):
        add("find_local_shifts/%d/%d" % (_d, _nm), correl.find_local_shifts,
            lambda D, d=_d, n=_nm: k(
                D.speckle(2, 16, 17), D.speckle(2, 16, 17, .6, -.7), dim=d,
                win_size=5, margin=2, ncore=1, norm=n, norm_global=n))
add("find_local_shifts/2d", correl.find_local_shifts, lambda D: k(
    D.img(16, 17), D.img(16, 17, 2), dim=2, win_size=5, margin=2, ncore=1))
add("find_local_shifts_umpa", correl.find_local_shifts_umpa, lambda D: k(
    D.speckle(2, 16, 17), D.speckle(2, 16, 17, .6, -.7), 5, 2, gpu=False,
    ncore=1, dark_signal=True))
for _gv in ("median", "mean", "mixed"):
    add("find_global_shift_based_local_shifts/" + _gv,
        correl.find_global_shift_based_local_shifts, lambda D, g=_gv: k(
            D.speckle(1, 24, 26)[0], D.speckle(1, 24, 26, .6, -.7)[0], 5, 3,
            list_ij=[list(p) for p in PTS], global_value=g, ncore=1,
            norm=True))

# ------------------------------------------------------------- calibration


def _dots(D, inv=False):
    img = np.zeros((48, 52))
    for y in (12, 34):
        for x in (13, 30, 42):
            yy, xx = np.mgrid[:48, :52]
            img += ((yy - y) ** 2 + (xx - x) ** 2 < 14)
    v = 0.8 - 0.6 * img + 0.02 * fill((48, 52), 4, -1, 1, "f8")
    return D.out(1.0 - v if inv else v)


add("normalize_background", calib.normalize_background, lambda D: k(
    _dots(D), 11))
add("normalize_background_based_fft", calib.normalize_background_based_fft,
    lambda D: k(_dots(D), 5, 6))
add("invert_dot_contrast", calib.invert_dot_contrast, lambda D: k(_dots(D)))
add("invert_dot_contrast/bright", calib.invert_dot_contrast, lambda D: k(
    _dots(D, True)))
for _b in ("bright", "dark"):
    add("calculate_threshold/" + _b, calib.calculate_threshold,
        lambda D, b=_b: k(_dots(D, b == "dark"), b))
    for _n in (False, True):
        add("binarize_image/%s/%d" % (_b, _n), calib.binarize_image,
            lambda D, b=_b, n=_n: k(_dots(D, b == "dark"), None, b, n))
_BALL = 0.9 - 0.7 * (np.hypot(*np.mgrid[-24:24, -20:28]) < 7)
_DOTS = lambda D: D.given(_dots(Data()) < 0.5)                      # noqa
add("get_dot_size", calib.get_dot_size, lambda D: k(_DOTS(D), "max"))
add("select_dot_based_size", calib.select_dot_based_size, lambda D: k(
    _DOTS(D), 45, 0.2))
add("calculate_distance", calib.calculate_distance, lambda D: k(
    D.given(_BALL), D.given(np.roll(_BALL, 3, axis=1))))
_T = np.linspace(0, 2 * np.pi, 12)[:-1]
_X, _Y = 20 + 9 * np.cos(_T), 30 + 2 * np.sin(_T) + 0.2 * np.cos(_T)
for _m in ("fit_points_to_ellipse", "find_tilt_roll_based_ellipse_fit",
           "find_tilt_roll_based_linear_fit", "find_tilt_roll"):
    add(_m, getattr(calib, _m), lambda D: k(D.given(_X), D.given(_Y)))

# -------------------------------------------------------------- simulation
for _m in ("elliptic", "rectangular", "triangular"):
    add("make_%s_mask" % _m, getattr(sim, "make_%s_mask" % _m),
        lambda D: k(24, (1.0, 2.0), (6.0, 8.0), 20.0))
add("make_sinogram", sim.make_sinogram, lambda D: k(
    D.img(17, 17), D.angles(9)))
for _m in ("partial", "full", "dead", "fluctuating"):
    add("add_stripe_artifact/" + _m, sim.add_stripe_artifact,
        lambda D, m=_m: k(D.sino(12, 15), 3, 5, 0.2, m))
add("convert_to_Xray_image", sim.convert_to_Xray_image, lambda D: k(
    D.sino(12, 15)))
add("convert_to_Xray_image/max", sim.convert_to_Xray_image, lambda D: k(
    D.sino(12, 15), 2.0))
add("add_background_fluctuation", sim.add_background_fluctuation,
    lambda D: k(D.sino(12, 15)))
add("add_noise", sim.add_noise, lambda D: k(D.sino(12, 15)))

# functions with a random ingredient
RANDOM = {"add_noise", "add_background_fluctuation"} | {
    n for n in ENTRIES if n.startswith("add_stripe_artifact")}
