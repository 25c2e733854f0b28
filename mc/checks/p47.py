"""P47: ill-formed requests are refused, requests at the limit are served.

Alphabet   for every parameter that has a stated legal range or a stated
           agreement with another one (index, centre, angle, crop, shape, type
           of filter, name of a method, file, key, number of images...), all
           values of a range that reaches beyond the limit on each side.
Oracle     the legal set, written down here from the documentation: inside it
           the call returns (finite) data, outside it ends with a ValueError
           (or the exception stated for it) and never with an answer.
"""
import itertools
import os
import warnings

import h5py
import numpy as np

import algotom.io.converter as cvt
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post
import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as remo
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vrec
import algotom.util.calibration as calib
import algotom.util.correlation as correl
import algotom.util.simulation as sim
import algotom.util.utility as util
from mc.core import check, fill, quiet

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of each constrained parameter "
             "over a range spanning its legal set and both sides of it, with "
             "the legal set as accept/refuse oracle")
LEVEL = "model_checking"
LEVEL_NOTE = ("all values of the listed ranges for every guarded parameter, "
              "pairs of values where two parameters have to agree")
RULE = "state = (parameter, value)"
ASSUMPTIONS = [
    "values about which the documentation is silent (a centre between the "
    "last column and the image width, for instance) may go either way",
    "functions that need a GPU or an optional package are not called"]

SWEEPS = {}


def sweep(name, call, values, legal, exc=(ValueError,)):
    """legal(value): True (served), False (refused), None (either)."""
    if name in SWEEPS:
        raise KeyError(name)
    SWEEPS[name] = (call, list(values), legal, exc)


def img(*shape, s=1, lo=0.2, hi=0.9):
    return fill(shape, s, lo, hi, "f4")


def shapes(*opts):
    return list(itertools.product(*opts))


EQ = lambda v: v[0] == v[1]                                        # noqa

# ----------------------------------------------------- agreement of shapes
H = [(a, b) for a in (7, 8, 9) for b in (7, 8, 9)]
sweep("search_overlap/height", lambda v: calc.search_overlap(
    img(v[0], 20), img(v[1], 20, s=2), 5, 1, ncore=1), H, EQ)
for _side in (0, 1, None):
    sweep("find_overlap/height/%s" % _side, lambda v, s=_side:
          calc.find_overlap(img(v[0], 20), img(v[1], 20, s=2), 5, s, ncore=1),
          H, EQ)
sweep("find_overlap_multiple/number", lambda v: calc.find_overlap_multiple(
    [img(8, 20, s=i) for i in range(v)], 5, 1, ncore=1), range(5),
    lambda v: v >= 2)
for _side in (0, 1):
    for _norm in (False, True):
        for _f, _ov in (("stitch_image", 4.4), ("join_image", 3.0)):
            sweep("%s/height/%d/%d" % (_f, _side, _norm),
                  lambda v, f=_f, o=_ov, s=_side, n=_norm: getattr(conv, f)(
                      img(v[0], 12), img(v[1], 12, s=2), o, s, norm=n), H, EQ)
for _f in ("stitch_image_multiple", "join_image_multiple"):
    sweep(_f + "/number", lambda v, f=_f: getattr(conv, f)(
        [img(6, 12, s=i) for i in range(v)], [[4, 1]] * max(0, v - 1)),
        range(1, 5), lambda v: v >= 2)
sweep("remove_blob/shape", lambda v: remo.remove_blob(
    img(*v[0]), (img(*v[1]) < 0.3) * 1.0),
    itertools.product(shapes((6, 7), (12, 13)) + [(12, 6), (13, 7), (9, 8)],
                      repeat=2), EQ)
# the transposed picture and another one with as many pixels are included
P2 = list(itertools.product(shapes((10, 11), (12, 13)) + [
    (12, 10), (13, 11), (8, 15)], repeat=2))
for _f in ("reconstruct_surface_from_gradient_FC_method",
           "reconstruct_surface_from_gradient_SCS_method"):
    sweep(_f + "/shape", lambda v, f=_f: getattr(ps, f)(
        img(*v[0]), img(*v[1], s=2)), P2, EQ)
S3 = [((2,) + a, (2,) + b) for a in ((22, 24), (23, 24), (22, 25))
      for b in ((22, 24), (23, 24), (22, 25))] + [
          ((2, 22, 24), (3, 22, 24)), ((3, 22, 24), (2, 22, 24)),
          ((2, 22, 24), (2, 24, 22)), ((2, 24, 22), (2, 22, 24)),
          ((2, 24, 22), (2, 24, 22)), ((2, 24, 30), (3, 24, 20)),
          ((3, 24, 20), (2, 24, 30)), ((2, 24, 33), (2, 22, 36))]
S2 = [(a, b) for a, b in S3 if a[0] == b[0] == 2]
PTS = [[10, 11], [11, 12]]
sweep("find_shift_between_image_stacks/shape", lambda v:
      ps.find_shift_between_image_stacks(
          img(*v[0]), img(*v[1], s=2), 5, 2, PTS, ncore=1), S3, EQ)
sweep("find_shift_between_sample_images/shape", lambda v:
      ps.find_shift_between_sample_images(
          img(*v[0]), img(*v[1], s=2), np.zeros((v[0][0], 2)), 5, 2, PTS,
          ncore=1), S3, EQ)
sweep("align_image_stacks/shape", lambda v: ps.align_image_stacks(
    img(*v[0]), img(*v[1], s=2), np.full((v[0][0], 2), .5)), S3, EQ)
sweep("align_image_stacks/shifts", lambda v: ps.align_image_stacks(
    img(3, 20, 21), img(3, 20, 21, s=2), np.full((v[0], 2), .5),
    None if v[1] == 0 else np.full((v[1], 2), .4)),
    itertools.product((1, 2, 3, 4), (0, 2, 3, 4)),
    lambda v: v[0] == 3 and v[1] in (0, 3))
for _d in (1, 2):
    sweep("find_local_shifts/shape/%d" % _d, lambda v, d=_d:
          correl.find_local_shifts(img(*v[0]), img(*v[1], s=2), dim=d,
                                   win_size=5, margin=3, ncore=1), S3, EQ)
    sweep("find_local_shifts/shape/2d/%d" % _d, lambda v, d=_d:
          correl.find_local_shifts(img(*v[0][1:]), img(*v[1][1:], s=2), dim=d,
                                   win_size=5, margin=3, ncore=1), S2, EQ)
sweep("find_local_shifts_umpa/shape", lambda v: correl.find_local_shifts_umpa(
    img(*v[0]), img(*v[1], s=2), 5, 2, gpu=False, ncore=1), S3, EQ)
sweep("find_local_shifts_umpa/ndim", lambda v: correl.find_local_shifts_umpa(
    img(*(2, 2, 16, 17)[4 - v:]), img(*(2, 2, 16, 17)[4 - v:], s=2), 5, 2,
    gpu=False, ncore=1), (2, 3, 4), lambda v: v == 3)
sweep("generate_correlation_map/shape", lambda v:
      correl.generate_correlation_map(img(8, 9), img(*v, s=2)),
      itertools.product(range(7, 11), range(8, 12)),
      lambda v: v[0] <= 8 and v[1] <= 9)
sweep("generate_correlation_map/depth", lambda v:
      correl.generate_correlation_map(img(v[0], 8, 9), img(v[1], 4, 5, s=2)),
      itertools.product((1, 2, 3), repeat=2), EQ)
sweep("generate_correlation_map/ndim", lambda v:
      correl.generate_correlation_map(
          img(*(2, 2, 8, 9)[4 - v:]), img(*(2, 2, 4, 5)[4 - v:], s=2)),
      (2, 3, 4), lambda v: v in (2, 3))
sweep("fit_points_to_ellipse/length", lambda v: calib.fit_points_to_ellipse(
    20 + 9 * np.cos(np.arange(v[0])), 30 + 4 * np.sin(np.arange(v[1]))),
    itertools.product((9, 10, 11), repeat=2), EQ)
sweep("find_tilt_roll/length", lambda v: calib.find_tilt_roll(
    20 + 9 * np.cos(np.arange(v[0])), 30 + 4 * np.sin(np.arange(v[1]))),
    itertools.product((9, 10, 11), repeat=2), EQ)
for _m in (1, 9):
    sweep("mtf_deconvolution/window/%d" % _m, lambda v:
          corr.mtf_deconvolution(img(12, 13), img(*v, lo=.5), 0),
          itertools.product(range(10, 15), repeat=2) if _m == 1 else [
              (12, 13), (30, 31), (12, 40), (40, 12)],
          lambda v: v[0] >= 12 and v[1] >= 13)

# -------------------------------------- room for the window and its margin


def _room(v):
    h, w, win, mar = v
    als = 2 * (win // 2) + 1 + 2 * mar
    # one more than the needed size leaves a single point
    if h >= als + 2 and w >= als + 2:
        return True
    return False if h < als or w < als else None


ROOM = [(h, w, win, mar) for win in (3, 4, 5) for mar in (1, 2, 3)
        for h in range(8, 14) for w in (8, 9, 10, 11, 12, 13)]
sweep("find_local_shifts/room", lambda v: correl.find_local_shifts(
    img(2, v[0], v[1]), img(2, v[0], v[1], s=2), dim=2, win_size=v[2],
    margin=v[3], ncore=1), ROOM, _room)
sweep("find_local_shifts/room/2d", lambda v: correl.find_local_shifts(
    img(v[0], v[1]), img(v[0], v[1], s=2), dim=2, win_size=v[2],
    margin=v[3], ncore=1), ROOM, _room)
sweep("find_local_shifts_umpa/room", lambda v: correl.find_local_shifts_umpa(
    img(2, v[0], v[1]), img(2, v[0], v[1], s=2), v[2], v[3], gpu=False,
    ncore=1), ROOM, _room)
sweep("get_transmission_dark_field_signal/room", lambda v:
      ps.get_transmission_dark_field_signal(
          img(2, v[0], v[1]), img(2, v[0], v[1], s=2), np.zeros(v[:2]),
          np.zeros(v[:2]), v[2], v[3], ncore=1),
      ROOM, _room)
sweep("find_shift_based_correlation_map/margin", lambda v:
      correl.find_shift_based_correlation_map(img(*v[:2]), img(*v[:2], s=2),
                                              v[2]),
      itertools.product(range(8, 13), range(8, 13), (1, 2, 3, 4, 5)),
      lambda v: min(v[0], v[1]) - 2 * v[2] > 3)


def _points(v):
    """Only points inside the frame of win // 2 + margin are usable."""
    i, j = v
    return 4 < i < 22 - 4 and 4 < j < 24 - 4


GRID = list(itertools.product((-1, 0, 3, 4, 5, 10, 17, 18, 19, 21, 22),
                              (-1, 0, 3, 4, 5, 12, 19, 20, 21, 23, 24)))
sweep("find_global_shift/point", lambda v:
      correl.find_global_shift_based_local_shifts(
          img(22, 24), img(22, 24, s=2), 5, 2, list_ij=list(v), ncore=1),
      GRID, _points)
sweep("find_global_shift/points", lambda v:
      correl.find_global_shift_based_local_shifts(
          img(22, 24), img(22, 24, s=2), 5, 2, list_ij=v, ncore=1),
      [[[10, 11], [11, 12]], [[10, 11], [11]], [[10], [11, 12]],
       [[10, 11], 11], [10, [11, 12]], [[1, 2], [1, 2]], [[1, 10], [1, 11]],
       [10], [10, 11, 12], [[10, 11]], "ab", 7, {"a": 1},
       np.array([[10, 11], [11, 12]]), ([10, 11], [11, 12])],
      lambda v: (isinstance(v, np.ndarray) or v in (
          [[10, 11], [11, 12]], [[1, 10], [1, 11]], ([10, 11], [11, 12]))))

# --------------------------------------------------- number of dimensions
ND = (2, 3, 4)


def _nd(n):
    return img(*((2, 4, 12, 14)[4 - n:] if n > 2 else (12, 14)))


for _n, _c in (
        ("unwarp_sinogram", lambda v: corr.unwarp_sinogram(
            _nd(v), 5, 6.5, 5.5, [1.0, 1e-3])),
        ("unwarp_sinogram_chunk", lambda v: corr.unwarp_sinogram_chunk(
            _nd(v), 3, 8, 6.5, 5.5, [1.0, 1e-3])),
        ("generate_tilted_sinogram", lambda v: corr.generate_tilted_sinogram(
            _nd(v), 5, 3.0)),
        ("generate_tilted_sinogram_chunk", lambda v:
         corr.generate_tilted_sinogram_chunk(_nd(v), 3, 8, 3.0))):
    sweep(_n + "/ndim", _c, ND, lambda v: v == 3)
for _n, _c in (
        ("generate_tilted_profile_line", lambda v:
         corr.generate_tilted_profile_line(_nd(v), 5, 3.0)),
        ("generate_tilted_profile_chunk", lambda v:
         corr.generate_tilted_profile_chunk(_nd(v), 3, 8, 3.0))):
    sweep(_n + "/ndim", _c, ND, lambda v: v == 2)
SQ = list(itertools.product((10, 11, 12), repeat=2))
for _n, _c in (
        ("transform_slice_forward", util.transform_slice_forward),
        ("transform_slice_backward", util.transform_slice_backward),
        ("make_sinogram", lambda m: sim.make_sinogram(
            m, np.linspace(0, np.pi, 5)))):
    sweep(_n + "/square", lambda v, c=_c: c(img(*v)), SQ, EQ)
SQ2 = list(itertools.product((33, 34, 35), repeat=2))
sweep("remove_ring_based_fft/square", lambda v: post.remove_ring_based_fft(
    img(*v), 3), SQ2, EQ)
sweep("remove_ring_based_wavelet_fft/square", lambda v:
      post.remove_ring_based_wavelet_fft(img(*v), 1), SQ2, EQ)
for _n in ("forward", "backward"):
    sweep("transform_slice_%s/coord" % _n, lambda v, n=_n: getattr(
        util, "transform_slice_" + n)(img(11, 11), tuple(fill(
            s, 3, 0, 10, "f4") for s in v)),
        itertools.product(((11, 11), (11, 12), (10, 11)), repeat=2),
        lambda v: v == ((11, 11), (11, 11)))

# ------------------------------------------------------ lengths of windows
for _ax, _len in ((0, 12), (1, 13)):
    sweep("apply_ramp/separate_frequency/window/%d" % _ax, lambda v, a=_ax:
          util.separate_frequency_component(img(13, 12) if a == 0 else
                                            img(12, 13), a, np.ones(v)),
          range(10, 16), lambda v, a=_ax: v == (13 if a == 0 else 13))
sweep("interpolate_inside_stripe/mask", lambda v:
      util.interpolate_inside_stripe(img(5, 12), np.isin(
          np.arange(v), (4, 5)) * 1.0), range(10, 15), lambda v: v == 12)
sweep("double_wedge_filter/mask", lambda v: filt.double_wedge_filter(
    img(21, 25), 0, "360", 1, np.ones(v), pad=3),
    itertools.product((20, 21, 22), (25, 30, 31, 32)),
    lambda v: v == (21, 31))
sweep("unwrap_phase_based_cosine_transform/window", lambda v:
      ps.unwrap_phase_based_cosine_transform(img(10, 12), np.ones(v)),
      itertools.product((9, 10, 11), (11, 12, 13)), lambda v: v == (10, 12))
sweep("unwrap_phase_based_fft/windows", lambda v: ps.unwrap_phase_based_fft(
    img(10, 12), np.ones(v[0]), np.ones(v[1])),
    itertools.product(((20, 24), (10, 12), (20, 25), (21, 24)), repeat=2),
    lambda v: v == ((20, 24), (20, 24)))
_W3 = lambda s: (np.ones(s), np.ones(s), np.ones(s))               # noqa
for _f, _cs, _ok in (("FC", (True, False), {True: (20, 24),
                                            False: (10, 12)}),):
    for _corr in _cs:
        sweep("reconstruct_surface_FC/window/%d" % _corr, lambda v, c=_corr:
              ps.reconstruct_surface_from_gradient_FC_method(
                  img(10, 12), img(10, 12, s=2), c, v),
              [_W3((20, 24)), _W3((21, 24)), _W3((20, 23)),
               list(_W3((20, 24))), _W3((20, 24))[:2],
               _W3((20, 24)) + (1,), np.ones((20, 24)), "abc", 3],
              lambda v: isinstance(v, (tuple, list)) and len(v) == 3 and
              np.shape(v[0]) == (20, 24))
sweep("reconstruct_surface_SCS/window", lambda v:
      ps.reconstruct_surface_from_gradient_SCS_method(
          img(10, 12), img(10, 12, s=2), False, v, pad=3),
      [_W3((16, 18)), _W3((10, 12)), _W3((16, 17)), _W3((16, 18))[:2],
       np.ones((16, 18)), "abc", 3],
      lambda v: isinstance(v, (tuple, list)) and len(v) == 3 and
      np.shape(v[0]) == (16, 18))

# ------------------------------------------------------------------ names
TYPES = ("180", "360", "18", "", "270", None, 180, 360.0)
TY = lambda v: v in ("180", "360") and isinstance(v, str)          # noqa
sweep("double_wedge_filter/type", lambda v: filt.double_wedge_filter(
    img(21, 25), 12.0, v, 1, pad=3), TYPES, TY)
sweep("detect_sample/type", lambda v: util.detect_sample(img(21, 25), v),
      TYPES, TY)
for _f in ("calculate_reconstructable_height", "calculate_maximum_index"):
    _a = (0.0, 60.0, 10.0) if "height" in _f else (0.0, 60.0, 10.0, 1.0)
    sweep(_f + "/type", lambda v, f=_f, a=_a: getattr(calc, f)(*a, v), TYPES,
          TY)
sweep("upsample_sinogram/scale", lambda v: corr.upsample_sinogram(
    img(12, 15), v, 7.0, pad=4), (1, 2, 3, 4, 5, 7),
    lambda v: v % 2 == 0)
sweep("upsample_sinogram/center", lambda v: corr.upsample_sinogram(
    img(12, 15), 2, v[0], v[1], pad=4),
    itertools.product((-2, -0.5, 0, 0.5, 7), ("180", "360")),
    lambda v: v[1] == "360" or v[0] > 0)
sweep("double_wedge_filter/center", lambda v: filt.double_wedge_filter(
    img(21, 25), v[0], v[1], 1, pad=3),
    itertools.product((0, 0.0, 11.5, 12), ("180", "360")),
    lambda v: v[1] == "360" or v[0] != 0)
sweep("find_tilt_roll/method", lambda v: calib.find_tilt_roll(
    20 + 9 * np.cos(np.arange(11.)), 30 + 4 * np.sin(np.arange(11.)), v),
    ("linear", "ellipse", "Linear", "", None, "elliptic", 0),
    lambda v: v in ("linear", "ellipse"))
for _f in ("rescale",):
    sweep("rescale/nbit", lambda v: post.rescale(img(6, 7), v),
          (-8, 0, 1, 7, 8, 9, 12, 15, 16, 17, 32, 64), lambda v: v in (8, 16))
for _f in ("rescale_dataset", "downsample_dataset"):
    sweep(_f + "/nbit", lambda v, f=_f: (
        post.rescale_dataset(img(4, 6, 7), None, v) if f[0] == "r" else
        post.downsample_dataset(img(4, 6, 7), None, 2, rescaling=True,
                                nbit=v)),
          (-8, 0, 1, 7, 8, 9, 12, 15, 16, 17, 32, 64),
          lambda v, f=_f: v in (8, 16) or (v == 32 and f[0] == "r"))
_BAD = ("no_such_filter", "gaussian", "", "median_filter_")
_OPT = [{"method": "gaussian_filter", "para1": (1, 1)},
        {"method": "apply_gaussian_filter", "p1": 2, "p2": 2}] + [
            {"method": b, "para1": (1, 1)} for b in _BAD] + [
            {"method": "gaussian_filter", "para1": "x"},
            {"method": "gaussian_filter", "p1": 1, "p2": "x"},
            "gaussian_filter", 3, None, ["gaussian_filter", 1],
            ("gaussian_filter", 1)]
_OPTOK = lambda v: v in _OPT[:2]                                   # noqa
for _f, _sh, _a, _two in (
        ("remove_stripe_based_sorting", (24, 33), (5, 1), 1),
        ("remove_stripe_based_filtering", (24, 33), (3, 5, 1), 1),
        ("remove_stripe_based_filtering", (24, 33), (3, 5, 1, False), 1),
        ("remove_stripe_based_fitting", (24, 33), (2, 5), 1),
        ("remove_stripe_based_2d_filtering_sorting", (24, 33), (3, 5, 1), 1),
        ("remove_stripe_based_wavelet_fft", (32, 40), (2, 1), 1),
        ("remove_large_stripe", (24, 48), (2.0, 11), 1),
        ):
    sweep("%s/options/%d" % (_f, len(_a)), lambda v, f=_f, s=_sh, a=_a:
          getattr(remo, f)(img(*s), *a, options=v), _OPT, _OPTOK)
sweep("remove_stripe_based_normalization/options", lambda v:
      remo.remove_stripe_based_normalization(img(24, 33), 5, options=v),
      [{"method": "gaussian_filter", "para1": 3}] + _OPT[2:],
      lambda v: v == {"method": "gaussian_filter", "para1": 3})
for _i, _d in enumerate(((6, 31), (6, 3, 31))):
    sweep("flat_field_correction/options/%d" % _i, lambda v, d=_d:
          corr.flat_field_correction(
              img(*d), img(*d[-2:], s=2, lo=.8), img(*d[-2:], s=3, hi=.3),
              option1=v),
          [{"method": "remove_stripe_based_sorting", "para1": 5},
           {"method": "fresnel_filter", "para1": 5}, None,
           {"method": "no_such"}, {"method": "gaussian_filter", "p": 1},
           {"method": "fresnel"}, "fresnel_filter", 3, ["fresnel_filter", 5]],
          lambda v: v is None or (isinstance(v, dict) and v["method"] in (
              "remove_stripe_based_sorting", "fresnel_filter")))
sweep("apply_filter_to_wavelet_component/method", lambda v:
      util.apply_filter_to_wavelet_component(
          util.apply_wavelet_decomposition(img(34, 36), "db2", 2),
          method=v, para=[(1, 3)] if v != "median_filter" else [(3, 3)]),
      (None, "gaussian_filter", "uniform_filter", "no_such", "gaussian", ""),
      lambda v: v in (None, "gaussian_filter", "uniform_filter"))
sweep("check_level", lambda v: util.check_level(v, 3),
      [-1, 0, 1, 2, 3, 4, 5, [1], [1, 3], [0], [1, 4], (2, 3), (3, 4), [-1],
       "1", 1.5, {1}], lambda v: (isinstance(v, int) and 1 <= v <= 3) or (
           isinstance(v, (list, tuple)) and all(1 <= x <= 3 for x in v)))
for _m in ("apply_filter_to_wavelet_component",):
    sweep(_m + "/level", lambda v: util.apply_filter_to_wavelet_component(
        util.apply_wavelet_decomposition(img(64, 68), "db2", 2), level=v),
        [None, -1, 0, 1, 2, 3, 4, [1, 2], [0, 1], [2, 3]],
        lambda v: v in (None, 1, 2, [1, 2]))

# ------------------------------------------------- numbers with a range
NCOL, NROW = 17, 13
CEN = np.arange(-4, 2 * NCOL + 6) / 2.0


def _cen(v):
    if v < 0 or v >= NCOL:
        return False
    return True if v <= NCOL - 1 else None


for _m in ("fbp", "bpf", "dfi"):
    _fn = getattr(rec, _m + "_reconstruction")
    _kw = {} if _m == "dfi" else dict(gpu=False)
    for _nd3 in (0, 1):
        sweep("%s_reconstruction/center/%d" % (_m, _nd3),
              lambda v, f=_fn, d=_nd3, kw=_kw: f(
                  img(NROW, 2, NCOL) if d else img(NROW, NCOL), v, ncore=1,
                  **kw), CEN, _cen)
        if _m != "dfi":
            sweep("%s_reconstruction/angles/%d" % (_m, _nd3),
                  lambda v, f=_fn, d=_nd3, kw=_kw: f(
                      img(NROW, 2, NCOL) if d else img(NROW, NCOL), 8.0,
                      np.linspace(0, np.pi, v), ncore=1, **kw),
                  range(NROW - 3, NROW + 4), lambda v: v == NROW)
sweep("find_center_based_slice_metric/range", lambda v:
      rec.find_center_based_slice_metric(
          img(NROW, NCOL), *v, angles=np.linspace(0, np.pi, NROW), gpu=False,
          ncore=1), itertools.product((5, 8, 11), (5, 8, 11), (1, 2, -1)),
      lambda v: True if v[2] > 0 and v[1] > v[0] else (
          None if v[2] > 0 else False))
sweep("binarize_image/threshold", lambda v: calib.binarize_image(
    np.linspace(1.0, 3.0, 64, dtype=np.float32).reshape(8, 8), v),
    np.arange(0, 17) / 4.0, lambda v: 1.0 <= v <= 3.0)
sweep("beam_hardening_correction/n", lambda v:
      corr.beam_hardening_correction(img(5, 6), 0.005, v),
      np.arange(0, 17) / 4.0, lambda v: v >= 2.0)
sweep("beam_hardening_correction/level", lambda v:
      corr.beam_hardening_correction(img(5, 6) * 0 + v, 0.005, 3.0),
      (0.25, 0.5, 1.0, 1.9, 2.0, 2.1, 5.0, 100.0),
      lambda v: v < 2.0)
NP_, VH, VW = 9, 12, 15
SLI = np.arange(-4, 2 * VW + 6) / 2.0


def _vert(**kw):
    a = dict(dict(slice_index=7, center=7.2, alpha=20.0), **kw)
    d = dict(gpu=False, ncore=1, show_progress=False, chunk_size=4)
    pos = [a.pop("slice_index"), a.pop("center"), a.pop("alpha")]
    return vrec.vertical_reconstruction(img(NP_, VH, VW), *pos, **dict(d, **a))


def _vmul(**kw):
    a = dict(dict(start=5, stop=8, center=7.2, alpha=20.0), **kw)
    d = dict(gpu=False, ncore=1, show_progress=False, chunk_size=4)
    pos = [a.pop("start"), a.pop("stop"), a.pop("center"), a.pop("alpha")]
    return vrec.vertical_reconstruction_multiple(img(NP_, VH, VW), *pos,
                                                 **dict(d, **a))


def _vdif(**kw):
    a = dict(dict(idx=[5, 8], alphas=[10.0, 60.0], center=7.2), **kw)
    d = dict(gpu=False, ncore=1, show_progress=False, chunk_size=4)
    pos = [a.pop("idx"), a.pop("alphas"), a.pop("center")]
    return vrec.vertical_reconstruction_different_angles(
        img(NP_, VH, VW), *pos, **dict(d, **a))


VERT = {"single": _vert, "multiple": _vmul, "different": _vdif}
IN = lambda v: 0 <= v <= VW - 1                                    # noqa
sweep("vertical/slice/single", lambda v: _vert(slice_index=v), SLI, IN)
sweep("vertical/slice/multiple", lambda v: _vmul(start=v[0], stop=v[1]),
      itertools.product(range(-3, VW + 2), (-2, 0, 3, VW - 1, VW)),
      lambda v: None if v[1] < v[0] else (IN(v[0]) and IN(v[1])))
sweep("vertical/slice/different", lambda v: _vdif(idx=list(v)),
      itertools.product((-1, 0, 7, VW - 1, VW), repeat=2),
      lambda v: IN(v[0]) and IN(v[1]))
sweep("vertical/lists", lambda v: _vdif(idx=v[0], alphas=v[1]),
      [([5, 8], [1., 2.]), ([5], [1., 2.]), ([5, 8], [1.]), ((5, 8), [1., 2.]),
       ([5, 8], (1., 2.)), (5, [1.]), ([5], 1.0), ([5], [1.])],
      lambda v: isinstance(v[0], list) and isinstance(v[1], list) and
      len(v[0]) == len(v[1]))
for _n, _f in VERT.items():
    sweep("vertical/center/" + _n, lambda v, f=_f: f(center=v), SLI, IN)
    sweep("vertical/alpha/" + _n, lambda v, f=_f: (
        f(alphas=[v, 60.0]) if f is _vdif else f(alpha=v)),
        (-90.0, -10.0, -0.5, 0.0, 0.5, 30.0, 45.0, 60.0, 90.0, 135.0, 179.5,
         180.0, 180.5, 200.0, 360.0), lambda v: 0.0 <= v <= 180.0)
    sweep("vertical/ramp/" + _n, lambda v, f=_f: f(ramp_filter=v),
          ("before", "after", None, "Before", "", "both", 0, True),
          lambda v: v in ("before", "after") or v is None)
    sweep("vertical/angles/" + _n, lambda v, f=_f: f(
        angles=np.linspace(0, np.pi, v)), range(NP_ - 2, NP_ + 3),
        lambda v: v == NP_)
    sweep("vertical/range/" + _n, lambda v, f=_f: f(
        proj_start=v[0], proj_stop=v[1]),
        itertools.product((0, 1, 5, 8, 9), (-1, 1, 5, 8, 9)),
        # a single projection has no angular step: either way
        lambda v: None if (NP_ if v[1] == -1 else v[1]) == v[0] + 1 else
        (NP_ if v[1] == -1 else v[1]) > v[0])
    sweep("vertical/crop/" + _n, lambda v, f=_f: f(
        crop=v, slice_index=0, center=0) if f is _vert else (
            f(crop=v, start=0, stop=0, center=0) if f is _vmul else
            f(crop=v, idx=[0, 0], center=0)),
        [(a, b, c, d) for a, b in ((0, 0), (5, 5), (6, 5), (6, 6), (12, 0),
                                   (0, 13)) for c, d in (
            (0, 0), (7, 6), (7, 7), (7, 8), (15, 0), (0, 16))],
        lambda v: v[0] + v[1] < VH and v[2] + v[3] < VW)
    for _g in ("flat_field", "dark_field"):
        sweep("vertical/%s/%s" % (_g, _n), lambda v, f=_f, g=_g: f(
            **{g: img(*v, lo=.95, hi=1.) if g[0] == "f" else
               img(*v, lo=0, hi=.1)}),
            itertools.product((VH - 1, VH, VH + 1), (VW - 1, VW, VW + 1)),
            lambda v: v == (VH, VW))
sweep("find_center_vertical_slice/metric", lambda v:
      vrec.find_center_vertical_slice(
          img(NP_, VH, VW), 7, 6, 9, metric=v, gpu=False, ncore=1,
          show_progress=False, chunk_size=4),
      ("entropy", "sharpness", "autocorrelation", "Entropy", "", None, "std"),
      lambda v: v in ("entropy", "sharpness", "autocorrelation"))


def _helical_index(v):
    n = 97
    return conv.generate_sinogram_helical_scan(
        v, img(n, 30, 12), 9, 1.0, 0.0, 60.0, 10.0,
        angles=22.5 * np.arange(n))[0]


HMAX = {t: int(calc.calculate_maximum_index(0.0, 60.0, 10.0, 1.0, t))
        for t in ("180", "360")}
for _t in ("180", "360"):
    sweep("helical/index/" + _t, lambda v, t=_t:
          conv.generate_sinogram_helical_scan(
              v, img(97, 30, 12), 9, 1.0, 0.0, 60.0, 10.0, scan_type=t,
              angles=22.5 * np.arange(97))[0],
          sorted(set(range(-4, 4)) | set(range(HMAX[_t] - 4, HMAX[_t] + 6))),
          lambda v, t=_t: False if v < 0 or v > HMAX[t] else None)
sweep("locate_slice_chunk/order", lambda v: util.locate_slice_chunk(
    v[0], v[1], 10, np.array([[[3.0, 1, 5.0]], [[4.0, 1, 6.0]]])),
    itertools.product(range(0, 20, 3), repeat=2), lambda v: v[1] >= v[0] or
    False)


def spiral(v):
    step, num, height, width, form = v
    pos = util.generate_spiral_positions(step, num, 10 ** 6, 10 ** 6, form)
    out = np.abs(pos[-num:]).max(axis=0) - (width // 2, height // 2)
    if np.abs(out).min() < 1e-3:
        return None
    return bool((out < 0).all())


sweep("spiral_positions/field", lambda v: util.generate_spiral_positions(*v),
      itertools.product((1, 5, 10, 20, 30), (1, 2, 5, 10, 20, 40),
                        (40, 100, 301), (30, 120, 400), (1.0, 0.0, 0.3)),
      spiral)
sweep("downsample_dataset/cell", lambda v: post.downsample_dataset(
    img(4, 5, 6), None, v), itertools.product((1, 4, 5), (1, 5, 6),
                                              (1, 6, 7)),
    lambda v: v[0] <= 4 and v[1] <= 5 and v[2] <= 6)
for _f in ("downsample_dataset", "rescale_dataset",
           "get_statistical_information_dataset"):
    _c = {"downsample_dataset": lambda c: post.downsample_dataset(
        img(4, 5, 6), None, 1, crop=c),
        "rescale_dataset": lambda c: post.rescale_dataset(
            img(4, 5, 6), None, 8, crop=c, minmax=(0.0, 1.0)),
        "get_statistical_information_dataset": lambda c:
        post.get_statistical_information_dataset(
            img(4, 5, 6), skip=1, crop=c)}[_f]
    sweep(_f + "/crop", _c, [a + b + c for a in ((0, 0), (2, 1), (2, 2), (
        4, 0), (0, 5)) for b in ((0, 0), (3, 1), (3, 2), (0, 5)) for c in (
            (0, 0), (1, 4), (5, 1), (7, 0))] + [
                (0,) * 4, (0,) * 5, (0,) * 7],
        lambda v: len(v) == 6 and v[0] + v[1] < 4 and v[2] + v[3] < 5 and
        v[4] + v[5] < 6)


# ---------------------------------------------------- files and folders
class Place:
    """Small data set on disk (one per worker process)."""
    at = None

    def __init__(self, root):
        self.root = root
        self.n = 0
        p = lambda *x: os.path.join(root, *x)                      # noqa
        self.p = p
        for name, hw in (("tif", (6, 7)), ("tif2", (6, 7)), ("ref", (6, 7))):
            os.makedirs(p(name))
            for i in range(3):
                losa.save_image(p(name, "i_%02d.tif" % i), img(
                    *hw, s=i + 1))
        os.makedirs(p("none"))
        with open(p("none", "a.txt"), "w") as fo:
            fo.write("text")
        with open(p("bad.tif"), "w") as fo:
            fo.write("not an image")
        with open(p("bad.hdf"), "w") as fo:
            fo.write("not a file")
        for i in range(2):
            with h5py.File(p("d%d.hdf" % i), "w") as fo:
                fo["entry/data"] = img(5, 6, 7, s=i + 3)
                fo["entry/ref"] = img(2, 6, 7, s=i + 5)
                fo["entry/x"] = np.arange(4)
                fo["entry/data/data"] if False else None
                fo["entry1/data/data"] = img(7, 6, 7, s=i + 7)
                fo["entry1/image_key"] = np.array([2, 1, 0, 0, 0, 0, 1])

    def new(self, ext=""):
        self.n += 1
        return self.p("out%04d%s" % (self.n, ext))


def P():
    return Place.at


sweep("load_image", lambda v: losa.load_image(P().p(v)),
      ("tif/i_00.tif", "tif/i_09.tif", "tif", "bad.tif", "none/a.txt",
       "d0.hdf"), lambda v: v == "tif/i_00.tif")
sweep("load_hdf", lambda v: np.asarray(losa.load_hdf(P().p(v[0]), v[1])),
      [("d0.hdf", "entry/data"), ("d0.hdf", "/entry/data"),
       ("d0.hdf", "entry/date"), ("d0.hdf", "data"), ("d9.hdf", "entry/data"),
       ("bad.hdf", "entry/data"), ("tif", "entry/data"), ("d0.hdf", "")],
      lambda v: v in (("d0.hdf", "entry/data"), ("d0.hdf", "/entry/data")))
for _f in ("get_hdf_information", "find_hdf_key", "get_hdf_tree"):
    sweep(_f, lambda v, f=_f: len(getattr(losa, f)(P().p(v), *(
        ["data"] if "key" in f else []), display=False)),
        ("d0.hdf", "d9.hdf", "nowhere/d0.hdf"), lambda v: v == "d0.hdf")
sweep("find_file", lambda v: len(losa.find_file(P().p(v))),
      ("tif/*.tif", "tif/*tif*", "tif/*.png", "nowhere/*.tif", "none/*.tif",
       "*.hdf"), lambda v: v in ("tif/*.tif", "tif/*tif*", "*.hdf"),
      (FileNotFoundError,))
sweep("save_image/type", lambda v: losa.save_image(
    P().new(".tif"), img(5, 6).astype(v)),
    ("u1", "u2", "f4", "f8", "c8", "c16"), lambda v: v[0] != "c")
for _n in ("convert_tif_to_hdf/folder",):
    sweep(_n, lambda v: str(cvt.convert_tif_to_hdf(P().p(v), P().new(
        ".hdf"))), ("tif", "none", "nowhere"), lambda v: v == "tif",
        (ValueError, FileNotFoundError))
sweep("HdfEmulatorFromTif/folder", lambda v: cvt.HdfEmulatorFromTif(
    P().p(v)).shape, ("tif", "none", "nowhere"), lambda v: v == "tif",
    (ValueError, FileNotFoundError))
sweep("HdfEmulatorFromTif/index", lambda v: cvt.HdfEmulatorFromTif(
    P().p("tif"))[v], [0, 2, -1, -3, 3, -4, slice(0, 2), (0, 1, 2),
                       (slice(0, 2), 1, 2), "a", 1.5, None],
    lambda v: not (v in (3, -4, "a", 1.5) or v is None),
    (TypeError, IndexError))
CROPS = [(a, b, c, d) for a, b in ((0, 0), (3, 2), (3, 3), (6, 0), (0, 7))
         for c, d in ((0, 0), (3, 3), (4, 3), (7, 0), (0, 8))]
CR = lambda v: v[0] + v[1] < 6 and v[2] + v[3] < 7                 # noqa
sweep("convert_tif_to_hdf/crop", lambda v: str(cvt.convert_tif_to_hdf(
    P().p("tif"), P().new(".hdf"), crop=v)), CROPS, CR)
sweep("get_tif_stack/crop", lambda v: losa.get_tif_stack(
    P().p("tif"), crop=v), CROPS, CR)
sweep("get_image_stack/crop/tif", lambda v: losa.get_image_stack(
    1, [P().p("tif"), P().p("tif2")], crop=v), CROPS, CR)
sweep("get_image_stack/crop/hdf", lambda v: losa.get_image_stack(
    1, [P().p("d0.hdf"), P().p("d1.hdf")], "entry/data", crop=v), CROPS, CR)
sweep("get_reference_sample_stacks/crop", lambda v:
      losa.get_reference_sample_stacks(
          1, [P().p("d0.hdf")], [P().p("d1.hdf")], "entry/ref", "entry/data",
          crop=v), CROPS, CR)
sweep("get_reference_sample_stacks_dls/crop", lambda v:
      losa.get_reference_sample_stacks_dls(
          1, [P().p("d0.hdf"), P().p("d1.hdf")], "entry1/data/data", crop=v),
      CROPS, CR)
IDX = range(-8, 9)
sweep("get_tif_stack/index", lambda v: losa.get_tif_stack(
    P().p("tif"), idx=v), IDX, lambda v: -3 <= v <= 2)
sweep("get_image_stack/index/folder", lambda v: losa.get_image_stack(
    v, P().p("tif")), IDX, lambda v: -3 <= v <= 2)
sweep("get_image_stack/index/tif", lambda v: losa.get_image_stack(
    v, [P().p("tif"), P().p("tif2")]), IDX, lambda v: -3 <= v <= 2,
    (ValueError, IndexError))
sweep("get_image_stack/index/hdf", lambda v: losa.get_image_stack(
    v, [P().p("d0.hdf"), P().p("d1.hdf")], "entry/data"), IDX,
    lambda v: -5 <= v <= 4, (ValueError, IndexError))
sweep("get_reference_sample_stacks/index", lambda v:
      losa.get_reference_sample_stacks(
          v, [P().p("d0.hdf")], [P().p("d1.hdf")], "entry/ref",
          "entry/data"), IDX, lambda v: None if v < 0 and v >= -5 else
      0 <= v <= 4, (ValueError, IndexError))
sweep("get_reference_sample_stacks_dls/index", lambda v:
      losa.get_reference_sample_stacks_dls(
          v, [P().p("d0.hdf"), P().p("d1.hdf")], "entry1/data/data"), IDX,
      lambda v: 0 <= v <= 3)
REFS = list(itertools.product((5, 6, 7), (6, 7, 8)))
for _g in ("flat_field", "dark_field"):
    _mk = lambda v, g: {g: img(*v, lo=.9, hi=1.) if g[0] == "f" else  # noqa
                        img(*v, lo=0, hi=.1)}
    for _n, _c in (
            ("get_tif_stack", lambda kw: losa.get_tif_stack(
                P().p("tif"), **kw)),
            ("get_image_stack/tif", lambda kw: losa.get_image_stack(
                1, [P().p("tif")], **kw)),
            ("get_image_stack/hdf", lambda kw: losa.get_image_stack(
                1, [P().p("d0.hdf")], "entry/data", **kw)),
            ("get_reference_sample_stacks", lambda kw:
             losa.get_reference_sample_stacks(
                 1, [P().p("d0.hdf")], [P().p("d1.hdf")], "entry/ref",
                 "entry/data", **kw)),
            ("get_reference_sample_stacks_dls", lambda kw:
             losa.get_reference_sample_stacks_dls(
                 1, [P().p("d0.hdf")], "entry1/data/data", **kw))):
        sweep("%s/%s" % (_n, _g), lambda v, c=_c, g=_g, mk=_mk: c(mk(v, g)),
              REFS, lambda v: v == (6, 7))
sweep("get_image_stack/input", lambda v: losa.get_image_stack(1, {
    "list": [P().p("tif")], "str": P().p("tif"), "tuple": (P().p("tif"),),
    "none": [P().p("none")], "file": P().p("tif/i_00.tif"), "int": 3,
    "nowhere": P().p("nowhere"), "nokey": [P().p("d0.hdf")]}[v]),
    ("list", "str", "tuple", "none", "file", "int", "nowhere", "nokey"),
    lambda v: v in ("list", "str"), (ValueError, FileNotFoundError))
sweep("get_reference_sample_stacks/lists", lambda v:
      losa.get_reference_sample_stacks(
          1, [P().p("d0.hdf")] * v[0], [P().p("d1.hdf")] * v[1], "entry/ref",
          "entry/data"), itertools.product((1, 2, 3), repeat=2), EQ)
sweep("get_reference_sample_stacks_dls/image_key", lambda v:
      losa.get_reference_sample_stacks_dls(
          1, [P().p("d0.hdf")], "entry1/data/data", v),
      ["entry1/image_key", "entry1/nokey", [2, 1, 0, 0, 0, 0, 1],
       (2, 1, 0, 0, 0, 0, 1), np.array([2, 1, 0, 0, 0, 0, 1]),
       [2, 1, 0, 0, 0, 0], [2, 1, 0, 0, 0, 0, 1, 1], 3, {0: 1}],
      lambda v: isinstance(v, np.ndarray) or v == "entry1/image_key" or (
          isinstance(v, (list, tuple)) and len(v) == 7))
sweep("load_image_multiple/input", lambda v: losa.load_image_multiple(
    [P().p(x) for x in v] if isinstance(v, list) else v, ncore=1),
    [["tif/i_00.tif", "tif/i_01.tif"], ["tif/i_00.tif", "tif/i_09.tif"],
     "tif/i_00.tif", 3, ("tif/i_00.tif",)],
    lambda v: v == ["tif/i_00.tif", "tif/i_01.tif"])
sweep("save_image_multiple/paths", lambda v: losa.save_image_multiple(
    [P().new(".tif") for _ in range(v[0])], img(2, 3, 4), v[1], ncore=1),
    itertools.product((1, 2, 3, 4, 5), (0, 1, 2)),
    lambda v: v[0] == (2, 3, 4)[v[1]])
sweep("save_image_multiple/input", lambda v: losa.save_image_multiple(
    {"str": P().new(), "int": 3, "none": None, "tuple": (
        P().new(".tif"),) * 2}[v], img(2, 3, 4), ncore=1),
    ("str", "int", "none", "tuple"), lambda v: v == "str")
for _f in ("rescale_dataset", "downsample_dataset", "reslice_dataset"):
    def _post(v, f=_f):
        src = {"tif": P().p("tif"), "hdf": P().p("d0.hdf"), "none":
               P().p("none"), "bad": P().p("bad.hdf"), "nowhere":
               P().p("nowhere"), "array": img(4, 6, 7), "list": [1, 2],
               "int": 3}[v[0]]
        out = {"tif": P().new(), "hdf": P().new(".hdf"), "h5": P().new(
            ".h5"), "none": None, "txt": P().new(".txt"), "old":
            P().p("d1.hdf"), "olddir": P().p("ref")}[v[1]]
        kw = dict(key_path=v[2])
        if f == "rescale_dataset":
            post.rescale_dataset(src, out, 8, minmax=(0.0, 1.0),
                                 overwrite=False, **kw)
        elif f == "downsample_dataset":
            post.downsample_dataset(src, out, 2, overwrite=False, **kw)
        else:
            post.reslice_dataset(src, out, ncore=1, show_progress=False,
                                 overwrite=False, **kw)
    _K = "entry/data"
    sweep(_f + "/places", _post,
          [(a, b, k) for a in ("tif", "hdf", "none", "bad", "nowhere",
                               "array", "list", "int")
           for b in ("tif", "hdf", "h5", "none", "txt", "old", "olddir")
           for k in ((_K, None, "entry/nokey") if a == "hdf" else (_K,))],
          lambda v, f=_f: v[0] in (("tif", "hdf") if f[:5] == "resli" else (
              "tif", "hdf", "array")) and v[1] in (
                  ("tif", "hdf", "h5") if f[:5] == "resli" else (
                      "tif", "hdf", "h5", "none")) and (
                          v[0] != "hdf" or v[2] == "entry/data"),
          (ValueError, OSError))
sweep("reslice_dataset/axis", lambda v: post.reslice_dataset(
    P().p("tif"), P().new(), v, ncore=1, show_progress=False),
    (-1, 0, 1, 2, 3, 1.5), lambda v: v in (1, 2))


def finite(o):
    if isinstance(o, (list, tuple)):
        return all(finite(x) for x in o)
    if o is None or isinstance(o, (str, dict)):
        return True
    a = np.asarray(o)
    return a.dtype.kind not in "fc" or bool(np.isfinite(a).all())


def one(ctx, name, k):
    call, values, legal, exc = SWEEPS[name]
    v = values[k]
    want = legal(v)
    ctx.step()
    ctx.state((name, k))
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            res = quiet(call, v)
        got = "served"
    except Exception as e:      # noqa
        check(want is not True, "a legal request was refused: %s: %s" % (
            type(e).__name__, str(e)[:90]))
        if want is False:
            check(isinstance(e, exc), "refused by %s (%s) instead of %s" % (
                type(e).__name__, str(e)[:60], exc[0].__name__))
        return (name, "refused")
    check(want is not False, "an ill-formed request was served")
    if want:
        check(finite(res), "the answer is not finite")
    return (name, got)


def run(ctx):
    Place.at = Place(ctx.scratch("files"))
    for name in sorted(SWEEPS):
        for k in range(len(SWEEPS[name][1])):
            v = SWEEPS[name][1][k]
            ctx.case("%s/%d/%s" % (name, k, str(v)[:40].replace("\n", " ")
                                   if not isinstance(v, np.ndarray) else
                                   "array"), one, ctx, name, k)
