"""P46: mirroring the data mirrors the result.

Alphabet   every image, sinogram and stack function for which left/right or
           up/down has no physical meaning, all image sizes of a small range
           (both parities of both directions), all settings of its switches,
           the mirrorings left-right, up-down and both, with every position,
           sign and side of the call mirrored along.
Oracle     the result of the mirrored call, mirrored back, is the result of
           the plain call (a metamorphic relation: no reference values).
"""
import itertools

import numpy as np
import scipy.ndimage as ndi

import algotom.post.postprocessing as post
import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as remo
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vrec
import algotom.util.calibration as calib
import algotom.util.correlation as correl
import algotom.util.simulation as sim
import algotom.util.utility as util
from mc.core import check, fill, quiet

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of functions, image sizes, "
             "switches and mirrorings; metamorphic oracle (mirrored call "
             "against plain call)")
LEVEL = "model_checking"
LEVEL_NOTE = ("all mirrorings the geometry allows for every listed function, "
              "every height and width of the ranges")
RULE = "state = (function, switches, height, width, mirroring)"
ASSUMPTIONS = [
    "the mirrorings of a function are those its geometry allows (for "
    "example a 180-degree sinogram mirrored in angle is not a scan)",
    "up to the rounding of float32 arithmetic"]


class M:
    """One mirroring: applies to arrays, positions, signs and sides."""

    def __init__(self, lr, ud):
        self.lr, self.ud = lr, ud

    def __call__(self, a):
        a = np.asarray(a)
        if self.lr:
            a = a[..., ::-1]
        if self.ud and a.ndim > 1:
            a = a[..., ::-1, :]
        return np.ascontiguousarray(a)

    def row(self, a):
        """1D array along y."""
        return np.ascontiguousarray(a[::-1]) if self.ud else np.asarray(a)

    def col(self, a):
        return np.ascontiguousarray(a[::-1]) if self.lr else np.asarray(a)

    def x(self, x, w):
        return w - 1 - x if self.lr else x

    def y(self, y, h):
        return h - 1 - y if self.ud else y

    def sx(self, v):
        return -v if self.lr else v

    def sy(self, v):
        return -v if self.ud else v

    def sxy(self, v):
        return -v if self.lr != self.ud else v

    def side(self, s):
        return 1 - s if self.lr else s

    def __str__(self):
        return {(1, 0): "lr", (0, 1): "ud", (1, 1): "both", (0, 0): "-"}[
            (self.lr, self.ud)]


LR, UD, BOTH = M(1, 0), M(0, 1), M(1, 1)
ALL, ID = (LR, UD, BOTH), M(0, 0)

ENTRIES = {}


def add(name, fn, sizes, acts=ALL, tol=2e-5):
    """fn(m, h, w) -> result mirrored back (arrays or numbers)."""
    if name in ENTRIES:
        raise KeyError(name)
    ENTRIES[name] = (fn, sizes, acts, tol)


def img(h, w, s=1, lo=0.2, hi=0.9):
    return fill((h, w), s, lo, hi, "f8")


def stack(d, h, w, s=1, lo=0.2, hi=0.9):
    return fill((d, h, w), s, lo, hi, "f8")


def smooth(h, w, s=1):
    return ndi.gaussian_filter(img(h + 8, w + 8, s, 0, 1), 1.2)[4:-4, 4:-4]


def pairs(*opts):
    return list(itertools.product(*opts))


A = pairs((6, 7), (8, 9, 12))
B = pairs((20, 21), (24, 25))
C_ = pairs((24, 25), (48, 49))
SW = pairs((12, 13), (34, 35))

# ------------------------------------------------- stitching and overlaps
for _n in (False, True):
    for _ov in (3, 4.4, 5.0):
        for _w2 in (8, 9):
            for _s in (0, 1):
                def _sj(m, h, w, f, n, o, w2, s):
                    a, b = img(h, w), img(h, w2, 2)
                    r = m(getattr(conv, f)(m(a), m(b), o, m.side(s),
                                           norm=n))
                    if f[0] == "j":
                        # two columns of the left image and three of the
                        # right one are interpolated
                        j = w if s == 1 else w2
                        r[:, j - 3:r.shape[1] - (w + w2 - j) + 3] = 0
                    return r
                for _f in ("stitch_image", "join_image"):
                    add("%s/%d/%s/%d/%d" % (_f, _n, _ov, _w2, _s),
                        lambda m, h, w, f=_f, n=_n, o=_ov, w2=_w2, s=_s:
                        _sj(m, h, w, f, n, o, w2, s), A)
for _f in ("stitch_image_multiple", "join_image_multiple"):
    for _n in (False, True):
        def _mul(m, h, w, f, n):
            im = [img(h, w), img(h, w - 1, 2), img(h, w, 3)]
            ov = [[3.0, 1], [4.5, 1]]
            if m.lr:
                im, ov = im[::-1], ov[::-1]
            return m(getattr(conv, f)([m(x) for x in im], ov, n))
        add("%s/%d" % (_f, _n), lambda m, h, w, f=_f, n=_n: _mul(
            m, h, w, f, n), A, (UD,))
for _kw in (dict(), dict(denoise=False), dict(norm=True),
            dict(use_overlap=True), dict(norm=True, use_overlap=True)):
    for _ov in (14, 15):
        for _s in (0, 1):
            def _search(m, h, w, kw, o, s):
                base = smooth(h, 2 * w - o, 5)
                a, b = base[:, :w], base[:, w - o:]
                if s == 0:
                    a, b = b, a
                b = b + 0.01 * img(*b.shape, 8)
                r = calc.search_overlap(m(a), m(b), 9, m.side(s), ncore=1,
                                        **kw)
                # a window [p - r, p + r) becomes [w - p - r, w - p + r)
                q = r[0][1:]
                q = q / q.min()
                return [q[::-1] if m.lr else q, r[1]]
            add("search_overlap/%s/%d/%d" % (
                "-".join(sorted(_kw)) or "default", _ov, _s),
                lambda m, h, w, kw=_kw, o=_ov, s=_s: _search(
                    m, h, w, kw, o, s),
                SW, tol=1e-4)

            def _fo(m, h, w, kw, o, s, known):
                base = smooth(h, 2 * w - o, 5)
                a, b = base[:, :w], base[:, w - o:]
                if s == 0:
                    a, b = b, a
                r = calc.find_overlap(m(a), m(b), 9, m.side(s) if known
                                      else None, ncore=1, **kw)
                return [r[0], m.side(r[1])]
            for _kn in (True, False):
                if not _kn and ("norm" in _kw or "denoise" in _kw):
                    continue
                add("find_overlap/%s/%d/%d/%d" % (
                    "-".join(sorted(_kw)) or "default", _ov, _s, _kn),
                    lambda m, h, w, kw=_kw, o=_ov, s=_s, kn=_kn: _fo(
                        m, h, w, kw, o, s, kn), SW, tol=2e-2)

for _cf in (0.2, 0.34, 0.7, 0.85):
    for _n in ("total", "overlap", "none"):
        def _c36(m, h, w, cf, n):
            c = int(cf * w) + .3
            v = img(h, w)
            r, c1 = conv.convert_sinogram_360_to_180(
                m(v), m.x(c, w), norm={"total": "total", "overlap": "overlap",
                                       "none": None}[n])
            return [m(r), m.x(c1, r.shape[1])]
        add("convert_sinogram_360_to_180/%s/%s" % (_cf, _n),
            lambda m, h, w, cf=_cf, n=_n: _c36(m, h, w, cf, n),
            pairs((9, 11), (12, 13)), (LR,))

    def _c18(m, h, w, cf):
        return m(conv.convert_sinogram_180_to_360(m(img(h, w)), m.x(
            int(cf * w) + .3, w)))
    add("convert_sinogram_180_to_360/%s" % _cf, lambda m, h, w, cf=_cf: _c18(
        m, h, w, cf), pairs((9, 11), (12, 13)), (LR,))

    def _ext(m, h, w, cf):
        r, c = conv.extend_sinogram(m(img(h, w)), m.x(int(cf * w) + .3, w),
                                    apply_log=False)
        return [m(r), m.x(c, r.shape[1])]
    add("extend_sinogram/%s" % _cf, lambda m, h, w, cf=_cf: _ext(
        m, h, w, cf), pairs((9, 11), (12, 13)), (LR,))


def _cproj(m, h, w, c):
    """Projections 0 and 180 of an object: mirror images about the axis."""
    a = smooth(h, 3 * w, 6)
    s = int(round(2 * c))
    x0 = w
    a1 = a[:, x0:x0 + w]
    # a2[x] = a1[s - x]
    b = a[:, [x0 + s - x for x in range(w)]]
    return m.x(calc.find_center_projection(m(a1), m(b), ncore=1), w)


for _c in (9.0, 10.5, 18.0):
    add("find_center_projection/%s" % _c, lambda m, h, w, c=_c: _cproj(
        m, h, w, c), pairs((12, 13), (28, 29)), (LR,), tol=2e-2)

# ------------------------------------------------------------ correction
add("flat_field_correction/2d", lambda m, h, w: m(corr.flat_field_correction(
    m(img(h, w)), m(img(h, w, 2)), m(img(h, w, 3, 0, .1)))), A)
add("flat_field_correction/3d", lambda m, h, w: m(corr.flat_field_correction(
    m(stack(3, h, w)), m(img(h, w, 2)), m(img(h, w, 3, 0, .1)))), A)
FACT = [1.0, 4e-3, 2e-4]
for _fx in (0.0, 2.0, 3.6):
    def _uw(m, h, w, k, f):
        cx, cy = w / 2.0 - f, h / 2.0 + f / 3
        cx, cy = m.x(cx, w), m.y(cy, h)
        if k == "proj":
            return m(corr.unwarp_projection(m(img(h, w)), cx, cy, FACT))
        if k == "sino":
            r = corr.unwarp_sinogram(m(stack(3, h, w)), m.y(3, h), cx, cy,
                                     FACT)
            return m.col(r.T).T if m.lr else r
        a, b = (h - 5, h - 2) if m.ud else (2, 5)
        return m(corr.unwarp_sinogram_chunk(m(stack(3, h, w)), a, b, cx, cy,
                                            FACT))
    for _k in ("proj", "sino"):
        add("unwarp_%s/%s" % (_k, _fx), lambda m, h, w, kk=_k, f=_fx: _uw(
            m, h, w, kk, f), pairs((8, 9), (10, 11)))
    add("unwarp_sinogram_chunk/%s" % _fx, lambda m, h, w, f=_fx: _uw(
        m, h, w, "chunk", f), pairs((8, 9), (10, 11)))


def _mtf(m, h, w):
    """The window extends over the padding: no frequency response at all
    beyond the image size, a symmetric one inside."""
    y, x = np.mgrid[:h, :w]
    return m(corr.mtf_deconvolution(m(img(h, w)), 1.0 / (1 + .02 * np.hypot(
        y - h // 2, x - w // 2)), 3))


add("mtf_deconvolution", _mtf, pairs((7, 9), (11, 13)))
for _t in (3.0, -7.0, 20.0):
    def _tilt(m, h, w, k, t):
        t = m.sxy(t)
        if k == "sino":
            r = corr.generate_tilted_sinogram(m(stack(3, h, w)), m.y(3, h), t)
            return r[:, ::-1] if m.lr else r
        if k == "line":
            r = corr.generate_tilted_profile_line(m(img(h, w)), m.y(3, h), t)
            return r[::-1] if m.lr else r
        a, b = (m.y(4, h), m.y(2, h)) if m.ud else (2, 4)
        f = corr.generate_tilted_sinogram_chunk if k == "schunk" else \
            corr.generate_tilted_profile_chunk
        return m(f(m(stack(3, h, w) if k == "schunk" else img(h, w)), a, b,
                   t))
    for _k in ("sino", "line", "schunk", "pchunk"):
        add("tilted_%s/%s" % (_k, _t), lambda m, h, w, kk=_k, t=_t: _tilt(
            m, h, w, kk, t), pairs((8, 9), (10, 11)))
for _ax in (1, 0):
    add("beam_hardening_correction/%d" % _ax, lambda m, h, w, o=_ax: m(
        corr.beam_hardening_correction(m(img(h, w)), 0.005, 2.5, bool(o))), A)
for _ty in ("180", "360"):
    for _sc in (2, 4):
        add("upsample_sinogram/%s/%d" % (_ty, _sc),
            lambda m, h, w, ty=_ty, sc=_sc: [np.shape(
                corr.upsample_sinogram(m(img(h, w)), sc, m.x(w / 2.0 - 2, w),
                                       ty, pad=4))], A, (LR,))

# ----------------------------------------------------------- calculation
add("downsample_cor", lambda m, h, w: m(calc.downsample_cor(
    m(img(h - h % 2, w - w % 3)), 2, 3)), pairs((6, 8), (9, 12)))
add("correlation_metric", lambda m, h, w: calc.correlation_metric(
    m(img(h, w)), m(img(h, w, 2))), A)
for _g in (False, True):
    add("find_shift_based_phase_correlation/%d" % _g,
        lambda m, h, w, g=_g: (lambda r: [m.sy(r[0]), m.sx(r[1])])(
            calc.find_shift_based_phase_correlation(
                m(img(h, w)), m(np.roll(img(h, w), (2, -3), (0, 1)) + .1 *
                                img(h, w, 2)), g)), B, tol=2e-2)


def sino(h, w, c, full=False):
    t = np.linspace(0, (2 if full else 1) * np.pi, h)[:, None]
    x = np.arange(w)[None, :] - c
    v = np.zeros((h, w))
    for r, p, s, a in ((.30, .4, 1.6, 1.), (.22, 2.1, 2.2, .7),
                       (.12, 4.0, 2.8, .8), (.36, 5.2, 1.4, .6)):
        v += a * np.exp(-((x - r * w * np.cos(t - p)) / s) ** 2)
    return v


for _c in (-1.5, 0.0, 2.0):
    add("find_center_vo/%s" % _c, lambda m, h, w, c=_c: m.x(
        calc.find_center_vo(m.col(sino(h, w, (w - 1) / 2.0 + c).T).T if m.lr
                            else sino(h, w, (w - 1) / 2.0 + c),
                            ncore=1), w), pairs((60, 61), (48, 49)), (LR,),
        tol=2e-2)
    for _o in (0, 1):
        add("find_center_based_slice_metric/%s/%d" % (_c, _o),
            lambda m, h, w, c=_c, o=_o: m.x(
                rec.find_center_based_slice_metric(
                    m.col(sino(h, w, (w - 1) / 2.0 + c).T).T if m.lr else
                    sino(h, w, (w - 1) / 2.0 + c),
                    (w - 1) / 2.0 - 3, (w - 1) / 2.0 + 3, 1.0,
                    method="fbp", gpu=False, ncore=1, apply_log=False,
                    filter_name="hann" if o else None), w),
            pairs((24, 25), (30, 31)), (LR,), tol=2e-2)
for _s in (0, 1):
    def _c360(m, h, w, s):
        c = 4.0 if s == 0 else w - 1 - 4.0
        v = sino(h, w, c, True)
        r = calc.find_center_360(v[:, ::-1] if m.lr else v, 14, ncore=1)
        return [m.x(r[0], w), r[1], m.side(r[2])]
    add("find_center_360/%d" % _s, lambda m, h, w, s=_s: _c360(m, h, w, s),
        pairs((41, 43), (40, 41)), (LR,), tol=1e-2)

# --------------------------------------------------------------- removal
S1 = lambda h, w: smooth(h, w, 4) + np.where(np.arange(w) == 7, .1, 0)  # noqa


def SW_(h, w, n):
    """Every column with a slight gain of its own, n columns with a large
    one."""
    g = 1 + 0.08 * fill((1, w), 8, 0, 1, "f8")
    g[:, 20:20 + n] *= 3
    return (1 + smooth(h, w, 4)) * g


def SD_(h, w, n):
    """n columns that show the same in every row."""
    s = SW_(h, w, 0)
    s[:, 20:20 + n] = s[:1, 20:20 + n] + 0.3
    return s


GAU = {"method": "gaussian_filter", "para1": (1, 1)}
for _d in (1, 2):
    for _n, _c in (
            ("sorting", lambda s, d: remo.remove_stripe_based_sorting(
                s, 5, d)),
            ("filtering", lambda s, d: remo.remove_stripe_based_filtering(
                s, 3, 5, d)),
            ("filtering-nosort", lambda s, d:
             remo.remove_stripe_based_filtering(s, 3, 5, d, False)),
            ("2d_filtering_sorting", lambda s, d:
             remo.remove_stripe_based_2d_filtering_sorting(s, 3, 5, d))):
        add("remove_stripe/%s/%d" % (_n, _d), lambda m, h, w, c=_c, d=_d:
            m(c(m(S1(h, w)), d)), B)
    add("remove_all_stripe/%d" % _d, lambda m, h, w, d=_d: m(
        remo.remove_all_stripe(m(img(h, w)), 2.0, 11, 5, dim=d)), C_)
for _s in (False, True):
    for _c in (1, 2):
        add("remove_stripe_based_fitting/%d/%d" % (_s, _c),
            lambda m, h, w, s=_s, c=_c: m(remo.remove_stripe_based_fitting(
                m(S1(h, w)), 2, 5, s, c)), B)
        add("remove_stripe_based_normalization/%d/%d" % (_s, _c),
            lambda m, h, w, s=_s, c=_c: m(
                remo.remove_stripe_based_normalization(
                    m(S1(h, w)), 5, c, s)), B if _c == 1 else pairs((20, 22), (24, 25)))
        add("remove_stripe_based_regularization/%d/%d" % (_s, _c),
            lambda m, h, w, s=_s, c=_c: m(
                remo.remove_stripe_based_regularization(
                    m(S1(h, w)), 0.001, c, False, s)), B if _c == 1 else pairs(
                        (20, 22), (24, 25)), tol=1e-4)
    add("remove_stripe_based_fft/%d" % _s, lambda m, h, w, s=_s: m(
        remo.remove_stripe_based_fft(m(S1(h, w)), 5, 8, 1, s)), B)
    add("remove_stripe_based_wavelet_fft/%d" % _s, lambda m, h, w, s=_s: m(
        remo.remove_stripe_based_wavelet_fft(m(S1(h, w)), 2, 1, "haar", sort=s)),
        pairs((32, 36), (40, 44)))
    for _w1 in (1, 2, 3):
        add("remove_large_stripe/%d/wide-%d" % (_s, _w1),
            lambda m, h, w, s=_s, n=_w1: m(remo.remove_large_stripe(
                m(SW_(h, w, n)), 2.0, 15, norm=s)), C_)
        add("remove_dead_stripe/%d/wide-%d" % (_s, _w1),
            lambda m, h, w, s=_s, n=_w1: m(remo.remove_dead_stripe(
                m(SD_(h, w, n)), 2.0, 15, residual=s)), C_, (LR,))
        add("remove_stripe_based_interpolation/%d/wide-%d" % (_s, _w1),
            lambda m, h, w, s=_s, n=_w1: m(
                remo.remove_stripe_based_interpolation(
                    m(SW_(h, w, n)), 2.0, 15, norm=s)), C_)
    add("remove_large_stripe/%d" % _s, lambda m, h, w, s=_s: m(
        remo.remove_large_stripe(m(img(h, w)), 2.0, 11, norm=s)), C_)
    add("remove_dead_stripe/%d" % _s, lambda m, h, w, s=_s: m(
        remo.remove_dead_stripe(m(img(h, w)), 2.0, 11, residual=s)), C_)
    add("remove_stripe_based_interpolation/%d" % _s, lambda m, h, w, s=_s: m(
        remo.remove_stripe_based_interpolation(m(img(h, w)), 2.0, 11,
                                               norm=s)), C_)
    for _z in (1, 2, 3, 4):
        add("remove_zinger/%d/%d" % (_s, _z), lambda m, h, w, s=_s, z=_z: m(
            remo.remove_zinger(m(img(h, w)), 0.05, z, s)), B)
for _z in (1, 2, 3):
    add("select_zinger/%d" % _z, lambda m, h, w, z=_z: m(remo.select_zinger(
        m((img(h, w) < .35) * 1.0), z)), B)
add("check_zinger_size", lambda m, h, w: [bool(remo.check_zinger_size(
    m((img(h, w) < .35) * 1.0), z)) for z in range(1, 9)], A)
add("remove_blob", lambda m, h, w: m(remo.remove_blob(
    m(img(h, w)), m((img(h, w, 7) < .4) * 1.0))), A)
add("remove_blob_1d", lambda m, h, w: m.col(remo.remove_blob_1d(
    m.col(img(h, w)[0]), m.col((img(h, w, 7)[0] < .5) * 1.0))), A, (LR,))

# ------------------------------------------------------ filtering, phase
for _d in (1, 2):
    for _g in (False, True):
        add("fresnel_filter/%d/%d" % (_d, _g), lambda m, h, w, d=_d, g=_g:
            m(filt.fresnel_filter(m(img(h, w)), 20, d, pad=6, apply_log=g)),
            B, tol=1e-3)
for _it in (1, 3):
    add("double_wedge_filter/360/%d" % _it, lambda m, h, w, i=_it: m(
        filt.double_wedge_filter(m(img(h, w)), 0, "360", i, pad=5)),
        pairs((21, 23), (24, 25)))
    add("double_wedge_filter/180/%d" % _it, lambda m, h, w, i=_it: m(
        filt.double_wedge_filter(m(img(h, w)), m.x(w / 2.0 - 1.5, w),
                                 iteration=i, pad=5)), B, (LR,))
PH = pairs((10, 11), (12, 13))
for _n, _f in (
        ("get_weight_mask", ps.get_weight_mask),
        ("unwrap_cosine", ps.unwrap_phase_based_cosine_transform),
        ("unwrap_fft", ps.unwrap_phase_based_fft),
        ("unwrap_iterative", lambda a: ps.unwrap_phase_iterative_fft(a, 3))):
    add(_n, lambda m, h, w, f=_f: m(f(m(img(h, w, 2, -3, 3)))), PH)
    add(_n + "/smooth", lambda m, h, w, f=_f: m(f(m(np.angle(np.exp(
        12j * smooth(h, w, 3)))))), PH)


def _grad(m, h, w, f):
    gx, gy = img(h, w, 2, -1, 1), img(h, w, 3, -1, 1)
    r = f(m.sx(m(gx)), m.sy(m(gy)))
    r = m(r)
    return r - r.mean()


for _c in (False, True):
    add("surface_FC/%d" % _c, lambda m, h, w, c=_c: _grad(
        m, h, w, lambda a, b: ps.reconstruct_surface_from_gradient_FC_method(
            a, b, c)), PH)
    for _p in (0, 3):
        add("surface_SCS/%d/%d" % (_c, _p), lambda m, h, w, c=_c, p=_p: _grad(
            m, h, w, lambda a, b:
            ps.reconstruct_surface_from_gradient_SCS_method(a, b, c, pad=p)),
            PH)


def speck(d, h, w, dy=0.0, dx=0.0, seed=3):
    out = []
    for k in range(d):
        b = ndi.gaussian_filter(fill((h + 8, w + 8), seed + k, 0, 1, "f8"),
                                1.0)
        out.append(ndi.shift(b, (dy, dx), order=3, mode="wrap")[4:-4, 4:-4])
    return np.asarray(out)


SP = pairs((18, 19), (20, 21))


def _xy(m, r):
    return [m.sx(m(r[0])), m.sy(m(r[1]))] + [m(v) for v in r[2:]]


for _dy, _dx in ((.6, -.7), (1.0, 1.3)):
    for _d in (1, 2):
        for _mt in ("diff", "poly_fit"):
            add("find_local_shifts/%d/%s/%s" % (_d, _mt, _dx),
                lambda m, h, w, d=_d, mt=_mt, y=_dy, x=_dx: _xy(
                    m, correl.find_local_shifts(
                        m(speck(2, h, w)), m(speck(2, h, w, y, x)), dim=d,
                        win_size=5, margin=3, method=mt, ncore=1,
                        norm=False, norm_global=True)), SP, tol=1e-4)
    add("find_local_shifts_umpa/%s" % _dx, lambda m, h, w, y=_dy, x=_dx: _xy(
        m, correl.find_local_shifts_umpa(
            m(speck(2, h, w)), m(speck(2, h, w, y, x)), 5, 3, gpu=False,
            ncore=1, dark_signal=True)), SP, tol=1e-4)
    add("find_shift_based_correlation_map/%s" % _dx,
        lambda m, h, w, y=_dy, x=_dx: (lambda r: [m.sx(r[0]), m.sy(r[1])])(
            correl.find_shift_based_correlation_map(
                m(speck(1, h, w)[0]), m(speck(1, h, w, y, x)[0]), 4)), SP,
        tol=1e-4)
    for _gv in ("median", "mean", "mixed"):
        add("find_global_shift/%s/%s" % (_gv, _dx),
            lambda m, h, w, gv=_gv, y=_dy, x=_dx: (lambda r: [
                m.sx(r[0]), m.sy(r[1])])(
                correl.find_global_shift_based_local_shifts(
                    m(speck(1, h, w)[0]), m(speck(1, h, w, y, x)[0]), 5, 3,
                    list_ij=[[m.y(8, h), m.y(10, h), m.y(9, h)],
                             [m.x(9, w), m.x(11, w), m.x(8, w)]],
                    global_value=gv, ncore=1)), SP, tol=1e-4)

    def _align(m, h, w, y, x):
        sh = np.array([[m.sx(x), m.sy(y)], [m.sx(.4), m.sy(-.3)]])
        r = ps.align_image_stacks(m(speck(2, h, w)), m(speck(2, h, w, y, x)),
                                  sh)
        return [m(v) for v in r]
    add("align_image_stacks/%s" % _dx, lambda m, h, w, y=_dy, x=_dx: _align(
        m, h, w, y, x), SP)

    def _tds(m, h, w):
        r = ps.get_transmission_dark_field_signal(
            m(speck(2, h, w)), m(speck(2, h, w, .5, .3)),
            m.sx(m(img(h, w, 5, -1, 1))), m.sy(m(img(h, w, 6, -1, 1))), 5, 3,
            ncore=1)
        return [m(v) for v in r]
    if _dx < 0:
        add("get_transmission_dark_field_signal", _tds, SP, tol=1e-4)

    def _spk(m, h, w, f, y, x):
        r = ps.retrieve_phase_based_speckle_tracking(
            m(speck(2, h, w)), m(speck(2, h, w, y, x)), find_shift=f, dim=2,
            win_size=5, margin=2, dark_signal=True, return_shift=True, pad=2,
            ncore=1)
        p = m(r[2])
        return [m.sx(m(r[0])), m.sy(m(r[1])), p - p.mean()] + [
            m(v) for v in r[3:]]
    for _f in ("correl", "umpa"):
        add("retrieve_phase/%s/%s" % (_f, _dx),
            lambda m, h, w, f=_f, y=_dy, x=_dx: _spk(m, h, w, f, y, x), SP,
            tol=2e-4)
add("generate_correlation_map", lambda m, h, w: m(
    correl.generate_correlation_map(m(img(h, w)), m(img(3, 4, 2)))), A)
add("normalize_image", lambda m, h, w: m(correl.normalize_image(
    m(img(h, w)))), A)
for _pk in (True, False):
    for _mt in ("diff", "poly_fit"):
        add("locate_peak/%s/%d" % (_mt, _pk), lambda m, h, w, mt=_mt, p=_pk:
            (lambda r: [m.sx(r[0]), m.sy(r[1])])([
                a - b for a, b in zip(correl.locate_peak(
                    m(-(-1 if p else 1) * (smooth(7, 7, 9) + .01 * np.hypot(
                        *(np.mgrid[:7, :7] - 3.2)) * -10)), method=mt,
                    max_peak=p), (3, 3))]), [(7, 7)])

# -------------------------------------------------------- reconstruction
RC = pairs((13, 14), (16, 17))


def inner(r):
    """The circular mask of an even-sized slice is half a pixel off."""
    n = len(r)
    d = np.hypot(*(np.mgrid[:n, :n] - (n - 1) / 2.0))
    return np.where(d < 0.3 * n, r, 0.0)


for _m in ("fbp", "bpf", "dfi"):
    _fn = getattr(rec, _m + "_reconstruction")
    _kw = {} if _m == "dfi" else dict(gpu=False)
    for _c in (-1.3, 0.2, 0.9):
        for _fl in ("hann", None):
            for _ra in (1.0, 0.8):
                def _rc(m, h, w, fn, kw, c, fl, ra):
                    """180-degree scans: mirroring = turning the slice."""
                    c = (w - 1) / 2.0 + c
                    s = sino(h, w, c)
                    ang = np.linspace(0, np.pi, h)
                    if m.ud:
                        s, ang = s[::-1], ang[::-1]
                    if m.lr:
                        s, c = s[:, ::-1], w - 1 - c
                    r = fn(np.ascontiguousarray(s), c, np.ascontiguousarray(
                        ang), ra, filter_name=fl, apply_log=False, ncore=1,
                        **kw)
                    r = r[::-1, ::-1] if m.lr else r
                    return inner(r) if w % 2 == 0 else r
                add("%s_reconstruction/%s/%s/%s" % (_m, _c, _fl, _ra),
                    lambda m, h, w, fn=_fn, kw=_kw, c=_c, fl=_fl, ra=_ra:
                    _rc(m, h, w, fn, kw, c, fl, ra),
                    RC if _m != "dfi" else pairs((13, 14), (15, 17)))
                if _m == "dfi":
                    # the slice of an even width is half a pixel off
                    add("dfi_reconstruction/even/%s/%s/%s" % (_c, _fl, _ra),
                        lambda m, h, w, fn=_fn, kw=_kw, c=_c, fl=_fl, ra=_ra:
                        _rc(m, h, w, fn, kw, c, fl, ra),
                        pairs((13, 14), (16, 18)), (UD,))

                def _rf(m, h, w, fn, kw, c, fl, ra):
                    """Opposite turning direction = mirrored slice."""
                    c = (w - 1) / 2.0 + c
                    s = sino(h, w, c)
                    ang = np.linspace(0, np.pi, h)
                    r = fn(s, c, -ang if m.ud else ang, ra, filter_name=fl,
                           apply_log=False, ncore=1, **kw)
                    r = r[::-1] if m.ud else r
                    return inner(r) if w % 2 == 0 else r
                if _m != "dfi":
                    add("%s_reconstruction/turn/%s/%s/%s" % (
                        _m, _c, _fl, _ra),
                        lambda m, h, w, fn=_fn, kw=_kw, c=_c, fl=_fl, ra=_ra:
                        _rf(m, h, w, fn, kw, c, fl, ra), RC, (UD,))
for _fl in ("hann", None, "ramp"):
    add("apply_ramp_filter/%s" % _fl, lambda m, h, w, f=_fl: m(
        rec.apply_ramp_filter(m(img(h, w)), filter_name=f, pad=4)), RC)
    add("apply_circular_ramp_filter/%s" % _fl, lambda m, h, w, f=_fl: m(
        rec.apply_circular_ramp_filter(m(img(w, w)), filter_name=f, pad=4)),
        RC)


def _vert(m, h, w, c, a, **kw):
    n = 9
    s = stack(n, h, w, 3)
    ff, df = img(h, w, 5, .9, 1), img(h, w, 6, 0, .1)
    c = (w - 1) / 2.0 + c
    return m, s, ff, df, c


for _c in (-1.3, 0.2, 0.9):
    for _a in (0.0, 20.0, 90.0, 130.0):
        for _r in ("before", "after"):
            def _v(m, h, w, c, a, r):
                """Upside down: the vertical slice upside down."""
                c = (w - 1) / 2.0 + c
                return m(vrec.vertical_reconstruction(
                    m(stack(9, h, w, 3)), 7, c, a, m(img(h, w, 5, .9, 1)),
                    m(img(h, w, 6, 0, .1)), np.linspace(0, np.pi, 9),
                    ramp_filter=r, gpu=False, ncore=1, chunk_size=4,
                    show_progress=False))
            add("vertical_reconstruction/ud/%s/%s/%s" % (_c, _a, _r),
                lambda m, h, w, c=_c, a=_a, r=_r: _v(m, h, w, c, a, r),
                pairs((8, 9), (15, 16)), (UD,))

            def _v2(m, h, w, c, a, r):
                """Left-right mirrored projections: slice turned by 180."""
                c = (w - 1) / 2.0 + c
                x = 6
                out = vrec.vertical_reconstruction(
                    m(stack(9, h, w, 3)), m.x(x, w), m.x(c, w), a,
                    m(img(h, w, 5, .9, 1)), m(img(h, w, 6, 0, .1)),
                    np.linspace(0, np.pi, 9), ramp_filter=r, gpu=False,
                    ncore=1, chunk_size=4, show_progress=False)
                return out[:, ::-1] if m.lr else out
            add("vertical_reconstruction/lr/%s/%s/%s" % (_c, _a, _r),
                lambda m, h, w, c=_c, a=_a, r=_r: _v2(m, h, w, c, a, r),
                pairs((8, 9), (15, 17)), (LR,))

# --------------------------------------------------------------- utility
for _ax in (0, 1):
    add("sort/%d" % _ax, lambda m, h, w, a=_ax: (lambda r: m(
        util.sort_backward(r[0], r[1], a)))(util.sort_forward(
            m(img(h, w)), a)), A)
    add("separate_frequency_component/%d" % _ax, lambda m, h, w, a=_ax: [
        m(v) for v in util.separate_frequency_component(m(img(h, w)), a)], B)
    for _o in (1, 2, 3):
        add("generate_fitted_image/%d/%d" % (_ax, _o),
            lambda m, h, w, a=_ax, o=_o: m(util.generate_fitted_image(
                m(img(h, w)), o, a, 1)), B)
    add("apply_regularization_filter/%d" % _ax, lambda m, h, w, a=_ax: m(
        util.apply_regularization_filter(m(img(h, w)), 0.01, a, 1)), A)
for _kd in ("linear", "cubic", "quintic"):
    add("interpolate_inside_stripe/" + _kd, lambda m, h, w, kd=_kd: m(
        util.interpolate_inside_stripe(m(img(h, w)), m.col(np.isin(
            np.arange(w), (3, 4)) * 1.0), kd)), A, tol=1e-4)
add("detect_stripe", lambda m, h, w: m.col(util.detect_stripe(m.col(
    np.where(np.arange(w) == 9, 3.0, 1.0) + .1 * img(h, w)[0]), 2.0)),
    C_, (LR,))
add("apply_gaussian_filter", lambda m, h, w: m(util.apply_gaussian_filter(
    m(img(h, w)), 3, 4, 4)), A)
add("detect_sample/360", lambda m, h, w: bool(util.detect_sample(
    m(sino(h, w, (w - 1) / 2., True)), "360")), B)
for _n in ("forward", "backward"):
    pass
for _fm in (1, 8):
    add("rescale/%d" % _fm, lambda m, h, w: m(post.rescale(
        m(img(h, w)), 8)).astype("f4"), A)
for _mt in ("mean", "median", "max", "min"):
    add("downsample/" + _mt, lambda m, h, w, mt=_mt: m(post.downsample(
        m(img(h, w)), (2, 3), mt)), pairs((6, 8), (9, 12)))
add("get_statistical_information", lambda m, h, w: list(
    post.get_statistical_information(m(img(h, w)), (5, 95), True)), A)
for _s in (False, True):
    add("remove_ring_based_fft/%d" % _s, lambda m, h, w, s=_s: inner(m(
        post.remove_ring_based_fft(m(img(w, w)), 3, sort=s)) * (
            np.arange(w) != (w - 1) / 2.0)[:, None]),
        pairs((1,), (24, 25)), (UD,), tol=5e-3)

# ------------------------------------------------------------ simulation
for _an in (0.0, 20.0, -35.0):
    for _mk in ("elliptic", "rectangular"):
        add("make_%s_mask/%s" % (_mk, _an), lambda m, h, w, mk=_mk, a=_an: m(
            getattr(sim, "make_%s_mask" % mk)(
                w, (m.sx(1.0) - (m.lr and w % 2 == 0),
                    m.sy(2.0) + (m.ud and w % 2 == 0)), (6.2, 8.7),
                m.sxy(a))),
            pairs((1,), (23, 24, 25)))


def _msino(m, h, w):
    p = img(w, w, 3)
    ang = np.linspace(0, np.pi, h)
    if m.lr and m.ud:
        # the phantom turned by 180 degrees
        return sim.make_sinogram(np.ascontiguousarray(p[::-1, ::-1]), ang)[
            :, ::-1]
    if m.ud:
        return sim.make_sinogram(np.ascontiguousarray(p[::-1]), -ang)
    if m.lr:
        return sim.make_sinogram(np.ascontiguousarray(p[:, ::-1]), -ang)[
            :, ::-1]
    return sim.make_sinogram(p, ang)


add("make_sinogram", _msino, pairs((9, 10), (15, 17)))

# ----------------------------------------------------------- calibration


def dots(h, w):
    v = np.zeros((h, w))
    yy, xx = np.mgrid[:h, :w]
    for y in (12, 34):
        for x in (13, 30, 42):
            v += ((yy - y) ** 2 + (xx - x) ** 2 < 14)
    return 0.8 - 0.6 * v + 0.02 * fill((h, w), 4, -1, 1, "f8")


DT = pairs((48, 49), (52, 53))
add("normalize_background", lambda m, h, w: m(calib.normalize_background(
    m(dots(h, w)), 11)), DT)
add("normalize_background_based_fft", lambda m, h, w: m(
    calib.normalize_background_based_fft(m(dots(h, w)), 5, 6)), DT)
for _bg in ("bright",):
    for _nm in (False, True):
        add("binarize_image/%d" % _nm, lambda m, h, w, n=_nm: m(
            calib.binarize_image(m(dots(h, w)), None, "bright", n)), DT)
    add("calculate_threshold", lambda m, h, w: calib.calculate_threshold(
        m(dots(h, w)), "bright"), DT)
for _so in ("max", "min", "median", "mean"):
    add("get_dot_size/" + _so, lambda m, h, w, so=_so: calib.get_dot_size(
        m((dots(h, w) < .5) * 1.0), so), DT)
add("select_dot_based_size", lambda m, h, w: m(calib.select_dot_based_size(
    m((dots(h, w) < .5) * 1.0), 13, 0.2)), DT)
_T = np.linspace(0, 2 * np.pi, 12)[:-1]
for _r in (1.5, -2.0):
    def _tr(m, h, w, r, how):
        x = w + 9 * np.cos(_T)
        y = h + 2.5 * np.sin(_T) + 0.02 * r * 9 * np.cos(_T)
        f = getattr(calib, how)
        t, o = f(m.x(x, w), m.y(y, h))
        return [t, m.sxy(o)]
    for _h in ("find_tilt_roll", "find_tilt_roll_based_ellipse_fit",
               "find_tilt_roll_based_linear_fit"):
        add("%s/%s" % (_h, _r), lambda m, h, w, r=_r, how=_h: _tr(
            m, h, w, r, how), A, tol=1e-4)

    def _el(m, h, w, r):
        x = w + 9 * np.cos(_T)
        y = h + 2.5 * np.sin(_T) + 0.1 * r * 9 * np.cos(_T)
        p = calib.fit_points_to_ellipse(m.x(x, w), m.y(y, h))
        return [m.sxy(p[0]), p[1], p[2], m.x(p[3], w), m.y(p[4], h)]
    add("fit_points_to_ellipse/%s" % _r, lambda m, h, w, r=_r: _el(
        m, h, w, r), A, tol=1e-3)


def walk(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from walk(x)
    elif o is not None:
        yield np.asarray(o, dtype=np.float64)


def differ(p, q):
    """Largest difference relative to the largest value."""
    p, q = list(walk(p)), list(walk(q))
    if len(p) != len(q):
        return np.inf
    d = 0.0
    for a, b in zip(p, q):
        if a.shape != b.shape:
            return np.inf
        if a.size:
            s = max(float(np.abs(a).max()), 1e-9)
            d = max(d, float(np.abs(a - b).max()) / s)
    return d


def one(ctx, name, h, w):
    fn, sizes, acts, tol = ENTRIES[name]
    ref = quiet(fn, ID, h, w)
    for m in acts:
        ctx.step()
        ctx.state((name, h, w, str(m)))
        d = differ(ref, quiet(fn, m, h, w))
        check(d <= tol, "mirrored %s: result differs by %.1e" % (m, d))
    return (name, h, w, [np.round(v, 3) for v in walk(ref)])


def run(ctx):
    for name in sorted(ENTRIES):
        sizes = ENTRIES[name][1]
        if ctx.thorough and not name.startswith((
                "downsample", "find_center_projection", "find_center_based")):
            sizes = sorted({(h + 4 * i, w + 4 * j) for h, w in sizes
                            for i in range(3) for j in range(3)})
        for h, w in sizes:
            ctx.case("%s/%dx%d" % (name, h, w), one, ctx, name, h, w)
