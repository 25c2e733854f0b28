"""P25: stripe removal.

Three families of sinograms, all stripe columns away from the borders:

flat     g(y) + stripe: every column equal, so the restored sinogram is known.
         Full stripes (constant over the rows), and stripes that live in one
         chunk of rows for the chunked methods.
noisy    a smooth varying sinogram with noise: large, dead, fluctuating and
         half-way stripes for the methods that detect stripes.
bulk     a realistic sinogram: the stripe column is strongly reduced and a
         stripe-free sinogram hardly changes.

Symmetries of the technique: scaling the sinogram scales the result, the
result does not depend on the memory type, the caller's array is untouched.
"""
import numpy as np

import algotom.prep.removal as rem
from mc.core import check, exact, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of methods, parameters and "
             "stripe places, widths, signs and kinds on the real code "
             "against the stripe-free sinogram")
LEVEL = "model_checking"
LEVEL_NOTE = "All methods and all stripe columns within the bounds."
RULE = ("case = (family, method and parameters, shape, stripe kind, width); "
        "state = one stripe place")
ASSUMPTIONS = ["stripes are at least 8 columns away from the borders and at "
               "most 5 columns wide, separated and above the noise",
               "methods are asked only for the kind of stripe they are "
               "documented for"]

MED = {"method": "median_filter", "para1": (1, 11)}
MED1 = {"method": "median_filter", "para1": 11}
GAU = {"method": "gaussian_filter", "para1": (11, 1)}


def call(name, **kw):
    return lambda s: quiet(getattr(rem, name), s, **kw)


def flat_methods():
    """name -> (function, widths, residual of the stripe allowed, change of a
    stripe-free flat sinogram allowed, chunks, only positive values)"""
    m = {}
    for dim in (1, 2):
        m["sorting-dim%d" % dim] = (
            call("remove_stripe_based_sorting", size=11, dim=dim),
            (1, 2, 3, 5) if dim == 1 else (1, 2),
            0.0 if dim == 1 else 0.2, 0.08, 1, False)
    m["sorting-opt"] = (call("remove_stripe_based_sorting", o=MED),
                        (1, 2, 3, 5), 0.0, 1e-6, 1, False)
    for sort in (True, False):
        m["filtering-sort%d" % sort] = (
            call("remove_stripe_based_filtering", sigma=3, size=11,
                 sort=sort), (1, 2, 3, 5), 0.04, 1e-5, 1, False)
        for ch in (1, 2, 3):
            if sort and ch > 1:
                continue
            m["normalization-sort%d-ch%d" % (sort, ch)] = (
                call("remove_stripe_based_normalization", sigma=9, sort=sort,
                     num_chunk=ch), (1, 2), 0.12, 1e-5, ch, False)
            m["normalization-opt-sort%d-ch%d" % (sort, ch)] = (
                call("remove_stripe_based_normalization", sort=sort,
                     num_chunk=ch, o=MED1), (1, 2, 3), 1e-5, 1e-5, ch, False)
            m["regularization-sort%d-ch%d" % (sort, ch)] = (
                call("remove_stripe_based_regularization", sort=sort,
                     num_chunk=ch, apply_log=False), (1, 2), 0.12, 1e-4, ch,
                False)
            m["fitting-sort%d-ch%d" % (sort, ch)] = (
                call("remove_stripe_based_fitting", sort=sort, order=1,
                     num_chunk=ch, sigma=5), (1, 2), 0.3 + 0.1 * ch, 0.2, ch, True)
        m["fft-sort%d" % sort] = (
            call("remove_stripe_based_fft", u=8, sort=sort), (1, 2), 0.45,
            1e-4, 1, False)
        for win in ("gaussian", "butter"):
            m["wavelet-sort%d-%s" % (sort, win)] = (
                call("remove_stripe_based_wavelet_fft", size=1, sort=sort,
                     window_name=win), (1,), 0.35, 1e-4, 1, False)
    m["regularization-log"] = (
        call("remove_stripe_based_regularization"), (1, 2), 0.15, 1e-3, 1,
        True)
    m["2dfiltering"] = (
        call("remove_stripe_based_2d_filtering_sorting", sigma=3, size=11),
        (1, 2), 0.17, 0.4, 1, False)
    return m


def rows(nrow, kind):
    y = np.linspace(0, 1, nrow)
    if kind == "ramp":
        g = 1.0 + 0.5 * y
    elif kind == "wave":
        g = 1.2 + 0.4 * np.cos(2 * np.pi * y)
    elif kind == "neg":
        g = -0.4 + 0.7 * y
    else:
        g = np.full(nrow, 0.8)
    return g


def flat(ctx, name, shape, kind, amp, width, dt):
    fun, _, resid, tol, chunk, pos = flat_methods()[name]
    nrow, ncol = shape
    g = np.repeat(rows(nrow, kind)[:, None], ncol, 1).astype(dt)
    ctx.step()
    base = np.asarray(fun(g.copy()))
    check(base.shape == shape, "shape %s" % (base.shape,))
    check(np.isfinite(base).all(), "not finite")
    d = np.abs(base - g).max()
    check(d <= tol, "stripe-free flat sinogram changed by %.3g" % d)
    blocks = np.array_split(np.arange(nrow), chunk)
    for col in range(8, ncol - 7 - width):
        for ib, blk in enumerate(blocks):
            if len(blocks) > 1 or True:
                mat = g.copy()
                mat[blk[0]:blk[-1] + 1, col:col + width] += amp
                keep = mat.copy()
                ctx.step()
                ctx.state((name, shape, kind, amp, width, dt, col, ib))
                out = np.asarray(fun(mat))
                exact(mat, keep, "caller's sinogram changed")
                check(out.shape == shape, "shape %s" % (out.shape,))
                check(np.isfinite(out).all(), "not finite")
                left = np.abs((out - base)[blk, col:col + width].mean(0))
                lim = abs(amp) * resid * width + 2e-5
                check(left.max() <= lim,
                      "stripe at columns %d..%d, rows %d..%d: %.4g of %.4g "
                      "left" % (col, col + width - 1, blk[0], blk[-1],
                                left.max(), abs(amp)))
                far = np.ones(ncol, bool)
                far[max(0, col - 6):col + width + 6] = False
                oth = np.abs((out - base)[:, far].mean(0)).max()
                check(oth <= abs(amp) * 0.12 * width + 1e-5,
                      "columns far from the stripe at %d changed by %.4g"
                      % (col, oth))
    return name


def noisy_sino(shape, seed):
    nrow, ncol = shape
    t = np.linspace(0, np.pi, nrow)[:, None]
    x = np.linspace(-1, 1, ncol)[None, :]
    clean = 1.0 + 0.3 * np.sin(2 * t) + 0.1 * x
    n = np.random.default_rng(seed).normal(size=shape)
    return (clean + 0.01 * n).astype(np.float32)


def defect(mat, kind, sl, seed):
    n = mat.shape[0]
    if kind == "gain+":
        mat[:, sl] *= 1.4
    elif kind == "gain-":
        mat[:, sl] *= 0.6
    elif kind == "add+":
        mat[:, sl] += 0.5
    elif kind == "add-":
        mat[:, sl] -= 0.5
    elif kind == "soft":
        mat[:, sl] += 0.5
        mat[:, [sl.start - 1, sl.stop]] += SOFT
    elif kind == "dead":
        mat[:, sl] = 0.9
    elif kind == "fluct":
        rng = np.random.default_rng(seed)
        mat[:, sl] = 1 + 0.3 * rng.normal(size=mat[:, sl].shape)
    elif kind == "top":
        mat[:n // 2, sl] += 0.5
    else:
        mat[n // 2:, sl] += 0.5


SOFT = 0.02
LARGE = ("soft", "gain+", "gain-", "add+", "add-", "top", "bottom")
DEAD = ("dead", "fluct", "top", "bottom")


def noisy_methods():
    m = {}
    for norm in (True, False):
        m["large-norm%d" % norm] = (call(
            "remove_large_stripe", snr=3.0, size=21, norm=norm), LARGE, 2.0,
            0.02 if norm else 0.0)
    m["large-opt"] = (call("remove_large_stripe", snr=3.0,
                           o={"method": "median_filter", "para1": (1, 21)}),
                      LARGE, 2.0, 0.02)
    m["large-drop0"] = (call("remove_large_stripe", snr=3.0, size=21,
                             drop_ratio=0.0), LARGE, 2.0, 0.02)
    m["large-drop04"] = (call("remove_large_stripe", snr=3.0, size=21,
                              drop_ratio=0.4), LARGE, 2.0, 0.02)
    m["dead"] = (call("remove_dead_stripe", snr=3.0, size=21,
                      residual=False), DEAD, 2.0, 0.0)
    m["dead-residual"] = (call("remove_dead_stripe", snr=3.0, size=21),
                          LARGE + ("dead", "fluct"), 2.0, 0.02)
    for dim in (1, 2):
        m["all-dim%d" % dim] = (call("remove_all_stripe", snr=3.0,
                                     la_size=21, sm_size=11, dim=dim),
                                LARGE + ("dead", "fluct"), 2.0, 0.05)
    for kind in ("linear", "cubic", "quintic"):
        m["interp-%s" % kind] = (call(
            "remove_stripe_based_interpolation", snr=3.0, size=21,
            kind=kind), LARGE[1:] + ("dead",), 2.0 if kind == "linear" else 6.0,
            0.02)
    m["interp-nonorm"] = (call("remove_stripe_based_interpolation", snr=3.0,
                               size=21, norm=False), LARGE + ("dead",), 2.0,
                          0.0)
    return m


def slackness(shape):
    """Limits are tuned on the shapes of the quick tier."""
    return 1.0 if shape in ((64, 96), (63, 97)) else 1.5


def noisy(ctx, name, shape, kind, width):
    fun, _, lim, tol = noisy_methods()[name]
    clean = noisy_sino(shape, 0)
    ctx.step()
    base = np.asarray(fun(clean.copy()))
    d = np.abs(base - clean).max()
    if shape not in ((64, 96), (63, 97)):
        tol = 0.06      # a noisy column may count as a stripe
    slack = slackness(shape)
    check(base.shape == shape and np.isfinite(base).all(), "shape/finite")
    check(d <= tol + 1e-6, "stripe-free sinogram changed by %.3g" % d)
    for col in range(8, shape[1] - 7 - width, ctx.pick(3, 1)):
        mat = clean.copy()
        defect(mat, kind, slice(col, col + width), col)
        keep = mat.copy()
        ctx.step()
        ctx.state((name, shape, kind, width, col))
        out = np.asarray(fun(mat))
        exact(mat, keep, "caller's sinogram changed")
        check(out.shape == shape, "shape %s" % (out.shape,))
        check(np.isfinite(out).all(), "not finite, column %d" % col)
        ref = clean
        if name.startswith("large") and kind in ("top", "bottom"):
            #  the grey values come back, their order within the column is
            #  that of the damaged column
            out, ref = np.sort(out, 0), np.sort(clean, 0)
        err = np.abs(out - ref).mean(0) / 0.01
        hit = err[col - 1:col + width + 1].max()
        check(hit <= lim * slack, "stripe %s at columns %d..%d: %.2f noise levels "
              "left" % (kind, col, col + width - 1, hit))
        err[col - 1:col + width + 1] = 0
        check(err.max() <= lim * slack, "stripe %s at %d: column %d changed by %.2f "
              "noise levels" % (kind, col, int(err.argmax()), err.max()))
    return name


def bulk_sino(shape):
    nrow, ncol = shape
    t = np.linspace(0, np.pi, nrow)[:, None]
    x = ((np.arange(ncol) - ncol / 2) / (ncol / 2))[None, :]
    c = 0.25 * np.cos(t) + 0.1 * np.sin(t)
    a = np.exp(-((x - c) / 0.25) ** 2) + \
        0.6 * np.exp(-((x + 1.3 * c) / 0.35) ** 2) + 0.5
    n = np.random.default_rng(3).normal(size=shape)
    return (a + 0.002 * n).astype(np.float32)


#  method -> (function, residual of a single-column stripe (largest, mean over
#  the columns), mean change of the stripe-free sinogram)
def bulk_methods():
    c = call
    return {
        "sorting": (c("remove_stripe_based_sorting", size=11), .65, .35,
                    .006),
        "sorting2": (c("remove_stripe_based_sorting", size=7, dim=2), .65,
                     .35, .006),
        "filtering": (c("remove_stripe_based_filtering", sigma=3, size=11),
                      .65, .36, .006),
        "filtering-nosort": (c("remove_stripe_based_filtering", sigma=3,
                               size=11, sort=False), .65, .4, .005),
        "fitting": (c("remove_stripe_based_fitting", order=2, sigma=5), .17,
                    .15, .03),
        "fitting-sort": (c("remove_stripe_based_fitting", order=2, sigma=5,
                           sort=True), .17, .15, .03),
        "fitting-ch": (c("remove_stripe_based_fitting", order=2, sigma=5,
                         num_chunk=3), .17, .15, .03),
        "2dfs": (c("remove_stripe_based_2d_filtering_sorting", sigma=3,
                   size=11), .17, .1, .01),
        "normalization": (c("remove_stripe_based_normalization", sigma=7),
                          .09, .08, .06),
        "normalization-ch": (c("remove_stripe_based_normalization", sigma=7,
                               sort=False, num_chunk=3), .09, .08, .08),
        "fft": (c("remove_stripe_based_fft", u=8), .2, .2, .002),
        "fft-sort": (c("remove_stripe_based_fft", u=8, sort=True), .2, .2,
                     .01),
        "wavelet": (c("remove_stripe_based_wavelet_fft", size=1), .38, .31,
                    .002),
        "wavelet-butter": (c("remove_stripe_based_wavelet_fft", size=1,
                             window_name="butter"), .38, .31, .002),
        "wavelet-sort": (c("remove_stripe_based_wavelet_fft", size=1,
                           sort=True), .38, .31, .003),
        "wavelet-opt": (c("remove_stripe_based_wavelet_fft", f=GAU), .75,
                        .65, .003),
        "regularization": (c("remove_stripe_based_regularization",
                             sort=False), .1, .08, None),
    }


def bulk(ctx, name, shape, amp, sign):
    fun, worst, mean, tol = bulk_methods()[name]
    clean = bulk_sino(shape) * np.float32(sign)
    ctx.step()
    base = np.asarray(fun(clean.copy()))
    check(base.shape == shape and np.isfinite(base).all(), "shape/finite")
    d = np.abs(base - clean).mean()
    slack = slackness(shape)
    check(tol is None or d <= tol * slack,
          "stripe-free sinogram changed by %.4g" % d)
    res = []
    for col in range(12, shape[1] - 12, ctx.pick(3, 1)):
        mat = clean.copy()
        mat[:, col] += amp
        ctx.step()
        ctx.state((name, shape, amp, sign, col))
        out = np.asarray(fun(mat))
        check(out.shape == shape and np.isfinite(out).all(), "shape/finite")
        res.append(abs((out[:, col] - base[:, col]).mean()) / abs(amp))
        check(res[-1] <= worst * slack, "stripe at column %d: %.3f of it left"
              % (col, res[-1]))
    check(np.mean(res) <= mean * slack, "mean residual %.3f" % np.mean(res))
    return name


def symmetry(ctx, name, fam, shape):
    if fam == "flat":
        fun, mat = flat_methods()[name][0], bulk_sino(shape)
    else:
        fun, mat = noisy_methods()[name][0], noisy_sino(shape, 1)
    mat[:, shape[1] // 3] += 0.3
    ctx.step(6)
    base = np.asarray(fun(mat.copy()))
    scale = np.abs(base).max()
    for k in (4.0, 0.125):
        got = np.asarray(fun(mat * np.float32(k))) / k
        same(got, base, "scaled by %g" % k, rtol=1e-3, atol=2e-4 * scale)
        ctx.state((name, shape, k))
    got = np.asarray(fun(mat.astype(np.float64)))
    same(got, base, "double precision", rtol=1e-3, atol=2e-4 * scale)
    got = np.asarray(fun(np.asfortranarray(mat)))
    same(got, base, "column-major memory", rtol=1e-4, atol=1e-5 * scale)
    big = np.zeros((shape[0] * 2, shape[1] * 2), np.float32)
    big[::2, ::2] = mat
    got = np.asarray(fun(big[::2, ::2]))
    same(got, base, "strided view", rtol=1e-4, atol=1e-5 * scale)
    if not name.startswith(("wavelet", "interp", "dead", "all", "2df")):
        got = np.asarray(fun(np.ascontiguousarray(mat[:, ::-1])))[:, ::-1]
        same(got, base, "mirrored", rtol=1e-3, atol=1e-2 * scale)
    return name


OPT = [("remove_stripe_based_sorting", {}),
       ("remove_stripe_based_filtering", {}),
       ("remove_stripe_based_fitting", {}),
       ("remove_large_stripe", {}),
       ("remove_stripe_based_normalization", {}),
       ("remove_stripe_based_wavelet_fft", {}),
       ("remove_stripe_based_interpolation", {})]


def options(ctx, name):
    mat = noisy_sino((32, 48), 2)
    fun = getattr(rem, name)
    for bad in ({"method": "no_such_filter", "para1": 3}, "median_filter",
                {"method": "median_filter", "para1": "x"}):
        ctx.step()
        ctx.state((name, str(bad)))
        got = raises(lambda: quiet(fun, mat.copy(), opt=bad), ValueError)
        check(got is True, "options %r: %s" % (bad, got))
    return name


def run(ctx):
    shapes = ctx.pick([(24, 40), (25, 37)],
                      [(24, 40), (25, 37), (31, 48), (40, 40)])
    for name, (_, widths, _, _, _, pos) in flat_methods().items():
        for shape in shapes:
            if name.startswith("wavelet"):
                shape = (shape[0] + 30, shape[1] + 25)
            for kind in ("ramp", "wave", "const", "neg"):
                if pos and kind == "neg":
                    continue
                if name.startswith("fitting") and kind == "wave":
                    continue
                for width in widths:
                    for amp in (0.2, -0.2):
                        for dt in ("f4", "f8"):
                            ctx.case("flat/%s/%dx%d/%s/w%d/%+g/%s" % (
                                name, *shape, kind, width, amp, dt), flat,
                                ctx, name, shape, kind, amp, width, dt)
    shapes = ctx.pick([(64, 96), (63, 97)],
                      [(64, 96), (63, 97), (80, 81), (63, 96)])
    for name, (_, kinds, _, _) in noisy_methods().items():
        for shape in shapes:
            for kind in kinds:
                for width in (1, 2, 3, 5):
                    ctx.case("noisy/%s/%dx%d/%s/w%d" % (
                        name, *shape, kind, width), noisy, ctx, name, shape,
                        kind, width)
    for name in bulk_methods():
        for shape in shapes:
            for amp in (0.1, -0.1):
                for sign in (1, -1):
                    if sign == -1 and name == "regularization":
                        continue
                    ctx.case("bulk/%s/%dx%d/%+g/%d" % (
                        name, *shape, amp, sign), bulk, ctx, name, shape,
                        amp, sign)
    for shape in ((32, 48), (33, 47)):
        for name in flat_methods():
            ctx.case("symmetry/%s/%dx%d" % (name, *shape), symmetry, ctx,
                     name, "flat", shape)
        for name in noisy_methods():
            ctx.case("symmetry/%s/%dx%d" % (name, *shape), symmetry, ctx,
                     name, "noisy", shape)
    for name, _ in OPT:
        ctx.case("options/%s" % name, options, ctx, name)
