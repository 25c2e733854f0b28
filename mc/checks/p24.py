"""P24: sorting, frequency separation and wavelets lose nothing.

Sorting: every image of a small shape over a small grey-level alphabet (so all
tie patterns), both axes, several types.  Frequency separation: every shape,
axis and window of a list.  Wavelets: every image size (both parities), wavelet
and level, and every choice of component to filter or to ignore.
"""
import itertools

import numpy as np
import pywt

import algotom.util.utility as util
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of small images, shapes, "
             "windows and wavelet levels on the real code")
LEVEL = "model_checking"
LEVEL_NOTE = "All small images with every tie pattern; all shapes in range."
RULE = ("case = one image row prefix (all completions), shape or wavelet "
        "set; state = one image or parameter set")
ASSUMPTIONS = ["wavelet images of at least 16 pixels a side", "a wavelet "
               "level may be counted from the coarse or the fine end when "
               "filtering components"]


def sorting(ctx, shape, prefix, levels, dt):
    n = shape[0] * shape[1] - len(prefix)
    for rest in itertools.product(levels, repeat=n):
        mat = np.array(prefix + rest, dtype=dt).reshape(shape)
        for axis in (0, 1):
            ctx.step(2)
            ctx.state((shape, mat.tobytes(), dt, axis))
            keep = mat.copy()
            srt, idx = util.sort_forward(mat, axis=axis)
            check(np.array_equal(mat, keep), "caller's image changed")
            exact(srt, np.sort(mat, axis=axis), "sorted along axis %d" % axis)
            check(idx.shape == mat.shape, "index shape", idx.shape)
            exact(np.take_along_axis(mat, idx.astype(int), axis), srt,
                  "index does not describe the order")
            k1, k2 = srt.copy(), idx.copy()
            back = util.sort_backward(srt, idx, axis=axis)
            exact(back, mat, "un-sorting axis %d" % axis)
            exact(srt, k1, "sorted image changed")
            exact(idx, k2, "index changed")
            # any image goes back along the same permutation
            other = np.arange(mat.size, dtype=float).reshape(shape)
            want = np.zeros(shape)
            np.put_along_axis(want, idx.astype(int), other, axis)
            exact(util.sort_backward(other, idx, axis=axis), want,
                  "un-sorting another image")
    return (shape, prefix, dt)


def random_sort(ctx, h, w, dt):
    mat = fill((h, w), h * 13 + w, -50, 50, np.float64)
    mat = np.round(mat).astype(dt) if dt != "float64" else mat
    for axis in (0, 1):
        ctx.step(2)
        ctx.state((h, w, dt, axis))
        srt, idx = util.sort_forward(mat, axis=axis)
        exact(srt, np.sort(mat, axis=axis), "sorted")
        exact(util.sort_backward(srt, idx, axis=axis), mat, "un-sorted")
        exact(np.sort(idx, axis=axis), np.broadcast_to(
            np.arange(mat.shape[axis])[:, None] if axis == 0 else
            np.arange(mat.shape[axis]), mat.shape), "index no permutation")
    return srt


def freq(ctx, h, w, axis, winkey, dt):
    mat = fill((h, w), h * 5 + w, 0, 100, np.float64).astype(dt)
    n = h if axis == 0 else w
    win = {"default": None, "g2": {"name": "gaussian", "sigma": 2},
           "g9": {"name": "gaussian", "sigma": 9},
           "hann": {"name": "hann"},
           "kaiser": {"name": "kaiser", "beta": 8.0},
           "ones": np.ones(n), "arr": np.linspace(0.1, 0.9, n)}[winkey]
    keep = mat.copy()
    ctx.step()
    ctx.state((h, w, axis, winkey, dt))
    low, high = util.separate_frequency_component(mat, axis=axis, window=win)
    check(np.array_equal(mat, keep), "caller's image changed")
    check(low.shape == mat.shape and high.shape == mat.shape, "shape")
    same(np.asarray(low, float) + np.asarray(high, float), mat,
         "low + high", 1e-5, 1e-5)
    if winkey == "ones" and "float" in dt:
        same(low, mat, "all-pass window", 1e-4, 1e-4)
    if "float" in dt:
        # lines are treated independently and linearly
        m2 = mat * 0
        k = (w if axis == 0 else h) // 2
        if axis == 0:
            m2[:, k] = mat[:, k]
        else:
            m2[k] = mat[k]
        l2 = util.separate_frequency_component(m2, axis=axis, window=win)[0]
        want = np.zeros_like(np.asarray(low, float))
        if axis == 0:
            want[:, k] = low[:, k]
        else:
            want[k] = low[k]
        same(l2, want, "lines mix", 1e-4, 1e-4)
        # axis=0 is axis=1 of the transposed image
        lt = util.separate_frequency_component(mat.T, axis=1 - axis,
                                               window=win)[0]
        same(lt.T, low, "axes treated differently", 1e-5, 1e-5)
        if winkey in ("default", "g9") and n >= 20:
            c = util.separate_frequency_component(
                np.full((h, w), 7, dt), axis=axis, window=win)[0]
            check(np.abs(c - 7).max() < 0.7, "low part loses the level",
                  float(np.abs(c - 7).max()))
            alt = np.where(np.arange(n) % 2, 1.0, -1.0).astype(dt)
            a = np.tile(alt, (w if axis == 0 else h, 1))
            a = a.T if axis == 0 else a
            lo = util.separate_frequency_component(
                np.ascontiguousarray(a), axis=axis, window=win)[0]
            check(np.abs(lo).max() < 0.7, "highest frequency in low part",
                  float(np.abs(lo).max()))
    if isinstance(win, np.ndarray):
        check(raises(lambda: util.separate_frequency_component(
            mat, axis=axis, window=np.ones(n + 1))) is True,
            "wrong window length accepted")
        ctx.rejected += 1
    return np.round(low, 1)


def wavelet(ctx, h, w, name, level):
    mat = fill((h, w), h * 3 + w, -5, 5, np.float64)
    top = int(min(np.floor(np.log2(h / 16.0)), np.floor(np.log2(w / 16.0))))
    want = top if level is None or level > top or level < 1 else level
    ctx.step(2)
    ctx.state((h, w, name, level))
    data = quiet(util.apply_wavelet_decomposition, mat, name, level)
    check(len(data) == want + 1, "number of levels", len(data) - 1, want)
    rec = quiet(util.apply_wavelet_reconstruction, data, name)
    check(rec.shape[0] - h in (0, 1) and rec.shape[1] - w in (0, 1),
          "shape", rec.shape)
    same(rec[:h, :w], mat, "reconstruction", 1e-6, 1e-6)
    # ignoring a level = zeroing its details (1 = finest)
    for ig in [None, 0, want + 1] + list(range(1, want + 1)):
        ctx.step()
        for typ in (list, tuple):
            d = typ(data)
            got = quiet(util.apply_wavelet_reconstruction, d, name, ig)
            ref = list(data)
            if ig and 1 <= ig <= want:
                ref[-ig] = tuple(np.zeros_like(c) for c in ref[-ig])
            same(got, pywt.waverec2(ref, name), "ignore level %s" % ig, 1e-6,
                 1e-6)
            check(all(a is b for a, b in zip(d, data)), "caller's list")
    # filtering a component touches nothing else
    sets = [None] + list(range(1, want + 1)) + (
        [[1, want], (1,)] if want > 1 else [])
    snap = [np.copy(data[0])] + [[c.copy() for c in t] for t in data[1:]]
    for lev in sets:
        for order in (0, 1, 2):
            if want == 0:
                continue
            for meth, para in ((None, None), ("gaussian_filter", [(3, 1)]),
                               ("median_filter", [(3, 3)]),
                               ("median_filter", 3),
                               ("apply_gaussian_filter", [5, 5])):
                ctx.step()
                try:
                    out = quiet(util.apply_filter_to_wavelet_component, data,
                                lev, order, meth, para)
                except ValueError:
                    if meth == "apply_gaussian_filter":
                        continue
                    raise
                check(len(out) == len(data), "number of levels")
                exact(out[0], data[0], "approximation changed")
                touched = []
                for i in range(1, want + 1):
                    for o in range(3):
                        c0, c1 = data[i][o], out[i][o]
                        check(c0.shape == c1.shape, "component shape")
                        if o != order:
                            exact(c1, c0, "other component changed")
                        elif not np.array_equal(c0, c1):
                            touched.append(i)
                            if meth == "gaussian_filter":
                                import scipy.ndimage as ndi
                                same(c1, ndi.gaussian_filter(c0, (3, 1)),
                                     "filtered component", 1e-6, 1e-7)
                ask = list(range(1, want + 1)) if lev is None else \
                    sorted({lev} if isinstance(lev, int) else set(lev))
                # coefficients are ordered from the coarsest level down
                ask = sorted(want + 1 - i for i in ask)
                check(touched == ask, "filtered levels", touched, ask)
                for a, b in zip(data[1:], snap[1:]):
                    check(all(np.array_equal(x, y) for x, y in zip(a, b)),
                          "caller's coefficients changed")
    for bad in (0, want + 1, [0], [1, want + 1], "1", 1.5):
        if want == 0:
            break
        ctx.rejected += 1
        check(raises(lambda: quiet(util.apply_filter_to_wavelet_component,
                                   data, bad)) is True,
              "bad level accepted", bad)
    return (h, w, name, want)


def run(ctx):
    for shape in ctx.pick([(1, 4), (4, 1), (2, 3), (3, 2), (2, 4)],
                          [(1, 5), (5, 1), (2, 3), (3, 2), (2, 4), (4, 2),
                           (3, 3)]):
        for dt in ctx.pick(["float32", "uint8"], ["float32", "uint8",
                                                  "float64"]):
            lv = (0, 1, 2) if shape[0] * shape[1] > 6 else (0, 1, 2, 5)
            for prefix in itertools.product(lv, repeat=2):
                ctx.case("sort/%s/%s/%s" % (shape, dt, prefix), sorting, ctx,
                         shape, prefix, lv, dt)
    for h in (1, 2, 7, 16, 31):
        for w in (1, 2, 7, 16, 31):
            for dt in ("float32", "float64", "int16", "uint8"):
                if dt == "uint8":
                    continue
                ctx.case("rsort/%d/%d/%s" % (h, w, dt), random_sort, ctx, h,
                         w, dt)
    for n in range(1, ctx.pick(300, 1100)):
        for h, w in ((n, 2), (2, n)):
            ctx.case("rsort/%d/%d/every" % (h, w), random_sort, ctx, h, w,
                     "float32")
    for h, w in ctx.pick([(2, 300), (300, 2), (3, 5000), (5000, 3),
                          (2, 70000)],
                         [(2, 300), (300, 2), (3, 5000), (5000, 3),
                          (3, 70000), (70000, 3), (2, 140000)]):
        for dt in ("float32", "float64", "int16"):
            ctx.case("rsort/%d/%d/%s" % (h, w, dt), random_sort, ctx, h, w,
                     dt)
    for h in ctx.pick([5, 10, 21, 40], [3, 5, 9, 10, 20, 21, 39, 40, 64]):
        for w in ctx.pick([5, 10, 21, 40], [3, 5, 9, 10, 20, 21, 39, 40, 64]):
            for axis in (0, 1):
                for win in ("default", "g2", "g9", "hann", "kaiser", "ones",
                            "arr"):
                    for dt in ("float32", "float64"):
                        ctx.case("freq/%d/%d/%d/%s/%s" % (h, w, axis, win,
                                                          dt), freq, ctx, h,
                                 w, axis, win, dt)
    for h in ctx.pick([16, 33, 64], [16, 17, 32, 33, 63, 64, 65, 128]):
        for w in ctx.pick([16, 33, 64], [16, 17, 32, 33, 63, 64, 65, 128]):
            for name in ctx.pick(["db1", "db5", "sym4"],
                                 ["db1", "db2", "db5", "db9", "sym4",
                                  "bior3.5", "haar"]):
                for level in (None, 0, 1, 2, 3, 9):
                    ctx.case("wave/%d/%d/%s/%s" % (h, w, name, level),
                             wavelet, ctx, h, w, name, level)
