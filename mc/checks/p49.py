"""P49: windows, masks, fits and scan plans are what their definition says.

Enumerated: filter windows by height x width x cut-off x order x row band;
double-wedge masks by size x radius x drop bands; parabola fits by list length
x vertex x curvature x shape of the remaining list; spiral plans by step x
number x field x shape; radial windows by length; sample detection by sinogram
size x object position x size, with empty scans; folder
creation by path layout.
Oracle: the closed formula of each helper, or the answer known by
construction.
"""
import itertools
import os

import numpy as np

import algotom.prep.filtering as filt
import algotom.io.loadersaver as losa
import algotom.prep.calculation as calc
import algotom.prep.correction as corr
import algotom.rec.reconstruction as rec
import algotom.util.utility as util
from mc.core import Violation, check, fill, quiet, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of the arguments of each design "
             "helper on the real code against its closed formula")
LEVEL = "model_checking"
LEVEL_NOTE = "all combinations of the listed argument alphabets"
RULE = "case = one helper with one argument tuple"
ASSUMPTIONS = ["sample detection is a heuristic: it is required to be right "
               "for well-sampled sinograms of one disk and for scans of "
               "nothing (a uniform image)"]


# ------------------------------------------------------------------ windows
def butterworth(ctx, h, w, u, v, n):
    ctx.step()
    got = np.asarray(util.make_2d_butterworth_window(w, h, u, v, n))
    want = np.ones((h, w))
    for r in range(h):
        if abs(r - h // 2) <= v:
            for c in range(w):
                want[r, c] = 1.0 / (1 + (abs(c - w // 2) / u) ** (2 * n))
    same(got, want, "Butterworth window", rtol=1e-5, atol=1e-6)


def damping(ctx, h, w, size, name):
    ctx.step()
    got = np.asarray(util.make_2d_damping_window(w, h, size, name))
    x = np.abs(np.arange(w) - w // 2) / float(size)
    row = x * x / (1 + x * x) if name == "butter" else -np.expm1(-x * x / 2)
    same(got, np.repeat(row[None], h, 0), "damping window", rtol=1e-5,
         atol=1e-7)


def radial(ctx, n, kind, order, mode):
    ctx.step()
    c = n // 2
    x = np.arange(n) - c
    if kind == "gauss":
        win = np.exp(-x ** 2 / (2.0 * (0.3 * n) ** 2))
    elif kind == "ramp":
        win = np.abs(x) / float(c)
    else:
        win = 1.0 / (1 + (x / (0.25 * n)) ** 4)
    got = np.asarray(util.transform_1d_window_to_2d(win, order=order,
                                                    mode=mode))
    check(got.shape == (n, n), "square window", got.shape)
    y = x[:, None]
    r = np.minimum(np.hypot(x[None], y), c)
    if order == 1:
        # the window is interpolated on the side the point lies on
        side = np.where(y < 0, c - r, c + r)
        # an even window has no sample at the last place of the right side
        side = np.minimum(side, 2 * (n - 1) - side if mode == "mirror"
                          else n - 1)
        want = np.interp(side.ravel(), np.arange(n), win).reshape(n, n)
        ok = np.ones((n, n), bool) if mode != "constant" else r < c - 1
        # on the horizontal axis either side may be read
        ok &= (y != 0) | (r < (n - 1 - c))
        same(np.where(ok, got, 0), np.where(ok, want, 0), "radial window",
             rtol=1e-4, atol=2e-5)
    else:
        inner = r < c - 1
        f = {"gauss": lambda r: np.exp(-r ** 2 / (2.0 * (0.3 * n) ** 2)),
             "ramp": lambda r: r / float(c),
             "butter": lambda r: 1 / (1 + (r / (0.25 * n)) ** 4)}[kind]
        d = np.abs(got - f(r))[inner]
        check(d.size == 0 or d.max() < 0.08, "radial window departs from the "
              "profile", d.max() if d.size else 0)


# -------------------------------------------------------------------- wedge
def wedge(ctx, h, w, radius, hd, vd):
    ctx.step()
    got = np.asarray(calc.make_inverse_double_wedge_mask(h, w, radius, hd,
                                                         vd))
    check(got.shape == (h, w), "shape", got.shape)
    yc, xc = int(np.ceil((h - 1) / 2.0)), int(np.ceil((w - 1) / 2.0))
    nd = min(20, int(0.05 * h)) if hd is None else \
        min(max(int(hd), 1), h // 3)
    vr = 1 if vd is None else min(max(int(vd), 1), w // 3)
    slope = (h - 1.0) / (h * 2 * np.pi) / radius * w
    for r in range(h):
        x = abs(r - yc) * slope
        for c in range(w):
            d = abs(c - xc)
            if abs(r - yc) <= nd or d <= vr:
                want = 0
            elif d <= np.floor(x - 1e-9):
                want = 1
            elif d > np.ceil(x + 1e-9):
                want = 0
            else:                          # rounding of the border
                check(got[r, c] in (0, 1), "binary")
                continue
            check(got[r, c] == want, "mask value at %d,%d" % (r, c),
                  got[r, c], want)


def dwedge(ctx, h, w, radius):
    """The double-wedge mask: zero within the wedge, one elsewhere and in the
    three middle rows."""
    ctx.step()
    got = np.asarray(filt.make_double_wedge_mask(h, w, radius))
    check(got.shape == (h, w), "shape", got.shape)
    yc, xc = int(np.ceil((h - 1) / 2.0)), int(np.ceil((w - 1) / 2.0))
    y = np.abs(np.arange(h) - yc)[:, None]
    d = np.abs(np.arange(w) - xc)[None, :]
    x = y * ((h - 1.0) / (h * 2 * np.pi) / radius * w)
    lo = (d <= np.floor(x - 1e-9)) & (y > 1)
    hi = (d > np.ceil(x + 1e-9)) | (y <= 1)
    if (x > 1e9).any():
        return
    check(np.isin(got, (0, 1)).all(), "binary")
    bad = np.argwhere((lo & (got != 0)) | (hi & (got != 1)))
    check(len(bad) == 0, "mask wrong at %d places" % len(bad), bad[:3])


# ---------------------------------------------------------------- curvature
def curvature(ctx, n, vertex, a, off, tail):
    """A parabola around its vertex; far away the list only has to be larger
    than the minimum."""
    ctx.step()
    x = np.arange(n)
    y = a * (x - vertex) ** 2 + off
    if tail == "flat":
        y = np.where(np.abs(x - vertex) > 3.6, a * 3.6 ** 2 + off, y)
    elif tail == "linear":
        y = np.where(np.abs(x - vertex) > 3.6,
                     off + a * 3.6 * np.abs(x - vertex), y)
    got = quiet(calc.calculate_curvature, y)
    check(len(got) == 2, "two results")
    check(abs(float(got[0]) - a) < 1e-4 * a, "curvature", got[0], a)
    check(abs(float(got[1]) - vertex) < 1e-3, "vertex", got[1], vertex)


def edge_minimum(ctx, vals):
    """Any list: the position stays near the (clipped) smallest element."""
    ctx.step()
    v = np.array(vals, np.float64)
    got = quiet(calc.calculate_curvature, v)
    p = min(max(int(np.argmin(v)), 2), len(v) - 3)
    check(np.isfinite(got[0]) and got[0] >= 0, "curvature", got[0])
    q = np.polyfit(np.arange(5), v[p - 2:p + 3], 2)[0]
    check(abs(got[0] - abs(q)) < 1e-6, "curvature", got[0], abs(q))
    s = v[p - 1] - 2 * v[p] + v[p + 1]
    want = p
    if s == 0 and v[p - 1] == v[p + 1]:
        check(abs(float(got[1]) - p) <= 1 + 1e-6, "position", got[1], p)
        return None
    if s != 0:
        m = p - (v[p + 1] - v[p - 1]) / 2.0 / s
        if abs(m - p) < 1 - 1e-6:
            want = m
        elif abs(m - p) < 1 + 1e-6:
            return None
    if abs(s) < 1e-9 and s != 0:
        return None
    check(abs(float(got[1]) - want) < 1e-3, "position", got[1], want)
    return round(float(want), 3)


# ------------------------------------------------------------------- spiral
def spiral(ctx, step, num, h, w, shape):
    phi = np.pi * (1 + np.sqrt(5.0)) + shape * np.pi
    want = [(step * np.sqrt(i) * np.cos(i * phi),
             step * np.sqrt(i) * np.sin(i * phi)) for i in range(num)]
    over = max([max(abs(x) - w // 2, abs(y) - h // 2) for x, y in want] +
               [-1])
    if abs(over) < 1e-6:
        return None
    ctx.step()
    try:
        got = np.asarray(util.generate_spiral_positions(
            step, num, h, w, spiral_shape=shape))
    except ValueError:
        check(over > 0, "all positions are inside the field", over)
        ctx.rejected += 1
        return "refused"
    check(over < 0, "a position is outside the field of view", over)
    check(got.shape == (num, 2), "shape", got.shape)
    same(got, np.array(want).reshape(num, 2), "positions", rtol=1e-4,
         atol=1e-4 * step)
    return num


# ----------------------------------------------------------- DFI coordinate
def dfi_coord(ctx, ws, hs, wr, hr):
    """Every frequency of the reconstruction is read from the line of its
    angle at the distance of its radius; opposite frequencies share a line."""
    ctx.step()
    r, t = rec.generate_mapping_coordinate(ws, hs, wr, hr)
    r, t = np.asarray(r, np.float64), np.asarray(t, np.float64)
    check(r.shape == (hr, wr) and t.shape == (hr, wr), "shape", r.shape)
    xc, yc = (wr - 1) / 2.0, (hr - 1) / 2.0
    rm = np.floor(min(xc, yc))
    for i in range(hr):
        for j in range(wr):
            x, y = xc - j, i - yc
            rad = min(np.hypot(x, y), rm)
            th = np.arctan2(y, x) + np.pi
            cand = []
            for k in (-1, 0, 1, 2):
                a = th - k * np.pi
                if -1e-6 <= a <= np.pi + 1e-6:
                    s = rad if k % 2 == 0 else -rad
                    cand.append((min(max(s + rm, 0), ws - 1),
                                 a * (hs - 1) / np.pi))
            d = min(abs(r[i, j] - p) + abs(t[i, j] - q) for p, q in cand)
            check(d < 1e-3 * max(ws, hs), "coordinate at %d,%d" % (i, j),
                  (r[i, j], t[i, j]), cand)


# ------------------------------------------------------------------- sample
def disk_sino(h, w, x, y, rad, full, start):
    ang = start + np.linspace(0, 2 * np.pi if full else np.pi, h)
    t = np.arange(w) - (w - 1) / 2.0
    d = t[None] - (x * np.cos(ang) + y * np.sin(ang))[:, None]
    return np.float32(np.exp(-0.2 * np.sqrt(np.maximum(rad * rad - d * d,
                                                       0))))


def sample(ctx, h, w, R, th, rad, full):
    ctx.step()
    s = disk_sino(h, w, R * w * np.cos(th), R * w * np.sin(th),
                  0.5 * rad * w + 1, full, 0.0)
    got = quiet(util.detect_sample, s, "360" if full else "180")
    check(bool(got) is True, "a sample is in the beam but was not detected",
          got)


def nothing(ctx, h, w, kind, full):
    ctx.step()
    s = np.ones((h, w), np.float32)
    if kind == "zero":
        s = s * 0
    got = quiet(util.detect_sample, s, "360" if full else "180")
    check(bool(got) is False, "a sample was detected in a scan of nothing",
          got)


# ------------------------------------------------------------------ folders
def folder(ctx, parts, is_file, existing, depth):
    d = ctx.scratch()
    path = os.path.join(d, *parts)
    target = os.path.dirname(path) if is_file else path
    if existing:
        os.makedirs(os.path.join(d, *parts[:depth]), exist_ok=True)
        keep = os.path.join(d, "keep.txt")
        with open(keep, "w") as fo:
            fo.write("x")
    ctx.step()
    quiet(losa.make_folder, path)
    check(os.path.isdir(target), "folder missing", target)
    if is_file:
        check(not os.path.lexists(path), "the file itself was created")
    quiet(losa.make_folder, path)            # once more: nothing to do
    got = sorted(os.path.relpath(os.path.join(b, x), d)
                 for b, ds, fs in os.walk(d) for x in ds + fs)
    want = {os.path.join(*parts[:k]) for k in range(
        1, len(parts) + (0 if is_file else 1))}
    if existing:
        want |= {"keep.txt"}
    check(got == sorted(want), "what is on disk", got, sorted(want))
    ctx.drop(d)


def folder_blocked(ctx, parts):
    """A file stands where a folder is needed: refused, nothing changed."""
    d = ctx.scratch()
    with open(os.path.join(d, parts[0]), "w") as fo:
        fo.write("data")
    ctx.step()
    try:
        quiet(losa.make_folder, os.path.join(d, *parts))
    except ValueError:
        ctx.rejected += 1
    except Exception as e:
        raise Violation("%s instead of ValueError" % type(e).__name__)
    else:
        raise Violation("impossible folder reported as made")
    with open(os.path.join(d, parts[0])) as fo:
        check(fo.read() == "data", "the file in the way was changed")
    ctx.drop(d)


# ----------------------------------------------------------------- response
def response(ctx, q, n, opt, x):
    ctx.step()
    got = float(corr.non_linear_function(x, q, n, opt))
    t = 1 - x if opt else x
    v = np.log1p(q * (n * t - t ** n)) / np.log1p(q * (n - 1))
    want = 1 - v if opt else v
    check(abs(got - want) < 1e-9 + 1e-9 * abs(want), "response", got, want)


def run(ctx):
    T = ctx.thorough
    hs = [1, 2, 3, 5, 8, 9, 16, 31] + ([12, 33, 64] if T else [])
    ws = [2, 3, 5, 8, 9, 16, 33] + ([12, 31, 64] if T else [])
    for h, w in itertools.product(hs, ws):
        for u, v, n in itertools.product([1, 2, 5, 20, 2.5],
                                         [0, 1, 2, 4, 9, 40], [1, 2, 8, 3]):
            ctx.case("butter/%d/%d/%g/%d/%d" % (h, w, u, v, n), butterworth,
                     ctx, h, w, u, v, n)
        for size, name in itertools.product([1, 2, 5, 30, 0.5],
                                            ["gaussian", "butter"]):
            ctx.case("damping/%d/%d/%g/%s" % (h, w, size, name), damping, ctx,
                     h, w, size, name)
    for n, kind, order, mode in itertools.product(
            [3, 4, 5, 8, 9, 16, 17, 33] + ([32, 64, 65] if T else []),
            ["gauss", "ramp", "butter"], [1, 3],
            ["reflect", "nearest", "mirror", "constant"]):
        ctx.case("radial/%d/%s/%d/%s" % (n, kind, order, mode), radial, ctx,
                 n, kind, order, mode)
    for h, w in itertools.product([3, 4, 7, 12, 21, 40, 64],
                                  [3, 4, 8, 13, 32, 33]):
        for radius, hd, vd in itertools.product(
                [0.5, 1, 4, 10, 40, 1000], [None, 0, 1, 3, 50],
                [None, 0, 1, 2, 50]):
            ctx.case("wedge/%d/%d/%g/%s/%s" % (h, w, radius, hd, vd), wedge,
                     ctx, h, w, radius, hd, vd)
        for radius in (0.5, 1, 2.5, 4, 10, 40, 1000):
            ctx.case("dwedge/%d/%d/%g" % (h, w, radius), dwedge, ctx, h, w,
                     radius)
    for h, w in ((3602, 2560), (1801, 2561), (2000, 300), (301, 4000)):
        for radius in (1, 3, 10, 20, 100, 1000):
            ctx.case("dwedge/%d/%d/%g" % (h, w, radius), dwedge, ctx, h, w,
                     radius)
    for n, a, off, tail in itertools.product(
            [5, 6, 9, 20, 41], [0.01, 1.0, 30.0], [0.0, -5.0, 100.0],
            ["parabola", "flat", "linear"]):
        for k in range(8, (n - 2) * 4 - 3):
            vertex = k / 4.0
            # the two lowest points and their neighbours must be on the list
            if vertex < 2 or vertex > n - 3:
                continue
            ctx.case("parabola/%d/%g/%g/%s/%g" % (n, a, off, tail, vertex),
                     curvature, ctx, n, vertex, a, off, tail)
    for vals in itertools.product(range(4), repeat=5):
        ctx.case("fit5/%d%d%d%d%d" % vals, edge_minimum, ctx, vals)
    for vals in itertools.product(range(3), repeat=7):
        ctx.case("fit7/%s" % "".join(map(str, vals)), edge_minimum, ctx,
                 vals)
    for step, num, h, w, shape in itertools.product(
            [1, 5, 20, 0.5], [1, 2, 3, 10, 50, 200], [16, 41, 100, 601],
            [16, 41, 100, 601], [1.0, 0.0, 0.5, 2.0, -1.3]):
        ctx.case("spiral/%g/%d/%d/%d/%g" % (step, num, h, w, shape), spiral,
                 ctx, step, num, h, w, shape)
    for ws_, hs_, wr, hr in itertools.product(
            [5, 8, 9, 17], [3, 7, 12], [5, 8, 9, 17], [5, 8, 9]):
        ctx.case("dfi-coord/%d/%d/%d/%d" % (ws_, hs_, wr, hr), dfi_coord, ctx,
                 ws_, hs_, wr, hr)
    for h, w, full in itertools.product(
            [91, 121, 181] if not T else [91, 121, 151, 181, 241],
            [64, 65, 100] if not T else [64, 65, 80, 100, 128],
            [False, True]):
        if not (1.5 if full else 0.9) * w <= h <= 3 * w:
            continue
        for R, th, rad in itertools.product([.2, .3, .4], range(8),
                                            [.03, .1, .2]):
            ctx.case("sample/%d/%d/%s/%g/%d/%g" % (h, w, full, R, th, rad),
                     sample, ctx, h, w, R, th, rad, full)
    for h, w, full, kind in itertools.product(
            [31, 64, 91, 180], [32, 65, 100], [False, True],
            ["uniform", "zero"]):
        ctx.case("nothing/%d/%d/%s/%s" % (h, w, full, kind), nothing, ctx, h,
                 w, kind, full)
    for parts, is_file in [(("a",), False), (("a", "b"), False),
                           (("a", "b", "c"), False), (("a.tif",), True),
                           (("a", "b.tif"), True), (("a", "b", "c.h5"), True),
                           (("a b", "c-d", "e.f.tif"), True),
                           (("x", "1"), False)]:
        for existing, depth in itertools.product([False, True], [0, 1, 2]):
            if depth and not existing or depth >= len(parts) + (not is_file):
                continue
            ctx.case("folder/%s/%s/%d" % ("+".join(parts), existing, depth),
                     folder, ctx, parts, is_file, existing, depth)
    for parts in (("f", "b"), ("f", "b", "c"), ("f", "b", "c.tif")):
        ctx.case("blocked/%s" % "+".join(parts), folder_blocked, ctx, parts)
    for q, n, opt in itertools.product([0.005, 0.1, 1, 50], [2, 2.5, 3, 8],
                                       [True, False]):
        for k in range(11):
            ctx.case("response/%g/%g/%s/%d" % (q, n, opt, k), response, ctx,
                     q, n, opt, k / 10.0)
