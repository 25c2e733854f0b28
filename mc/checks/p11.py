"""P11: downsample and rescale arithmetic, exhaustively over small images.

downsample: every shape up to 5x5 (thorough 7x7), every cell pair up to 3
(4), methods, pixel types; rescale: every image of up to 3 (4) pixels over a
grey-level alphabet with extreme values, explicit ranges inside/outside the
image range, bit depths, pixel types, 1D-3D.
Oracle: cell-by-cell and pixel-by-pixel definition; monotonicity and endpoint
invariants checked on every output.
"""
import itertools

import numpy as np

from mc.core import Violation, check, fill, quiet, same
from mc.checks.p08 import near
import algotom.post.postprocessing as post

TECHNIQUE = ("bounded-exhaustive enumeration of images and parameters on the "
             "real code against a reference model and invariants")
LEVEL = "model_checking"
LEVEL_NOTE = ("All shapes/cells up to the bound with labelled images; all "
              "images over a grey-level alphabet up to the pixel bound.")
RULE = "case = one call; outcome = result array"
ASSUMPTIONS = ["the grey-level range is not empty (min < max)",
               "integer rounding at level borders is not part of the claim"]

FUN = {"mean": np.mean, "median": np.median, "max": np.max, "min": np.min}


def down(ctx, shape, cell, method, dt):
    a = fill(shape, 3, 0, 250, np.float64).astype(dt)
    keep = a.copy()
    c = (cell, cell) if isinstance(cell, int) else cell
    ctx.step()
    got = quiet(post.downsample, a, cell, method=method)
    n = (shape[0] // c[0], shape[1] // c[1])
    want = np.zeros(n)
    for i, j in np.ndindex(*n):
        want[i, j] = FUN[method](a[i * c[0]:(i + 1) * c[0],
                                   j * c[1]:(j + 1) * c[1]].astype(float))
    if want.size == 0:
        check(np.size(got) == 0, "incomplete cells kept")
        return "empty"
    same(got, want, "downsampled", rtol=1e-5)
    check(np.array_equal(a, keep), "input changed")
    return got


def resc(ctx, a, nbit, mm):
    ctx.step()
    got = quiet(post.rescale, a, nbit=nbit, minmax=mm)
    top = 2 ** nbit - 1
    f = a.astype(np.float64)
    lo, hi = (f.min(), f.max()) if mm is None else mm
    check(got.dtype == np.dtype("uint%d" % nbit), "pixel type", got.dtype)
    want = (np.clip(f, lo, hi) - lo) / (hi - lo) * top
    near(got, want, "rescaled")
    g, v = got.ravel().astype(int), f.ravel()
    check(all(g[v <= lo] == 0), "values at or below the range", g, v)
    check(all(g[v >= hi] == top), "values at or above the range", g, v)
    o = np.argsort(v, kind="stable")
    check(all(np.diff(g[o]) >= 0), "order of grey levels", g, v)
    return got


def limits(ctx, shape, crop, dt, nbit, hot):
    """Without given limits, those of the selected volume are used, whatever
    one side of the data (number hot) holds."""
    a = fill(shape, 8, 10, 200, np.float64)
    side = [slice(None)] * 3
    side[hot // 2] = 0 if hot % 2 == 0 else -1
    a[tuple(side)] *= 7.0
    a = a.astype(dt)
    sel = a[tuple(slice(crop[2 * k], shape[k] - crop[2 * k + 1])
                  for k in range(3))]
    ctx.step(2)
    ctx.state((shape, crop, dt, nbit, hot))
    got = quiet(post.rescale_dataset, a, None, nbit, skip=1, crop=crop)
    want = quiet(post.rescale_dataset, sel.copy(), None, nbit, skip=1,
                 minmax=(float(sel.min()), float(sel.max())))
    check(np.array_equal(got, want), "limits of the selected volume")
    if sel.dtype.kind == "f":
        ctx.step()
        got = quiet(post.downsample_dataset, a, None, 1, rescaling=True,
                    nbit=nbit, skip=1, crop=crop)
        check(np.array_equal(got, want), "downsampling: limits of the "
              "selected volume")
    return (shape, crop)


def run(ctx):
    top, ct = ctx.pick(5, 7), ctx.pick(3, 4)
    cells = list(range(1, ct + 1)) + [
        c for c in itertools.product(range(1, ct + 1), repeat=2)]
    for h, w in itertools.product(range(1, top + 1), repeat=2):
        for cell, m in itertools.product(cells, FUN):
            for dt in (("float32", "uint8") if h * w < 12 or ctx.thorough
                       else ("float32",)):
                ctx.case("down/%dx%d/%s/%s/%s" % (
                    h, w, str(cell).replace(" ", ""), m, dt), down, ctx,
                    (h, w), cell, m, dt)
    levels = {"float32": [-1e6, -2.5, 0.0, 0.25, 7.0, 3e5],
              "float64": [-1e12, -1.0, 0.0, 1e-3, 1.0, 1e12],
              "uint8": [0, 1, 100, 128, 254, 255],
              "uint16": [0, 1, 255, 256, 40000, 65535],
              "int16": [-32768, -1, 0, 1, 20000, 32767],
              "int32": [-2 ** 31, -1, 0, 1, 7, 2 ** 31 - 1]}
    for dt, al in levels.items():
        for n in range(1, ctx.pick(3, 4) + 1):
            for vals in itertools.product(al, repeat=n):
                a = np.array(vals, dtype=dt)
                ranges = [(float(x), float(y)) for x, y in
                          itertools.combinations(sorted(al), 2)] \
                    if n <= ctx.pick(2, 3) else []
                ranges += [(-3.5, 1e3)]
                if len(set(vals)) > 1:
                    ranges = [None] + ranges
                for mm, nbit in itertools.product(ranges, (8, 16)):
                    ctx.case("scale/%s/%s/%s/%d" % (dt, vals, mm, nbit),
                             resc, ctx, a, nbit, mm)
    for shape in ((2, 3), (2, 2, 3), (1, 5), (3, 1, 1)):
        for dt, nbit, mm in itertools.product(
                levels, (8, 16), (None, (10.0, 150.0))):
            a = fill(shape, 8, 0, 200, np.float64).astype(dt)
            ctx.case("scalend/%s/%s/%d/%s" % (shape, dt, nbit, mm), resc,
                     ctx, a, nbit, mm)

    for shape in ctx.pick([(4, 3, 3)], [(4, 3, 3), (2, 5, 4), (5, 2, 3)]):
        for crop in itertools.product((0, 1), repeat=6):
            if any(crop[2 * k] + crop[2 * k + 1] >= shape[k]
                   for k in range(3)):
                continue
            for dt, nbit, hot in itertools.product(
                    ("float32", "uint16"), (8, 16), range(6)):
                ctx.case("limits/%s/%s/%s/%d/%d" % (
                    shape, crop, dt, nbit, hot), limits, ctx, shape, crop, dt,
                    nbit, hot)

    def bad(nbit):
        ctx.step()
        try:
            quiet(post.rescale, np.arange(4.0), nbit=nbit)
        except ValueError:
            ctx.rejected += 1
            return "rejected"
        raise Violation("bit depth accepted")
    for nbit in (0, 1, 4, 12, 24, 32, 64, -8):
        ctx.case("bad/nbit%d" % nbit, bad, nbit)
