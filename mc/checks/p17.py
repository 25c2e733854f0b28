"""P17: slice location in grid scans; repair of overlap metadata.

Every grid of 2-4 rows, every row height in a range and every overlap tuple
for which at most two rows see a slice, both sides, integer and float
metadata, all slices (also out of range) and all chunks.  Oracle: each grid
row is laid down on a physical axis; a slice maps to the rows covering it.
Metadata repair: every zero/non-zero pattern of every small grid.
"""
import itertools

import numpy as np

from mc.core import check, quiet
import algotom.util.utility as util

TECHNIQUE = ("bounded-exhaustive enumeration of grid geometries and slice "
             "ranges on the real code against a geometric reference model")
LEVEL = "model_checking"
LEVEL_NOTE = "All grids, slices and chunks within the bounds; no sampling."
RULE = ("case = one grid geometry (all its slices and chunks) or one "
        "metadata pattern; state = (grid, slice or chunk)")
ASSUMPTIONS = ["overlaps are whole pixels, one side per grid, and no slice "
               "lies in more than two rows"]


def model(height, ovs, side):
    """{global slice: [(row, local index, weight)]}"""
    out = {}
    off = 0
    n = len(ovs) + 1
    for i in range(n):
        for k in range(height):
            g = off + k
            loc = k if side == 1 else height - 1 - k
            w = 1.0
            if i > 0 and k < ovs[i - 1]:
                o = ovs[i - 1]
                w = 0.5 if o == 1 else k / (o - 1.0)
            if i < n - 1 and height - 1 - k < ovs[i]:
                o = ovs[i]
                w = 0.5 if o == 1 else (height - 1 - k) / (o - 1.0)
            out.setdefault(g, []).append((i, loc, w))
        if i < n - 1:
            off += height - ovs[i]
    return out


def entries(res):
    res = list(res)
    if len(res) == 3 and np.ndim(res[0]) == 0:
        res = [res]
    return sorted((int(r[0]), int(r[1]), float(r[2])) for r in res)


def agree(got, want, what):
    want = sorted(want)
    check([g[:2] for g in got] == [w[:2] for w in want],
          what + ": rows and local indices", got, want)
    for g, w in zip(got, want):
        check(abs(g[2] - w[2]) < 1e-5, what + ": weight", got, want)


def grid(ctx, height, ovs, side, ncol, dt):
    meta = np.zeros((len(ovs), ncol, 2), dtype=dt)
    for i, o in enumerate(ovs):
        meta[i, :, 0] = o
    meta[:, :, 1] = side
    keep = meta.copy()
    m = model(height, ovs, side)
    total = max(m) + 1
    for s in range(-2, total + 3):
        ctx.step()
        ctx.state((height, ovs, side, s))
        got = entries(quiet(util.locate_slice, s, height, meta))
        agree(got, m.get(s, []), "slice %d" % s)
        if got:
            check(abs(sum(g[2] for g in got) - 1) < 1e-5, "weights sum",
                  s, got)
    for a in range(0, total):
        for z in range(a, total + 1):
            ctx.step()
            ctx.state((height, ovs, side, a, z))
            res = quiet(util.locate_slice_chunk, a, z, height, meta)
            flat = [e for row in res for e in row]
            for row in res:
                check(len({int(e[0]) for e in row}) == 1,
                      "a chunk list mixes grid rows", row)
                loc = [int(e[1]) for e in row]
                step = 1 if side == 1 else -1
                check(loc == list(range(loc[0], loc[0] + step * len(loc),
                                        step)),
                      "local indices out of order", loc)
            agree(entries(flat) if flat else [],
                  [e for s in range(a, z) for e in m[s]],
                  "chunk %d:%d" % (a, z))
    try:
        quiet(util.locate_slice_chunk, 1, 0, height, meta)
        check(False, "reversed chunk accepted")
    except ValueError:
        ctx.rejected += 1
    check(np.array_equal(meta, keep), "metadata changed")
    return (height, ovs, side)


def repair(ctx, pat, direction):
    n, m = pat.shape
    meta = np.zeros((n, m, 2))
    for i, j in np.ndindex(n, m):
        if pat[i, j]:
            meta[i, j] = (10 + 3 * i + j, (i + j) % 2)
        else:
            meta[i, j] = (0, (i * m + j) % 2)
    keep = meta.copy()
    ctx.step()
    got = quiet(util.fix_non_sample_areas, meta, direction=direction)
    check(np.array_equal(meta, keep), "caller's metadata changed")
    check(got.shape == meta.shape, "shape", got.shape)
    good = {tuple(meta[i, j]) for i, j in np.ndindex(n, m) if pat[i, j]}
    for i, j in np.ndindex(n, m):
        e = tuple(got[i, j])
        if pat[i, j]:
            check(e == tuple(keep[i, j]), "trustworthy entry changed",
                  (i, j), e)
            continue

        def near(cells):
            return [tuple(keep[a, b]) for a, b in cells
                    if 0 <= a < n and 0 <= b < m and pat[a, b]]
        row = near([(i, j - 1), (i, j + 1)])
        col = near([(i - 1, j), (i + 1, j)])
        first, second = (row, col) if direction == "vertical" else (col, row)
        if first:
            check(e in first, "not copied from the neighbour along the other "
                  "direction", (i, j), e, first)
        elif second:
            check(e in second, "not copied from a neighbour", (i, j), e)
        else:
            check(e in good or e == tuple(keep[i, j]),
                  "invented entry", (i, j), e)
    return got


def run(ctx):
    hmax = ctx.pick(6, 8)
    for nrow in (2, 3, 4):
        for h in range(2, (hmax if nrow < 4 else hmax - 1) + 1):
            for ovs in itertools.product(range(0, h + 1), repeat=nrow - 1):
                if any(a + b > h for a, b in zip(ovs, ovs[1:])):
                    continue
                if h in ovs:
                    continue
                for side in (0, 1):
                    dts = ("float64", "int64") if nrow < 4 else ("float64",)
                    for dt in dts:
                        ctx.case("grid/h%d/%s/side%d/%s" % (
                            h, "-".join(map(str, ovs)), side, dt), grid,
                            ctx, h, ovs, side, 1 + (h + side) % 2, dt)
    shapes = [(1, k) for k in range(1, 8)] + [(k, 1) for k in range(2, 8)] + [
        (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)]
    if ctx.thorough:
        shapes += [(3, 4), (4, 3)]
    for sh in shapes:
        for bits in range(2 ** (sh[0] * sh[1])):
            pat = np.array([(bits >> k) & 1 for k in range(sh[0] * sh[1])],
                           dtype=bool).reshape(sh)
            for d in ("horizontal", "vertical"):
                ctx.case("repair/%dx%d/%d/%s" % (*sh, bits, d), repair, ctx,
                         pat, d)
