"""P16: sinograms from helical scans.

Every scan geometry of a small grid (projections per half turn, pitch, pixel
size, detector height, scan range, scan type), every slice index from below 0
to beyond the maximum, arrays and hdf data, every crop, given or default
angles, with flat/dark fields of several types and with a blob mask.  The scan
is simulated from an absolute height model: detector row j at projection i
sees one physical height, and the recorded value is an arbitrary function of
(i, x) plus a term linear in that height, so that interpolation between rows
is exact and any wrong row, weight, projection or angle shows.
"""
import os

import h5py
import numpy as np

import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.removal as remo
from mc.core import check, fill, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of helical geometries, slice "
             "indices, crops and sources on the real code against an "
             "absolute height model")
LEVEL = "model_checking"
LEVEL_NOTE = "All indices of all geometries within the bounds."
RULE = "case = (geometry, source); state = (case, index, options)"
ASSUMPTIONS = ["the detector is high enough to see a slice during one "
               "half (full) turn", "a full sinogram may leave out up to two "
               "projections at the ends of the field of view"]


class Scan:
    def __init__(self, num, pitch, ps, height, y0, y1, extra):
        self.num, self.pitch, self.ps = num, pitch, ps
        self.height, self.y0, self.y1 = height, y0, y1
        self.ystep = pitch / (2.0 * (num - 1))
        self.depth = int(np.floor((y1 - y0) / self.ystep)) + extra

    def bounds(self, typ):
        d = self.pitch / 2.0 if typ == "180" else self.pitch
        return self.y0 + d, self.y1 - d

    def max_index(self, typ):
        a, b = self.bounds(typ)
        return int((b - a) / self.ps) + 1

    def index_at(self, typ, i, j):
        """Slice index (real) that row j sees at projection i."""
        ys, ye = self.bounds(typ)
        y = ye + self.height * self.ps - i * self.ystep - (j + 1) * self.ps
        return (y - ys) / self.ps + 1

    def row_of(self, typ, i, index):
        ys, ye = self.bounds(typ)
        y = (index - 1) * self.ps + ys
        return (ye + self.height * self.ps - i * self.ystep - y) / self.ps - 1


def a_b(n, w):
    return fill((n, w), 3, 2.0, 3.0, np.float64), \
        fill((n, w), 4, 0.01, 0.03, np.float64)


def simulate(scan, typ, w, height):
    A, B = a_b(scan.depth, w)
    j = np.arange(height)
    d = np.empty((scan.depth, height, w))
    for i in range(scan.depth):
        h = scan.index_at(typ, i, j)
        d[i] = A[i] + np.outer(h, B[i])
    return d, A, B


def expect(scan, typ, index, eps):
    ys, ye = scan.bounds(typ)
    return int(np.ceil((ye - (index - 1) * scan.ps - ys) / scan.ystep + eps))


def compare(ctx, scan, typ, full, index, got, angs, A, B, angles, what):
    n = len(got)
    check(len(angs) == n, what + ": number of angles", len(angs), n)
    # projection indices from the returned angles
    pos = [int(np.argmin(np.abs(angles - a))) for a in angs]
    check(np.abs(angles[pos] - angs).max() < 1e-4, what + ": angles", angs)
    check(pos == list(range(pos[0], pos[0] + n)),
          what + ": projections are not consecutive", pos)
    want = A[pos] + index * B[pos]
    same(got, want, what, 1e-4, 2e-4)
    # it starts when the slice enters the field of view
    j = scan.row_of(typ, pos[0], index)
    check(j <= scan.height - 1 + 1e-6 and
          j + scan.ystep / scan.ps > scan.height - 1 - 1e-6,
          what + ": does not start with the first projection seeing the "
          "slice", j, scan.height)
    fov = int(np.floor((scan.height - 1) * scan.ps / scan.ystep + 1e-9))
    if full:
        check(fov - 1 <= n <= fov + 1, what + ": number of projections", n,
              fov)
    else:
        check(n == (scan.num if typ == "180" else 2 * scan.num - 1),
              what + ": number of projections", n)


def one(ctx, geo, typ, source):
    scan = Scan(*geo)
    w = 6
    ys, ye = scan.bounds(typ)
    ctx.step(2)
    r = calc.calculate_reconstructable_height(scan.y0, scan.y1, scan.pitch,
                                              typ)
    check(abs(r[0] - ys) < 1e-9 and abs(r[1] - ye) < 1e-9,
          "reconstructable height", r, ys, ye)
    top = calc.calculate_maximum_index(scan.y0, scan.y1, scan.pitch, scan.ps,
                                       typ)
    exact = (ye - ys) / scan.ps
    if abs(exact - round(exact)) > 1e-9:
        check(top == int(exact) + 1, "maximum index", top, exact)
    else:
        check(top in (int(round(exact)), int(round(exact)) + 1),
              "maximum index", top, exact)
    data, A, B = simulate(scan, typ, w, scan.height)
    step = 180.0 / (scan.num - 1)
    angles = np.arange(scan.depth) * step
    other = -17.0 + 0.9 * angles
    tmp = fid = None
    if source == "hdf":
        tmp = ctx.scratch()
        fid = h5py.File(os.path.join(tmp, "d.h5"), "w")
        data = fid.create_dataset("d", data=data.astype(np.float32))
    args = (scan.num, scan.ps, scan.y0, scan.y1, scan.pitch)
    need = scan.num if typ == "180" else 2 * scan.num - 1
    try:
        for index in range(-3, top + 4):
            ctx.step(2)
            ctx.state((geo, typ, source, index))
            # (a start on the border of the field may round either way)
            fits = (need - 1) * scan.ystep / scan.ps + \
                (scan.height - 1 - scan.row_of(
                    typ, expect(scan, typ, index, 1e-9), index)) \
                <= scan.height - 1 - 1e-6
            call = lambda: conv.generate_sinogram_helical_scan(
                index, data, *args, scan_type=typ)
            if index < 0 or index > top:
                check(raises(call) is True, "index beyond the reported "
                      "maximum accepted", index, top)
                ctx.rejected += 1
            elif fits and expect(scan, typ, index, 1e-9) + need \
                    <= scan.depth:
                got, angs = call()
                compare(ctx, scan, typ, False, index, got, angs, A, B,
                        angles, "slice %d" % index)
                got2, angs = conv.generate_sinogram_helical_scan(
                    index, data, *args, scan_type=typ, angles=other)
                same(got2, got, "given angles change the data", 1e-6, 1e-6)
                compare(ctx, scan, typ, False, index, got, angs, A, B, other,
                        "slice %d, given angles" % index)
            else:
                i0 = expect(scan, typ, index, 1e-9)
                if scan.row_of(typ, i0 + need - 2, index) < -1e-6 and \
                        i0 + need <= scan.depth:
                    check(raises(call) is True, "slice which leaves the "
                          "field of view during the scan accepted", index)
                    ctx.rejected += 1
            if index >= 0:
                try:
                    got, angs = conv.generate_full_sinogram_helical_scan(
                        index, data, *args, scan_type=typ)
                except ValueError:
                    # only when the slice is not seen over the whole field
                    i0 = expect(scan, typ, index, 1e-9)
                    n = int(np.floor(scan.height * scan.ps / scan.ystep))
                    check(index > top or i0 + n - 1 >= scan.depth or i0 < 0,
                          "full sinogram refused", index, i0, n,
                          scan.depth)
                    ctx.rejected += 1
                else:
                    compare(ctx, scan, typ, True, index, got, angs, A, B,
                            angles, "full slice %d" % index)
        check(raises(lambda: calc.calculate_maximum_index(
            scan.y0, scan.y1, scan.pitch, scan.ps, "90")) is True,
            "unknown scan type accepted")
        ctx.rejected += 1
    finally:
        if fid is not None:
            fid.close()
            ctx.drop(tmp)
    return np.round(A, 2)


def options(ctx, geo, typ, crop, dt, masked):
    """crop / flat / dark / mask must act like preparing the data by hand."""
    scan = Scan(*geo)
    w = 12
    t, b, l, r = crop
    H, W = scan.height + t + b, w + l + r
    data, A, B = simulate(scan, typ, w, scan.height)
    full = fill((scan.depth, H, W), 8, 0, 9, np.float64)
    full[:, t:t + scan.height, l:l + w] = data
    flat = fill((H, W), 5, 900, 1100, np.float64)
    dark = fill((H, W), 6, 100, 140, np.float64)
    flat, dark = np.round(flat).astype(dt), np.round(dark).astype(dt)
    f, d = flat.astype(np.float64), dark.astype(np.float64)
    # transmission below zero for some pixels (counts below the dark level)
    raw = full * 0.05 * (f - d) + d - 0.13 * (f - d)
    raw = np.round(raw * 8) / 8.0 if "float" in dt else np.round(raw)
    raw = raw.clip(0, None).astype(dt)
    clean = (raw.astype(np.float64) - d) / (f - d)
    mask = None
    if masked:
        mask = np.zeros((H, W), dtype=np.float32)
        mask[:, l + 4:l + 6] = 1
        mask[::2, l] = 1
        mask[1::3, l + w - 1] = 1
    keep = [x.copy() for x in (raw, flat, dark)] + [
        None if mask is None else mask.copy()]
    args = (scan.num, scan.ps, scan.y0, scan.y1, scan.pitch)
    top = calc.calculate_maximum_index(scan.y0, scan.y1, scan.pitch, scan.ps,
                                       typ)
    sub = np.ascontiguousarray(clean[:, t:t + scan.height, l:l + w])
    if mask is not None:
        sm = mask[t:t + scan.height, l:l + w]
        sub = sub.copy()
        for i in range(scan.depth):
            for j in range(scan.height):
                sub[i, j] = remo.remove_blob_1d(sub[i, j], sm[j].copy())
    for index in range(0, top + 1):
        for fn in (conv.generate_sinogram_helical_scan,
                   conv.generate_full_sinogram_helical_scan):
            ctx.step(2)
            ctx.state((geo, typ, crop, dt, masked, index))
            try:
                want, wa = fn(index, sub, *args, scan_type=typ)
            except ValueError:
                check(raises(lambda: fn(
                    index, raw, *args, scan_type=typ, flat=flat, dark=dark,
                    mask=mask, crop=crop)) is True, "accepted with a crop")
                continue
            got, ga = fn(index, raw, *args, scan_type=typ, flat=flat,
                         dark=dark, mask=mask, crop=crop)
            same(got, want, "slice %d" % index, 2e-4, 2e-4)
            same(ga, wa, "angles", 1e-6, 1e-6)
    for a, k in zip((raw, flat, dark, mask), keep):
        check(k is None or np.array_equal(a, k), "caller's data changed")
    return np.round(want, 2)


def run(ctx):
    nums = ctx.pick([5, 8], [4, 5, 8, 13])
    pitches = ctx.pick([8.0, 7.3], [6.0, 7.3, 8.0, 11.1])
    pss = ctx.pick([1.0, 0.7], [1.0, 0.7, 0.33])
    for num in nums:
        for pitch in pitches:
            for ps in pss:
                for typ in ("180", "360"):
                    turn = pitch / 2 if typ == "180" else pitch
                    for more in ctx.pick((-3, 1, 4), (-5, -3, -1, 0, 1, 2, 4,
                                                      9)):
                        height = int(np.ceil(turn / ps)) + more
                        if height < 2:
                            continue
                        for y0 in (5.0, -3.25):
                            for rng in ctx.pick((2.6, 4.13),
                                                (2.2, 2.6, 3.5, 4.13)):
                                for extra in (0, 1):
                                    geo = (num, pitch, ps, height, y0,
                                           y0 + pitch * rng, extra)
                                    for src in ("array", "hdf"):
                                        if src == "hdf" and extra:
                                            continue
                                        ctx.case("scan/%s/%s/%s" % (
                                            src, typ, geo), one, ctx, geo,
                                            typ, src)
    for typ in ("180", "360"):
        geo = (5, 8.0, 0.7, 14 if typ == "180" else 18, 5.0, 5.0 + 8 * 3.1, 1)
        for crop in [(0, 0, 0, 0), (2, 0, 0, 0), (0, 3, 0, 0), (0, 0, 2, 0),
                     (0, 0, 0, 1), (1, 2, 3, 1)]:
            for dt in ("float32", "float64", "uint16", "int32"):
                for masked in (False, True):
                    ctx.case("opt/%s/%s/%s/%s" % (typ, crop, dt, masked),
                             options, ctx, geo, typ, crop, dt, masked)
