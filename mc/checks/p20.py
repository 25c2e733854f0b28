"""P20: tilted sinograms and profiles.

Every detector shape, tilt angle of either sign (also large), every row, every
chunk, every crop along the angle axis, arrays and hdf datasets.  Oracle:
bilinear sampling along lines rotated about the middle of the image; the
chunk versions must agree with the single-line versions row by row.
"""
import os

import h5py
import numpy as np

from mc.checks.p19 import bilinear
from mc.core import check, fill, raises, same
import algotom.prep.correction as corr

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of shapes, tilts, rows and "
             "chunks on the real code against a reference line sampler")
LEVEL = "model_checking"
LEVEL_NOTE = "All rows, chunks, tilts and crops within the bounds."
RULE = ("case = (shape, tilt, source): all its rows, chunks and crops; state "
        "= (case, row or chunk, crop)")
ASSUMPTIONS = ["a chunk start:stop may or may not include row stop (the code "
               "includes it); its rows are those from start on"]

DEPTH = 3


def ref_tilt(img, angle):
    h, w = img.shape
    xc, yc = (w - 1) / 2.0, (h - 1) / 2.0
    y, x = np.mgrid[0:h + 1, 0:w].astype(np.float64)
    x, y = x - xc, y - yc
    t = np.deg2rad(angle)
    return bilinear(img,
                    np.clip(yc + x * np.sin(t) + y * np.cos(t), 0, h - 1),
                    np.clip(xc + x * np.cos(t) - y * np.sin(t), 0, w - 1))


def rows_of(got, ref, a, z, axis, what):
    n = got.shape[axis]
    check(n in (z - a, z - a + 1), what + ": number of rows", n, a, z)
    same(got, np.take(ref, range(a, a + n), axis=axis), what, 1e-4, 1e-5)


def every_option():
    """Every non-empty start, stop and step, forwards and backwards."""
    for start in range(DEPTH):
        for stop in range(DEPTH + 1):
            for step in (1, 2, 3, -1, -2):
                if len(range(start, stop, step)):
                    yield (start, stop, step)


def run_one(ctx, h, w, angle, source):
    base = fill((DEPTH, h, w), h * 31 + w, 0.0, 1.0, np.float32)
    ref = np.stack([ref_tilt(p, angle) for p in base])
    tmp = fid = None
    data = base
    if source == "view":
        data = np.asfortranarray(base.astype(np.float64))
    elif source == "hdf":
        tmp = ctx.scratch()
        fid = h5py.File(os.path.join(tmp, "d.h5"), "w")
        data = fid.create_dataset("d", data=base)
    try:
        for i in range(h):
            ctx.step(2)
            ctx.state((h, w, angle, source, i))
            got = corr.generate_tilted_profile_line(base[0], i, angle)
            same(got, ref[0, i], "profile of row %d" % i, 1e-4, 1e-5)
            if angle == 0:
                same(got, base[0, i], "zero tilt changed the row", 1e-6, 1e-7)
            for opt in (None, (0, DEPTH, 2), (1, DEPTH, 1)):
                kw = {} if opt is None else {"option": opt}
                sel = slice(None) if opt is None else slice(*opt)
                ctx.step()
                same(corr.generate_tilted_sinogram(data, i, angle, **kw),
                     ref[sel, i], "sinogram of row %d crop %s" % (i, opt),
                     1e-4, 1e-5)
        for a in range(h):
            for z in range(a + 1, h + 1):
                ctx.step(2)
                ctx.state((h, w, angle, source, a, z))
                rows_of(corr.generate_tilted_profile_chunk(
                    base[0], a, z, angle), ref[0], a, z, 0,
                    "profile chunk %d:%d" % (a, z))
                for opt in (None, (0, DEPTH, 2), (1, DEPTH, 1)):
                    kw = {} if opt is None else {"option": opt}
                    sel = slice(None) if opt is None else slice(*opt)
                    ctx.step()
                    rows_of(corr.generate_tilted_sinogram_chunk(
                        data, a, z, angle, **kw), ref[sel], a, z, 1,
                        "sinogram chunk %d:%d crop %s" % (a, z, opt))
        for opt in every_option():
            ctx.step(2)
            ctx.state((h, w, angle, source, opt))
            sel = list(range(*opt))
            i, a = h // 2, max(0, h // 2 - 1)
            same(corr.generate_tilted_sinogram(data, i, angle, option=opt),
                 ref[sel, i], "sinogram of row %d crop %s" % (i, opt), 1e-4,
                 1e-5)
            if h > 1:
                rows_of(corr.generate_tilted_sinogram_chunk(
                    data, a, i, angle, option=opt), ref[sel], a, i, 1,
                    "sinogram chunk %d:%d crop %s" % (a, i, opt))
        for fn, bad in ((corr.generate_tilted_profile_line, (base, 0, angle)),
                        (corr.generate_tilted_profile_chunk,
                         (base, 0, 1, angle)),
                        (corr.generate_tilted_sinogram, (base[0], 0, angle)),
                        (corr.generate_tilted_sinogram_chunk,
                         (base[0], 0, 1, angle))):
            check(raises(lambda: fn(*bad)) is True,
                  "wrong dimension accepted by " + fn.__name__)
            ctx.rejected += 1
    finally:
        if fid is not None:
            fid.close()
            ctx.drop(tmp)
    return ref


def run(ctx):
    sizes = ctx.pick([1, 2, 3, 5, 8], [1, 2, 3, 4, 5, 6, 7, 8, 11])
    angles = ctx.pick([0.0, 0.5, -0.5, 5.0, -5.0, 30.0, -30.0, 90.0],
                      [0.0, 0.1, -0.1, 0.5, -0.5, 5.0, -5.0, 20.0, -20.0,
                       45.0, -45.0, 90.0, -90.0, 180.0])
    for h in sizes:
        for w in sizes:
            for t in angles:
                for s in ("array", "view", "hdf"):
                    ctx.case("%s/%dx%d/%g" % (s, h, w, t), run_one, ctx, h, w,
                             t, s)
