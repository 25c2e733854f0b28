"""P19: distortion correction of sinograms equals that of the projections.

Every detector shape, distortion model (none, barrel, pincushion, mixed,
scaling), centre of distortion (inside, corner, fractional, outside), every
row, every chunk (also stop=-1) and every crop along the angle axis, from an
array, a sub-array view and an hdf dataset.  Oracle: bilinear sampling of the
whole projection at the clamped backward-model coordinates, row by row.
"""
import os

import h5py
import numpy as np

from mc.core import check, fill, raises, same
import algotom.prep.correction as corr

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of detector shapes, distortion "
             "models, rows and chunks on the real code against a reference "
             "sampler")
LEVEL = "model_checking"
LEVEL_NOTE = "All rows, chunks, models and crops within the bounds."
RULE = ("case = (shape, model, centre, source): all its rows, chunks and "
        "crops; state = (case, row or chunk, crop)")
ASSUMPTIONS = ["chunks are non-empty; float images"]

DEPTH = 3


def bilinear(img, y, x):
    h, w = img.shape
    y0 = np.clip(np.floor(y).astype(int), 0, h - 1)
    x0 = np.clip(np.floor(x).astype(int), 0, w - 1)
    y1 = np.minimum(y0 + 1, h - 1)
    x1 = np.minimum(x0 + 1, w - 1)
    fy, fx = y - y0, x - x0
    img = img.astype(np.float64)
    return ((1 - fy) * (1 - fx) * img[y0, x0] + (1 - fy) * fx * img[y0, x1]
            + fy * (1 - fx) * img[y1, x0] + fy * fx * img[y1, x1])


def ref_unwarp(img, xc, yc, facts):
    h, w = img.shape
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    xu, yu = x - xc, y - yc
    r = np.hypot(xu, yu)
    f = sum(a * r ** i for i, a in enumerate(facts))
    return bilinear(img, np.clip(yc + f * yu, 0, h - 1),
                    np.clip(xc + f * xu, 0, w - 1))


def crops():
    return [None, (0, DEPTH, 2), (1, DEPTH, 1), (0, 1, 1)]


def every_option():
    """Every non-empty start, stop and step, forwards and backwards."""
    for start in range(DEPTH):
        for stop in range(DEPTH + 1):
            for step in (1, 2, 3, -1, -2):
                if len(range(start, stop, step)):
                    yield (start, stop, step)


def run_one(ctx, h, w, facts, cen, source):
    base = fill((DEPTH, h, w), h * 31 + w, 0.0, 1.0, np.float32)
    xc, yc = cen
    ref = np.stack([ref_unwarp(p, xc, yc, facts) for p in base])
    tmp = fid = None
    if source == "array":
        data = base
    elif source == "view":
        big = np.zeros((DEPTH, h + 2, w + 1), dtype=np.float64)
        big[:, 1:-1, 1:] = base
        data = big[:, 1:-1, 1:]
    else:
        tmp = ctx.scratch()
        fid = h5py.File(os.path.join(tmp, "d.h5"), "w")
        data = fid.create_dataset("d", data=base)
    try:
        for k in range(DEPTH):
            ctx.step()
            got = corr.unwarp_projection(base[k], xc, yc, list(facts))
            same(got, ref[k], "projection %d" % k, 1e-4, 2e-5)
            if tuple(facts) == (1.0,):
                same(got, base[k], "no distortion is not the identity",
                     1e-5, 2e-6)
        for opt in crops():
            kw = {} if opt is None else {"option": opt}
            sel = slice(None) if opt is None else slice(*opt)
            for i in range(h):
                ctx.step()
                ctx.state((h, w, facts, cen, source, opt, i))
                same(corr.unwarp_sinogram(data, i, xc, yc, list(facts), **kw),
                     ref[sel, i], "sinogram of row %d, crop %s" % (i, opt),
                     1e-4, 2e-5)
            if opt is not None and not ctx.thorough and source != "array":
                continue
            for a in range(h):
                for z in list(range(a + 1, h + 1)) + [-1]:
                    ctx.step()
                    ctx.state((h, w, facts, cen, source, opt, a, z))
                    got = corr.unwarp_sinogram_chunk(data, a, z, xc, yc,
                                                     list(facts), **kw)
                    same(got, ref[sel, a:(h if z == -1 else z)],
                         "chunk %d:%d, crop %s" % (a, z, opt), 1e-4, 2e-5)
        if cen == (w / 2.0, h / 2.0):
            for opt in every_option():
                ctx.step(2)
                ctx.state((h, w, facts, cen, source, opt))
                sel = list(range(*opt))
                same(corr.unwarp_sinogram(data, h // 2, xc, yc, list(facts),
                                          option=opt), ref[sel, h // 2],
                     "sinogram of row %d, crop %s" % (h // 2, opt), 1e-4,
                     2e-5)
                same(corr.unwarp_sinogram_chunk(
                    data, 0, h, xc, yc, list(facts), option=opt),
                    ref[sel], "chunk, crop %s" % (opt,), 1e-4, 2e-5)
        check(raises(lambda: corr.unwarp_sinogram(base[0], 0, xc, yc,
                                                  list(facts))) is True,
              "2D data accepted by unwarp_sinogram")
        check(raises(lambda: corr.unwarp_sinogram_chunk(
            base[0], 0, 1, xc, yc, list(facts))) is True,
              "2D data accepted by unwarp_sinogram_chunk")
        ctx.rejected += 2
    finally:
        if fid is not None:
            fid.close()
            ctx.drop(tmp)
    return ref


def run(ctx):
    sizes = ctx.pick([1, 2, 3, 5, 8], [1, 2, 3, 4, 5, 6, 7, 8, 11])
    models = [(1.0,), (1.0, 0.02), (1.0, -0.02), (1.0, 0.0, 0.004),
              (1.0, 0.0, -0.004), (1.0, 0.05, -0.006), (0.8,), (1.25,),
              (1.0, 0.01, -0.002, 0.0003)]
    for h in sizes:
        for w in sizes:
            cens = [(w / 2.0, h / 2.0), (0, 0), (w - 1, h - 1),
                    (0.3 * w, 0.71 * h), (w + 1.5, -1.5)]
            for m in models:
                for c in cens:
                    srcs = ["array"]
                    if c == cens[3] or ctx.thorough:
                        srcs += ["view", "hdf"]
                    for s in srcs:
                        ctx.case("%s/%dx%d/%s/%s" % (s, h, w, m, c), run_one,
                                 ctx, h, w, m, c, s)
