"""P08: dataset tools x containers, exhaustively over small labelled volumes.

Alphabet: input container {array, TIFF folder, HDF} x output container
{array, TIFF folder, HDF} x crops (every 0/1 crop of the six faces) x cell
sizes / bit depths / axes / chunk sizes / core counts x pixel types.
Oracle: crop the numpy volume, apply the definition of the operation.
"""
import itertools
import os

import h5py
import numpy as np
from PIL import Image
import scipy.ndimage as ndi

from mc.core import Violation, check, fill, quiet
import algotom.post.postprocessing as post

TECHNIQUE = ("bounded-exhaustive exploration of container/crop/parameter "
             "products on the real code against a reference model")
LEVEL = "model_checking"
LEVEL_NOTE = ("Complete products as listed in the module over two small "
              "volumes; private scratch folders; larger volumes and other "
              "file systems are not covered.")
RULE = ("case = one call of one tool for one combination; outcome = the "
        "volume produced")
ASSUMPTIONS = ["rescaling is compared up to rounding at grey-level borders"]

SHAPE = (4, 3, 5)


def near(got, ref, what):
    """Equality, integers up to the rounding of float32 arithmetic."""
    got = np.asarray(got)
    if got.shape != ref.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape,
                                                       ref.shape))
    g = got.astype(np.float64)
    if got.dtype.kind in "iu":
        ok = (g == np.trunc(ref)) | ((np.abs(ref - np.round(ref)) < 0.06)
                                     & (np.abs(g - np.round(ref)) <= 1))
    else:
        ok = np.abs(g - ref) <= 1e-4 * (1 + np.abs(ref).max())
    if not ok.all():
        p = tuple(int(i) for i in np.argwhere(~ok)[0])
        raise Violation("%s: at %s got %r, expected %r (%d of %d wrong)" % (
            what, p, got[p].item(), float(ref[p]), int((~ok).sum()), ok.size))


def crop3(v, c):
    d, h, w = v.shape
    return v[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]]


class Env:
    def __init__(self, ctx):
        self.root = ctx.scratch("ds")
        self.ctx = ctx
        self.vols = {}
        self.n = 0
        for tag, shape, dt in (("f32", SHAPE, "float32"),
                               ("u16", SHAPE, "uint16"),
                               ("u8", SHAPE, "uint8"),
                               ("one", (1, 3, 4), "float32"),
                               ("thin", (3, 1, 4), "float32"),
                               ("line", (3, 4, 1), "float32")):
            hi = {"float32": 50.0, "uint16": 60000, "uint8": 250}[dt]
            v = fill(shape, 5, -hi if dt == "float32" else 0, hi,
                     np.float64).astype(dt)
            self.vols[tag] = v
            folder = os.path.join(self.root, "in_" + tag)
            os.makedirs(folder)
            for i in reversed(range(shape[0])):
                Image.fromarray(v[i]).save(
                    os.path.join(folder, "s_%02d.tif" % i))
            with h5py.File(folder + ".hdf", "w") as f:
                f["exp/vol"] = v
                f["entry/data"] = np.zeros_like(v)

    def source(self, tag, kind):
        p = os.path.join(self.root, "in_" + tag)
        if kind == "array":
            return self.vols[tag].copy(), None
        if kind == "tif":
            return p, None
        return p + ".hdf", "exp/vol"

    def target(self, kind):
        self.n += 1
        p = os.path.join(self.root, "out%d" % self.n)
        if self.n % 3 == 0:
            # some levels above the output do not exist yet
            p = os.path.join(p, "new", "deep")
        return {"array": None, "tif": p, "hdf": p + ".hdf", "h5": p + ".h5",
                "nxs": p + ".nxs"}[kind]

    def collect(self, ret, out):
        if out is None:
            return ret
        top = os.path.join(self.root, os.path.relpath(out, self.root).split(
            os.sep)[0])
        if top != out:
            for at, dirs, files in os.walk(top):
                if at != out:
                    check(len(dirs) + len(files) == 1, "more than the output "
                          "was made", at, dirs, files)
        try:
            return self._collect(ret, out)
        finally:
            if os.path.isdir(top):
                self.ctx.drop(top)

    def _collect(self, ret, out):
        if os.path.isdir(out):
            names = sorted(os.listdir(out))
            bad = [n for n in names if not n.endswith(".tif")]
            check(not bad, "stray files in the output folder", bad)
            arr = []
            for n in names:
                with Image.open(os.path.join(out, n)) as im:
                    arr.append(np.array(im))
            self.ctx.drop(out)
            return np.asarray(arr)
        check(os.path.isfile(out), "no output produced", out)
        if ret is not None and hasattr(ret, "file"):
            ret.file.close()
        got = []
        with h5py.File(out, "r") as f:
            f.visititems(lambda k, o: got.append(o[()])
                         if isinstance(o, h5py.Dataset) else None)
        os.remove(out)
        check(len(got) == 1, "output file must hold one dataset", len(got))
        return got[0]


def cname(c):
    return "".join(map(str, c))


CROPS = list(itertools.product(range(2), repeat=6))
FEW = [(0,) * 6, (1, 0, 0, 1, 1, 0), (0, 1, 1, 0, 0, 1)]


def run(ctx):
    env = Env(ctx)
    downs(ctx, env)
    scale(ctx, env)
    resl(ctx, env)
    bad(ctx, env)
    ctx.drop(env.root)


FUN = {"mean": np.mean, "median": np.median, "max": np.max, "min": np.min}


def ref_down(v, cell, method):
    cell = (cell,) * 3 if isinstance(cell, int) else cell
    n = [s // c for s, c in zip(v.shape, cell)]
    out = np.zeros(n)
    v = v.astype(np.float64)
    for i, j, k in np.ndindex(*n):
        out[i, j, k] = FUN[method](v[i * cell[0]:(i + 1) * cell[0],
                                     j * cell[1]:(j + 1) * cell[1],
                                     k * cell[2]:(k + 1) * cell[2]])
    return out


def ref_scale(v, nbit, minmax):
    lo, hi = minmax
    return (np.clip(v.astype(np.float64), lo, hi) - lo) / (hi - lo) * (
        2 ** nbit - 1)


def downs(ctx, env):
    cells = [1, 2, (1, 2, 2), (2, 1, 3), (3, 3, 1), (1, 1, 5)]

    def one(tag, kin, kout, crop, cell, method, resc):
        src, key = env.source(tag, kin)
        out = env.target(kout)
        v = crop3(env.vols[tag], crop)
        ctx.step()
        kw = {}
        if resc:
            nbit, mm = resc
            kw = dict(rescaling=True, nbit=nbit, minmax=mm)
        ret = quiet(post.downsample_dataset, src, out, cell, method=method,
                    key_path=key, crop=crop, **kw)
        got = env.collect(ret, out)
        want = ref_down(v, cell, method)
        dt = v.dtype
        if resc and dt != np.dtype("uint%d" % resc[0]):
            if dt.kind == "u":
                mm = (0, 2 ** (8 * dt.itemsize) - 1)
            elif mm is None:
                mm = (v.min(), v.max())
            want = ref_scale(want, nbit, mm)
            dt = np.dtype("uint%d" % nbit)
        check(got.dtype == dt, "pixel type", got.dtype, dt)
        near(got, want, "downsampled")
        return got

    def emit(tag, kin, kout, crop, cell, method, resc=None):
        v = crop3(env.vols[tag], crop)
        c = (cell,) * 3 if isinstance(cell, int) else cell
        if min(v.shape) == 0 or any(s < k for s, k in zip(v.shape, c)):
            return
        ctx.case("down/%s/%s-%s/%s/%s/%s/%s" % (
            tag, kin, kout, cname(crop), str(cell).replace(" ", ""), method,
            resc), one, tag, kin, kout, crop, cell, method, resc)
    for kin, kout in itertools.product(("array", "tif", "hdf"), repeat=2):
        for i, crop in enumerate(CROPS):
            emit("f32", kin, kout, crop, cells[1 + i % 5] if not ctx.thorough
                 else (1, 2, 2), "mean")
        for crop, cell, m in itertools.product(FEW, cells, FUN):
            for tag in ("f32", "u8") if not ctx.thorough else (
                    "f32", "u8", "u16"):
                emit(tag, kin, kout, crop, cell, m)
        for crop, cell in itertools.product(FEW[:2], cells[:3]):
            for tag in ("f32", "u16", "u8"):
                for r in ((8, None), (16, None), (8, (-20.0, 30.0)),
                          (16, (-20.0, 30.0))):
                    emit(tag, kin, kout, crop, cell, "max", r)
                    if ctx.thorough:
                        emit(tag, kin, kout, crop, cell, "mean", r)
        for tag in ("one", "thin", "line"):
            emit(tag, kin, kout, FEW[0], 1, "mean")
            emit(tag, kin, kout, FEW[0], 1, "mean", (8, None))
    for kout in ("h5", "nxs"):
        emit("f32", "array", kout, FEW[1], 2, "mean")


def scale(ctx, env):
    def one(tag, kin, kout, crop, nbit, mm, skip):
        src, key = env.source(tag, kin)
        out = env.target(kout)
        full = env.vols[tag]
        v = crop3(full, crop)
        ctx.step()
        ret = quiet(post.rescale_dataset, src, out, nbit=nbit, minmax=mm,
                    skip=skip, key_path=key, crop=crop)
        got = env.collect(ret, out)
        if nbit == 32:
            near(got, v.astype(np.float64), "cropped")
            return got
        st = 1 if skip is None else int(np.clip(skip, 1, max(1, len(v) - 1)))
        m = mm or (v[::st].min(), v[::st].max())
        check(got.dtype == np.dtype("uint%d" % nbit), "pixel type", got.dtype)
        near(got, ref_scale(v, nbit, m), "rescaled")
        return got

    def emit(*a):
        if min(crop3(env.vols[a[0]], a[3]).shape) == 0:
            return
        ctx.case("scale/%s/%s-%s/%s/%d/%s/skip%s" % (
            a[0], a[1], a[2], cname(a[3]), a[4],
            str(a[5]).replace(" ", ""), a[6]), one, *a)
    for kin, kout in itertools.product(("array", "tif", "hdf"), repeat=2):
        for i, crop in enumerate(CROPS):
            nb = (8, 16, 32)
            for nbit in (nb if ctx.thorough else (nb[i % 3],)):
                emit("f32", kin, kout, crop, nbit, None, None)
        for tag, crop, nbit, mm, skip in itertools.product(
                ("f32", "u16", "u8"), FEW, (8, 16, 32),
                (None, (10.0, 40.0)), (None, 2)):
            emit(tag, kin, kout, crop, nbit, mm, skip)
        for tag in ("one", "thin", "line"):
            for nbit in (8, 16, 32):
                emit(tag, kin, kout, FEW[0], nbit, None, None)
                emit(tag, kin, kout, FEW[0], nbit, None, 1)
    for kout in ("h5", "nxs"):
        emit("f32", "array", kout, FEW[1], 16, None, None)


def resl(ctx, env):
    def one(tag, kin, kout, crop, axis, chunk, ncore, rot, resc, mode, prog):
        src, key = env.source(tag, kin)
        out = env.target(kout)
        full = env.vols[tag]
        base = full
        if rot:
            base = np.asarray([ndi.rotate(m.astype(np.float64), rot,
                                          mode=mode, reshape=False, order=1)
                               for m in full])
        v = np.moveaxis(crop3(base, crop), axis, 0)
        if axis == 1:
            pass                              # (height, depth, width)
        kw = {}
        if resc:
            kw = dict(rescaling=True, nbit=resc[0], minmax=resc[1])
        ctx.step()
        ret = quiet(post.reslice_dataset, src, out, axis=axis, key_path=key,
                    rotate=rot, chunk=chunk, mode=mode, crop=crop,
                    ncore=ncore, show_progress=prog, **kw)
        got = env.collect(ret, out)
        want = v.astype(np.float64)
        dt = full.dtype
        if resc and dt != np.dtype("uint%d" % resc[0]):
            mm = resc[1]
            if dt.kind == "u":
                mm = (0, 2 ** (8 * dt.itemsize) - 1)
            elif mm is None:
                raw = crop3(full, crop)
                mm = (raw.min(), raw.max())
            want = ref_scale(want, resc[0], mm)
            dt = np.dtype("uint%d" % resc[0])
        check(got.dtype == dt, "pixel type", got.dtype, dt)
        near(got, want, "resliced")
        return got

    def emit(tag, kin, kout, crop, axis, chunk=16, ncore=1, rot=0.0,
             resc=None, mode="constant", prog=False):
        if min(crop3(env.vols[tag], crop).shape) == 0:
            return
        ctx.case("slice/%s/%s-%s/%s/ax%d/ch%d/nc%d/rot%s/%s/%s%s" % (
            tag, kin, kout, cname(crop), axis, chunk, ncore, rot,
            str(resc).replace(" ", ""), mode, "/prog" if prog else ""), one,
            tag, kin, kout, crop, axis, chunk, ncore, rot, resc, mode, prog)
    for kin, kout, axis in itertools.product(("tif", "hdf"), ("tif", "hdf"),
                                             (1, 2)):
        for i, crop in enumerate(CROPS):
            emit("f32", kin, kout, crop, axis, chunk=1 + i % 4)
        for crop, chunk in itertools.product(FEW, (1, 2, 3, 4, 5, 16)):
            for tag in ("f32", "u8", "u16"):
                emit(tag, kin, kout, crop, axis, chunk=chunk)
        for nc in (2, 3):
            for crop, chunk in itertools.product(FEW, (2, 16)):
                emit("f32", kin, kout, crop, axis, chunk=chunk, ncore=nc)
        for rot, mode, crop, chunk in itertools.product(
                (30.0, -90.0, 7.5), ("constant", "nearest"), FEW, (2, 16)):
            emit("f32", kin, kout, crop, axis, rot=rot, mode=mode,
                 chunk=chunk)
        for tag, resc, crop in itertools.product(
                ("f32", "u8", "u16"), ((8, None), (16, None),
                                       (8, (-20.0, 30.0)),
                                       (16, (-20.0, 30.0))), FEW):
            emit(tag, kin, kout, crop, axis, resc=resc, chunk=2)
        for tag in ("one", "thin", "line"):
            for chunk in (1, 2, 16):
                emit(tag, kin, kout, FEW[0], axis, chunk=chunk)
                emit(tag, kin, kout, FEW[0], axis, chunk=chunk, rot=30.0)
        emit("f32", kin, kout, FEW[1], axis, chunk=2, prog=True)
    for kout in ("h5", "nxs"):
        emit("f32", "tif", kout, FEW[1], 1)


def bad(ctx, env):
    """Requests that cannot be honoured are rejected, by all containers."""
    def rejected(fn, *a, **k):
        ctx.step()
        try:
            quiet(fn, *a, **k)
        except ValueError:
            ctx.rejected += 1
            return "rejected"
        raise Violation("accepted")
    for kin in ("array", "tif", "hdf"):
        src, key = env.source("f32", kin)
        for crop in ((2, 2, 0, 0, 0, 0), (0, 0, 3, 0, 0, 0),
                     (0, 0, 0, 0, 3, 3), (0, 0, 0)):
            ctx.case("bad/%s/crop%s/down" % (kin, cname(crop)), rejected,
                     post.downsample_dataset, src, None, 1, key_path=key,
                     crop=crop)
            ctx.case("bad/%s/crop%s/scale" % (kin, cname(crop)), rejected,
                     post.rescale_dataset, src, None, key_path=key, crop=crop)
            if kin != "array":
                ctx.case("bad/%s/crop%s/slice" % (kin, cname(crop)), rejected,
                         post.reslice_dataset, src, env.target("tif"),
                         key_path=key, crop=crop, show_progress=False)
        for cell in (5, (1, 4, 1), (1, 1, 6)):
            ctx.case("bad/%s/cell%s" % (kin, cell), rejected,
                     post.downsample_dataset, src, None, cell, key_path=key)
        ctx.case("bad/%s/nbit" % kin, rejected, post.rescale_dataset, src,
                 None, nbit=12, key_path=key)
        for axis in (0, 3):
            ctx.case("bad/%s/axis%d" % (kin, axis), rejected,
                     post.reslice_dataset, src, env.target("tif"), axis=axis,
                     key_path=key, show_progress=False)
        ctx.case("bad/%s/ext" % kin, rejected, post.downsample_dataset, src,
                 os.path.join(env.root, "o.txt"), 1, key_path=key)
    ctx.case("bad/hdf/nokey", rejected, post.downsample_dataset,
             env.source("f32", "hdf")[0], None, 1)
    ctx.case("bad/hdf/wrongkey", rejected, post.downsample_dataset,
             env.source("f32", "hdf")[0], None, 1, key_path="exp/none")
    ctx.case("bad/array/slice", rejected, post.reslice_dataset,
             env.vols["f32"], env.target("tif"), show_progress=False)
