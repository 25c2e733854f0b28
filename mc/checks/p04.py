"""P04: exhaustive TIFF <-> HDF conversions on small labelled stacks.

Every voxel of the source stack carries its own coordinates as grey value, so
any misplaced pixel is seen.  Alphabet: every non-empty crop with up to two
pixels per edge, every (start, stop, step) triple (and single integer) inside
the range, the three axes, file-name sets that are not in creation order,
name patterns, metadata sets, output suffixes, existing outputs.
Oracle: plain numpy indexing of the labelled stack; directory listing.
"""
import itertools
import os

import h5py
import numpy as np
from PIL import Image

from mc.core import check, exact, quiet, Violation
import algotom.io.converter as conv

TECHNIQUE = ("bounded-exhaustive exploration of conversion traces on the real "
             "code against a reference model")
LEVEL = "model_checking"
LEVEL_NOTE = ("Complete product of crops, index triples and axes over two "
              "small labelled volumes, and of name sets x patterns; larger "
              "volumes are not covered.")
RULE = ("case = one conversion (input folder or file, crop, index, axis, "
        "names); outcome = files and pixels produced")
ASSUMPTIONS = ["file-name order is lexicographic order of the names",
               "crops that leave no pixel must be rejected"]


def labelled(shape):
    z, y, x = np.indices(shape)
    return (z * 100 + y * 10 + x + 1).astype(np.float32)


def write_tifs(folder, names, stack):
    os.makedirs(folder)
    for n, img in zip(names, stack):
        Image.fromarray(img).save(os.path.join(folder, n), format="TIFF")


def listing(folder):
    return sorted(os.path.relpath(os.path.join(r, f), folder)
                  for r, _, fs in os.walk(folder) for f in fs)


def snap(folder):
    return {f: open(os.path.join(folder, f), "rb").read()
            for f in listing(folder)}


def crops(h, w, k):
    for t, b, l, r in itertools.product(range(k), repeat=4):
        yield (t, b, l, r), (h - t - b >= 1 and w - l - r >= 1)


NAMES = {
    "padded": ["img_00000.tif", "img_00001.tif", "img_00002.tif"],
    "unordered": ["c.tif", "a.tif", "b.tiff"],
    "unpadded": ["p_10.tif", "p_2.tif", "p_1.tif"],
    "mixed": ["proj_2.tif", "flat_1.tif", "proj_1.tif"],
}
EXTRA = ["notes.txt", "img.png", "data.hdf"]


def run(ctx):
    root = ctx.scratch("conv")
    h, w = 4, 5
    stack = labelled((3, h, w))
    for tag, names in NAMES.items():
        folder = os.path.join(root, "in_" + tag)
        write_tifs(folder, names, stack)
        for e in EXTRA:
            with open(os.path.join(folder, e), "w") as fo:
                fo.write("x")
        before = snap(folder)
        k = ctx.pick(3, 4) if tag == "padded" else 2
        pats = [None] + sorted({n.split(".")[0].split("_")[0] for n in names}) + ["_1", "0"]
        for pat in pats:
            sel = [i for n, i in sorted(zip(names, range(3)))
                   if pat is None or pat in n.split(".")[0]]
            if not sel:
                continue
            for crop, ok in crops(h, w, k if pat is None else 1):
                for suffix in ([".hdf"] if any(crop) else
                               [".hdf", ".h5", ".nxs", ".hdf5", ""]):
                    for meta in ([0] if any(crop) else [0, 1, 2]):
                        cid = "tif2hdf/%s/%s/%s/%s/meta%d" % (
                            tag, pat, "-".join(map(str, crop)), suffix, meta)
                        ctx.case(cid, to_hdf, ctx, root, folder, stack[sel],
                                 crop, ok, pat, suffix, meta, before)
    extract_all(ctx, root)
    ctx.drop(root)


def to_hdf(ctx, root, folder, want, crop, ok, pat, suffix, meta, before):
    ctx.drop(os.path.join(root, "out"))
    out = os.path.join(root, "out", "vol" + suffix)
    opts = {}
    key = "entry/data"
    if meta == 1:
        key = "exchange/vol/data"
        opts = {"options": {"entry/angles": np.arange(3.0),
                            "entry/energy": 53}}
    elif meta == 2:
        opts = {"options": {"entry/data_info/crop": np.int32(crop),
                            "note": 7.5}}
    kw = dict(key_path=key, crop=crop, pattern=pat)
    kw.update(opts)
    t, b, l, r = crop
    ctx.step()
    if not ok:
        try:
            quiet(conv.convert_tif_to_hdf, folder, out, **kw)
        except ValueError:
            ctx.rejected += 1
            check(snap(folder) == before, "input folder changed")
            return "rejected"
        raise Violation("crop leaving no pixels accepted")
    got = quiet(conv.convert_tif_to_hdf, folder, out, **kw)
    path = str(got)
    check(os.path.isfile(path), "reported output missing", path)
    hdf_ext = os.path.splitext(out)[1] in (".hdf", ".h5", ".nxs", ".hdf5")
    check(path == os.path.realpath(out if hdf_ext else out + ".hdf"),
          "output is not at the requested place", path)
    with h5py.File(path, "r") as f:
        data = f[key][()]
        for k, v in opts.get("options", {}).items():
            check(k in f, "metadata missing", k)
            exact(f[k][()], np.asarray(v), "metadata " + k)
    os.remove(path)
    h, w = want.shape[1:]
    exact(data, want[:, t:h - b, l:w - r], "converted volume")
    check(snap(folder) == before, "input folder changed")
    check(listing(os.path.dirname(out)) == [], "stray output files")
    return data


def extract_all(ctx, root):
    # every order of the three lengths
    shapes = [(1, 2, 2), (3, 4, 5), (5, 3, 2), (2, 5, 3)] + ctx.pick([], [
        (4, 2, 5), (3, 5, 4), (5, 4, 3), (2, 2, 1)])
    for shape in shapes:
        vol = labelled(shape)
        src = os.path.join(root, "src_%d%d%d.hdf" % shape)
        with h5py.File(src, "w") as f:
            f["entry/data"] = vol
            f["entry/other"] = -vol
        with open(src, "rb") as fo:
            raw = fo.read()
        for axis in range(3):
            n = shape[axis]
            idx = [(a, b, s) for a in range(n) for b in [-1, *range(a + 1, n +
                                                                  1), n + 3]
                   for s in range(1, n + 1)] + list(range(n))
            for index in idx:
                ctx.case("hdf2tif/%s/ax%d/%s" % (shape, axis, index),
                         extract, ctx, root, src, raw, vol, axis, index,
                         (0, 0, 0, 0), "img")
            plane = [shape[i] for i in range(3) if i != axis]
            for crop, ok in crops(plane[0], plane[1], ctx.pick(2, 3)):
                if ok:
                    ctx.case("hdf2tif/%s/ax%d/crop%s" % (
                        shape, axis, "-".join(map(str, crop))),
                        extract, ctx, root, src, raw, vol, axis, (0, -1, 1),
                        crop, "p")


def extract(ctx, root, src, raw, vol, axis, index, crop, prefix):
    out = os.path.join(root, "ext")
    os.makedirs(out)
    try:
        quiet(conv.extract_tif_from_hdf, src, out, "entry/data", index=index,
              axis=axis, crop=crop, prefix=prefix)
        ctx.step()
        n = vol.shape[axis]
        if isinstance(index, tuple):
            a, b, s = index
            want = list(range(a, n if b < 0 else min(b, n), s))
        else:
            want = [index]
        names = ["%s_%05d.tif" % (prefix, i) for i in want]
        check(listing(out) == sorted(names), "extracted files", listing(out),
              names)
        t, b, l, r = crop
        for i, nm in zip(want, names):
            with Image.open(os.path.join(out, nm)) as im:
                got = np.array(im)
            p = np.take(vol, i, axis=axis)
            exact(got, p[t:p.shape[0] - b, l:p.shape[1] - r],
                  "slice %d" % i)
        with open(src, "rb") as fo:
            check(fo.read() == raw, "source file changed")
        return names
    finally:
        ctx.drop(out)
