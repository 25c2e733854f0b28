"""P05: the TIFF-folder emulator against numpy indexing, exhaustively.

Alphabet: every integer, every slice over [-n-1, n+1] with all steps, and
every triple built from {integer, full slice, partial slice, stepped slice}
along three axes, on labelled stacks of 1-3 images, for several file
suffixes, core counts and pixel types.  Oracle: the same index on the array of
loaded images.
"""
import itertools
import os

import numpy as np
from PIL import Image

from mc.core import check, exact, quiet, Violation
import algotom.io.converter as conv

TECHNIQUE = ("bounded-exhaustive exploration of index expressions on the real "
             "code, numpy indexing as reference model")
LEVEL = "model_checking"
LEVEL_NOTE = ("All integers and slices of a bounded range and all products of "
              "index kinds over three axes on stacks up to 3 (thorough 5) "
              "images.")
RULE = "case = one index expression on one folder; outcome = returned array"
ASSUMPTIONS = ["index expressions built from Python ints and slices"]


def labelled(shape, dt):
    z, y, x = np.indices(shape)
    return (z * 70 + y * 10 + x + 1).astype(dt)


def slices(n, full):
    vals = [None] + list(range(-n - 1, n + 2))
    steps = [None, 1, 2, -1, -2] if full else [None, 2, -1]
    for a, b, s in itertools.product(vals, vals, steps):
        yield slice(a, b, s)


def name(i):
    if isinstance(i, tuple):
        return "(" + ",".join(name(k) for k in i) + ")"
    if isinstance(i, slice):
        return ":".join("" if v is None else str(v)
                        for v in (i.start, i.stop, i.step))
    return str(i)


def one(ctx, em, vol, index):
    ctx.step()
    try:
        want = vol[index]
    except IndexError:
        try:
            got = em[index]
        except (IndexError, ValueError):
            ctx.rejected += 1
            return "rejected"
        raise Violation("out-of-range index returned data of shape %s"
                        % (np.shape(got),))
    if want.size == 0:
        # No image selected: numpy gives an empty array; refusing loudly is
        # acceptable as well, returning pixels is not.
        try:
            got = em[index]
        except (ValueError, IndexError):
            ctx.rejected += 1
            return "empty"
        check(np.size(got) == 0, "empty selection returned pixels")
        return "empty"
    got = em[index]
    exact(got, want, "index " + name(index))
    check(np.asarray(got).dtype == np.float32, "pixel type")
    return np.asarray(got)


def run(ctx):
    root = ctx.scratch("emu")
    depth = ctx.pick(3, 5)
    for n in range(1, depth + 1):
        for suf, dt in ((".tif", "float32"), (".tiff", "uint16"),
                        (".TIF", "uint8"), (".TIFF", "float32")):
            if suf != ".tif" and n != 2:
                continue
            shape = (n, 3, 4)
            vol = labelled(shape, dt)
            folder = os.path.join(root, "f%d%s" % (n, suf))
            os.makedirs(folder)
            for i in reversed(range(n)):
                Image.fromarray(vol[i]).save(
                    os.path.join(folder, "im_%03d%s" % (i, suf)),
                    format="TIFF")
            ref = vol.astype(np.float32)
            for nc in ((1, 3) if suf == ".tif" and n < 4 else (1,)):
                tag = "%d%s/nc%d" % (n, suf, nc)
                box = {}

                def build():
                    em = conv.HdfEmulatorFromTif(folder, ncore=nc)
                    box["em"] = em
                    check(tuple(em.shape) == shape, "shape", em.shape)
                    check(len(em) == n, "length", len(em))
                    check(np.dtype(em.dtype) == np.float32, "dtype", em.dtype)
                    ctx.step(3)
                    return tag
                if ctx.replay is not None:
                    try:
                        build()
                    except Exception:
                        pass
                ctx.case("open/" + tag, build)
                em = box.get("em")
                if em is None:
                    continue
                idx = list(range(-n - 2, n + 2))
                idx += list(slices(n, nc == 1)) if suf == ".tif" or n < 3 \
                    else []
                for i in idx:
                    ctx.case("index/%s/[%s]" % (tag, name(i)), one, ctx, em,
                             ref, i)
                zs = [0, n - 1, -1, -n, slice(None), slice(0, 1),
                      slice(None, None, 2), slice(None, None, -1),
                      slice(1, None)]
                ys = [0, 2, -1, slice(None), slice(1, 3), slice(None, None,
                                                              -1)]
                xs = [0, 3, -2, slice(None), slice(1, 4, 2),
                      slice(None, None, -2)]
                zs += [n, -n - 1]
                if nc > 1:
                    zs, ys, xs = zs[:7], ys[2:5], xs[2:5]
                for t in itertools.product(zs, ys, xs):
                    ctx.case("triple/%s/[%s]" % (tag, name(t)), one, ctx, em,
                             ref, t)
                if nc == 1 and (suf == ".tif" or n < 3):
                    for z in slices(n, True):
                        for y, x in ((slice(1, 3), slice(None)),
                                     (1, slice(None, None, -1))):
                            t = (z, y, x)
                            ctx.case("frames/%s/[%s]" % (tag, name(t)), one,
                                     ctx, em, ref, t)
                for t in [(0, 3, 0), (0, 0, 4), (slice(None), 3, 0),
                          (slice(None), 0, -5)]:
                    ctx.case("triple/%s/[%s]" % (tag, name(t)), one, ctx, em,
                             ref, t)
    # a folder without TIFF files cannot be opened

    def empty():
        p = os.path.join(root, "none")
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, "a.png"), "w") as fo:
            fo.write("x")
        try:
            conv.HdfEmulatorFromTif(p)
        except (ValueError, OSError):
            return "rejected"
        raise Violation("a folder without tif files was opened")
    ctx.case("open/none", empty)
    ctx.drop(root)
