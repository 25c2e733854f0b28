"""P02: exhaustive round trips image/stack -> files -> image/stack.

Alphabet: pixel types, shapes up to 3x4 (stacks up to 4x3x2 with distinct
extents so that an axis mix-up shows), memory layouts, TIFF suffixes, stacking
axes, start indices, core counts, back-ends, explicit path lists in every
order, all subsets of a pool of file names x glob patterns.
Oracle: the float32 view of what was saved; fnmatch + sort for listings.
"""
import fnmatch
import itertools
import os

import numpy as np
from PIL import Image

from mc.core import check, exact, fill, quiet, same
import algotom.io.loadersaver as losa

TECHNIQUE = ("bounded-exhaustive exploration of save/load round trips on the "
             "real code against a reference model")
LEVEL = "model_checking"
LEVEL_NOTE = ("Complete product of the listed dtypes, shapes, layouts, axes, "
              "core counts and name sets; larger images and other PIL "
              "versions are not covered.")
RULE = ("case = one full save/list/load trace; outcome = what came back; "
        "non-trivial = distinct outcome")
ASSUMPTIONS = ["Pillow stores the listed pixel types losslessly in TIFF"]

DTYPES = ["uint8", "uint16", "int16", "int32", "float32", "float64"]


def pixels(shape, dt, seed):
    a = fill(shape, seed, 0, 1, np.float64)
    if dt == "uint8":
        a = a * 255
    elif dt == "uint16":
        a = a * 65535
    elif dt.startswith("int"):
        a = (a - 0.5) * 30000
    else:
        a = (a - 0.5) * 1e3
    return a.astype(dt)


LAYOUTS = {
    "C": lambda a: np.ascontiguousarray(a),
    "F": lambda a: np.asfortranarray(a),
    "view": lambda a: np.repeat(np.repeat(a, 2, -1), 2, -2)[..., ::2, ::2],
    "reversed": lambda a: np.ascontiguousarray(a[..., ::-1])[..., ::-1],
}


def run(ctx):
    shapes = [(h, w) for h in range(1, ctx.pick(4, 6))
              for w in range(1, ctx.pick(5, 7))]
    for dt in DTYPES:
        for shape in shapes:
            for lay in LAYOUTS:
                for ext in (".tif", ".tiff"):
                    def single():
                        root = ctx.scratch()
                        try:
                            a = LAYOUTS[lay](pixels(shape, dt, 3))
                            p = os.path.join(root, "deep/er/im" + ext)
                            r = losa.save_image(p, a)
                            check(os.path.realpath(str(r)) ==
                                  os.path.realpath(p), "reported path", r)
                            b = losa.load_image(p)
                            ctx.step(2)
                            check(b.dtype == np.float32, "loaded type",
                                  b.dtype)
                            exact(b, a.astype(np.float32), "round trip")
                            return b
                        finally:
                            ctx.drop(root)
                    ctx.case("image/%s,%s,%s%s" % (dt, shape, lay, ext),
                             single)
    # 8-bit formats
    for dt in DTYPES:
        for shape in [(1, 2), (2, 3), (4, 3)]:
            for ext in (".png", ".bmp"):
                def stretch():
                    root = ctx.scratch()
                    try:
                        a = pixels(shape, dt, 5)
                        p = os.path.join(root, "im" + ext)
                        quiet(losa.save_image, p, a)
                        b = losa.load_image(p)
                        ctx.step(2)
                        f = a.astype(np.float64)
                        want = 255.0 * (f - f.min()) / (f.max() - f.min())
                        check(np.max(np.abs(b - want)) <= 1.0001,
                              "8-bit stretch", b, want)
                        check(b.min() == 0 and b.max() == 255,
                              "8-bit range", b)
                        return b
                    finally:
                        ctx.drop(root)
                ctx.case("stretch/%s,%s%s" % (dt, shape, ext), stretch)
    # stacks
    stack_shape = (4, 3, 2)
    for dt in ("uint16", "float32", "float64"):
        for axis in (0, 1, 2):
            for ncore in (1, 2, 3, 7, None):
                for mode in ("folder0", "folder8", "folder98", "list",
                             "list_rev", "list_mixed"):
                    for prefer in ("threads",):
                        def stack():
                            return stack_trip(ctx, stack_shape, dt, axis,
                                              ncore, mode, prefer)
                        ctx.case("stack/%s,axis%d,n%s,%s,%s" % (
                            dt, axis, ncore, mode, prefer), stack)
    for axis in (0, 1, 2):
        def stackp():
            return stack_trip(ctx, stack_shape, "float32", axis, 2, "list",
                              "processes")
        ctx.case("stack/processes,axis%d" % axis, stackp)
    for shp in itertools.product((1, 2, 3), repeat=3):
        for axis in (0, 1, 2):
            def stacks():
                return stack_trip(ctx, shp, "float32", axis, 2, "folder0",
                                  "threads")
            ctx.case("stack/shape%s,axis%d" % (shp, axis), stacks)
    # number of images against number of cores, including more cores than
    # images and numbers that do not divide
    for n, nc, axis in itertools.product(
            range(1, ctx.pick(11, 18)), ctx.pick((1, 2, 3, 4, 7, None), (
                1, 2, 3, 4, 5, 6, 7, 8, 9, None)), (0, 1, 2)):
        shp = [2, 2, 2]
        shp[axis] = n

        def cores():
            return stack_trip(ctx, tuple(shp), "float32", axis, nc,
                              "folder3", "threads")
        ctx.case("cores/%d/%s,axis%d" % (n, nc, axis), cores)
    # wrong number of names is rejected
    for n in range(0, 6):
        for axis in (0, 1, 2):
            def count():
                root = ctx.scratch()
                try:
                    names = [os.path.join(root, "%d.tif" % k)
                             for k in range(n)]
                    st = pixels(stack_shape, "float32", 2)
                    ok = n == stack_shape[axis]
                    try:
                        losa.save_image_multiple(names, st, axis=axis,
                                                 ncore=1)
                        got = True
                    except ValueError:
                        got = False
                    ctx.step()
                    check(got == ok, "names %d, images %d accepted" % (
                        n, stack_shape[axis]), got)
                    check(len(os.listdir(root)) == (n if ok else 0),
                          "files written")
                    return (n, axis, got)
                finally:
                    ctx.drop(root)
            ctx.case("count/%d,axis%d" % (n, axis), count)
    # colour images are averaged over the colour channel
    for shape in [(4, 5), (5, 4), (8, 8), (3, 3), (3, 4), (4, 3)]:
        def colour():
            root = ctx.scratch()
            try:
                a = pixels(shape + (3,), "uint8", 8)
                p = os.path.join(root, "c.png")
                Image.fromarray(a).save(p)
                b = losa.load_image(p)
                ctx.step()
                same(b, a.astype(np.float64).mean(axis=2), "colour average")
                return b
            finally:
                ctx.drop(root)
        ctx.case("colour/%s" % (shape,), colour)
    # listings
    pool = ["img_00001.tif", "img_00010.tif", "img_2.tif", "b.tiff",
            "a.TIF", "img_00001.txt"]
    patterns = ["*.tif", "*.tif*", "*tif*", "img_*.tif", "*", "img_000??.tif",
                "b.tiff", "*TIF*", "zzz*"]
    for m in range(2 ** len(pool)):
        have = [pool[b] for b in range(len(pool)) if m >> b & 1]

        def listing():
            root = ctx.scratch()
            try:
                for h in reversed(have):
                    with open(os.path.join(root, h), "wb"):
                        pass
                outs = []
                for pat in patterns:
                    want = sorted(root + "/" + h for h in have
                                  if fnmatch.fnmatchcase(h, pat))
                    try:
                        got = losa.find_file(root + "/" + pat)
                    except FileNotFoundError:
                        got = []
                    ctx.step()
                    check(list(got) == want, "files matching %s" % pat, got,
                          want)
                    outs.append([os.path.basename(g) for g in got])
                return outs
            finally:
                ctx.drop(root)
        ctx.case("listing/%02d" % m, listing)
    # reading a missing or broken file is an error
    for what in ("missing", "text"):
        def bad():
            root = ctx.scratch()
            try:
                p = os.path.join(root, "x.tif")
                if what == "text":
                    with open(p, "w") as fo:
                        fo.write("no image")
                try:
                    losa.load_image(p)
                    got = "loaded"
                except ValueError:
                    got = "rejected"
                ctx.step()
                check(got == "rejected", "bad image", got)
                return what
            finally:
                ctx.drop(root)
        ctx.case("bad/%s" % what, bad)


def stack_trip(ctx, shape, dt, axis, ncore, mode, prefer):
    root = ctx.scratch()
    try:
        st = pixels(shape, dt, 7)
        planes = np.moveaxis(st, axis, 0).astype(np.float32)
        n = len(planes)
        if mode.startswith("folder"):
            start = int(mode[6:])
            losa.save_image_multiple(root, st, axis=axis, ncore=ncore,
                                     prefer=prefer, start_idx=start)
            names = ["img_%05d.tif" % (start + k) for k in range(n)]
        else:
            names = ["im%02d.tif" % k for k in range(n)]
            if mode == "list_rev":
                names.reverse()
            elif mode == "list_mixed":
                names = ["sub%d/%s" % (k % 2, m) for k, m in
                         enumerate(names)]
            losa.save_image_multiple([os.path.join(root, m) for m in names],
                                     st, axis=axis, ncore=ncore,
                                     prefer=prefer)
        paths = [os.path.join(root, m) for m in names]
        found = sorted(os.path.join(r, f) for r, _, fs in os.walk(root)
                       for f in fs)
        check(found == sorted(paths), "files written", found, sorted(paths))
        out = losa.load_image_multiple(paths, ncore=ncore, prefer=prefer)
        ctx.step(2)
        exact(out, planes, "stack in the order of the path list")
        for k, p in enumerate(paths):
            exact(losa.load_image(p), planes[k], "image %d" % k)
        if "mixed" not in mode:
            srt = losa.find_file(root + "/*.tif")
            check(srt == sorted(paths), "find_file order", srt)
            back = losa.load_image_multiple(srt, ncore=1)
            order = np.argsort(names, kind="stable")
            exact(back, planes[order], "stack in sorted order")
            one = losa.get_tif_stack(root, fix_zero_div=False)
            exact(one, planes[order], "get_tif_stack order")
            ctx.step(3)
        return out
    finally:
        ctx.drop(root)
