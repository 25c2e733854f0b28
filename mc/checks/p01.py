"""P01: breadth-first search over save histories on a real directory.

State   = {relative path: content digest} of a scratch folder.
Actions = real save calls over colliding names/extensions/overwrite flags.
Oracle  = the write-set model in ``expect``: with overwriting off nothing that
          exists changes and the result is in a new file (the reported one);
          with overwriting on exactly the named file changes.
States are rebuilt by replaying the (shortest) history that reached them, so
every transition starts from a genuine on-disk state.
"""
import hashlib
import os
import shutil

import h5py
import numpy as np
from PIL import Image

from mc.core import Violation, check, exact, quiet
import algotom.io.loadersaver as losa

TECHNIQUE = ("explicit-state search (BFS) over save-operation histories on "
             "the real file system, write-set model as oracle")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every history of the save-call alphabet up to the depth bound, "
              "from empty and occupied folders, executed on the real code; "
              "two path stems, 2x3 images; single process.")
RULE = ("one case per (on-disk state, action); state = set of files with "
        "canonical content; outcome = (action, which files appeared or "
        "changed)")
ASSUMPTIONS = ["one process writes to the folder at a time",
               "histories up to the depth bound over the listed names"]


def img(tag, n=None):
    shape = (2, 3) if n is None else (n, 2, 3)
    a = np.arange(np.prod(shape), dtype=np.float32).reshape(shape)
    return a + 100.0 * (tag + 1)


# each action: (name, kind, path, overwrite, extra)
def alphabet(deep):
    acts = []
    for ow in (False, True):
        for p in ("img.tif", "img_0000.tif", "sub/img.tif", "img.png"):
            acts.append(("image", p, ow, None))
        for p in ("img.hdf", "img", "img_0000.h5"):
            acts.append(("hdf", p, ow, None))
        for p in ("img.txt", "img", "img.tif"):
            acts.append(("coef", p, ow, None))
        acts.append(("stack", ".", ow, 0))
        acts.append(("stack", ".", ow, 99999))
        acts.append(("stacklist", ".", ow, None))
    acts += [("folder", ".", None, None), ("file", "img.tif", None, None),
             ("user_rm", "img_0000.tif", None, None),
             ("user_mkdir", "Output_00002", None, None),
             ("user_touch", "img_0001.tif", None, None)]
    if deep:
        acts += [("image", "a.b.tif", ow, None) for ow in (False, True)]
        acts += [("hdf", "a.b.nxs", ow, None) for ow in (False, True)]
        acts += [("user_rmdir", "Output_00001", None, None)]
    return acts


HDF = (".hdf", ".h5", ".nxs", ".hdf5")


def named(kind, p):
    """The file a call is documented to write when nothing is in the way."""
    base, ext = os.path.splitext(p)
    if kind == "hdf" and ext.lower() not in HDF:
        return base + ".hdf"
    if kind == "coef" and ext.lower() not in (".txt", ".dat"):
        return base + ".txt"
    return p


def content(path):
    """Canonical content of a file (HDF files are not byte-stable)."""
    ext = os.path.splitext(path)[1].lower()
    if ext in HDF:
        try:
            with h5py.File(path, "r") as f:
                out = []
                f.visititems(lambda n, o: out.append(
                    (n, o[()].tobytes() if isinstance(o, h5py.Dataset)
                     else "")))
            return hashlib.sha1(repr(sorted(out)).encode()).hexdigest()
        except OSError:
            pass
    with open(path, "rb") as fo:
        return hashlib.sha1(fo.read()).hexdigest()


def snapshot(root):
    snap = {}
    for r, dirs, files in os.walk(root):
        dirs.sort()
        for d in dirs:
            snap[os.path.relpath(os.path.join(r, d), root) + "/"] = "dir"
        for f in sorted(files):
            p = os.path.join(r, f)
            snap[os.path.relpath(p, root)] = content(p)
    return snap


def canon(snap):
    # Contents are renamed in order of appearance: which value a file holds
    # does not influence later calls, only whether it exists.
    return tuple(sorted(snap))


def perform(root, act, tag):
    """Run one action; returns reported path(s) relative to root."""
    kind, p, ow, extra = act
    full = os.path.join(root, p)
    if kind == "image":
        out = losa.save_image(full, img(tag), overwrite=ow)
        return [out]
    if kind == "hdf":
        ds = losa.open_hdf_stream(full, (2, 3), key_path="entry/data",
                                  overwrite=ow)
        name = ds.file.filename
        ds[:] = img(tag)
        ds.file.close()
        return [name]
    if kind == "coef":
        return [losa.save_distortion_coefficient(
            full, 1.0 + tag, 2.0, [1.0, 0.5 * tag], overwrite=ow)]
    if kind == "stack":
        losa.save_image_multiple(root, img(tag, 2), overwrite=ow, ncore=1,
                                 start_idx=extra)
        return None
    if kind == "stacklist":
        losa.save_image_multiple([os.path.join(root, "img.tif"),
                                  os.path.join(root, "sub/img.tif")],
                                 img(tag, 2), overwrite=ow, ncore=1)
        return None
    if kind == "folder":
        return [os.path.join(root, losa.make_folder_name(root))]
    if kind == "file":
        return [losa.make_file_name(full)]
    if kind == "user_rm":
        if os.path.exists(full):
            os.remove(full)
    elif kind == "user_rmdir":
        if os.path.isdir(full):
            os.rmdir(full)
    elif kind == "user_mkdir":
        os.makedirs(full, exist_ok=True)
    elif kind == "user_touch":
        with open(full, "wb") as fo:
            fo.write(b"user data")
    return None


def verify_content(path, kind, tag, k=None):
    if kind == "hdf":
        with h5py.File(path, "r") as f:
            exact(f["entry/data"][()], img(tag), "content of HDF output")
    elif kind == "coef":
        got = losa.load_distortion_coefficient(path)
        check(got == (1.0 + tag, 2.0, [1.0, 0.5 * tag]),
              "content of coefficient file", got)
    else:
        want = img(tag) if k is None else img(tag, 2)[k]
        got = np.array(Image.open(path))
        if path.endswith(".png"):
            check(got.shape == want.shape, "shape of png", got.shape)
        else:
            exact(got, want, "content of saved image")


def oracle(root, act, tag, before, after, reported):
    kind, p, ow, extra = act
    new = sorted(k for k in after if k not in before and after[k] != "dir")
    changed = sorted(k for k in before if k in after
                     and after[k] != before[k])
    gone = sorted(k for k in before if k not in after)
    note = "%s: new=%s changed=%s gone=%s" % (act, new, changed, gone)
    check(not gone or kind.startswith("user"), "files disappeared", note)
    if kind.startswith("user"):
        return note
    if kind == "folder":
        check(not new and not changed, "naming a folder changed files", note)
        rel = os.path.relpath(reported[0], root)
        check(rel + "/" not in before and rel not in before,
              "generated folder name already exists", rel)
        os.makedirs(reported[0])
        return rel
    if kind == "file":
        check(not new and not changed, "naming a file changed files", note)
        rel = os.path.relpath(str(reported[0]), root)
        check(rel not in before, "generated file name already exists", rel)
        check(os.path.splitext(rel)[1] == os.path.splitext(p)[1] and
              os.path.dirname(rel) == os.path.dirname(p),
              "generated name changes folder or extension", rel)
        check(p in before or rel == p, "free name was not used", rel)
        return rel
    if kind in ("stack", "stacklist"):
        if kind == "stack":
            targets = ["img_%05d.tif" % i for i in (extra, extra + 1)]
        else:
            targets = ["img.tif", "sub/img.tif"]
    else:
        targets = [named(kind, p)]
    if ow:
        want_new = sorted(t for t in targets if t not in before)
        check(new == want_new, "overwriting call must create exactly %s"
              % want_new, note)
        check(set(changed) <= set(targets),
              "overwriting call changed a file it does not name", note)
        where = {t: os.path.join(root, t) for t in targets}
    else:
        check(not changed, "existing file changed with overwriting off", note)
        check(len(new) == len(targets),
              "each result must be in a new file of its own", note)
        where = {}
        left = list(new)
        for t in targets:
            if t not in before:
                check(t in left, "free name %s was not used" % t, note)
                left.remove(t)
                where[t] = os.path.join(root, t)
        for t in targets:
            if t in before:
                cand = [n for n in left
                        if os.path.dirname(n) == os.path.dirname(t)
                        and os.path.splitext(n)[1] == os.path.splitext(t)[1]
                        and n.startswith(os.path.splitext(t)[0])]
                check(cand, "new name of %s changes folder or extension" % t,
                      note)
                where[t] = os.path.join(root, cand[0])
                left.remove(cand[0])
    for k, t in enumerate(targets):
        verify_content(where[t], kind if kind in ("hdf", "coef") else "image",
                       tag, k if kind in ("stack", "stacklist") else None)
    if reported is not None:
        check(os.path.realpath(str(reported[0])) ==
              os.path.realpath(where[targets[0]]),
              "reported path is not where the result is", str(reported[0]),
              where[targets[0]])
    return note


def run(ctx):
    depth = ctx.pick(3, 4)
    acts = alphabet(ctx.thorough)
    roots = ["empty", "occupied"]
    for start in roots:
        frontier = [()]
        seen = set()
        level = 0
        while frontier and level < depth:
            nxt = []
            for hist in frontier:
                for a in acts:
                    cid = "%s/%s" % (start, "; ".join(
                        "%s(%s)%s%s" % (x[0], x[1], "" if x[2] is None else
                                        ("!" if x[2] else ""),
                                        "" if x[3] is None else "@%s" % x[3])
                        for x in hist + (a,)))
                    key = {}

                    def one():
                        root = ctx.scratch()
                        try:
                            if start == "occupied":
                                for k, n in enumerate((
                                        "img.tif", "img_0000.tif",
                                        "img_00000.tif", "img.hdf",
                                        "img.txt")):
                                    with open(os.path.join(root, n),
                                              "wb") as fo:
                                        fo.write(b"earlier %d" % k)
                                os.makedirs(os.path.join(root,
                                                         "Output_00001"))
                            for t, h in enumerate(hist):
                                rep = quiet(perform, root, h, t)
                                ctx.step()
                                if h[0] == "folder":
                                    os.makedirs(rep[0], exist_ok=True)
                            before = snapshot(root)
                            ctx.state((start, canon(before)))
                            rep = quiet(perform, root, a, len(hist))
                            ctx.step()
                            after = snapshot(root)
                            note = oracle(root, a, len(hist), before, after,
                                          rep)
                            key["k"] = canon(snapshot(root))
                            return note
                        finally:
                            ctx.drop(root)
                    ctx.case(cid, one)
                    k = key.get("k")
                    if ctx.replay is not None or (
                            k is not None and k not in seen):
                        if k is not None:
                            seen.add(k)
                        nxt.append(hist + (a,))
            frontier = nxt
            level += 1
    ctx.extra["depth"] = depth
    # names of the image files in a generated series never repeat
    for i0 in range(0, 3):
        for start in (0, 9, 99, 9999, 99998, 99999, 100000):
            def series():
                root = ctx.scratch()
                try:
                    n = 3
                    losa.save_image_multiple(root, img(0, n), ncore=1 + i0,
                                             start_idx=start)
                    ctx.step()
                    names = sorted(os.listdir(root))
                    check(len(names) == n, "one file per image", names)
                    for k in range(n):
                        f = os.path.join(root, "img_%05d.tif" % (start + k))
                        check(os.path.exists(f), "missing name", f)
                        exact(np.array(Image.open(f)), img(0, n)[k],
                              "image %d" % k)
                    return names
                finally:
                    ctx.drop(root)
            ctx.case("series/start=%d,ncore=%d" % (start, 1 + i0), series)
    # folder naming: any population of existing names
    pool = ["Output_00001", "Output_00002", "Output_00003", "Output_x",
            "Output_00005"]
    for m in range(2 ** len(pool)):
        def folders():
            root = ctx.scratch()
            try:
                have = [pool[b] for b in range(len(pool)) if m >> b & 1]
                for h in have:
                    os.makedirs(os.path.join(root, h))
                name = losa.make_folder_name(root)
                ctx.step()
                check(not os.path.exists(os.path.join(root, name)),
                      "folder name in use", name, have)
                check(name.startswith("Output_"), "prefix", name)
                return name
            finally:
                ctx.drop(root)
        ctx.case("foldername/%02d" % m, folders)
