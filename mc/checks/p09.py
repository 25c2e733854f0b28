"""P09: what dataset tools do to the directory around them.

State   = content of a scratch directory (input, output location, neighbours).
Alphabet: every subset of a pool of pre-existing neighbours whose names are
close to the output's name (a folder named like the output without suffix,
``tmp_`` folders, numbered siblings, an earlier result, files inside the
output folder), every tool, input and output container, overwriting on/off,
input folder sharing the output's base name.  Second part: for each tool and
container pair a clean run counts its individual reads and writes, then the
run is repeated with a failure (I/O error; abrupt stop) at every one of them.
Third part: histories of two or three tool calls in one directory.
Oracle: write-set model - only the declared output may differ.
"""
import contextlib
import gc
import hashlib
import itertools
import os
import pathlib

import h5py
import numpy as np
import PIL.Image
from PIL import Image

from mc.core import Violation, check, fill, quiet
import algotom.post.postprocessing as post

TECHNIQUE = ("explicit enumeration of directory states x tool calls, with "
             "systematic fault injection at every read/write of the real "
             "code")
LEVEL = "model_checking"
LEVEL_NOTE = ("All subsets of a neighbour pool, all tools/containers, every "
              "single fault position of one call; one process, faults are "
              "exceptions at library calls (no torn sectors).")
RULE = ("case = (directory state, call[, fault position]); outcome = which "
        "paths changed")
ASSUMPTIONS = ["the output location differs from the input location",
               "one process works in the directory"]

VOL = fill((3, 4, 5), 9, 0.0, 9.0)


def snapshot(root):
    snap = {}
    for r, dirs, files in os.walk(root):
        for d in dirs:
            snap[os.path.relpath(os.path.join(r, d), root) + "/"] = "dir"
        for f in files:
            p = os.path.join(r, f)
            with open(p, "rb") as fo:
                snap[os.path.relpath(p, root)] = hashlib.sha1(
                    fo.read()).hexdigest()
    return snap


def put(path, text="user data"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fo:
        fo.write(text + path[-20:])


NEIGHBOURS = {
    "folder": lambda o: put(o + "/notes.txt"),
    "foldertmp": lambda o: put(o + "/tmp_/precious.txt"),
    "tmp": lambda o: put(os.path.dirname(o) + "/tmp_/file_tmp.hdf"),
    "result": lambda o: put(o + ".hdf"),
    "numbered": lambda o: put(o + "_0000.hdf"),
    "image": lambda o: put(o + "/img_00000.tif"),
    "image9": lambda o: put(o + "/img_00099.tif"),
}


def make_input(root, kind, inname):
    p = os.path.join(root, inname)
    if kind == "array":
        return VOL.copy(), None
    if kind == "tif":
        os.makedirs(p, exist_ok=True)
        for i in range(len(VOL)):
            Image.fromarray(VOL[i]).save(p + "/s_%d.tif" % i)
        return p, None
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with h5py.File(p + ".hdf", "w") as f:
        f["entry/data"] = VOL
    return p + ".hdf", "entry/data"


def call(tool, src, out, key, ow):
    if tool == "down":
        return post.downsample_dataset(src, out, (1, 2, 2), key_path=key,
                                       overwrite=ow), (3, 2, 2)
    if tool == "scale":
        return post.rescale_dataset(src, out, nbit=16, key_path=key,
                                    overwrite=ow), (3, 4, 5)
    if tool == "crop":
        # no change of the grey levels: only the region of interest
        return post.rescale_dataset(src, out, nbit=32, crop=(0, 0, 1, 1, 0, 2),
                                    key_path=key, overwrite=ow), (3, 2, 3)
    if tool == "scale8":
        return post.rescale_dataset(src, out, nbit=8, minmax=(0.0, 9.0),
                                    key_path=key, overwrite=ow), (3, 4, 5)
    if tool == "median":
        return post.downsample_dataset(src, out, (3, 2, 2), key_path=key,
                                       method="median", rescaling=True,
                                       nbit=8, overwrite=ow), (1, 2, 2)
    if tool == "axis2":
        return post.reslice_dataset(src, out, axis=2, rotate=30.0,
                                    key_path=key, chunk=30, rescaling=True,
                                    nbit=8, ncore=1, show_progress=False,
                                    overwrite=ow), (5, 3, 4)
    return post.reslice_dataset(src, out, axis=1, key_path=key, chunk=2,
                                ncore=1, show_progress=False,
                                overwrite=ow), (4, 3, 5)


def outputs(kout, out, shape):
    """Paths (relative) the call may create or replace."""
    if kout == "hdf":
        return {out + ".hdf"}
    return {out + "/"} | {out + "/img_%05d.tif" % i for i in range(shape[0])}


OPS = [(t, i, o) for t in ("down", "scale", "slice")
       for i in ("array", "tif", "hdf") for o in ("tif", "hdf")
       if not (t == "slice" and i == "array")]
OPTIONS = [(t, i, o) for t in ("crop", "scale8", "median", "axis2")
           for i in ("array", "tif", "hdf") for o in ("tif", "hdf")
           if not (t == "axis2" and i == "array")]
SHAPE = {"down": (3, 2, 2), "scale": (3, 4, 5), "slice": (4, 3, 5),
         "crop": (3, 2, 3), "scale8": (3, 4, 5), "median": (1, 2, 2),
         "axis2": (5, 3, 4)}


def run(ctx):
    gc.collect()
    gc.freeze()          # keeps the many later collections cheap
    names = list(NEIGHBOURS)
    quickset = ctx.pick(4, 7)
    subsets = [s for n in range(len(names) + 1)
               for s in itertools.combinations(names, n)
               if n <= quickset]
    for (tool, kin, kout), ow in itertools.product(OPS + OPTIONS,
                                                   (False, True)):
        most = ctx.pick(1, 3) if (tool, kin, kout) in OPTIONS else 9
        for sub in subsets:
            if len(sub) > most:
                continue
            ctx.case("layout/%s/%s-%s/ow%d/%s" % (
                tool, kin, kout, ow, "+".join(sub) or "empty"), layout, ctx,
                tool, kin, kout, ow, sub, "in")
        # the input folder is called like the output without its suffix
        if kin == "tif" and kout == "hdf" or kin == "hdf" and kout == "tif":
            for sub in [(), ("tmp",), ("numbered",), ("foldertmp",)]:
                if kin == "hdf" and sub == ("foldertmp",):
                    continue
                ctx.case("layout/%s/%s-%s/ow%d/same-base+%s" % (
                    tool, kin, kout, ow, "+".join(sub)), layout, ctx, tool,
                    kin, kout, ow, sub, "res")
    for tool, kin, kout in OPS + ctx.pick([], OPTIONS):
        for sub in [(), tuple(n for n in names)]:
            for kind in ("error", "abort"):
                faults(ctx, tool, kin, kout, sub, kind)
        if kin == "tif" and kout == "hdf":
            faults(ctx, tool, kin, kout, (), "error", inname="res")
    histories(ctx)


def exists(kout, sub):
    if kout == "hdf":
        return "result" in sub
    return bool({"folder", "foldertmp", "image", "image9"} & set(sub))


def layout(ctx, tool, kin, kout, ow, sub, inname):
    root = ctx.scratch("l")
    try:
        base = os.path.join(root, "work")
        os.makedirs(base)
        out = os.path.join(base, "res")
        src, key = make_input(base, kin, inname)
        for n in sub:
            NEIGHBOURS[n](out)
        before = snapshot(root)
        target = out + (".hdf" if kout == "hdf" else "")
        there = exists(kout, sub)
        ctx.step()
        try:
            ret, shape = quiet(call, tool, src, target, key, ow)
        except ValueError as e:
            ret = None
            check(there and not ow, "valid request rejected: %s" % e)
            check(snapshot(root) == before, "refused call changed files")
            return "refused"
        check(ow or not there, "existing output was not protected")
        if hasattr(ret, "file"):
            ret.file.close()
        del ret
        after = snapshot(root)
        may = outputs(kout, "work/res", shape)
        diff = {p for p in set(before) | set(after)
                if before.get(p) != after.get(p)}
        lost = sorted(p for p in before if p not in after)
        check(not lost, "deleted", lost)
        check(diff <= may, "touched", sorted(diff - may))
        must = {p for p in may if not p.endswith("/")}
        miss = must - set(after)
        check(not miss, "result missing at the given place", sorted(miss))
        check(must <= diff, "result not written", sorted(must - diff))
        if kout == "hdf":
            with h5py.File(target, "r") as f:
                check(f["entry/data"].shape == shape, "result shape",
                      f["entry/data"].shape)
        return sorted(diff)
    finally:
        gc.collect()
        ctx.drop(root)


class Abort(BaseException):
    pass


@contextlib.contextmanager
def fault_at(k, kind, log):
    """Raise at the k-th individual read/write (k=None: only count)."""
    targets = [(h5py.File, "__init__", "open"),
               (h5py.Dataset, "__getitem__", "read"),
               (h5py.Dataset, "__setitem__", "write"),
               (h5py.Group, "create_dataset", "create"),
               (PIL.Image, "open", "imread"),
               (PIL.Image.Image, "save", "imwrite"),
               (pathlib.Path, "mkdir", "mkdir"),
               (os, "mkdir", "osmkdir")]
    saved = []

    def wrap(orig, tag):
        def w(*a, **kw):
            log.append(tag)
            if k is not None and len(log) == k + 1:
                raise (OSError("injected failure") if kind == "error"
                       else Abort("injected stop"))
            return orig(*a, **kw)
        return w
    for obj, name, tag in targets:
        orig = getattr(obj, name)
        saved.append((obj, name, orig))
        setattr(obj, name, wrap(orig, tag))
    try:
        yield
    finally:
        for obj, name, orig in saved:
            setattr(obj, name, orig)


def faults(ctx, tool, kin, kout, sub, kind, inname="in"):
    n = None
    k = -1
    cid0 = "fault/%s/%s-%s/%s/%s/%s" % (tool, kin, kout, inname,
                                       "all" if sub else "none", kind)
    while n is None or k < n:
        kk = None if k < 0 else k
        box = {}

        def one():
            root = ctx.scratch("f")
            log = []
            try:
                base = os.path.join(root, "work")
                os.makedirs(base)
                out = os.path.join(base, "res")
                src, key = make_input(base, kin, inname)
                for m in sub:
                    NEIGHBOURS[m](out)
                before = snapshot(root)
                target = out + (".hdf" if kout == "hdf" else "")
                shape = SHAPE[tool]
                ret, err = None, None
                with fault_at(kk, kind, log):
                    try:
                        ret, _ = quiet(call, tool, src, target, key, True)
                    except (Exception, Abort) as e:
                        err = type(e).__name__
                if ret is not None and hasattr(ret, "file"):
                    ret.file.close()
                ret = None
                gc.collect()
                ctx.step(len(log))
                box["n"] = len(log)
                if kk is None:
                    check(err is None, "clean run failed", err)
                after = snapshot(root)
                may = outputs(kout, "work/res", shape)
                lost = sorted(p for p in before if p not in after
                              and p not in may)
                check(not lost, "deleted after a failure at %s" % (
                    log[-1:],), lost)
                hurt = sorted(p for p in before if p in after and
                              before[p] != after[p] and p not in may)
                check(not hurt, "changed after a failure", hurt)
                return (tool, kin, kout, kk, log[-1:], err)
            finally:
                gc.collect()
                ctx.drop(root)
        if ctx.replay is not None and kk is None:
            try:
                one()
            except Violation:
                pass
        ctx.case("%s/%s" % (cid0, "clean" if kk is None else "io%d" % kk),
                 one)
        if kk is None:
            n = box.get("n", 0)
        k += 1


def histories(ctx):
    """Two (thorough: three) calls in one directory; earlier results live on.
    """
    acts = [(t, i, o, ow) for t, i, o in OPS if i != "array"
            for ow in (False, True)]
    if not ctx.thorough:
        acts = [a for a in acts if (a[1] == "hdf") == (a[2] == "tif")
                or a[0] == "slice"]
    depth = 2
    hist = list(itertools.product(range(len(acts)), repeat=depth))
    for h in hist:
        ctx.case("hist/" + "+".join("%s-%s-%s-%d" % acts[i] for i in h),
                 one_history, ctx, [acts[i] for i in h])


def one_history(ctx, seq):
    root = ctx.scratch("h")
    try:
        base = os.path.join(root, "work")
        os.makedirs(base)
        srcs = {"tif": make_input(base, "tif", "scan"),
                "hdf": make_input(base, "hdf", "scan")}
        seen = []
        for tool, kin, kout, ow in seq:
            before = snapshot(root)
            target = os.path.join(base, "res" + (".hdf" if kout == "hdf"
                                                 else ""))
            there = os.path.exists(target)
            src, key = srcs[kin]
            ctx.step()
            try:
                ret, shape = quiet(call, tool, src, target, key, ow)
            except ValueError as e:
                check(there and not ow, "valid request rejected: %s" % e)
                check(snapshot(root) == before, "refused call changed files")
                seen.append("refused")
                continue
            check(ow or not there, "existing output was not protected")
            if hasattr(ret, "file"):
                ret.file.close()
            ret = None
            gc.collect()
            after = snapshot(root)
            may = outputs(kout, "work/res", shape)
            diff = {p for p in set(before) | set(after)
                    if before.get(p) != after.get(p)}
            check(diff <= may, "touched", sorted(diff - may))
            check({p for p in may if p[-1] != "/"} <= set(after),
                  "result missing")
            seen.append(sorted(diff))
        return seen
    finally:
        gc.collect()
        ctx.drop(root)
