"""P50: a failing disk or a broken file is always reported, and the work can be
repeated.

Enumerated: every loader, saver, converter and dataset tool x container x
number of workers, with (a) an I/O error injected at every single low-level
operation of the call (opening, reading, writing, creating, making folders),
in whichever thread it happens, and (b) every input file in turn replaced by a
broken one (empty, truncated, not an image, missing).
After each failure the same call is repeated on the repaired directory
(thorough: the first repetition fails too, at every operation).
Oracle: the call ends with an exception, or its result equals the undisturbed
one; input files and unrelated files are bit-identical; the repeated call
returns the undisturbed result.
"""
import contextlib
import gc
import hashlib
import itertools
import os
import pathlib
import threading

import h5py
import numpy as np
import PIL.Image
from PIL import Image

import algotom.io.converter as cvt
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post
import algotom.util.utility as util
from mc.core import Violation, check, fill, quiet

SHARDS = 8
TECHNIQUE = ("exhaustive fault enumeration on the real code: an error at "
             "every low-level I/O operation of every call, and every input "
             "file broken in turn, each followed by a repetition")
LEVEL = "model_checking"
LEVEL_NOTE = ("all single fault positions of each call (thorough: all pairs of a "
              "fault and a fault of the repetition for calls of at most 32 "
              "operations); "
              "worker threads, not worker processes")
RULE = "case = (call, fault position); state = (call, fault, what it hit)"
ASSUMPTIONS = ["faults appear as exceptions of the libraries (h5py, Pillow, "
               "the file system) or as unreadable files"]

D, H, W = 4, 3, 5
VOL = fill((D, H, W), 9, 1.0, 9.0, np.float32)
FLAT = fill((H, W), 3, 10.0, 12.0, np.float32)
DARK = fill((H, W), 4, 0.1, 0.4, np.float32)


# -------------------------------------------------------------------- faults
class Faults:
    """Wraps the low-level operations; raises at operation number k."""
    TARGETS = [(h5py.File, "__init__"), (h5py.Dataset, "__getitem__"),
               (h5py.Dataset, "__setitem__"), (h5py.Group, "create_dataset"),
               (h5py.Group, "__getitem__"), (h5py.Group, "__setitem__"),
               (PIL.Image, "open"), (PIL.Image.Image, "save"),
               (PIL.Image.Image, "load"), (pathlib.Path, "mkdir"),
               (os, "mkdir")]

    def __init__(self, k):
        self.k, self.log = k, []
        self.lock = threading.Lock()

    def __enter__(self):
        self.saved = []
        for obj, name in self.TARGETS:
            orig = getattr(obj, name)
            self.saved.append((obj, name, orig))
            setattr(obj, name, self.wrap(orig, "%s.%s" % (
                getattr(obj, "__name__", obj), name)))
        return self

    def wrap(self, orig, tag):
        def w(*a, **kw):
            with self.lock:
                n = len(self.log)
                self.log.append(tag)
            if n == self.k:
                raise OSError("injected failure")
            return orig(*a, **kw)
        return w

    def __exit__(self, *a):
        for obj, name, orig in self.saved:
            setattr(obj, name, orig)


# --------------------------------------------------------------------- calls
def tifs(d, vol=VOL, name="img"):
    os.makedirs(d, exist_ok=True)
    out = []
    for i, m in enumerate(vol):
        p = os.path.join(d, "%s_%03d.tif" % (name, i))
        Image.fromarray(m).save(p)
        out.append(p)
    return out


def hdf(p, vol=VOL, key="entry/data", **extra):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with h5py.File(p, "w") as f:
        f[key] = vol
        for k, v in extra.items():
            f[k.replace("__", "/")] = v
    return p


MAKE = {
    "in": lambda d: tifs(d + "/in"),
    "in2": lambda d: tifs(d + "/in2", VOL + 1),
    "hdf": lambda d: [hdf(d + "/a.hdf"), hdf(d + "/b.hdf", VOL + 1)],
    "hdf0": lambda d: [hdf(d + "/a.hdf")],
    "ref": lambda d: [hdf(d + "/ref%d.hdf" % k, VOL + 10 + k)
                      for k in range(3)],
    "sam": lambda d: [hdf(d + "/sam%d.hdf" % k, VOL + 2 + k)
                      for k in range(3)],
    "dls": lambda d: [hdf(d + "/dls%d.hdf" % k, fill((8, H, W), 20 + k, 1, 9),
                          entry__image_key=np.array([2, 1, 1, 0, 0, 0, 1, 2]))
                      for k in range(2)],
}


def prepare_inputs(name, d):
    """The inputs of a call and files of somebody else: {label: files}."""
    files = {}
    for i in CALLS[name][1]:
        k = i[0] if isinstance(i, tuple) else i
        files[k] = MAKE[k](d)
    with open(d + "/unrelated.tif", "w") as fo:
        fo.write("someone else's data")
    tifs(d + "/other", VOL[:1])
    return files


def value(r):
    """What a call returned, as arrays."""
    if isinstance(r, h5py.Dataset):
        v = r[:]
        r.file.close()
        return v
    if isinstance(r, (tuple, list)):
        return [value(x) for x in r]
    if isinstance(r, (str, os.PathLike)):
        return "path"
    return r if r is None else np.asarray(r)


def read_out(p):
    """Everything below an output location."""
    out = {}
    if os.path.isfile(p):
        with h5py.File(p, "r") as f:
            f.visititems(lambda n, o: out.__setitem__(n, o[()]) if isinstance(
                o, h5py.Dataset) else None)
    elif os.path.isdir(p):
        for f in sorted(os.listdir(p)):
            q = os.path.join(p, f)
            if f.endswith(".tif"):
                out[f] = np.array(Image.open(q))
            elif f.endswith((".hdf", ".h5")):
                out[f] = read_out(q)
            elif os.path.isdir(q):
                out[f] = "folder"
            else:
                out[f] = open(q).read()
    return out


def hstream(d):
    ds = losa.open_hdf_stream(d + "/out/s.hdf", (D, H, W), "entry/data",
                              options={"entry/angles": np.arange(4.0)},
                              overwrite=True)
    try:
        for i in range(D):
            ds[i] = VOL[i]
    finally:
        ds.file.close()


CALLS = {}


def add(name, fn, inputs=(), out=None):
    """fn(directory); inputs: labels of files read; out: output location."""
    CALLS[name] = (fn, inputs, out)


for _n in (1, 2):
    add("load_image_multiple/%d" % _n, lambda d, n=_n:
        losa.load_image_multiple(losa.find_file(d + "/in/*.tif"), ncore=n),
        ["in"])
    for _ax in (0, 1, 2):
        add("save_image_multiple/%d/axis%d" % (_n, _ax), lambda d, n=_n,
            ax=_ax: losa.save_image_multiple(d + "/out", VOL, axis=ax,
                                             ncore=n), (), "out")
    add("HdfEmulatorFromTif/slice/%d" % _n, lambda d, n=_n:
        cvt.HdfEmulatorFromTif(d + "/in", n)[0:4], ["in"])
    for _k, _ax in itertools.product(("tif", "hdf"), (1, 2)):
        for _o in ("tif", "hdf"):
            add("reslice/%s-%s/%d/axis%d" % (_k, _o, _n, _ax),
                lambda d, k=_k, o=_o, n=_n, ax=_ax: post.reslice_dataset(
                    d + ("/in" if k == "tif" else "/a.hdf"),
                    d + "/out" + ("" if o == "tif" else "/r.hdf"), axis=ax,
                    key_path=None if k == "tif" else "entry/data",
                    rescaling=(ax == 2), chunk=3, ncore=n,
                    show_progress=False, overwrite=True),
                ["in" if _k == "tif" else "hdf0"], "out")
add("HdfEmulatorFromTif/int", lambda d: cvt.HdfEmulatorFromTif(d + "/in")[2],
    [("in", 2)])
add("HdfEmulatorFromTif/tuple", lambda d: cvt.HdfEmulatorFromTif(
    d + "/in")[:, 1:3, 2], ["in"])
add("convert_tif_to_hdf", lambda d: cvt.convert_tif_to_hdf(
    d + "/in", d + "/out/c.hdf", crop=(1, 0, 0, 1)), ["in"], "out")
add("convert_tif_to_hdf/options", lambda d: cvt.convert_tif_to_hdf(
    d + "/in", d + "/out/c.hdf", options={"entry/angles": np.arange(4.0)}),
    ["in"], "out")
for _ax in (0, 1, 2):
    add("extract_tif_from_hdf/%d" % _ax, lambda d, ax=_ax:
        cvt.extract_tif_from_hdf(d + "/a.hdf", d + "/out", "entry/data",
                                 axis=ax), ["hdf0"], "out")
add("get_tif_stack", lambda d: losa.get_tif_stack(
    d + "/in", flat_field=FLAT, dark_field=DARK), ["in"])
add("get_tif_stack/num_use", lambda d: losa.get_tif_stack(
    d + "/in", crop=(1, 0, 0, 1)), ["in"])
add("get_image_stack/tif", lambda d: losa.get_image_stack(
    2, [d + "/in", d + "/in2"]), [("in", 2), ("in2", 2)])
add("get_image_stack/tif-average", lambda d: losa.get_image_stack(
    None, [d + "/in", d + "/in2"], average=True), ["in", "in2"])
add("get_image_stack/hdf", lambda d: losa.get_image_stack(
    1, [d + "/a.hdf", d + "/b.hdf"], "entry/data", flat_field=FLAT), ["hdf"])
add("get_image_stack/hdf-average", lambda d: losa.get_image_stack(
    None, [d + "/a.hdf", d + "/b.hdf"], "entry/data", average=True), ["hdf"])
add("get_reference_sample_stacks", lambda d: losa.get_reference_sample_stacks(
    1, [d + "/ref%d.hdf" % k for k in range(3)],
    [d + "/sam%d.hdf" % k for k in range(3)], "entry/data", "entry/data",
    flat_field=FLAT, dark_field=DARK), ["ref", "sam"])
add("get_reference_sample_stacks_dls", lambda d:
    losa.get_reference_sample_stacks_dls(
        1, [d + "/dls%d.hdf" % k for k in range(2)], data_key="entry/data",
        image_key="entry/image_key"), ["dls"])
add("load_image", lambda d: losa.load_image(d + "/in/img_001.tif"),
    [("in", 1)])
add("load_hdf", lambda d: losa.load_hdf(d + "/a.hdf", "entry/data"),
    ["hdf0"])
add("get_hdf_information", lambda d: [np.array([str(x) for x in v]) for v in
                                      losa.get_hdf_information(
                                          d + "/a.hdf")], ["hdf0"])
add("find_hdf_key", lambda d: [np.array([str(x) for x in v]) for v in
                               losa.find_hdf_key(d + "/a.hdf", "data")],
    ["hdf0"])
add("save_image", lambda d: losa.save_image(d + "/out/deep/i.tif", VOL[0]),
    (), "out/deep")
add("open_hdf_stream", hstream, (), "out")
add("statistics/tif", lambda d: post.get_statistical_information_dataset(
    d + "/in", skip=1), ["in"])
add("statistics/hdf", lambda d: post.get_statistical_information_dataset(
    d + "/a.hdf", skip=1, key_path="entry/data"), ["hdf0"])
for _k, _o in itertools.product(("tif", "hdf", "array"), ("tif", "hdf")):
    def _src(d, k=_k):
        return VOL.copy() if k == "array" else d + (
            "/in" if k == "tif" else "/a.hdf")
    _in = [] if _k == "array" else ["in" if _k == "tif" else "hdf0"]
    add("downsample/%s-%s" % (_k, _o), lambda d, s=_src, o=_o, k=_k:
        post.downsample_dataset(
            s(d), d + "/out" + ("" if o == "tif" else "/r.hdf"), (2, 1, 2),
            key_path="entry/data" if k == "hdf" else None, overwrite=True),
        _in, "out")
    add("rescale/%s-%s" % (_k, _o), lambda d, s=_src, o=_o, k=_k:
        post.rescale_dataset(
            s(d), d + "/out" + ("" if o == "tif" else "/r.hdf"), nbit=8,
            skip=1, key_path="entry/data" if k == "hdf" else None,
            overwrite=True), _in, "out")


def _slice_method(m, bad=None, box=None):
    with box["lock"]:
        k = box["n"]
        box["n"] += 1
    if k == bad:
        raise RuntimeError("injected failure")
    return m * 2


# --------------------------------------------------------------------- cases
def snap(d, skip):
    out = {}
    for base, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, d)
            if rel.split(os.sep)[0] == skip:
                continue
            with open(p, "rb") as fo:
                out[rel] = hashlib.sha1(fo.read()).hexdigest()
    return out


def alike(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            sorted(a) == sorted(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and \
            len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "SUO" or b.dtype.kind in "SUO":
        return bool(np.all(a == b))
    return bool(np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True))


def attempt(name, d):
    """Result of the call and what it left at its output location."""
    fn, _, out = CALLS[name]
    try:
        r = value(quiet(fn, d))
        err = None
    except Exception as e:
        # keep no traceback: its frames would keep temporary folders alive
        r, err = None, "%s: %s" % (type(e).__name__, e)
    gc.collect()
    return r, err


def outcome_of(name, d, r):
    out = CALLS[name][2]
    return [r, read_out(os.path.join(d, out))] if out else [r]


CLEAN = {}


def clean(ctx, name):
    """Undisturbed result and number of low-level operations."""
    if name not in CLEAN:
        d = ctx.scratch("c")
        prepare_inputs(name, d)
        with Faults(None) as f:
            r, err = attempt(name, d)
            n = len(f.log)
        if err is not None:
            raise Violation("the undisturbed call failed: %s" % err)
        CLEAN[name] = (n, outcome_of(name, d, r))
        ctx.drop(d)
    return CLEAN[name]


def after_failure(ctx, name, d, before, want):
    top = (CALLS[name][2] or "out").split("/")[0]
    now = snap(d, top)
    hurt = sorted(p for p in before if now.get(p) != before[p])
    check(not hurt, "files outside the output changed or vanished", hurt)
    new = sorted(p for p in now if p not in before)
    check(not new, "files left outside the output", new)


def repeat(ctx, name, d, want):
    ctx.step()
    r, err = attempt(name, d)
    if err is not None:
        raise Violation("the repeated call failed: %s" % err)
    check(alike(outcome_of(name, d, r), want),
          "the repeated call gives another result", r)


def injected(ctx, name, k, again=None):
    n, want = clean(ctx, name)
    d = ctx.scratch()
    prepare_inputs(name, d)
    top = (CALLS[name][2] or "out").split("/")[0]
    before = snap(d, top)
    ctx.step()
    with Faults(k) as f:
        r, err = attempt(name, d)
        hit = f.log[k] if len(f.log) > k else None
    ctx.state((name, k, again, hit))
    if err is None:
        check(hit is None or alike(outcome_of(name, d, r), want),
              "an I/O error at operation %d (%s) was swallowed" % (k, hit), r)
    after_failure(ctx, name, d, before, want)
    if again is not None:       # the first repetition fails as well
        ctx.step()
        with Faults(again) as f:
            r, err = attempt(name, d)
            hit = f.log[again] if len(f.log) > again else None
        if err is None:
            check(hit is None or alike(outcome_of(name, d, r), want),
                  "an I/O error at operation %d (%s) of the repeated call "
                  "was swallowed" % (again, hit), r)
        after_failure(ctx, name, d, before, want)
    repeat(ctx, name, d, want)
    ctx.drop(d)
    return "raised" if err is not None else "harmless"


KINDS = ("empty", "truncated", "noimage", "gone")


def spoil(p, kind):
    """Break a file."""
    if kind == "gone":
        os.remove(p)
        return
    with open(p, "rb") as fo:
        raw = fo.read()
    if kind == "empty":
        raw = b""
    elif kind == "truncated":
        raw = raw[:len(raw) // 2]
    else:
        raw = b"this is not an image\n" * 20
    with open(p, "wb") as fo:
        fo.write(raw)


def files_of(name, files):
    out = []
    for i in CALLS[name][1]:
        if isinstance(i, tuple):
            out.append(files[i[0]][i[1]])
        else:
            out += files[i]
    return out


def broken(ctx, name, pos, kind):
    n, want = clean(ctx, name)
    d = ctx.scratch()
    files = prepare_inputs(name, d)
    p = files_of(name, files)[pos]
    with open(p, "rb") as fo:
        good = fo.read()
    spoil(p, kind)
    top = (CALLS[name][2] or "out").split("/")[0]
    before = snap(d, top)
    ctx.step()
    ctx.state((name, pos, kind))
    r, err = attempt(name, d)
    if err is None:
        raise Violation("input file %s is %s, and the call returned a result"
                        % (os.path.relpath(p, d), kind))
    after_failure(ctx, name, d, before, want)
    with open(p, "wb") as fo:
        fo.write(good)
    repeat(ctx, name, d, want)
    ctx.drop(d)
    return "raised"


def slices(ctx, axis, ncore, bad):
    box = {"n": 0, "lock": threading.Lock()}
    ctx.step()
    n = VOL.shape[axis]
    try:
        r = quiet(util.parallel_process_slices, VOL, _slice_method, [],
                  axis=axis, ncore=ncore, bad=bad, box=box)
    except RuntimeError:
        check(bad < n, "failure without a failing slice")
        return "raised"
    check(bad >= n, "the failure of a slice was swallowed")
    check(alike(r, VOL * 2), "result")
    return "done"


def run(ctx):
    gc.collect()
    gc.freeze()                 # what is collected is what the calls leave
    for name in sorted(CALLS):
        if not ctx.thorough and name in ONLY_THOROUGH:
            continue
        # the number of operations is a property of the tree under test; each
        # worker counts it itself
        try:
            n = clean(ctx, name)[0]
        except Exception as e:
            ctx.case("clean/" + name, _fail, e)
            continue
        if ctx.shard[0] == 0:
            ctx.extra["operations"] = ctx.extra.get("operations", 0) + n
        for k in range(n):
            ctx.case("io/%s/%d" % (name, k), injected, ctx, name, k)
        if ctx.thorough and n <= PAIRS_UPTO:
            for k, j in itertools.product(range(n), repeat=2):
                ctx.case("io2/%s/%d/%d" % (name, k, j), injected, ctx, name,
                         k, j)
        if CALLS[name][1]:
            d = ctx.scratch("n")
            m = len(files_of(name, prepare_inputs(name, d)))
            ctx.drop(d)
            for pos, kind in itertools.product(range(m), KINDS):
                if kind == "gone" and name in GONE_IS_FEWER:
                    continue
                ctx.case("broken/%s/%d/%s" % (name, pos, kind), broken, ctx,
                         name, pos, kind)
    for axis, ncore, bad in itertools.product((0, 1, 2), (1, 2, 3),
                                              range(7)):
        ctx.case("slice/%d/%d/%d" % (axis, ncore, bad), slices, ctx, axis,
                 ncore, bad)


def _fail(e):
    raise e


PAIRS_UPTO = 32
# a folder with one file fewer is a valid, shorter stack
GONE_IS_FEWER = {n for n in CALLS if "in" in CALLS[n][1] or any(
    isinstance(i, tuple) and n != "load_image" for i in CALLS[n][1])}
ONLY_THOROUGH = {n for n in CALLS if n.startswith("reslice/") and
                 n.endswith(("/1/axis2", "/2/axis1"))}
