"""P51: how a path is written, and what the folders on the way are called,
does not matter.

Enumerated: every input/output routine x every way of writing the input path
and the output path (absolute, relative, through ".", "..", doubled and
trailing separators, through a symbolic link, from different working
directories) x every kind of folder name on the way (blank, accent, dot,
bracket, star, "tif" in the name, leading dot).
Oracle: the result of the routine with the plain absolute path; the output is
at the place the path denotes and nothing else appears or changes anywhere.
"""
import hashlib
import itertools
import os

import h5py
import numpy as np
from PIL import Image

import algotom.io.converter as cvt
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post
import algotom.util.calibration as calib
from mc.core import Violation, check, fill, quiet

SHARDS = 8
TECHNIQUE = ("exhaustive enumeration of path spellings x folder names x "
             "working directories for every input/output routine on the real "
             "code, against the plain absolute path")
LEVEL = "model_checking"
LEVEL_NOTE = ("complete product of the listed spellings and names; POSIX "
              "paths only")
RULE = "case = (routine, spelling, folder name); state = its result"
ASSUMPTIONS = ["POSIX file system with symbolic links"]

D, H, W = 3, 4, 5
VOL = fill((D, H, W), 9, 1.0, 9.0, np.float32)

# ---------------------------------------------------------------- spellings
# name -> (working directory, function: absolute path -> spelled path); base
# is root/NAME, root holds the link "lnk" -> NAME
SPELL = {
    "absolute": ("/", lambda root, nm, rel: f"{root}/{nm}/{rel}"),
    "doubled": ("/", lambda root, nm, rel: f"{root}//{nm}//{rel}"),
    "dot": ("/", lambda root, nm, rel: f"{root}/./{nm}/./{rel}"),
    "dotdot": ("/", lambda root, nm, rel: f"{root}/{nm}/../{nm}/{rel}"),
    "link": ("/", lambda root, nm, rel: f"{root}/lnk/{rel}"),
    "relative": ("R", lambda root, nm, rel: f"{nm}/{rel}"),
    "relative-dot": ("R", lambda root, nm, rel: f"./{nm}/{rel}"),
    "relative-inside": ("B", lambda root, nm, rel: rel),
    "relative-up": ("I", lambda root, nm, rel: f"../{rel}"),
    "relative-link": ("R", lambda root, nm, rel: f"lnk/{rel}"),
}
NAMES = ["base", "two words", "m\u00fcller", "v0.5", "scan[1]", "a*b",
         "old.tif", "x.hdf", ".hidden", "q?", "tail."]


class Where:
    """A scratch world: root/NAME/{in, h.hdf, c.txt} and the place of output.
    """
    def __init__(self, ctx, nm):
        self.top = ctx.scratch()
        self.root = os.path.realpath(self.top)
        self.nm = nm
        b = self.base = os.path.join(self.root, nm)
        os.makedirs(b + "/in")
        os.makedirs(b + "/cwd")
        os.symlink(nm, self.root + "/lnk")
        for i, m in enumerate(VOL):
            Image.fromarray(m).save(b + "/in/p_%03d.tif" % i)
        with h5py.File(b + "/h.hdf", "w") as f:
            f["entry/data"] = VOL
        with open(b + "/c.txt", "w") as f:
            f.write("xcenter = 2.5\nycenter = 1.5\nfactor0 = 1.0\n"
                    "factor1 = 0.25\n")
        with open(self.root + "/bystander.tif", "w") as f:
            f.write("not yours")

    def cwd(self, sp):
        return {"/": "/", "R": self.root, "B": self.base,
                "I": self.base + "/cwd"}[SPELL[sp][0]]

    def path(self, sp, rel):
        return SPELL[sp][1](self.root, self.nm, rel)


def value(r):
    if isinstance(r, h5py.Dataset):
        v = r[:]
        r.file.close()
        return v
    if isinstance(r, (tuple, list)):
        return [value(x) for x in r]
    if isinstance(r, (str, os.PathLike)):
        return "path"
    return r if r is None else np.asarray(r)


def listing(root):
    """Everything below root: relative path -> digest of content (images and
    HDF by their pixels)."""
    out = {}
    for b, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(b, x)
            out[os.path.relpath(p, root)] = "link" if os.path.islink(p) \
                else "folder"
        for x in fs:
            p = os.path.join(b, x)
            try:
                if os.path.getsize(p) and x.endswith((".hdf", ".h5")):
                    d = {}
                    with h5py.File(p, "r") as f:
                        f.visititems(lambda n, o: d.__setitem__(
                            n, np.round(np.asarray(o[()], float), 4).tolist()
                        ) if isinstance(o, h5py.Dataset) else None)
                    c = repr(sorted(d.items())).encode()
                elif x.endswith(".tif") and x != "bystander.tif":
                    m = np.array(Image.open(p))
                    c = repr((m.shape, np.round(np.asarray(m, float), 4)
                              .tolist())).encode()
                else:
                    with open(p, "rb") as f:
                        c = f.read()
            except Exception as e:
                c = ("unreadable %s" % type(e).__name__).encode()
            out[os.path.relpath(p, root)] = hashlib.sha1(c).hexdigest()
    return out


# ------------------------------------------------------------------ routines
# name -> (kind of folder argument, function(inp, out)); inp and out are
# functions from the plain relative path to the spelled one
def hstream(p):
    ds = losa.open_hdf_stream(p, (D, H, W), "entry/data")
    try:
        ds[:] = VOL
    finally:
        ds.file.close()


READ = {
    "load_image": lambda i: losa.load_image(i("in/p_001.tif")),
    "find_file": lambda i: np.array([os.path.basename(p) for p in
                                     losa.find_file(i("in/*.tif"))]),
    "load_image_multiple": lambda i: losa.load_image_multiple(
        losa.find_file(i("in/*.tif")), ncore=2),
    "load_hdf": lambda i: losa.load_hdf(i("h.hdf"), "entry/data"),
    "get_hdf_information": lambda i: np.array(
        [str(x) for x in losa.get_hdf_information(i("h.hdf"))[0]]),
    "find_hdf_key": lambda i: np.array(
        [str(x) for x in losa.find_hdf_key(i("h.hdf"), "data")[0]]),
    "get_tif_stack": lambda i: losa.get_tif_stack(i("in")),
    "get_image_stack/tif": lambda i: losa.get_image_stack(1, [i("in"),
                                                              i("in")]),
    "get_image_stack/hdf": lambda i: losa.get_image_stack(
        1, [i("h.hdf"), i("h.hdf")], "entry/data"),
    "get_reference_sample_stacks": lambda i: losa.get_reference_sample_stacks(
        1, [i("h.hdf")] * 3, [i("h.hdf")] * 3, "entry/data", "entry/data"),
    "load_distortion_coefficient": lambda i: list(
        losa.load_distortion_coefficient(i("c.txt"))),
    "HdfEmulatorFromTif": lambda i: cvt.HdfEmulatorFromTif(
        i("in"))[:, 1:3, :],
    "statistics/tif": lambda i: list(
        post.get_statistical_information_dataset(i("in"), skip=1)),
    "statistics/hdf": lambda i: list(
        post.get_statistical_information_dataset(
            i("h.hdf"), skip=1, key_path="entry/data")),
}


def dataset(fn, src, out, **kw):
    if src.endswith(".hdf"):
        kw["key_path"] = "entry/data"
    return fn(src, out, **kw)


WRITE = {
    "save_image": lambda i, o: losa.save_image(o("out/a.tif"), VOL[0]),
    "save_image/deep": lambda i, o: losa.save_image(o("out/x.y/z/a.tif"),
                                                    VOL[0]),
    "save_image/png": lambda i, o: losa.save_image(
        o("out/a.png"), np.float32([[0, 1], [1, 0]])),
    "save_image_multiple": lambda i, o: losa.save_image_multiple(
        o("out/s"), VOL, ncore=1),
    "save_image_multiple/dotted": lambda i, o: losa.save_image_multiple(
        o("out/s.5"), VOL, ncore=2),
    "open_hdf_stream": lambda i, o: hstream(o("out/s.hdf")),
    "save_distortion_coefficient": lambda i, o:
        losa.save_distortion_coefficient(o("out/c.txt"), 1.5, 2.5,
                                         [1.0, 0.25]),
    "make_folder": lambda i, o: losa.make_folder(o("out/new/f.tif")),
    "convert_tif_to_hdf": lambda i, o: cvt.convert_tif_to_hdf(
        i("in"), o("out/c.hdf")),
    "extract_tif_from_hdf": lambda i, o: cvt.extract_tif_from_hdf(
        i("h.hdf"), o("out/t"), "entry/data", axis=1),
}
for _s, _o in itertools.product(("in", "h.hdf"), ("out/t", "out/t.hdf")):
    WRITE["reslice/%s-%s" % (_s, _o[4:])] = lambda i, o, s=_s, q=_o: dataset(
        post.reslice_dataset, i(s), o(q), axis=1, ncore=1,
        show_progress=True, chunk=2)
    WRITE["downsample/%s-%s" % (_s, _o[4:])] = lambda i, o, s=_s, q=_o: \
        dataset(post.downsample_dataset, i(s), o(q), cell_size=(1, 2, 2))
    WRITE["rescale/%s-%s" % (_s, _o[4:])] = lambda i, o, s=_s, q=_o: dataset(
        post.rescale_dataset, i(s), o(q), nbit=8, minmax=(1, 9))


def call(fn, cwd, *args):
    old = os.getcwd()
    os.chdir(cwd)
    try:
        return value(quiet(fn, *args))
    finally:
        os.chdir(old)


def alike(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and \
            len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "SUO":
        return bool(np.all(a == b))
    return bool(np.allclose(a, b, rtol=1e-5, atol=1e-6))


REF = {}


def reference(ctx, kind, name):
    if (kind, name) not in REF:
        w = Where(ctx, "base")

        def p(rel):
            return w.path("absolute", rel)
        if kind == "r":
            r = call(READ[name], "/", p)
        else:
            r = call(WRITE[name], "/", p, p)
        REF[kind, name] = (r, listing(w.root))
        ctx.drop(w.top)
    return REF[kind, name]


def renamed(li, nm):
    """Listing with the base folder called nm."""
    out = {}
    for k, v in li.items():
        parts = k.split(os.sep)
        if parts[0] == "base":
            parts[0] = nm
        out[os.sep.join(parts)] = v
    return out


def one(ctx, kind, name, si, so, nm):
    want, files = reference(ctx, kind, name)
    w = Where(ctx, nm)
    ctx.step()
    ctx.state((kind, name, si, so, nm))

    def i(rel):
        return w.path(si, rel)

    def o(rel):
        return w.path(so, rel)
    try:
        if kind == "r":
            r = call(READ[name], w.cwd(si), i)
        else:
            r = call(WRITE[name], w.cwd(so), i, o)
        check(alike(r, want), "result differs from the plain path", r, want)
        now, exp = listing(w.root), renamed(files, nm)
        bad = sorted(k for k in set(now) | set(exp)
                     if now.get(k) != exp.get(k))
        check(not bad, "files that differ from what the plain path gives",
              [(k, "missing" if k not in now else "unexpected" if k not in exp
                else "content") for k in bad][:6])
    finally:
        ctx.drop(w.top)
    return "same"


# ------------------------------------------------ names of the last component
LAST = ["plain", "two words", "m\u00fcller", "v0.5", "scan[1]", "a*b",
        "old.tif", ".hidden", "q?", "tail.", "x.hdf"]
LAST_FILE = ["a.tif", "two words.tif", "m\u00fcller.tif", "v0.5.tif",
             "s[1].tif", "a*b.tif", ".h.tif", "q?.tif", "x..tif", "a.tif.tif"]


def last_in(ctx, kind, name, nm):
    """The input folder itself has a special name."""
    want, files = reference(ctx, kind, name)
    w = Where(ctx, "base")
    os.rename(w.base + "/in", w.base + "/" + nm)
    ctx.step()
    ctx.state((name, nm))

    def o(rel):
        return w.path("absolute", rel)

    def i(rel):
        parts = rel.split("/")
        return o("/".join([nm] + parts[1:])) if parts[0] == "in" else o(rel)
    try:
        if kind == "r":
            r = call(READ[name], "/", i)
        else:
            r = call(WRITE[name], "/", i, o)
        check(alike(r, want), "result differs from that of a plain folder", r,
              want)
        exp = {}
        for k, v in files.items():
            parts = k.split(os.sep)
            if parts[:2] == ["base", "in"]:
                parts[1] = nm
            exp[os.sep.join(parts)] = v
        now = listing(w.root)
        bad = sorted(k for k in set(now) | set(exp)
                     if now.get(k) != exp.get(k))
        check(not bad, "files that differ from what a plain folder gives",
              bad[:6])
    finally:
        ctx.drop(w.top)
    return "same"


def file_name(ctx, nm, how):
    d = ctx.scratch()
    ctx.step()
    ctx.state((nm, how))
    p = os.path.join(d, nm)
    try:
        if how == "save":
            losa.save_image(p, VOL[0])
            check(os.listdir(d) == [nm], "names", os.listdir(d))
            check(np.array_equal(np.array(Image.open(p)), VOL[0]), "pixels")
        elif how == "again":
            for _ in range(3):
                losa.save_image(p, VOL[0], overwrite=False)
            got = sorted(os.listdir(d))
            check(nm in got and len(got) == 3 and
                  all(g.endswith(".tif") for g in got), "names", got)
        else:
            Image.fromarray(VOL[0]).save(p)
            check(np.array_equal(losa.load_image(p), VOL[0]), "pixels")
            if not any(c in nm for c in "[*?"):
                check(losa.find_file(p) == [p], "listing", losa.find_file(p))
    finally:
        ctx.drop(d)
    return "same"


def run(ctx):
    for name in READ:
        for sp, nm in itertools.product(SPELL, NAMES):
            ctx.case("read/%s/%s/%s" % (name, sp, nm), one, ctx, "r", name,
                     sp, sp, nm)
        for nm in LAST:
            ctx.case("last/%s/%s" % (name, nm), last_in, ctx, "r", name, nm)
    for name in WRITE:
        for sp, nm in itertools.product(SPELL, NAMES):
            ctx.case("write/%s/%s/%s" % (name, sp, nm), one, ctx, "w", name,
                     sp, sp, nm)
        for nm in LAST:
            ctx.case("last/%s/%s" % (name, nm), last_in, ctx, "w", name, nm)
        if ctx.thorough:        # input and output written in different ways
            for a, b in itertools.product(SPELL, repeat=2):
                if SPELL[a][0] in ("/", SPELL[b][0]) and a != b:
                    for nm in NAMES:
                        ctx.case("mix/%s/%s/%s/%s" % (name, a, b, nm), one,
                                 ctx, "w", name, a, b, nm)
    for nm, how in itertools.product(LAST_FILE, ("save", "again", "load")):
        ctx.case("name/%s/%s" % (how, nm), file_name, ctx, nm, how)
