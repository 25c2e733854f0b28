"""P03: all small HDF hierarchies, enumerated and compared with the tree that
was written.

A hierarchy is an assignment of a kind (absent, group, dataset of one of three
shape/type pairs, dangling soft link, dangling external link, soft link to a
dataset) to each position of a fixed skeleton: two root entries, two entries
below each.  All assignments are enumerated.
Oracle: the specification dictionary itself.
"""
import contextlib
import io
import itertools
import os

import h5py
import numpy as np

from mc.core import check, exact, quiet
import algotom.io.loadersaver as losa

TECHNIQUE = ("exhaustive enumeration of all HDF hierarchies over a small "
             "skeleton, listings compared with the written specification")
LEVEL = "model_checking"
LEVEL_NOTE = ("All assignments of node kinds to a skeleton of depth 3; deeper "
              "or wider trees follow the same recursion but are not "
              "enumerated. Soft-link cycles are outside the alphabet.")
RULE = ("case = one hierarchy, all listing/search/tree/load queries on it; "
        "outcome = the listing text")
ASSUMPTIONS = []

DATA = {
    "d1": np.arange(6, dtype=np.float32).reshape(2, 3),
    "d2": np.arange(24, dtype=np.uint16).reshape(2, 3, 4),
    "d0": np.float64(3.5),
}


def build(path, spec):
    """spec: dict path -> kind; groups may be listed or implied."""
    with h5py.File(path, "w") as f:
        for k in sorted(spec):
            kind = spec[k]
            if kind == "g":
                f.require_group(k)
            elif kind == "dead":
                f[k] = h5py.SoftLink("/no/where")
            elif kind == "ext":
                f[k] = h5py.ExternalLink("missing_file.h5", "/x")
            else:
                f.create_dataset(k, data=DATA[kind])


def all_specs(quick):
    leaf = [None, "d1", "g"] if quick else [None, "d1", "d2", "g", "dead"]
    root_kinds = [None, "d0", "d2", "dead", "ext", "G"]
    # children choices for a root group: up to two children, one may be a
    # group with one or two datasets
    kids = []
    for a in leaf + (["dead", "d0"] if quick else ["ext", "d0"]):
        for b in leaf:
            kids.append((a, b))
    for ra in root_kinds:
        for rb in root_kinds:
            if ra == "G" and rb == "G" and quick:
                pairs = [(x, y) for x in kids[::2] for y in kids[::3]]
            else:
                pairs = list(itertools.product(
                    kids if ra == "G" else [None],
                    kids if rb == "G" else [None]))
            for ka, kb in pairs:
                spec = {}
                for name, kind, ks in (("entry", ra, ka), ("data", rb, kb)):
                    if kind is None:
                        continue
                    if kind != "G":
                        spec[name] = kind
                        continue
                    spec[name] = "g"
                    for cn, ck in zip(("data", "image_key"), ks):
                        if ck is None:
                            continue
                        spec[name + "/" + cn] = ck
                yield spec
    # one deep chain with siblings
    for top in (None, "d1", "g", "dead"):
        for mid in (None, "d2", "dead"):
            for low in (None, "d0", "g", "ext"):
                spec = {"a": "g", "a/b": "g", "a/b/c": "g"}
                if top:
                    spec["z"] = top
                if mid:
                    spec["a/y"] = mid
                if low:
                    spec["a/b/c/x"] = low
                yield spec


def norm(k):
    return k.strip("/")


def run(ctx):
    for n, spec in enumerate(all_specs(not ctx.thorough)):
        ctx.case("tree/%05d" % n, one, ctx, spec)
    ctx.case("missing/file", missing, ctx)


def missing(ctx):
    root = ctx.scratch()
    try:
        for fn in (losa.load_hdf, losa.find_hdf_key):
            try:
                fn(os.path.join(root, "nofile.h5"), "entry")
                check(False, "missing file accepted")
            except (ValueError, OSError):
                pass
            ctx.step()
    finally:
        ctx.drop(root)


def one(ctx, spec):
    root = ctx.scratch()
    try:
        path = os.path.join(root, "f.h5")
        build(path, spec)
        datasets = {k: DATA[v] for k, v in spec.items() if v in DATA}
        ctx.state(sorted(spec.items()))
        keys, shapes, types = losa.get_hdf_information(path)
        ctx.step()
        check(len(keys) == len(shapes) == len(types), "list lengths")
        listed = {}
        for k, s, t in zip(keys, shapes, types):
            k = norm(k)
            check(k in spec, "listed key does not exist", k, spec)
            if k in datasets:
                check(s == datasets[k].shape and t == datasets[k].dtype,
                      "shape/type of %s" % k, s, t)
            else:
                check(s is None and t is None,
                      "shape reported for a non-dataset", k, s, t)
            listed[k] = (s, t)
        for k in datasets:
            check(k in listed, "dataset missing from the listing", k, spec)
        for k, v in spec.items():
            if v == "g" and not any(o.startswith(k + "/") for o in spec):
                check(k in listed, "empty group missing from the listing", k)
        shown(ctx, path, lambda **kw: losa.get_hdf_information(path, **kw),
              "Empty file")
        # key search: every substring taken from the names
        pats = {"", "zzz", "/"}
        for k in spec:
            parts = k.split("/")
            pats.update(parts)
            pats.add(k)
            pats.add(parts[-1][:2])
            if len(parts) > 1:
                pats.add("/".join(parts[-2:]))
        for p in sorted(pats):
            fk, fs, ft = losa.find_hdf_key(path, p)
            shown(ctx, path, lambda **kw: losa.find_hdf_key(path, p, **kw),
                  "Can't find")
            ctx.step()
            got = {norm(k): (s, t) for k, s, t in zip(fk, fs, ft)}
            for k, v in zip(fk, fs):
                check(p in k, "found key does not contain the pattern", k, p)
                check(norm(k) in spec, "found key does not exist", k)
            for k in listed:
                if p in k and spec[k] not in ("dead", "ext"):
                    check(k in got, "key %s not found by pattern %r" % (k, p),
                          fk)
            for k, st in got.items():
                check(st == (listed[k] if k in listed else (None, None)),
                      "search and listing disagree on %s" % k, st)
        # printed tree
        for add_shape in (True, False):
            out = os.path.join(root, "sub", "tree_%s.txt" % add_shape)
            quiet(losa.get_hdf_tree, path, output=out, add_shape=add_shape)
            ctx.step()
            with open(out, encoding="UTF-8") as fo:
                lines = fo.read().split("\n")
            check_tree(lines, spec, add_shape)
        # loading
        with h5py.File(path, "r") as f:
            exist = set()
            for k in spec:
                if k in f:
                    exist.add(k)
        for k in sorted(spec) + ["nope", "entry/nope", "data/data/data"]:
            if k in datasets:
                d = losa.load_hdf(path, k)
                exact(d[()], datasets[k], "loaded dataset %s" % k)
                d.file.close()
                d, fobj = losa.load_hdf(path, k, return_file_obj=True)
                exact(d[()], datasets[k], "loaded dataset %s" % k)
                fobj.close()
                ctx.step(2)
            elif k not in exist:
                try:
                    losa.load_hdf(path, k)
                    check(False, "missing key accepted", k)
                except (ValueError, KeyError, OSError, RuntimeError):
                    pass
                ctx.step()
        return (sorted(listed), "\n".join(lines))
    finally:
        ctx.drop(root)


def shown(ctx, path, fn, none):
    """Prints on request only; then one line per key, or that there is
    none."""
    res = []
    for display in (False, True):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res.append(fn(display=display))
        ctx.step()
    check(repr(res[0]) == repr(res[1]), "printing changes the result", res)
    keys, shapes, types = res[0]
    text = out.getvalue()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    check(out.getvalue() == "", "printed unasked", out.getvalue())
    if not keys:
        check(none in text, "empty result not told", text)
        return
    lines = text.rstrip("\n").split("\n")
    check(len(lines) == len(keys), "printed lines", lines, keys)
    for ln, k, s, t in zip(lines, keys, shapes, types):
        check(k in ln and str(s) in ln and str(t) in ln,
              "printed line", ln, (k, s, t))


def check_tree(lines, spec, add_shape):
    """Parse the drawn tree back into paths."""
    seen = []
    stack = []
    for ln in lines:
        if not ln.strip() or not ln.strip("│ "):
            continue
        body = ln.lstrip("│ ├└─")
        indent = len(ln) - len(body)
        name = body.split(" ")[0]
        rest = body[len(name):].strip()
        while stack and stack[-1][0] >= indent:
            stack.pop()
        path = "/".join([s[1] for s in stack] + [name])
        stack.append((indent, name))
        seen.append(path)
        kind = spec.get(path)
        check(kind is not None, "tree shows something that does not exist",
              path, lines)
        if add_shape and kind in DATA:
            check(rest == str(DATA[kind].shape), "shape in the tree of %s" %
                  path, rest)
        if not add_shape:
            check(rest == "", "shape shown although switched off", rest)
    check(len(seen) == len(set(seen)), "entry drawn twice", seen)
    check(sorted(seen) == sorted(spec), "tree incomplete", sorted(seen),
          sorted(spec))
