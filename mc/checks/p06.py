"""P06: stack loaders against a frame-by-frame reference model.

Alphabet: every frame-key string over {projection, flat, dark} up to 4
(thorough 6) frames with at least one projection, pairs of scans with equal
and different layouts, every projection index around the valid range, all
crops, flat/dark images given or not (with zeros in flat-dark), num_use, zero
fixing on and off, HDF and TIFF inputs.
Oracle: the documented formula evaluated per frame.
"""
import itertools
import os

import h5py
import numpy as np
from PIL import Image

from mc.core import Violation, check, fill, quiet, same
import algotom.io.loadersaver as losa

TECHNIQUE = ("bounded-exhaustive exploration of frame-key layouts, indices, "
             "crops and options on the real code against a reference model")
LEVEL = "model_checking"
LEVEL_NOTE = ("All frame-key layouts up to the bound for one and two scans; "
              "grey values from one fixed positive filler; 3x4 images.")
RULE = "case = one loader call; outcome = stacks returned or rejection"
ASSUMPTIONS = ["scans of one call share image size; every scan has at least "
               "one projection"]

H, W = 3, 4


def scan(n, seed):
    return fill((n, H, W), seed, 1.0, 9.0)


def cut(a, crop):
    t, b, l, r = crop
    return a[..., t:a.shape[-2] - b, l:a.shape[-1] - r]


def fixzero(stack, on):
    stack = np.array(stack, dtype=np.float64)
    if on and stack.size:
        stack[stack == 0.0] = stack.mean()
    return stack


def correct(img, flat, dark):
    """flat given -> normalise; otherwise only subtract the dark."""
    d = 0.0 if dark is None else dark
    if flat is None:
        return img - d
    fd = flat - d
    fd = np.where(fd == 0.0, fd.mean(), fd)
    return (img - d) / fd


def ref_dls(vols, keys, idx, crop, flat, dark, fix):
    refs, sams = [], []
    for v, k in zip(vols, keys):
        v = cut(v.astype(np.float64), crop)
        k = np.asarray(k)
        d = cut(dark, crop) if dark is not None else (
            v[k == 2].mean(axis=0) if (k == 2).any() else None)
        f = None if flat is None else cut(flat, crop)
        sams.append(correct(v[k == 0][idx], f, d))
        if (k == 1).any():
            refs.append(correct(v[k == 1].mean(axis=0), f, d))
    return (fixzero(refs, fix) if refs else None), fixzero(sams, fix)


def run(ctx):
    root = ctx.scratch("st")
    dls(ctx, root)
    two_part(ctx, root)
    tifs(ctx, root)
    ctx.drop(root)


def write(path, vol, keys=None, data="entry/data/data",
          ik="entry/instrument/image_key"):
    with h5py.File(path, "w") as f:
        f[data] = vol
        if keys is not None:
            f[ik] = np.asarray(keys, dtype=np.int32)


def dls(ctx, root):
    nmax = ctx.pick(4, 6)
    layouts = [k for n in range(1, nmax + 1)
               for k in itertools.product((0, 1, 2), repeat=n) if 0 in k]
    flat = fill((H, W), 77, 5.0, 20.0).astype(np.float64)
    dark = fill((H, W), 78, 0.0, 1.0).astype(np.float64)
    flat0 = flat.copy()
    flat0[1, 2] = dark[1, 2]
    crops = [c for c in itertools.product(range(2), repeat=4)]
    pa, pb = os.path.join(root, "a.nxs"), os.path.join(root, "b.nxs")
    for k in layouts:
        va, vb = scan(len(k), 1), scan(len(k), 2)
        write(pa, va, k)
        write(pb, vb, k)
        npj = k.count(0)
        tag = "".join(map(str, k))
        for idx in range(-1, npj + 1):
            ctx.case("dls/%s/idx%d" % (tag, idx), call_dls, ctx, [pa, pb],
                     [va, vb], [k, k], idx, 0 <= idx < npj)
        for fl, dk in ((flat, None), (None, dark), (flat, dark),
                       (flat0, dark)):
            ctx.case("dls/%s/fd%d%d%d" % (tag, fl is not None, dk is not None,
                                          fl is flat0),
                     call_dls, ctx, [pa, pb], [va, vb], [k, k], npj - 1,
                     True, flat=fl, dark=dk)
        for mode in ("list", "array", "explicit"):
            ctx.case("dls/%s/key-%s" % (tag, mode), call_dls, ctx, [pa, pb],
                     [va, vb], [k, k], 0, True, mode=mode)
        ctx.case("dls/%s/use1" % tag, call_dls, ctx, [pa, pb], [va, vb],
                 [k, k], 0, True, num_use=1)
        ctx.case("dls/%s/keepzero" % tag, call_dls, ctx, [pa, pb],
                 [va - va[0, 0, 0], vb], [k, k], 0, True, fix=False,
                 rewrite=True)
        ctx.case("dls/%s/fixzero" % tag, call_dls, ctx, [pa, pb],
                 [np.where(va > 5, 0, va), vb], [k, k], 0, True, fix=True,
                 rewrite=True)
    # crops on one layout, and crops that leave nothing
    k = (1, 0, 2, 0, 1)
    va, vb = scan(5, 3), scan(5, 4)
    write(pa, va, k)
    write(pb, vb, k)
    for c in crops + [(1, 1, 2, 1), (2, 1, 0, 0), (0, 0, 3, 1)]:
        okc = H - c[0] - c[1] >= 1 and W - c[2] - c[3] >= 1
        for fl, dk in ((None, None), (flat, None), (flat, dark)):
            ctx.case("dls/crop%s/fd%d%d" % ("-".join(map(str, c)),
                                            fl is not None, dk is not None),
                     call_dls, ctx, [pa, pb], [va, vb], [k, k], 1, okc,
                     crop=c, flat=fl, dark=dk)
    # files without frame-type keys hold projections only
    for n in range(1, 4):
        va, vb = scan(n, 7), scan(n, 8)
        for idx in range(-1, n + 1):
            ctx.case("dls/nokey%d/idx%d" % (n, idx), call_dls, ctx, [pa, pb],
                     [va, vb], [[0] * n] * 2, idx, 0 <= idx < n,
                     rewrite="nokey")
    # two scans with different layouts
    small = [q for n in range(2, ctx.pick(3, 4) + 1)
             for q in itertools.product((0, 1, 2), repeat=n) if 0 in q]
    for k1, k2 in itertools.product(small, small):
        if k1 == k2:
            continue
        v1, v2 = scan(len(k1), 5), scan(len(k2), 6)
        for idx in range(max(k1.count(0), k2.count(0)) + 1):
            inside = idx < min(k1.count(0), k2.count(0))
            ctx.case("dls2/%s-%s/idx%d" % ("".join(map(str, k1)),
                                           "".join(map(str, k2)), idx),
                     call_dls, ctx, [pa, pb], [v1, v2], [k1, k2], idx,
                     None if inside else False, rewrite=True)


def call_dls(ctx, paths, vols, keys, idx, valid, crop=(0, 0, 0, 0), flat=None,
             dark=None, mode="auto", num_use=None, fix=True, rewrite=False):
    """valid: True must be accepted, False must be rejected, None either."""
    if rewrite:
        for p, v, k in zip(paths, vols, keys):
            write(p, v, None if rewrite == "nokey" else k)
    kw = dict(crop=crop, flat_field=flat, dark_field=dark, num_use=num_use,
              fix_zero_div=fix)
    if mode == "list":
        kw["image_key"] = list(keys[0])
    elif mode == "array":
        kw["image_key"] = np.asarray(keys[0])
    elif mode == "explicit":
        kw["image_key"] = "entry/instrument/image_key"
        kw["data_key"] = "entry/data/data"
    keep = [None if a is None else a.copy() for a in (flat, dark)]
    ctx.step()
    try:
        out = quiet(losa.get_reference_sample_stacks_dls, idx, list(paths),
                    **kw)
    except ValueError:
        check(valid is not True, "valid request rejected")
        ctx.rejected += 1
        return "rejected"
    check(valid is not False, "index or crop out of range accepted")
    n = len(paths) if num_use is None else num_use
    ref, sam = ref_dls(vols[:n], keys[:n], idx, crop, flat, dark, fix)
    if ref is None:
        check(isinstance(out, np.ndarray), "no reference frames, one stack "
              "expected")
        same(out, sam, "sample stack")
    else:
        check(isinstance(out, tuple) and len(out) == 2, "two stacks expected")
        same(out[0], ref, "reference stack")
        same(out[1], sam, "sample stack")
    for a, b in zip(keep, (flat, dark)):
        check(a is None or np.array_equal(a, b), "caller's flat/dark changed")
    return sam


def two_part(ctx, root):
    """get_reference_sample_stacks and get_image_stack on HDF input."""
    flat = fill((H, W), 77, 5.0, 20.0).astype(np.float64)
    dark = fill((H, W), 78, 0.0, 1.0).astype(np.float64)
    flat0 = flat.copy()
    flat0[0, 1] = dark[0, 1]
    crops = list(itertools.product(range(2), repeat=4))
    bad = [(2, 1, 0, 0), (0, 0, 2, 2)]
    for nref, nscan in itertools.product((0, 1, 2, 3), (1, 2, 3)):
        refs = [scan(max(nref, 1), 10 + i) for i in range(nscan)]
        if nref == 0:
            refs = [r[0] for r in refs]
        sams = [scan(3, 20 + i) for i in range(nscan)]
        rp = [os.path.join(root, "r%d.hdf" % i) for i in range(nscan)]
        sp = [os.path.join(root, "s%d.hdf" % i) for i in range(nscan)]
        for p, v in zip(rp + sp, refs + sams):
            write(p, v)
        for fl, dk in ((None, None), (None, dark), (flat, None),
                       (flat, dark), (flat0, dark)):
            for crop in (crops + bad if nscan == 2 else [(0, 0, 0, 0),
                                                         (1, 0, 1, 0)]):
                for use in (None, 1) if crop == crops[0] else (None,):
                    for idx in (range(3) if crop == crops[0] else (1,)):
                        ok = crop not in bad

                        def two():
                            ctx.step()
                            try:
                                out = quiet(
                                    losa.get_reference_sample_stacks, idx,
                                    rp, sp, "entry/data/data",
                                    "entry/data/data", crop=crop,
                                    flat_field=fl, dark_field=dk,
                                    num_use=use)
                            except ValueError:
                                check(not ok, "valid request rejected")
                                return "rejected"
                            check(ok, "empty crop accepted")
                            m = nscan if use is None else use
                            wr, ws = [], []
                            f = None if fl is None else cut(fl, crop)
                            d = None if dk is None else cut(dk, crop)
                            for i in range(m):
                                r = refs[i].astype(np.float64)
                                r = r.mean(axis=0) if r.ndim == 3 else r
                                wr.append(correct(cut(r, crop), f, d))
                                ws.append(correct(cut(sams[i][idx].astype(
                                    np.float64), crop), f, d))
                            same(out[0], fixzero(wr, True), "reference stack")
                            same(out[1], fixzero(ws, True), "sample stack")
                            return out[1]

                        def stack(average):
                            ctx.step()
                            try:
                                out = quiet(losa.get_image_stack, idx, sp,
                                            data_key="entry/data/data",
                                            average=average, crop=crop,
                                            flat_field=fl, dark_field=dk,
                                            num_use=use)
                            except ValueError:
                                check(not ok, "valid request rejected")
                                return "rejected"
                            check(ok, "empty crop accepted")
                            m = nscan if use is None else use
                            f = None if fl is None else cut(fl, crop)
                            d = None if dk is None else cut(dk, crop)
                            want = []
                            for i in range(m):
                                s = sams[i].astype(np.float64)
                                s = s.mean(axis=0) if average else s[idx]
                                want.append(correct(cut(s, crop), f, d))
                            same(out, fixzero(want, True), "image stack")
                            return out
                        tag = "%d/%d/fd%d%d%d/crop%s/use%s/idx%d" % (
                            nref, nscan, fl is not None, dk is not None,
                            fl is flat0, "-".join(map(str, crop)), use, idx)
                        ctx.case("refsam/" + tag, two)
                        if nref == 1:
                            ctx.case("stack/" + tag, stack, False)
                            ctx.case("stackave/" + tag, stack, True)


def tifs(ctx, root):
    dark = fill((H, W), 78, 0.0, 1.0).astype(np.float64)
    flat = fill((H, W), 77, 5.0, 20.0).astype(np.float64)
    crops = list(itertools.product(range(2), repeat=4))
    bad = [(2, 1, 0, 0), (0, 0, 2, 2)]
    folders, vols = [], []
    for n in range(1, 4):
        p = os.path.join(root, "tif%d" % n)
        os.makedirs(p)
        v = scan(n, 30 + n)
        if n == 3:
            v[0] = 0.0
        for i in reversed(range(n)):
            Image.fromarray(v[i]).save(os.path.join(p, "i_%02d.tif" % i))
        folders.append(p)
        vols.append(v.astype(np.float64))
    for (p, v), (fl, dk), crop in itertools.product(
            zip(folders, vols), ((None, None), (None, dark), (flat, None),
                                 (flat, dark)), crops + bad):
        n = len(v)
        ok = crop not in bad
        f = None if fl is None else cut(fl, crop)
        d = None if dk is None else cut(dk, crop)
        reqs = [(i, u) for i in [None, *range(-n, n + 1)]
                for u in (None, 1, n, n + 2)] if crop == crops[0] else \
            [(None, None), (0, None), (-1, None)]
        for idx, use in reqs:
            for api in ("tif", "stack"):
                def load():
                    ctx.step()
                    good = ok and (idx is None or -n <= idx < n)
                    try:
                        kw = dict(crop=crop, flat_field=fl, dark_field=dk,
                                  num_use=use)
                        if api == "tif":
                            out = quiet(losa.get_tif_stack, p, idx=idx, **kw)
                        else:
                            out = quiet(losa.get_image_stack, idx, p, **kw)
                    except ValueError:
                        check(not good, "valid request rejected")
                        return "rejected"
                    check(good, "request out of range accepted")
                    sel = v[:min(use or n, n)] if idx is None else [v[idx]]
                    same(out, fixzero([correct(cut(s, crop), f, d)
                                       for s in sel], True), "stack")
                    return out
                ctx.case("tif/%d/fd%d%d/crop%s/idx%s/use%s/%s" % (
                    n, fl is not None, dk is not None,
                    "-".join(map(str, crop)), idx, use, api), load)
        # lists of folders
        for sel, avg, at in itertools.product(
                ([0], [1, 2], [2, 0, 1]), (False, True), (0, 1, 2)):
            if at >= min(len(vols[i]) for i in sel):
                continue

            def multi():
                ctx.step()
                paths = [folders[i] for i in sel]
                try:
                    out = quiet(losa.get_image_stack, at, paths, average=avg,
                                crop=crop, flat_field=fl, dark_field=dk)
                except ValueError:
                    check(not ok, "valid request rejected")
                    return "rejected"
                check(ok, "empty crop accepted")
                want = [correct(cut(vols[i].mean(axis=0) if avg else
                                    vols[i][at], crop), f, d) for i in sel]
                same(out, fixzero(want, True), "stack")
                return out
            if n == 1:
                ctx.case("tiflist/%s/%s/%d/fd%d%d/crop%s" % (
                    "".join(map(str, sel)), avg, at, fl is not None,
                    dk is not None, "-".join(map(str, crop))), multi)
