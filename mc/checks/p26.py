"""P26: zinger and blob removal.

Size check: every binary image of a small shape against connected-component
labelling.  Zingers: every position (borders included) and every size of a
bright defect, on constant and smooth backgrounds, every window size, with and
without size check.  Blobs: every binary mask of short rows, several types,
applied twice.  Blob detection: every position of a bright or dark blob on a
noisy flat field.
"""
import itertools

import numpy as np
import scipy.ndimage as ndi

import algotom.prep.removal as remo
from mc.core import check, exact, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of defect shapes, masks and "
             "places on the real code against the defect-free image")
LEVEL = "model_checking"
LEVEL_NOTE = "All binary masks and all defect places within the bounds."
RULE = ("case = mask prefix or (background, window, defect size); state = "
        "one mask or one defect place")
ASSUMPTIONS = ["a zinger fits in the given window size and is isolated",
               "the two outermost columns count as good for blob removal",
               "backgrounds are non-negative with slopes below threshold"]


def select(ctx, h, w, prefix):
    n = h * w - len(prefix)
    for rest in itertools.product((0, 1), repeat=n):
        mat = np.array(prefix + rest, dtype=np.float32).reshape(h, w)
        lab, c = ndi.label(mat)
        sizes = np.bincount(lab.ravel(), minlength=c + 1)
        for s in range(1, 7):
            ctx.step()
            got = remo.select_zinger(mat, s)
            exact(got, mat * (sizes[lab] <= s), "selection for size %d" % s)
            for size in (1, 3):
                pass
        ctx.state((h, w, mat.tobytes()))
    return prefix


def background(h, w, kind):
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    if kind == "const":
        return np.full((h, w), 0.5)
    if kind == "zero":
        return np.zeros((h, w))
    if kind == "gradx":
        return 1.0 + 0.01 * x
    if kind == "grady":
        return 2.0 - 0.02 * y
    return 1.0 + 0.01 * x + 0.013 * y


def zinger(ctx, h, w, kind, size, zh, zw, dt):
    clean = background(h, w, kind).astype(dt)
    thr = 0.08
    ctx.step()
    exact(quiet(remo.remove_zinger, clean, thr, size), clean,
          "image without zingers changed")
    step = 0.02 * (size + 1) if kind not in ("const", "zero") else 1e-6
    for y in range(h - zh + 1):
        for x in range(w - zw + 1):
            mat = clean.copy()
            mat[y:y + zh, x:x + zw] += 5.0
            for chk in (False, True):
                ctx.step()
                ctx.state((h, w, kind, size, zh, zw, dt, y, x, chk))
                keep = mat.copy()
                got = quiet(remo.remove_zinger, mat, thr, size, chk)
                exact(mat, keep, "caller's image changed")
                if chk and zh * zw > size:
                    exact(got, mat, "defect larger than the size removed")
                    continue
                out = np.ones((h, w), bool)
                out[y:y + zh, x:x + zw] = False
                exact(np.where(out, got, 0), np.where(out, mat, 0),
                      "pixels outside the zinger at %d,%d changed" % (y, x))
                d = np.abs(got - clean)[~out].max()
                check(d <= step * 2 + 1e-6, "zinger not repaired", y, x,
                      float(d))
    return (h, w, kind, size, zh, zw)


def blob_rows(ctx, n, prefix, dt, mdt):
    base = np.round(10.0 + 3.0 * np.arange(n))
    for rest in itertools.product((0, 1), repeat=n - len(prefix)):
        m = np.array(prefix + rest)
        eff = m.copy()
        eff[:2] = eff[-2:] = 0
        row = base.copy()
        row[eff > 0] = 200
        row = row.astype(dt)
        mask = m.astype(mdt)
        km, kr = mask.copy(), row.copy()
        ctx.state((n, tuple(m), dt, mdt))
        for rep in (1, 2):
            ctx.step(2)
            got = remo.remove_blob_1d(row, mask)
            exact(got, base.astype(dt), "row with mask %s, call %d" % (m, rep))
            exact(mask, km, "caller's mask changed")
            exact(row, kr, "caller's row changed")
            mat = np.stack([row, row[::-1], row])
            mm = np.stack([mask, mask[::-1], 0 * mask])
            k1, k2 = mat.copy(), mm.copy()
            got = remo.remove_blob(mat, mm)
            exact(got, np.stack([base, base[::-1], row]).astype(dt),
                  "image with mask %s, call %d" % (m, rep))
            exact(mat, k1, "caller's image changed")
            exact(mm, k2, "caller's mask changed")
        # curved row: good pixels stay, bad ones lie on the chord
        cur = (np.arange(n) ** 2.0).astype("float64")
        got = remo.remove_blob_1d(cur, mask)
        good = np.where(eff == 0)[0]
        same(got, np.interp(np.arange(n), good, cur[good]), "curved row",
             1e-9, 1e-9)
    return (n, prefix)


def blob_reject(ctx):
    ctx.step()
    ctx.rejected += 1
    check(raises(lambda: remo.remove_blob(np.ones((4, 5)), np.ones(
        (4, 6)))) is True, "mask of another shape accepted")


def detect(ctx, bh, bw, sign, size, seed):
    h, w = 14, 60
    flat = fill((h, w), seed, 0.95, 1.05, np.float64)
    clean_mask = quiet(remo.generate_blob_mask, flat, size, 4.0)
    ctx.step()
    check(clean_mask.shape == flat.shape, "mask shape")
    check(set(np.unique(clean_mask)) <= {0.0, 1.0}, "mask is not binary")
    check(clean_mask.mean() < 0.02, "clean flat field flagged",
          float(clean_mask.mean()))
    for y in range(0, h - bh + 1, 2):
        for x in range(4, w - bw - 3, 3):
            mat = flat.copy()
            mat[y:y + bh, x:x + bw] *= 1.8 if sign > 0 else 0.3
            keep = mat.copy()
            ctx.step()
            ctx.state((bh, bw, sign, size, y, x, seed))
            mask = quiet(remo.generate_blob_mask, mat, size, 4.0)
            exact(mat, keep, "caller's flat field changed")
            inner = mask[y + 1:y + bh - 1, x + 1:x + bw - 1]
            check(bool((inner == 1).all()), "blob not flagged", y, x, inner)
            outside = np.ones((h, w), bool)
            outside[max(y - 2, 0):y + bh + 2, max(x - 3, 0):x + bw + 3] = False
            check(mask[outside].mean() < 0.02, "pixels away from the blob "
                  "flagged", y, x, float(mask[outside].mean()))
            check(bool((mask[:, 0] == 0).all()), "border column flagged")
    return (bh, bw, sign)


def run(ctx):
    for h, w in ctx.pick([(4, 4), (3, 5), (1, 8)], [(4, 4), (3, 6), (2, 8),
                                                    (1, 12), (6, 3)]):
        for prefix in itertools.product((0, 1), repeat=4):
            ctx.case("select/%d/%d/%s" % (h, w, prefix), select, ctx, h, w,
                     prefix)
    for h, w in ctx.pick([(9, 9), (7, 12)], [(9, 9), (7, 12), (13, 10)]):
        for kind in ("const", "zero", "gradx", "grady", "both"):
            for size in (1, 2, 3):
                for zh in range(1, size + 1):
                    for zw in range(1, size + 1):
                        for dt in ("float32", "float64"):
                            ctx.case("zinger/%d/%d/%s/%d/%d/%d/%s" % (
                                h, w, kind, size, zh, zw, dt), zinger, ctx,
                                h, w, kind, size, zh, zw, dt)
    for n in ctx.pick([4, 5, 6, 7, 9], [4, 5, 6, 7, 8, 9, 10, 12]):
        for prefix in itertools.product((0, 1), repeat=2):
            for dt in ("float32", "float64", "uint16"):
                for mdt in ("float32", "uint8", "bool"):
                    ctx.case("blob/%d/%s/%s/%s" % (n, prefix, dt, mdt),
                             blob_rows, ctx, n, prefix, dt, mdt)
    ctx.case("blob/reject", blob_reject, ctx)
    for bh, bw in ctx.pick([(3, 3), (5, 6)], [(3, 3), (4, 7), (5, 6), (8, 4)]):
        for sign in (1, -1):
            for seed in ctx.pick((1,), (1, 2, 3)):
                ctx.case("detect/%d/%d/%d/%d" % (bh, bw, sign, seed), detect,
                         ctx, bh, bw, sign, 21, seed)
