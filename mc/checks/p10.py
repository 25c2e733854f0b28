"""P10: statistics of arrays and datasets, exhaustively over small volumes.

Arrays: every image over {0,1,3} of up to 4 (thorough 6) pixels, 1D-3D shapes,
percentile pairs.  Datasets: containers x every 0/1 crop x skips x
percentiles x pixel types x denoise, down to a single slice.
Oracle: definitions evaluated in float64 slice by slice.
"""
import itertools
import os

import h5py
import numpy as np
from PIL import Image
import scipy.ndimage as ndi

from mc.core import Violation, check, fill, quiet, same
import algotom.post.postprocessing as post

TECHNIQUE = ("bounded-exhaustive exploration of images, crops, skips and "
             "containers on the real code against a reference model")
LEVEL = "model_checking"
LEVEL_NOTE = ("All images over a 3-level alphabet up to the pixel bound; all "
              "crop/skip/container products for two volumes.")
RULE = "case = one call; outcome = the seven statistics"
ASSUMPTIONS = ["percentile uses linear interpolation between order "
               "statistics"]

NAMES = ("min", "max", "low percentile", "high percentile", "mean", "median",
         "variance")


def pct(a, q):
    """Linear-interpolated percentile, written out."""
    s = sorted(float(v) for v in np.ravel(a))
    x = (len(s) - 1) * q / 100.0
    i = int(np.floor(x))
    j = min(i + 1, len(s) - 1)
    return s[i] + (x - i) * (s[j] - s[i])


def stats(a, p):
    v = [float(x) for x in np.ravel(a)]
    m = sum(v) / len(v)
    return [min(v), max(v), pct(v, p[0]), pct(v, p[-1]), m, pct(v, 50),
            sum((x - m) ** 2 for x in v) / len(v)]


def compare(got, want):
    check(len(got) == 7, "seven values expected", len(got))
    for n, g, w in zip(NAMES, got, want):
        check(abs(float(g) - w) <= 1e-4 * (1 + abs(w)), n, float(g), w)
    return [round(float(g), 4) for g in got]


def run(ctx):
    npix = ctx.pick(5, 7)
    for n in range(1, npix + 1):
        for vals in itertools.product((0.0, 1.0, 3.0), repeat=n):
            def one():
                ctx.step()
                a = np.array([vals], dtype=np.float32)
                return compare(post.get_statistical_information(
                    a, percentile=pc), stats(a, pc))
            for pc in ((0, 100), (10, 75)):
                ctx.case("array/%s/%s" % ("".join("%d" % v for v in vals),
                                          pc), one)
    for shape in ((3, 4), (2, 3, 4), (4, 1), (1, 1)):
        for dt in ("float32", "float64", "uint8", "uint16", "int16"):
            for den in (False, True):
                def two():
                    ctx.step()
                    a = (fill(shape, 4, 0, 200, np.float64)).astype(dt)
                    ref = ndi.gaussian_filter(a, 2) if den else a
                    return compare(post.get_statistical_information(
                        a, percentile=(5, 95), denoise=den),
                        stats(ref, (5, 95)))
                ctx.case("array2/%s/%s/%d" % (shape, dt, den), two)
    root = ctx.scratch("st")
    vols = {}
    for tag, shape, dt in (("f", (5, 3, 4), "float32"),
                           ("u", (4, 3, 3), "uint16"),
                           ("two", (2, 3, 3), "float32"),
                           ("one", (1, 3, 4), "float32")):
        v = fill(shape, 6, 0, 1, np.float64) ** 3 * 900
        v = v.astype(dt)
        vols[tag] = v
        p = os.path.join(root, tag)
        os.makedirs(p)
        for i in range(shape[0]):
            Image.fromarray(v[i]).save(p + "/s_%d.tif" % i)
        with h5py.File(p + ".hdf", "w") as f:
            f["entry/data"] = v

    def ds(tag, kind, crop, skip, pc, den):
        ctx.step()
        p = os.path.join(root, tag)
        src, key = {"array": (vols[tag].copy(), None), "tif": (p, None),
                    "hdf": (p + ".hdf", "entry/data")}[kind]
        v = vols[tag]
        d, h, w = v.shape
        v = v[crop[0]:d - crop[1], crop[2]:h - crop[3], crop[4]:w - crop[5]]
        n = len(v)
        st = int(min(max(skip, 1), max(1, n - 1)))
        rows = []
        for i in range(0, n, st):
            m = v[i]
            if den:
                m = ndi.gaussian_filter(
                    m.astype(np.float32) if kind == "tif" else m, 2)
            rows.append(stats(m, pc))
        c = list(zip(*rows))
        want = [min(c[0]), max(c[1]), min(c[2]), max(c[3]),
                sum(c[4]) / len(c[4]), pct(c[5], 50), sum(c[6]) / len(c[6])]
        got = quiet(post.get_statistical_information_dataset, src,
                    percentile=pc, skip=skip, denoise=den, key_path=key,
                    crop=crop)
        return compare(got, want)
    crops = list(itertools.product(range(2), repeat=6)) + [
        (2, 2, 0, 0, 0, 0), (2, 0, 0, 0, 0, 0), (0, 2, 1, 1, 0, 2)]
    for tag, kind, crop in itertools.product(vols, ("array", "tif", "hdf"),
                                             crops):
        d, h, w = vols[tag].shape
        if crop[0] + crop[1] >= d or crop[2] + crop[3] >= h or \
                crop[4] + crop[5] >= w:
            continue
        for skip, pc, den in ((1, (0, 100), False), (2, (10, 80), False),
                              (5, (50,), False), (3, (0, 100), True),
                              (1, (25, 90), True)):
            ctx.case("data/%s/%s/%s/skip%d/%s/%d" % (
                tag, kind, "".join(map(str, crop)), skip, pc, den), ds, tag,
                kind, crop, skip, pc, den)
    for kind in ("array", "tif", "hdf"):
        for crop in ((3, 2, 0, 0, 0, 0), (0, 0, 3, 0, 0, 0), (1, 1)):
            if len(crop) == 6:
                def bad(kind=kind, crop=crop):
                    ctx.step()
                    p = os.path.join(root, "f")
                    src, key = {"array": (vols["f"], None), "tif": (p, None),
                                "hdf": (p + ".hdf", "entry/data")}[kind]
                    try:
                        quiet(post.get_statistical_information_dataset, src,
                              skip=1, key_path=key, crop=crop)
                    except ValueError:
                        ctx.rejected += 1
                        return "rejected"
                    raise Violation("empty crop accepted")
                ctx.case("bad/%s/%s" % (kind, crop), bad)
    ctx.drop(root)
