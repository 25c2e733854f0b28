"""P34: centre search by image quality and the visual centre tools.

The metric is a table supplied by the explorer: for every position of the
smallest metric among the candidates, with every range, step and method, the
search must evaluate the reconstruction at each candidate and return the
right one.  Visual tools: every range, step and pre-existing folder layout.
Oracle: public reconstruction functions at the expected centres.
"""
import itertools
import os
import re
import threading

import numpy as np
import scipy.ndimage as ndi

from mc.core import check, quiet, fill, same
import algotom.io.loadersaver as losa
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.utility as util

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of search ranges, steps, metric "
             "landscapes and folder layouts on the real code against public "
             "reconstructions")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every position of the optimum among the candidates for each "
              "range, step and method; every visual-tool range and folder "
              "layout of the alphabet.")
RULE = "case = one search or one visual run; state = (range, optimum, method)"
ASSUMPTIONS = ["candidates stay inside the image; steps of at least 0.05"]
W, N = 24, 13


def sino(w=W, n=N, seed=4):
    v = fill((n, w), seed, 0, 1, np.float64)
    v = ndi.gaussian_filter(v, 1.0)
    return np.float32(0.2 + v)


def recon(s, c, method, ratio=1.0, filt="hann", angles=None, log=True):
    kw = dict(ratio=ratio, filter_name=filt, angles=angles, apply_log=log)
    if method != "dfi":
        kw["gpu"] = False
    return np.asarray(quiet(getattr(rec, method + "_reconstruction"),
                            s.copy(), c, ncore=1, **kw))


class Table:
    """Metric with a prescribed value for each candidate."""

    def __init__(self, refs, values):
        self.refs, self.values = refs, values
        self.seen = []
        self.lock = threading.Lock()
        self.bad = None

    def __call__(self, img, extra=None):
        d = [float(np.abs(img - r).max()) for r in self.refs.values()]
        k = int(np.argmin(d))
        scale = max(float(np.abs(r).max()) for r in self.refs.values())
        c = list(self.refs)[k]
        with self.lock:
            if d[k] > 2e-3 * scale:
                self.bad = "image differs from all the expected " \
                    "reconstructions (by %g, scale %g)" % (d[k], scale)
            if extra != 7:
                self.bad = "arguments of the metric not passed"
            self.seen.append(c)
        return self.values(c)


REFS = {}


def ref(key, make):
    if key not in REFS:
        REFS[key] = make()
    return REFS[key]


def search(ctx, method, start, stop, step, radius, best, sigma, ncore, inv,
           opts):
    """best: index of the optimum of the coarse grid, and in the fine."""
    kw = dict(opts)
    s = sino()
    s1 = ndi.gaussian_filter1d(s, sigma, axis=1) if sigma else s
    coarse = [start + k for k in range(int(stop - start) + 1)] \
        if stop > start else [start]
    bc = coarse[best[0] % len(coarse)]
    rad = max(radius, step + 1.0)
    nf = int(round(2 * rad / step))
    fine = [round(bc - rad + k * step, 6) for k in range(nf + 1)]
    bf = fine[best[1] % len(fine)] if radius else bc
    if radius and bf != bc and stop > start and any(
            abs(bf - c) < 1e-4 for c in coarse):
        return "the coarse optimum would be elsewhere"
    cand = sorted(set(coarse) | (set(fine) if radius else set()))
    # one further candidate is tolerated at the end of the range
    last = [cand[-1] + step, fine[-1] + step, coarse[-1] + 1]
    allc = sorted(set(cand) | set(last))
    optkey = tuple(sorted((k, str(v)) for k, v in kw.items()))
    if kw.get("apply_log", True):
        s1 = -np.log(s1)
    refs = {c: ref((method, sigma, c, optkey), lambda: recon(
        s1, c, method, kw.get("ratio", 1.0), kw.get("filter_name", "hann"),
        kw.get("angles"), False))
        for c in allc if 0 <= c < W}

    def value(c):
        # smallest at bf, next bc, then increasing with distance
        v = 0.0 if abs(c - bf) < 1e-4 else 0.5 if abs(c - bc) < 1e-4 else \
            1 + 0.1 * abs(c - bc)
        return 50 - v if inv else v
    t = Table(refs, value)
    keep = s.copy()
    ctx.step()
    ctx.state((method, start, stop, step, radius, bc, bf, sigma, ncore, inv,
               optkey))
    got = float(quiet(rec.find_center_based_slice_metric, s, start, stop,
                      step=step, radius=radius, method=method, gpu=False,
                      sigma=sigma, ncore=ncore, invert_metric=inv,
                      metric_function=t, extra=7, **kw))
    check(t.bad is None, t.bad)
    miss = [c for c in (coarse if stop > start else []) +
            (fine if radius else []) if not any(abs(c - z) < 1e-4
                                                for z in t.seen)]
    check(not miss, "candidates not evaluated", miss)
    check(abs(got - bf) < 1e-4, "centre of the smallest metric", got, bf)
    same(s, keep, "sinogram changed")
    return got


def built_in(ctx, method, metric, c, zoom):
    w, n = 48, 45
    ang = np.linspace(0, np.pi, n)
    t = np.arange(w)[None]
    s = np.zeros((n, w))
    for x, y, r, a in ((0, 0, 12, .02), (6, -3, 3, .05), (-7, 2, 2, .06),
                       (2, 8, 2.5, -.02), (-3, -9, 2, .07)):
        p = t - (c + x * np.cos(ang) - y * np.sin(ang))[:, None]
        s += 2 * a * np.sqrt(np.clip(r * r - p * p, 0, None))
    s = np.float32(np.exp(-s))
    ctx.step()
    ctx.state((method, metric, c, zoom))
    got = float(quiet(rec.find_center_based_slice_metric, s, 20, 28,
                      metric=metric, method=method, gpu=False, sigma=0,
                      zoom=zoom, ratio=0.9))
    tol = 1.01
    check(abs(got - c) <= tol, "centre found", got, "true", c)
    return round(got, 2)


# ------------------------------------------------------- vertical slices
def projs():
    v = fill((9, 4, 18), 9, 0, 1, np.float64)
    return np.float32(0.3 + ndi.gaussian_filter(v, (0, .7, .7)))


def vrec(p, idx, c, alpha, ramp, mask):
    return np.asarray(quiet(vr.vertical_reconstruction, p, idx, c,
                            alpha=alpha, ramp_filter=ramp, gpu=False,
                            show_progress=False, masking=mask,
                            apply_log=False))


def grid(start, stop, step):
    return [start + k * step for k in
            range(int(np.floor((stop - start) / step + 1e-6)) + 1)]


def vsearch(ctx, start, stop, step, best, alpha, ramp, sigma, inv, how, log):
    p = projs()
    if log == "bad":
        p[2, 1, 3] = -1
        p[5, 0, 0] = 0
    q = ndi.gaussian_filter(p, (0, sigma, sigma)) if sigma else p
    if log:
        q = -np.log(np.where(q <= 0, 1, q))
    cand = grid(start, stop, step)
    bc = cand[best % len(cand)]
    key = (alpha, ramp, sigma, str(log))
    refs = {c: ref(key + (round(c, 6),), lambda: vrec(q, 7, c, alpha, ramp,
                                                      False))
            for c in cand + [cand[-1] + step]}

    def value(c):
        v = 0.125 if abs(c - bc) < 1e-4 else 0.25 + 0.01 * abs(c - bc)
        return 1 - v if inv else v
    t = Table(refs, value)
    keep = p.copy()
    ctx.step()
    ctx.state((start, stop, step, best, alpha, ramp, sigma, inv, how, log))
    out = quiet(vr.find_center_vertical_slice, p, 7, start, stop, step=step,
                alpha=alpha, ramp_filter=ramp, sigma=sigma, gpu=False,
                apply_log=bool(log), show_progress=False, masking=False,
                return_metric=how, invert_metric=inv, metric_function=t,
                extra=7)
    check(t.bad is None, t.bad)
    miss = [c for c in cand if not any(abs(c - z) < 1e-4 for z in t.seen)]
    check(not miss, "candidates not evaluated", miss)
    if how:
        lc, lm = np.asarray(out[0]), np.asarray(out[1])
        check(len(lc) == len(lm) and len(lc) in (len(cand), len(cand) + 1),
              "lengths", len(lc), len(lm), len(cand))
        check(np.allclose(lc[:len(cand)], cand), "list of centres", lc)
        want = np.asarray([value(c) for c in cand])
        if inv:
            want = max(value(c) for c in lc) - want
        check(np.allclose(lm[:len(cand)], want, atol=1e-6),
              "list of metrics", lm, want)
    else:
        check(abs(float(out) - bc) < 1e-4, "centre of the smallest metric",
              out, bc)
    same(p, keep, "projections changed")
    return bc


# ----------------------------------------------------------- visual tools
LAYOUTS = {"empty": (), "one": ("Find_center_001",),
           "gap": ("Find_center_002",),
           "many": ("Find_center_001", "Find_center_002", "Find_center_004"),
           "other": ("Find_center_x", "abc")}


def parse(name):
    m = re.match(r"center_\s*([0-9.]+)\.tif$", name)
    check(m, "file name", name)
    return float(m.group(1))


def visual(ctx, tool, layout, start, stop, step, opt):
    d = ctx.scratch()
    for k in LAYOUTS[layout]:
        os.makedirs(d + "/" + k)
        with open(d + "/" + k + "/center_5.00.tif", "w") as f:
            f.write("old")
    before = sorted(os.listdir(d))
    ctx.step()
    ctx.state((tool, layout, start, stop, step, str(sorted(opt.items()))))
    cand = grid(start, stop, step)
    if tool == "slices":
        s = sino()
        keep = s.copy()
        zoom = opt.get("zoom", 1.0)
        out = quiet(rec.find_center_visual_slices, s, d, start, stop, step,
                    gpu=False, **opt)
        same(s, keep, "sinogram changed")
        cand = [c for c in cand if c < W - 1]
        z = s if zoom == 1.0 else ndi.zoom(s, zoom, order=1, mode="nearest")

        def expect(c):
            return recon(z, c * zoom, opt.get("method", "fbp"),
                         opt.get("ratio", 1.0), opt.get("filter_name",
                                                        "hann"),
                         opt.get("angles"), opt.get("apply_log", True))
    elif tool == "vertical":
        p = projs()
        keep = p.copy()
        out = quiet(vr.find_center_visual_vertical_slices, p, d, 7, start,
                    stop, step, gpu=False, display=False, prefer="threads",
                    **opt)
        same(p, keep, "projections changed")
        q = -np.log(p)

        def expect(c):
            return vrec(q, 7, c, opt.get("alpha", 0.0),
                        opt.get("ramp_filter", "after"), False)
    else:
        s = ndi.gaussian_filter(sino(), (0, 1.5))
        out = quiet(util.find_center_visual_sinograms, s, d, start, stop,
                    step, **opt)
        cand = [c for c in cand if c < W - 1]

        def expect(c):
            x = np.clip(2 * c - np.arange(W), 0, W - 1)
            spl = ndi.map_coordinates(s, np.meshgrid(
                np.arange(N), x, indexing="ij"), order=3, mode="nearest")
            return np.vstack((s, spl))
    new = sorted(set(os.listdir(d)) - set(before))
    check(len(new) == 1, "new folders", new)
    check(os.path.realpath(out) == os.path.realpath(d + "/" + new[0]),
          "returned path", out)
    for k in LAYOUTS[layout]:
        check(os.listdir(d + "/" + k) == ["center_5.00.tif"] and open(
            d + "/" + k + "/center_5.00.tif").read() == "old",
            "earlier folder touched", k)
    got = {parse(f): f for f in os.listdir(d + "/" + new[0])}
    miss = [c for c in cand if not any(abs(c - g) < 0.0051 for g in got)]
    check(not miss, "candidates without an image", miss, sorted(got))
    lim = max(cand) + step + 1e-6
    check(len(got) <= len(cand) + 1 and max(got) <= lim and
          min(got) > start - 0.006, "images without a candidate",
          sorted(got), cand)
    for c in cand:
        f = [got[g] for g in got if abs(c - g) < 0.0051][0]
        img = losa.load_image(d + "/" + new[0] + "/" + f)
        want = expect(c)
        check(img.shape == want.shape, "shape", img.shape, want.shape)
        if tool == "sinograms":
            ok = np.abs(img - want)
            check(np.array_equal(img[:N], s), "given half changed")
            check(ok.max() < 0.06 * np.ptp(s) + 0.02, "mirrored half",
                  float(ok.max()), "centre", c)
        else:
            if tool == "vertical" and opt.get("masking", True):
                want = np.where(img == 0, 0, want)
                check(np.any(img[:, 9] != 0), "all masked")
            check(np.abs(img - want).max() <= 2e-3 * np.abs(want).max(),
                  "image of centre %s" % c, float(np.abs(img - want).max()))
    ctx.drop(d)
    return len(got)


def run(ctx):
    for method, (a, b), step, b0, b1, sg, nc in itertools.product(
            ("fbp", "bpf", "dfi"), ((9, 13), (10.5, 13.5), (11, 11)),
            (0.5, 0.25), range(5), ctx.pick((0, 3, 4, 7), range(25)), (2, 0),
            (1, 3)):
        if a == b and b0:
            continue
        ctx.case("search/%s/%s_%s/%s/%d/%d/%d/%d" % (
            method, a, b, step, b0, b1, sg, nc), search, ctx, method, a, b,
            step, 2, (b0, b1), sg, nc, False, {})
    ang = np.linspace(0.3, 0.3 + np.pi, N)
    for method, (k, opt), radius, b0, inv in itertools.product(
            ("fbp", "bpf", "dfi"),
            enumerate(({}, dict(ratio=None), dict(ratio=0.7,
                                                 filter_name=None),
                       dict(angles=ang), dict(apply_log=False),
                       dict(filter_name="hamming"))),
            (0, 1, 3), range(4), (False, True)):
        if method != "fbp" and not ctx.thorough and (radius != 1 or b0 > 1):
            continue
        ctx.case("options/%s/%d/%d/%d/%d" % (method, k, radius, b0, inv),
                 search, ctx, method, 10, 13, 0.5, radius, (b0, b0 + 1), 2,
                 None, inv, opt)
    for method, metric, c, zoom in itertools.product(
            ("fbp", "dfi"), ("entropy", "sharpness"),
            np.arange(21.5, 26.6, 0.5), (1.0, 0.5)):
        ctx.case("builtin/%s/%s/%s/%s" % (method, metric, c, zoom), built_in,
                 ctx, method, metric, float(c), zoom)
    for (a, b, st), best, (al, ramp), sg, (inv, how) in itertools.product(
            ((7, 10, 1), (7, 10, 1.0), (6.5, 9.5, 0.5), (8, 8.6, 0.3),
             (8, 10, 2), (9, 9, 1)), range(7),
            ((0, "after"), (90, "before"), (30, "after")), (0, 1),
            ((False, False), (True, False), (False, True), (True, True))):
        if best >= len(grid(a, b, st)):
            continue
        ctx.case("vsearch/%s_%s_%r/%d/%d/%s/%d/%d%d" % (
            a, b, st, best, al, ramp, sg, inv, how), vsearch, ctx, a, b, st,
            best, al, ramp, sg, inv, how,
            (True, False, "bad")[(best + sg) % 3 if not sg else 0])
    for tool, layout, (a, b, st) in itertools.product(
            ("slices", "vertical", "sinograms"), LAYOUTS,
            ((8, 11, 1), (9.5, 11, 0.5), (10, 10.4, 0.1), (10, 10, 1),
             (6, 12, 3))):
        opts = [{}]
        if tool == "slices":
            opts = [dict(zoom=1.0), dict(zoom=0.5, method="fbp"),
                    dict(zoom=1.0, method="dfi"),
                    dict(zoom=1.0, method="bpf", filter_name=None),
                    dict(zoom=1.0, ncore=1)]
            ang = np.linspace(0.3, 0.3 + np.pi, N)
            opts += [dict(o, zoom=z, method=m) for m in ("fbp", "bpf", "dfi")
                     for z in (1.0, 0.5) for o in (
                         dict(ratio=None), dict(ratio=0.6),
                         dict(filter_name="hamming"), dict(angles=ang),
                         dict(apply_log=False))
                     if z == 1.0 or "angles" not in o] if (
                a == 9.5 and layout == list(LAYOUTS)[-1]) else []
        elif tool == "vertical":
            opts = [{}, dict(masking=False, alpha=45.0),
                    dict(ramp_filter="before", masking=False)]
        for k, o in enumerate(opts):
            ctx.case("visual/%s/%s/%s_%s_%s/%d" % (tool, layout, a, b, st,
                                                   k), visual, ctx, tool,
                     layout, a, b, st, o)
