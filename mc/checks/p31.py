"""P31: a stack reconstructs to the stack of its slices' reconstructions.

All stack heights, core counts, input types, angle lists, filters, paddings,
masks and centres of the alphabet, for every CPU method (gridrec and astra
through a stand-in for the external package).
Oracle: reconstruction of every slice alone; linear combinations; explicit
circle; explicit logarithm.
"""
import itertools
import math
import sys
import types

import numpy as np

from mc.core import check, quiet, raises, fill, same
import algotom.rec.reconstruction as rec

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of stack shapes, core counts, "
             "types and options on the real code against slice-by-slice "
             "reconstruction")
LEVEL = "model_checking"
LEVEL_NOTE = ("Full products of small stacks, cores, dtypes, angle lists, "
              "masks and filters for each method.")
RULE = "case = one (method, shape, options); transition = reconstruction"
ASSUMPTIONS = ["tomopy and astra are replaced by a stand-in back-projector "
               "with their documented calling convention; only the wrappers "
               "are judged"]
METHODS = ("fbp", "bpf", "dfi", "gridrec", "astra")


# ---- stand-ins for the optional packages
def backproject(sino, theta, center):
    sino = np.asarray(sino, np.float64)
    n = sino.shape[1]
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    out = np.zeros((n, n))
    for row, t in zip(sino, np.asarray(theta)):
        out += np.interp(x * math.cos(t) - y * math.sin(t) + center,
                         np.arange(n), row)
    return np.float32(out / len(sino))


def install():
    tomo = types.ModuleType("tomopy")

    def recon(tomo_, theta, center=None, sinogram_order=False,
              algorithm=None, **kwargs):
        check(algorithm == "gridrec", "algorithm passed to tomopy")
        arr = np.asarray(tomo_)
        if not sinogram_order:
            arr = np.moveaxis(arr, 1, 0)
        return np.asarray([backproject(s, theta, center) for s in arr])
    tomo.recon = recon
    sys.modules["tomopy"] = tomo

    astra = types.ModuleType("astra")
    store = {}

    class data2d:
        @staticmethod
        def create(kind, geom, data=None):
            k = len(store) + 1
            store[k] = (kind, geom, None if data is None else
                        np.array(data, np.float32))
            return k

        @staticmethod
        def get(k):
            return store[k][2]

        @staticmethod
        def delete(k):
            pass

    class algorithm:
        @staticmethod
        def create(cfg):
            k = len(store) + 1
            store[k] = dict(cfg)
            return k

        @staticmethod
        def run(k, num=1):
            cfg = store[k]
            kind, geom, sino = store[cfg["ProjectionDataId"]]
            rid = cfg["ReconstructionDataId"]
            check(sino.shape == (len(geom[1]), geom[0]), "astra geometry")
            out = backproject(sino, geom[1], (geom[0] - 1) / 2)
            store[rid] = (store[rid][0], store[rid][1], out * num)

        @staticmethod
        def delete(k):
            pass
    astra.data2d = data2d
    astra.algorithm = algorithm
    astra.projector = types.SimpleNamespace(
        delete=lambda *k: None, clear=lambda: None,
        create=lambda cfg: 1)
    data2d.clear = algorithm.clear = staticmethod(lambda: None)
    astra.clear = lambda: None
    astra.create_proj_geom = lambda kind, d, n, ang: (n, np.asarray(ang))
    astra.create_vol_geom = lambda n, m: (n, m)
    astra.create_projector = lambda kind, p, v: 1
    astra.astra_dict = lambda name: {"type": name}
    sys.modules["astra"] = astra


def call(method, s, c, **kw):
    fun = getattr(rec, method + "_reconstruction")
    if method in ("fbp", "bpf"):
        kw.setdefault("gpu", False)
    if method == "astra":
        kw["method"] = "FBP"
    return np.asarray(quiet(fun, s, c, **kw))


def near(a, b, what, tol=2e-4):
    check(a.shape == b.shape, what, "shape", a.shape, b.shape)
    lim = tol * max(1e-3, float(np.abs(b).max()))
    d = np.abs(np.float64(a) - np.float64(b))
    check(d.max() <= lim, what, "largest difference %g" % d.max(),
          "position", np.unravel_index(np.argmax(d), d.shape), "of scale",
          float(np.abs(b).max()))


def stack(nrow, n, w, dtype, seed):
    v = fill((nrow, n, w), seed, 0, 1, np.float64)
    v = 0.5 * v + 0.3 * np.linspace(0, 1, n + 1)[1:, None] + 0.1
    if np.dtype(dtype).kind in "iu":
        return np.round(v * 1000).astype(dtype)
    return v.astype(dtype)


def slices(ctx, method, nrow, n, w, c, dtype, ncore, angles, order, opts):
    s = stack(nrow, n, w, dtype, nrow + 10 * n + w)
    if order == "F":
        s = np.asfortranarray(s)
    elif order == "view":
        big = np.zeros((nrow, n + 2, w + 3), s.dtype)
        big[:, 1:-1, 2:-1] = s
        s = big[:, 1:-1, 2:-1]
    keep = s.copy()
    kw = dict(opts)
    if angles is not None:
        kw["angles"] = angles
    ctx.step(1 + n)
    ctx.state((method, nrow, n, w, c, str(dtype), ncore, order,
               None if angles is None else angles, sorted(opts, key=str)))
    vol = call(method, s, c, ncore=ncore, **kw)
    check(vol.shape == (w, n, w), "shape of the volume", vol.shape)
    check(np.isfinite(vol).all(), "not finite")
    same(s, keep, "input changed")
    for i in range(n):
        one = call(method, np.ascontiguousarray(s[:, i, :]), c, **kw)
        check(one.shape == (w, w), "shape of the slice", one.shape)
        near(vol[:, i, :], one, "slice %d" % i)
    if np.dtype(dtype).kind in "iu" and method != "dfi":
        near(vol, call(method, np.float32(s), c, ncore=1, **kw),
             "integer input")
    return np.round(vol.sum(), 1)


def linear(ctx, method, w, c, filt, pad, ratio):
    a = stack(13, 1, w, np.float32, 3)[:, 0]
    b = stack(13, 1, w, np.float32, 8)[:, 0] ** 2
    kw = dict(apply_log=False, ratio=ratio)
    if filt != "default":
        kw["filter_name"] = filt
    if pad is not None:
        kw["pad_rate" if method == "dfi" else "pad"] = pad
    ctx.step(3)
    ctx.state((method, w, c, filt, pad, ratio))
    f = [call(method, x, c, **kw) for x in (a, b, np.float32(2 * a - 3 * b))]
    near(f[2], 2 * f[0] - 3 * f[1], "linearity", 1e-3)
    near(call(method, 0 * a, c, **kw), 0 * f[0], "zero sinogram")


def mask(ctx, method, w, c, ratio, n):
    s = stack(13, n, w, np.float32, 5)
    if n == 0:
        s = stack(13, 1, w, np.float32, 5)[:, 0]
    ctx.step(2)
    ctx.state((method, w, c, ratio, n))
    full = call(method, s, c, ratio=None)
    cut = call(method, s, c, ratio=ratio)
    if ratio == 0.0:
        ratio = min(c, w - c) / (0.5 * w)
    y, x = np.mgrid[:w, :w] - w // 2
    r2 = x * x + y * y
    lim = (ratio * (w // 2)) ** 2
    inside, outside = r2 < lim - 1e-6, r2 > lim + 1e-6
    for f, g in ([(full, cut)] if n == 0 else
                 [(full[:, i], cut[:, i]) for i in range(n)]):
        check(np.all(g[outside] == 0), "not zero outside of the circle")
        near(np.where(inside, g, 0), np.where(inside, f, 0),
             "inside of the circle")


def logs(ctx, method, w, c, n, bad, dtype):
    s = stack(13, max(n, 1), w, np.float32, 9)
    if bad:
        s[3, 0, 4] = 0.0
        s[7, -1, 2] = -0.5
    if n == 0:
        s = s[:, 0]
    s = s.astype(dtype)
    keep = s.copy()
    ctx.step(2)
    ctx.state((method, w, c, n, bad, str(dtype)))
    a = call(method, s, c, apply_log=True)
    same(s, keep, "input changed")
    ok = np.where(s <= 0, 1, s)
    b = call(method, -np.log(ok), c, apply_log=False)
    if bad and method == "dfi":
        check(np.isfinite(a).all(), "not finite")
        return
    near(a, b, "logarithm", 2e-3)
    near(call(method, s.copy(), c), a, "apply_log is on by default")


def rejects(ctx, method):
    s = stack(13, 2, 12, np.float32, 1)
    for x, c in itertools.product((s, s[:, 0]), (-0.5, 12, 40)):
        ctx.step()
        ctx.rejected += 1
        check(raises(lambda: call(method, x, c)) is True, "centre accepted",
              c)
    for x, n in itertools.product((s, s[:, 0]), (12, 14)):
        ctx.step()
        ctx.rejected += 1
        check(raises(lambda: call(method, x, 5.5,
                                  angles=np.linspace(0, 3, n))) is True,
              "angle list of wrong length accepted", n)


def run(ctx):
    install()
    nrow = 13
    pi = np.pi
    alists = {"none": None, "std": np.linspace(0, pi, nrow),
              "off": np.linspace(0.4, 0.4 + pi, nrow),
              "rev": np.linspace(pi, 0, nrow),
              "360": np.linspace(0, 2 * pi, nrow)}
    for method in METHODS:
        for n, w, ncore, dt in itertools.product(
                ctx.pick((1, 2, 3, 5), (1, 2, 3, 4, 5, 9)), (12, 13),
                (1, 2, 3, None),
                (np.float32, np.float64, np.int16, np.uint16, np.uint8)):
            if dt == np.uint8:
                dt = np.float32
                order = "view"
            else:
                order = "C"
            ctx.case("slices/%s/%d/%d/%s/%s/%s" % (
                method, n, w, ncore, np.dtype(dt).name, order), slices, ctx,
                method, nrow, n, w, 5.5 if w == 12 else 6, dt, ncore, None,
                order, dict(apply_log=np.dtype(dt).kind == "f"))
        for n, w, c, (an, al), ncore, filt in itertools.product(
                (1, 3), (12, 13), (3, 5.25, 6.5, 8), alists.items(), (1, 2),
                (None, "shepp" if method == "gridrec" else "hann",
                 "hamming")):
            ctx.case("angles/%s/%d/%d/%s/%s/%d/%s" % (
                method, n, w, c, an, ncore, filt), slices, ctx, method, nrow,
                n, w, c, np.float32, ncore, al, "F",
                dict(apply_log=False, filter_name=filt, ratio=None))
        pads = ((0, 0.1, 1.0) if method == "dfi" else (0, 1, 7))
        for n, w, p, ncore, rt in itertools.product(
                (1, 4), (12, 13), pads, (1, 3), (1.0, 0.0, 0.7)):
            key = "pad_rate" if method == "dfi" else "pad"
            ctx.case("pad/%s/%d/%d/%s/%s/%s" % (method, n, w, p, ncore, rt),
                     slices, ctx, method, nrow, n, w, 5, np.float32, ncore,
                     None, "C", {"ratio": rt, key: p, "apply_log": False})
        for w, c, filt, p, rt in itertools.product(
                (12, 13), (4, 6.5), ("default", None), (None,) + pads,
                (None, 1.0, 0.0)):
            ctx.case("linear/%s/%d/%s/%s/%s/%s" % (method, w, c, filt, p, rt),
                     linear, ctx, method, w, c, filt, p, rt)
        for w, c, rt, n in itertools.product(
                (12, 13, 17), (3, 5.5, 8), (1.0, 0.8, 0.5, 0.0), (0, 1, 2)):
            ctx.case("mask/%s/%d/%s/%s/%d" % (method, w, c, rt, n), mask, ctx,
                     method, w, c, rt, n)
        for w, c, n, bad, dt in itertools.product(
                (12, 13), (None, 4), (0, 1, 3), (False, True),
                (np.float32, np.float64)):
            # A whole-pixel shift: dfi shifts before taking the logarithm
            cc = float(w // 2) if c is None else c
            ctx.case("log/%s/%d/%s/%d/%d/%s" % (method, w, cc, n, bad,
                                                np.dtype(dt).name), logs, ctx,
                     method, w, cc, n, bad, dt)
        ctx.case("reject/%s" % method, rejects, ctx, method)
