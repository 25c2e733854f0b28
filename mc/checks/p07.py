"""P07: coefficient files and HDF streams, exhaustively.

Coefficients: every number of factors 0..4 (thorough 6) times value patterns
from an alphabet of magnitudes (1e-300 .. 1e300, denormals, negative zero,
exact integers) and numeric types, through .txt/.dat/no suffix and overwrite
modes; sequences of two saves to the same and to different names.
Stream: every ordered partition of a stack of up to 4 (thorough 5) slices into
blocks along each axis, written in every order, with every metadata set.
Oracle: the numbers given.
"""
import itertools
import math
import os

import h5py
import numpy as np

from mc.core import check, exact, fill, quiet, Violation
import algotom.io.loadersaver as losa

TECHNIQUE = ("bounded-exhaustive exploration of save/load histories and block "
             "write orders on the real code")
LEVEL = "model_checking"
LEVEL_NOTE = ("All factor tuples over a magnitude alphabet up to the length "
              "bound; all ordered block partitions of a small stream.")
RULE = "case = one save/load history; outcome = numbers read back"
ASSUMPTIONS = ["finite coefficient values"]

MAG = [0.0, -0.0, 1.0, -1.5, 1e-20, -3.3333333333333335e-07, 1e300, 5e-324,
       123456789.123456789]
TYPES = {
    "float": float, "np64": np.float64, "np32": np.float32,
    "int": lambda v: int(v) if abs(v) < 1e18 else 7,
    "npint": lambda v: np.int64(v) if abs(v) < 1e18 else np.int64(7),
}


def bits(v):
    return (float(v), math.copysign(1.0, float(v)))


def run(ctx):
    root = ctx.scratch("c")
    nmax = ctx.pick(4, 6)
    for n in range(nmax + 1):
        vals = itertools.product(MAG, repeat=n) if n <= ctx.pick(2, 3) else \
            itertools.chain([[MAG[(i * j + i) % len(MAG)] for i in range(n)]
                             for j in range(len(MAG))])
        for fact in vals:
            for typ in TYPES:
                if n == 2 and typ not in ("float", "np32"):
                    continue
                ctx.case("coef/%d/%s/%s" % (n, typ, ",".join(map(repr, fact))
                                            ), coef, ctx, root, fact, typ,
                         "c.txt", "list")
    for n in range(nmax + 1):
        for suf in ("c.txt", "c.dat", "c", "sub/dir/c.txt", "c.TXT"):
            for cont in ("list", "tuple", "array"):
                ctx.case("coefname/%d/%s/%s" % (n, suf, cont), coef, ctx,
                         root, MAG[2:2 + n], "float", suf, cont)
    names = ["a.txt", "b.txt"]
    for hist in itertools.product(itertools.product(names, (True, False)),
                                  repeat=ctx.pick(3, 4)):
        ctx.case("hist/" + "+".join("%s%d" % h for h in hist), history, ctx,
                 root, hist)
    stream(ctx, root)
    ctx.drop(root)


def coef(ctx, root, fact, typ, name, cont):
    fn = TYPES[typ]
    vals = [fn(v) for v in fact]
    xc, yc = fn(MAG[8]), fn(MAG[3])
    arg = {"list": list, "tuple": tuple,
           "array": lambda v: np.asarray(v, dtype=np.float64)}[cont](vals)
    if cont == "array":
        vals = list(arg)
    path = losa.save_distortion_coefficient(os.path.join(root, "co", name),
                                            xc, yc, arg)
    ctx.step(2)
    gx, gy, gf = losa.load_distortion_coefficient(str(path))
    ctx.drop(os.path.join(root, "co"))

    def match(g, w, what):
        if isinstance(w, np.float32):
            g, w = np.float32(g), np.float32(w)
        check(bits(g) == bits(w), what + " changed", g, w)
    match(gx, xc, "x-centre")
    match(gy, yc, "y-centre")
    check(len(gf) == len(vals), "number of factors", len(gf), len(vals))
    for i, (g, w) in enumerate(zip(gf, vals)):
        match(g, w, "factor %d" % i)
    return [float(v) for v in gf]


def history(ctx, root, hist):
    d = os.path.join(root, "h")
    model = {}
    try:
        for i, (name, ow) in enumerate(hist):
            vals = [float(i + 1), -float(i)]
            got = str(losa.save_distortion_coefficient(
                os.path.join(d, name), i + 0.5, i + 0.25, vals,
                overwrite=ow))
            ctx.step()
            if ow:
                check(os.path.basename(got) == name, "wrong file", got)
            else:
                check(got not in model, "overwrote although told not to", got)
            model[got] = (i + 0.5, i + 0.25, vals)
            for p, w in model.items():
                g = losa.load_distortion_coefficient(p)
                ctx.step()
                check(g[0] == w[0] and g[1] == w[1] and list(g[2]) == w[2],
                      "coefficients in %s" % os.path.basename(p), g, w)
            check(len(os.listdir(d)) == len(model), "stray files")
        return sorted(os.path.basename(p) for p in model)
    finally:
        ctx.drop(d)


def compositions(n):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield [k] + rest


def stream(ctx, root):
    metas = [None, {}, {"entry/angles": np.arange(5.0)},
             {"entry/angles": np.arange(3), "entry/energy": 53,
              "entry/data_extra": 2.5, "title": "scan"}]
    n = ctx.pick(4, 5)
    vols = {}
    for dt in ("float32", "uint16", "float64"):
        vols[dt] = (fill((n, n, n), 3, 0, 60000, np.float64)).astype(dt)
    i = 0
    for axis in range(3):
        for comp in compositions(n):
            for order in itertools.permutations(range(len(comp))):
                dt = ("float32", "uint16", "float64")[i % 3]
                key = ("entry/data", "data", "a/b/c/data")[i % 3]
                meta = metas[i % 4]
                i += 1
                ctx.case("stream/ax%d/%s/%s" % (
                    axis, "-".join(map(str, comp)),
                    "".join(map(str, order))), one_stream, ctx, root,
                    vols[dt], dt, key, meta, axis, comp, order)
    for m, meta in enumerate(metas):
        for key in ("entry/data", "data", "/entry/x/data"):
            for dt in vols:
                ctx.case("streammeta/%d/%s/%s" % (m, key.replace("/", "_"),
                                                  dt), one_stream, ctx, root,
                         vols[dt], dt, key, meta, 0, [n], [0])


def one_stream(ctx, root, vol, dt, key, meta, axis, comp, order):
    path = os.path.join(root, "s.hdf")
    kw = {} if meta is None else {"options": meta}
    if meta and any((k + "/").startswith(key.strip("/") + "/")
                    for k in meta):
        raise AssertionError("bad alphabet")
    d = losa.open_hdf_stream(path, vol.shape, key_path=key, data_type=dt,
                             **kw)
    ctx.step()
    starts = np.concatenate([[0], np.cumsum(comp)[:-1]]).astype(int)
    for b in order:
        a, z = starts[b], starts[b] + comp[b]
        sl = [slice(None)] * 3
        sl[axis] = slice(a, z)
        d[tuple(sl)] = vol[tuple(sl)]
        ctx.step()
    d.file.close()
    with h5py.File(path, "r") as f:
        got = f[key]
        check(got.dtype == np.dtype(dt), "data type", got.dtype)
        exact(got[()], vol, "streamed data")
        n = []
        f.visititems(lambda k, o: n.append(k)
                     if isinstance(o, h5py.Dataset) else None)
        want = {key.strip("/")} | set(meta or {})
        check(set(n) == want, "datasets in the file", sorted(n), sorted(want))
        for k, v in (meta or {}).items():
            g = f[k][()]
            if isinstance(g, bytes):
                g = g.decode()
            check(np.array_equal(np.asarray(g), np.asarray(v)), "metadata",
                  k, g)
    out, fobj = losa.load_hdf(path, key.strip("/"), return_file_obj=True)
    exact(out[()], vol, "loaded data")
    fobj.close()
    os.remove(path)
    ctx.step()
    return (key, dt, tuple(order), tuple(comp), axis)
