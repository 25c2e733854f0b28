"""P33: vertical slices against a reference back-projection at the slice
points, and against the full volume.

Every slice index x slice angle x ramp option; every projection range x
chunk size; crops; flat/dark options and types; all three entry points.
Reference model: direct evaluation of the back-projection integral at the
points of the slice; fbp volume for slices along the image axes.
"""
import itertools
import math

import h5py
import numpy as np

from mc.core import check, quiet, raises, fill, same
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of slices, angles, ranges, "
             "crops and options on the real code against a reference "
             "back-projection")
LEVEL = "model_checking"
LEVEL_NOTE = ("All slice indices x slice angles x filters for even and odd "
              "widths; all projection ranges x chunk sizes; crops and "
              "flat/dark combinations; single, multiple and different-angle "
              "versions.")
RULE = "case = one vertical reconstruction; state = all its parameters"
ASSUMPTIONS = ["the slice axis is pixel width//2, as in the documentation of "
               "the slice geometry"]
ALPHAS = (0, 20, 45, 50, 90, 120, 135, 160, 180)


def data(n, h, w):
    v = fill((n, h, w), 77, 0, 1, np.float64)
    return np.float32(0.3 + 0.4 * v + 0.02 * np.arange(h)[:, None])


def points(w, idx, alpha):
    a = math.radians(alpha)
    t = np.arange(w) - w // 2
    s = idx - w // 2
    return s * math.sin(a) + t * math.cos(a), \
        -s * math.cos(a) + t * math.sin(a)


def backproject(p, ang, x, y, c, edge):
    n, h, w = p.shape
    out = np.zeros((h, len(x)))
    for img, t in zip(p, ang):
        f = x * math.cos(t) + y * math.sin(t) + c
        near = np.abs(f - np.round(f)) < 1e-5
        f = np.where(near, np.round(f), f)
        for i in range(h):
            v = np.interp(f, np.arange(w), img[i])
            if not edge:
                v = np.where((f < 0) | (f > w - 1), 0, v)
            out[i] += v
    return out


def border(ang, x, y, c, w):
    """Columns where a ray passes within rounding of the detector edge."""
    bad = np.zeros(len(x), bool)
    for t in ang:
        f = x * math.cos(t) + y * math.sin(t) + c
        bad |= (np.abs(f) < 1e-4) | (np.abs(f - w + 1) < 1e-4)
    return bad


def model(p, ang, idx, alpha, c, ramp, filt="hann", pad=None,
          pad_mode="edge"):
    n, h, w = p.shape
    if pad is None:
        pad = min(int(0.15 * w), 150)
    x, y = points(w, idx, alpha)
    if ramp == "before":
        p = np.asarray([quiet(rec.apply_ramp_filter, q, None, filt, pad,
                              pad_mode) for q in p])
    out = backproject(p, ang, x, y, c, ramp != "before")
    if ramp == "after":
        win = np.abs(rec.make_2d_ramp_window(h, w + 2 * pad,
                                             filter_name=filt))
        q = np.pad(out, ((0, 0), (pad, pad)), mode=pad_mode)
        q = np.fft.fftshift(np.fft.fft(q), axes=1) * win
        out = np.real(np.fft.ifft(np.fft.ifftshift(q, axes=1)))
        out = out[:, pad:pad + w]
    skip = border(ang, x, y, c, w) if ramp == "before" else \
        np.zeros(w, bool)
    return out * np.pi / (n - 1), skip


def near(a, b, what, skip=None, tol=5e-4):
    check(a.shape == b.shape, what, "shape", a.shape, b.shape)
    d = np.abs(np.float64(a) - b)
    if skip is not None:
        d = d[..., ~skip]
    if d.size:
        check(d.max() <= tol * max(0.01, np.abs(b).max()), what,
              "largest difference %g" % d.max(), "scale",
              float(np.abs(b).max()))


def one(p, idx, c, **kw):
    return quiet(vr.vertical_reconstruction, p, idx, c, gpu=False,
                 show_progress=False, **kw)


def many(p, a, b, c, **kw):
    return quiet(vr.vertical_reconstruction_multiple, p, a, b, c, gpu=False,
                 show_progress=False, **kw)


def mixed(p, idx, al, c, **kw):
    return quiet(vr.vertical_reconstruction_different_angles, p, idx, al, c,
                 gpu=False, show_progress=False, **kw)


def place(ctx, w, idx, alpha, ramp, c, filt, pad):
    p = data(9, 3, w)
    ang = np.linspace(0, np.pi, 9)
    keep = p.copy()
    ctx.step(3)
    ctx.state((w, idx, alpha, ramp, c, filt, pad))
    kw = dict(ramp_filter=ramp, filter_name=filt, pad=pad, apply_log=False)
    want, skip = model(p, ang, idx, alpha, c, ramp, filt, pad)
    got = one(p, idx, c, alpha=alpha, **kw)
    near(got, want, "single slice", skip)
    near(mixed(p, [idx, w - 1 - idx], [alpha, alpha], c, **kw)[0], got,
         "different-angle version", skip)
    near(many(p, idx, idx, c, alpha=alpha, **kw), got[None],
         "multiple version", skip)
    same(p, keep, "projections changed")
    return np.round(got.sum(), 2)


def volume(ctx, w, c, alpha, filt, log):
    p = data(9, 3, w)
    ctx.step(2 + w)
    vol = quiet(rec.fbp_reconstruction, np.moveaxis(p.copy(), 0, 0), c,
                filter_name=filt, gpu=False, ratio=None, apply_log=log,
                ncore=1)            # (y, slice, x)
    for idx in range(w):
        got = one(p, idx, c, alpha=alpha, ramp_filter="before",
                  filter_name=filt, apply_log=log)
        if alpha == 0:
            want = vol[idx].copy()
        elif alpha == 90:
            want = vol[::-1, :, idx].T
        else:
            want = vol[w - 1 - idx][:, ::-1]
        x, y = points(w, idx, alpha)
        near(got, want, "slice %d against the volume" % idx,
             border(np.linspace(0, np.pi, 9), x, y, c, w))


def lines(ctx, w, start, alpha):
    """Every stop and step: slices start, start + step, ... up to stop."""
    p = data(5, 2, w)
    kw = dict(apply_log=False, ramp_filter=None, alpha=alpha)
    c = 0.5 * (w - 1)
    each = [one(p, i, c, **kw) for i in range(w)]
    for stop in list(range(start, w)) + [-1]:
        last = w - 1 if stop == -1 else stop
        for step in range(1, w + 2):
            ctx.step()
            ctx.state((w, start, stop, step, alpha))
            got = many(p, start, stop, c, step_index=step, **kw)
            want = [each[i] for i in range(start, last + 1, step)]
            check(len(got) == len(want), "slices %d to %d by %d: %d instead "
                  "of %d" % (start, stop, step, len(got), len(want)))
            near(got, np.asarray(want), "slices %d to %d by %d"
                 % (start, stop, step))
    return w


def ranges(ctx, n, a, b, chunk, fn, ramp, hdf, log):
    w = 11
    p = data(n, 2, w)
    if log == "bad":
        p[a, 1, 3] = 0
        p[-1, 0, 5] = -1
    src = p
    f = None
    if hdf:
        d = ctx.scratch()
        f = h5py.File(d + "/a.hdf", "w")
        src = f.create_dataset("d", data=p)
    stop = n if b == -1 else b
    ctx.step()
    ctx.state((n, a, b, chunk, fn, ramp, hdf, log))
    kw = dict(proj_start=a, proj_stop=b, chunk_size=chunk, ramp_filter=ramp,
              apply_log=bool(log))
    m = stop - a
    ang = np.linspace(0, np.pi, m)
    q = p[a:stop]
    if log:
        q = -np.log(np.where(q <= 0, 1, q))
    if fn == "one":
        out = one(src, 4, 5.25, alpha=30, **kw)
        want, skip = model(q, ang, 4, 30, 5.25, ramp)
    elif fn == "many":
        kw["angles"] = ang[::-1].copy()
        out = many(src, 2, 8, 5.25, alpha=60, step_index=3, **kw)
        check(len(out) == 3, "number of slices", len(out))
        r = [model(q, ang[::-1], i, 60, 5.25, ramp) for i in (2, 5, 8)]
        want = np.asarray([x[0] for x in r])
        skip = np.any([x[1] for x in r], axis=0)
    else:
        out = mixed(src, [0, 9], [90, 15.5], 5.25, **kw)
        r = [model(q, ang, i, g, 5.25, ramp) for i, g in ((0, 90),
                                                        (9, 15.5))]
        want = np.asarray([x[0] for x in r])
        skip = np.any([x[1] for x in r], axis=0)
    near(out, want, "projections %d to %d, chunk %s" % (a, stop, chunk), skip)
    if f:
        f.close()
        ctx.drop(d)
    return np.round(out.sum(), 2)


def crops(ctx, crop, flat, dark, dt, fn, chunk, zero):
    n, h, w = 7, 5, 14
    t, b, le, ri = crop
    raw = fill((n, h, w), 5, 0, 1, np.float64)
    fl = fill((h, w), 6, 0, 1, np.float64)
    dk = fill((h, w), 8, 0, 1, np.float64)
    raw, fl, dk = 300 + 500 * raw, 900 + 300 * fl, 100 + 50 * dk
    if zero:
        fl[2, 5] = dk[2, 5] = 200      # dead pixel
        raw[3, 1, 6] = 90              # below the dark level
    raw, fl, dk = [np.round(z).astype(dt) for z in (raw, fl, dk)]
    keep = [z.copy() for z in (raw, fl, dk)]
    F, D = fl.astype(float), dk.astype(float)
    if flat is None:
        F = np.ones((h, w))
    if dark is None:
        D = np.zeros((h, w))
    q = raw.astype(float)
    if flat is not None or dark is not None:
        den = F - D
        den[den == 0] = 1
        q = (q - D) / den
    q = q[:, t:h - b, le:w - ri]
    q = -np.log(np.where(q <= 0, 1, q))
    ww = q.shape[2]
    c = ww / 2 - 0.75
    kw = dict(crop=crop, flat_field=fl if flat else None,
              dark_field=dk if dark else None, chunk_size=chunk)
    ang = np.linspace(0, np.pi, n)
    ctx.step()
    ctx.state((crop, flat, dark, str(dt), fn, chunk, zero))
    if fn == "one":
        out = one(raw, ww - 2, c, **kw)
        want = model(q, ang, ww - 2, 0, c, "after")[0]
    elif fn == "many":
        out = many(raw, 1, -1, c, **kw)
        want = np.asarray([model(q, ang, i, 0, c, "after")[0]
                           for i in range(1, ww)])
    else:
        out = mixed(raw, [3, 1], [0, 135], c, **kw)
        want = np.asarray([model(q, ang, 3, 0, c, "after")[0],
                           model(q, ang, 1, 135, c, "after")[0]])
    near(out, want, "cropped and corrected slice", tol=1e-3)
    for z, k in zip((raw, fl, dk), keep):
        same(z, k, "input changed")


def masks(ctx, w, c, fn):
    p = data(7, 2, w)
    run_ = {"one": lambda **k: one(p, 3, c, **k),
            "many": lambda **k: many(p, 2, 4, c, **k),
            "mixed": lambda **k: mixed(p, [1, 2], [0, 90], c, **k)}[fn]
    ctx.step(2)
    a, b = run_(masking=True), run_(masking=False)
    kept = np.any(np.reshape(a, (-1, w)) != 0, axis=0)
    near(a, b * kept, "masked slice")
    j = np.nonzero(kept)[0]
    rad = int(min(c, w - c))
    check(len(j) == 2 * rad and (rad == 0 or j[-1] - j[0] + 1 == 2 * rad),
          "width of the mask", len(j), rad)
    check(rad == 0 or abs((j[0] + j[-1]) / 2 - (w - 1) / 2) <= 0.5,
          "mask is in the middle", j)


def rejects(ctx, fn):
    p = data(7, 3, 10)
    base = dict(c=5.0)
    z = np.ones((3, 10), np.float32)

    def go(idx=3, c=5.0, alpha=0, **kw):
        if fn == "one":
            return one(p, idx, c, alpha=alpha, **kw)
        if fn == "many":
            return many(p, idx, 4, c, alpha=alpha, **kw)
        return mixed(p, [idx, 2], [alpha, 0], c, **kw)
    go(**base)
    for kw in (dict(idx=-1), dict(idx=10), dict(c=-0.5), dict(c=9.5),
               dict(alpha=-1), dict(alpha=181), dict(crop=(2, 1, 0, 0)),
               dict(crop=(0, 0, 5, 5)), dict(crop=(0, 0, 0, 5), c=4.5),
               dict(crop=(0, 0, 4, 0), idx=6), dict(proj_start=7),
               dict(proj_start=5, proj_stop=5), dict(ramp_filter="x"),
               dict(angles=np.zeros(6)), dict(proj_stop=6,
                                              angles=np.zeros(7)),
               dict(flat_field=z[:2]), dict(dark_field=z[:, :9])):
        ctx.step()
        ctx.rejected += 1
        check(raises(lambda: go(**kw)) is True, "accepted", kw)
    if fn == "mixed":
        check(raises(lambda: mixed(p, [1, 2], [0], 5)) is True,
              "lists of different lengths accepted")


def run(ctx):
    fns = ("one", "many", "mixed")
    for w in (10, 11):
        for idx, alpha, ramp, c in itertools.product(
                range(w), ctx.pick(ALPHAS, ALPHAS + (10, 44, 46, 80, 100,
                                                     134, 136, 170)),
                ("before", "after", None), ((w - 1) / 2, 3.3, w - 2.6)):
            ctx.case("place/%d/%d/%s/%s/%s" % (w, idx, alpha, ramp, c), place,
                     ctx, w, idx, alpha, ramp, c, "hann", None)
        for idx, ramp, filt, pad in itertools.product(
                (0, 4, w - 1), ("before", "after"),
                (None, "hann", "hamming", "parzen"), (0, 3, 8)):
            ctx.case("filter/%d/%d/%s/%s/%d" % (w, idx, ramp, filt, pad),
                     place, ctx, w, idx, 70, ramp, 4.5, filt, pad)
    for w, off, alpha, filt, log in itertools.product(
            (9, 11, 15), (0, 0.5, -1.3), (0, 90, 180), (None, "hann"),
            (False, True)):
        ctx.case("volume/%d/%s/%d/%s/%d" % (w, off, alpha, filt, log), volume,
                 ctx, w, (w - 1) / 2 + off, alpha, filt, log)
    n = 8
    for a, b, chunk, fn in itertools.product(
            range(n - 1), [-1] + list(range(2, n + 1)),
            (None, 1, 2, 3, 5, 8, 30, 0), fns):
        if (n if b == -1 else b) - a < 2:
            continue
        ramp = ("after", "before", None)[(a + n + b) % 3]
        ctx.case("range/%d_%d/%s/%s" % (a, b, chunk, fn), ranges, ctx, n, a,
                 b, chunk, fn, ramp, (a + b) % 2 == 0,
                 (False, True, "bad")[(a + 2 * b + (chunk or 0)) % 3])
    for crop, (fl, dk), dt, fn in itertools.product(
            itertools.product((0, 1), (0, 2), (0, 1, 4), (0, 3)),
            ((0, 0), (1, 0), (1, 1)),
            (np.uint16, np.float32), fns):
        ctx.case("crop/%s/%d%d/%s/%s" % ("_".join(map(str, crop)), fl, dk,
                                         np.dtype(dt).name, fn), crops, ctx,
                 crop, fl or None, dk or None, dt, fn, (3, 30)[sum(crop) % 2],
                 bool(dk) and crop[0] == 0)
    for w, c, fn in itertools.product((10, 11), (0, 1.5, 3, 4.5, 5, 7.2, 9),
                                      fns):
        ctx.case("mask/%d/%s/%s" % (w, c, fn), masks, ctx, w, c, fn)
    for w in ctx.pick((4, 7, 10), (3, 4, 6, 7, 10, 13)):
        for start in range(w):
            for alpha in ctx.pick((0, 60), (0, 30, 60, 90, 135, 180)):
                ctx.case("lines/%d/%d/%d" % (w, start, alpha), lines,
                         ctx, w, start, alpha)
    for fn in fns:
        ctx.case("reject/" + fn, rejects, ctx, fn)
