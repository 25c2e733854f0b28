"""P18: flat-field correction.

(a) every assignment of small grey levels to flat, dark and projection pixels,
for every data type, ratio, dimension layout and dark option, against
(proj - dark) / (ratio*flat - dark) in float64; where the denominator is zero
the result must be finite.  (b) every sequence (up to a length) of optional
processing steps, with None entries, for 2D and 3D data, against applying the
same public functions one after another; unknown or ill-formed steps are
rejected.
"""
import itertools

import numpy as np

import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as remo
from mc.core import check, fill, quiet, raises, same

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of pixel values, types, layouts "
             "and step sequences on the real code against the formula")
LEVEL = "model_checking"
LEVEL_NOTE = "All pixel-value assignments and step orders within the bounds."
RULE = ("case = one (type, ratio, layout, dark option, flat row) with all "
        "dark rows and projections, or one step sequence; state = one "
        "(flat, dark, projection, options)")
ASSUMPTIONS = ["the value at pixels where flat equals dark is only required "
               "to be finite"]

STEPS = {
    "z": (remo, "remove_zinger", (0.08, 2)),
    "s": (remo, "remove_stripe_based_sorting", (3,)),
    "l": (remo, "remove_large_stripe", (2.0, 5)),
    "f": (filt, "fresnel_filter", (10.0, 1)),
    "g": (remo, "remove_stripe_based_filtering", (2, 3)),
    "u": (ps, "unwrap_phase_based_cosine_transform", ()),
}


def formula(ctx, layout, dt, ratio, use_dark, frow, levels):
    n = len(frow)
    for drow in itertools.product(levels, repeat=n):
        if layout == "1d":
            flat, dark = np.array(frow), np.array(drow)
        else:
            flat = np.array([frow, frow[::-1]])
            dark = np.array([drow, drow])
        flat, dark = flat.astype(dt), dark.astype(dt)
        for k, prow in enumerate(itertools.product(levels, repeat=n)):
            if layout != "1d" and k % 3:
                continue
            p2 = np.array([prow, tuple(reversed(prow))]).astype(dt)
            proj = p2 if layout in ("1d", "2d") else \
                np.stack([p2, p2[::-1], p2])
            ctx.step()
            ctx.state((layout, dt, ratio, use_dark, frow, drow, prow))
            keep = flat.copy(), dark.copy(), proj.copy()
            got = quiet(corr.flat_field_correction, proj, flat, dark,
                        ratio=ratio, use_dark=use_dark)
            for a, b, nm in zip((flat, dark, proj), keep,
                                ("flat", "dark", "projection")):
                check(np.array_equal(a, b), "caller's %s changed" % nm)
            f64, d64, p64 = [np.asarray(a, dtype=np.float64)
                             for a in (flat, dark, proj)]
            den = ratio * f64 - (d64 if use_dark else 0)
            num = p64 - (d64 if use_dark else 0)
            den = np.broadcast_to(den, proj.shape)
            check(np.shape(got) == proj.shape, "shape", np.shape(got))
            check(bool(np.isfinite(got).all()),
                  "not finite", got, flat, dark, proj)
            ok = den != 0
            same(np.where(ok, got, 0.0),
                 np.where(ok, num / np.where(ok, den, 1), 0.0),
                 "formula (flat %s dark %s proj %s)" % (frow, drow, prow),
                 1e-5, 1e-6)
            for c in np.unique(num[~ok]):
                vals = np.asarray(got)[~ok & (num == c)]
                check(np.ptp(vals) < 1e-5, "equal dead pixels differ", vals)
    return (layout, dt, ratio, use_dark, frow)


def steps(ctx, seq, dim):
    h, w = 16, 18
    proj = fill((3, h, w) if dim == 3 else (h, w), 3, 20.0, 200.0)
    proj[..., 5] *= 1.7
    if dim == 3:
        proj[1, 4, 9] *= 9
        flat, dark = fill((h, w), 5, 150, 250), fill((h, w), 6, 0, 5)
    else:
        proj[6, 9] *= 9
        flat, dark = fill((w,), 5, 150, 250), fill((w,), 6, 0, 5)
    base = (proj.astype(np.float64) - dark) / (flat.astype(np.float64) - dark)
    base = base.astype(np.float32)
    opts, names = {}, []
    for i, s in enumerate(seq):
        # keys sort in the opposite order of use
        key = "option%d" % (9 - i)
        if s == "-":
            opts[key] = None
            continue
        mod, name, para = STEPS[s]
        d = {"method": name}
        for j, p in enumerate(para):
            d["para%d" % (j + 1)] = p
        opts[key] = d
        names.append(s)
    keep = {k: (dict(v) if v else v) for k, v in opts.items()}
    ctx.step()
    want = base.copy()
    try:
        for s in names:
            mod, name, para = STEPS[s]
            fn = getattr(mod, name)
            if dim == 2:
                want = quiet(fn, want, *para)
            else:
                for i in range(h):
                    want[:, i, :] = quiet(fn, want[:, i, :].copy(), *para)
    except ValueError:
        # the step itself refuses such (noise-free) data
        ctx.rejected += 1
        r = raises(lambda: quiet(corr.flat_field_correction, proj, flat,
                                 dark, **opts))
        check(r is True, "a refused step was not reported", seq, r)
        return None
    got = quiet(corr.flat_field_correction, proj, flat, dark, **opts)
    check(opts == keep, "caller's options changed")
    same(got, want, "steps %s" % (seq,), 2e-3, 1e-4)
    return np.round(np.asarray(want, dtype=np.float64), 2)


def reject(ctx, bad, dim):
    proj = fill((3, 6, 6) if dim == 3 else (6, 6), 3, 1, 2)
    flat = np.ones((6, 6)) if dim == 3 else np.ones(6)
    ctx.step()
    ctx.rejected += 1
    good = {"method": "remove_stripe_based_sorting", "para1": 3}
    for o in ({"option": bad}, {"option1": good, "option2": bad},
              {"option1": None, "option2": bad}):
        r = raises(lambda: quiet(corr.flat_field_correction, proj, flat,
                                 0 * flat, **o))
        check(r is True, "bad step accepted", bad, r)


def run(ctx):
    levels = ctx.pick((0, 1, 3, 200), (0, 1, 2, 3, 200))
    n = 2
    for layout in ("1d", "2d", "3d"):
        for dt in ("uint8", "uint16", "int16", "float32", "float64"):
            for ratio in (1.0, 1, 2, 0.5):
                for ud in (True, False):
                    for frow in itertools.product(levels, repeat=n):
                        ctx.case("ffc/%s/%s/%r/%s/%s" % (
                            layout, dt, ratio, ud,
                            "".join(str(v) + "." for v in frow)), formula,
                            ctx, layout, dt, ratio, ud, frow, levels)
    alpha = "zslfgu-"
    for dim in (2, 3):
        depth = ctx.pick(2 if dim == 3 else 3, 3 if dim == 3 else 4)
        for k in range(1, depth + 1):
            for seq in itertools.product(alpha, repeat=k):
                ctx.case("steps/%dd/%s" % (dim, "".join(seq)), steps, ctx,
                         seq, dim)
        for i, bad in enumerate([{"method": "no_such_method"},
                                 {"method": "no_such_method", "p": 1},
                                 "remove_zinger", 3,
                                 ("remove_zinger", 0.08)]):
            ctx.case("reject/%dd/%d" % (dim, i), reject, ctx, bad, dim)
