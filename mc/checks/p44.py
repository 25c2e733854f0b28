"""P44: dead pixels and blank areas never poison a result.

Alphabet   every public array function and option branch (mc/table.py);
           finite input in which one pixel, one row, one column, one frame, one
           half or everything is zero, or one pixel or column is negative, at
           every position of a grid that includes borders and corners; flat and dark fields share
           the defect (their difference is zero there); element types.
Oracle     every number of the result is finite; a defect that leaves most of
           the picture intact is no reason to refuse the call.
"""
import warnings

import numpy as np

from mc import table
from mc.core import check, quiet

SHARDS = 8
TECHNIQUE = ("bounded-exhaustive enumeration of every public function x "
             "place and extent of a zero defect x element type, with a "
             "finiteness invariant on every number of the result")
LEVEL = "model_checking"
LEVEL_NOTE = ("all combinations of the listed alphabets for all functions of "
              "mc/table.py")
RULE = "state = (function, defect, type)"
ASSUMPTIONS = [
    "small arrays; functions that need a GPU or an optional package are not "
    "called",
    "scaling by the mean of a picture that is zero everywhere, and speckle "
    "matching (UMPA) in windows without any signal, are undefined and left "
    "out"]

# scaled by the mean level: undefined for a picture without content
NO_CONTRAST = ("normalize_image", "add_noise", "add_stripe_artifact",
               "convert_to_Xray_image", "normalize_background",
               "normalize_background_based_fft", "upsample_sinogram",
               "remove_stripe_based_fitting",
               "remove_stripe_based_regularization")
# documented for grey levels between 0 and 1 only
UNIT_RANGE = ("beam_hardening_correction", "non_linear_function")
# speckle windows without any signal
NO_SIGNAL = ("find_local_shifts_umpa",
             "retrieve_phase_based_speckle_tracking/umpa")


def _at(n, k, of):
    return int(round((n - 1) * k / float(of)))


def defect(name):
    part = name.split("-")
    kind = part[0]
    dead = 0.0
    if kind.startswith("neg"):
        kind, dead = kind[3:], -0.1

    def rule(v, i):
        v = np.array(v)
        if kind == "constant":
            return np.full_like(v, 0.5)
        if kind == "zero":
            return np.zeros_like(v)
        if v.ndim == 0:
            return v
        k = [int(x) for x in part[1:]]
        if kind == "frame":
            if v.ndim == 3:
                v[_at(v.shape[0], k[0], 2)] = dead
            return v
        if kind == "column":
            v[..., _at(v.shape[-1], k[0], 4)] = dead
            return v
        if kind == "right":
            v[..., v.shape[-1] // 2:] = dead
            return v
        if kind == "left":
            v[..., :v.shape[-1] // 2] = dead
            return v
        if v.ndim == 1:
            return v
        if kind == "row":
            v[..., _at(v.shape[-2], k[0], 4), :] = dead
        elif kind == "top":
            v[..., :v.shape[-2] // 2, :] = dead
        elif kind == "bottom":
            v[..., v.shape[-2] // 2:, :] = dead
        elif kind == "pixel":
            v[..., _at(v.shape[-2], k[0], k[2]),
              _at(v.shape[-1], k[1], k[2])] = dead
        return v
    return rule


def defects(n):
    out = ["pixel-%d-%d-%d" % (a, b, n) for a in range(n + 1)
           for b in range(n + 1)]
    out += ["%s-%d" % (a, b) for a in ("column", "row") for b in range(5)]
    out += ["frame-%d" % b for b in range(3)]
    out += ["negpixel-%d-%d-2" % (a, b) for a in range(3) for b in range(3)]
    out += ["negcolumn-%d" % b for b in range(5)]
    return out + ["left", "right", "top", "bottom", "constant", "zero"]


def numbers(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from numbers(x)
    elif isinstance(o, dict):
        for x in o.values():
            yield from numbers(x)
    elif o is not None and not isinstance(o, str):
        a = np.asarray(o)
        if a.dtype.kind in "fc":
            yield a


def one(ctx, name, rule, dtype):
    table.RULES.setdefault(rule, defect(rule))
    D = table.Data(rule, dtype)
    fn, args, kwargs = table.ENTRIES[name](D)
    ctx.step()
    ctx.state((name, rule, dtype))
    np.random.seed(1)
    flat = rule in ("constant", "zero", "left", "right", "top", "bottom") or \
        rule.startswith("frame")
    try:
        with warnings.catch_warnings(), np.errstate(all="warn"):
            res = quiet(fn, *args, **kwargs)
    except Exception as e:      # noqa: any refusal
        check(flat and isinstance(e, ValueError),
              "call ended with %s: %s" % (type(e).__name__, str(e)[:80]))
        return (name, "refused")
    if rule in ("constant", "zero") and name.split("/")[0] in NO_CONTRAST:
        return (name, "undefined")
    if flat and name.startswith(NO_SIGNAL):
        return (name, "undefined")
    bad = sum(int(np.sum(~np.isfinite(a))) for a in numbers(res))
    total = sum(a.size for a in numbers(res))
    check(bad == 0, "%d of %d numbers of the result are not finite" % (
        bad, total))
    return (name, total > 0)


def run(ctx):
    grid = ctx.pick(2, 6)
    dtypes = ctx.pick(("f4",), ("f4", "f8", "u2"))
    for name in sorted(table.ENTRIES):
        for rule in defects(grid):
            for dtype in dtypes:
                neg, integer = rule.startswith("neg"), dtype[0] == "u"
                if (neg and integer) or ((neg or integer) and
                                         name.startswith(UNIT_RANGE)):
                    continue
                ctx.case("%s/%s/%s" % (name, rule, dtype), one, ctx, name,
                         rule, dtype)
