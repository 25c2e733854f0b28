"""P43: the GPU code paths compute what the CPU code paths compute.

The kernels' own bodies run on a simulated device whose launch is replaced by
mc/gpu.py: every thread of every block is executed on logging arrays, all
accesses are recorded per thread and checked pairwise for conflicts (no
conflict = one Mazurkiewicz trace = every schedule of the device covered by
the recorded one; with conflicts all rotations of the thread order and every
single preemption are executed), and an access outside an array is an error.
Enumerated: image shapes x block shapes x centres x edge option x number of
angles/slices; correlation kernels by shape x window x margin x block; and the
public functions with gpu=True (and "hybrid") over their options.
Oracle: the CPU path of the same function on the same data.
"""
import itertools
import os
import warnings

import numpy as np

from mc.core import Violation, check, fill, same

SHARDS = 8
TECHNIQUE = ("schedule exploration at memory-access level of the kernels' own "
             "code on a simulated device (conflict analysis of all thread "
             "pairs = partial-order reduction), over exhaustive products of "
             "shapes, block shapes and options; oracle: the CPU path")
LEVEL = "model_checking"
LEVEL_NOTE = ("All threads of all launches for the listed small inputs; the "
              "device compiler and hardware are trusted to run the kernel "
              "body as written (no GPU exists in this environment).")
RULE = ("case = one input with one block shape; state = (input, thread "
        "order); outcome = the arrays returned by the GPU path")
ASSUMPTIONS = ["numba compiles the Python body of a kernel faithfully for "
               "the device"]


def before_import():
    os.environ["NUMBA_ENABLE_CUDASIM"] = "1"
    from mc import gpu
    gpu.install()


def prepare(ctx):
    """Compile the CPU kernels before the workers are forked? They run in
    parallel threads, which do not survive a fork; so only import here."""
    import algotom.rec.vertrec                          # noqa
    import algotom.prep.phase                           # noqa


BLOCKS = [(1, 1), (2, 2), (3, 2), (2, 3), (8, 1), (1, 8), (4, 4), (16, 16)]
# the rounding of float32 accumulation differs between the two paths
TOL = 2e-4


def launches(ctx, mark):
    """Account for the launches since mark; raise on order dependence."""
    from mc import gpu
    for log in gpu.LOG[mark:]:
        ctx.step(log.accesses)
        ctx.extra["launches"] = ctx.extra.get("launches", 0) + 1
        ctx.extra["conflicting_launches"] = ctx.extra.get(
            "conflicting_launches", 0) + bool(log.conflicts)
        if log.different:
            raise Violation(
                "kernel %s on grid %s block %s: %d elements are accessed by "
                "several threads and the result depends on their order (%s)"
                % (log.name, tuple(log.grid), tuple(log.block),
                   len(log.conflicts), log.different))
    del gpu.LOG[:]


def compare(got, want, msg, tol=TOL):
    if isinstance(want, (tuple, list)):
        check(len(got) == len(want), msg + ": number of results differs")
        for k, (g, w) in enumerate(zip(got, want)):
            compare(g, w, "%s, result %d" % (msg, k), tol)
        return
    g, w = np.asarray(got, np.float64), np.asarray(want, np.float64)
    check(g.shape == w.shape, "%s: shape %s, on CPU %s" % (
        msg, g.shape, w.shape))
    check(np.array_equal(np.isfinite(g), np.isfinite(w)),
          "%s: non-finite values differ" % msg)
    m = np.isfinite(w)
    scale = max(1.0, float(np.abs(w[m]).max()) if m.any() else 1.0)
    d = np.abs(g - w)
    d = np.where(m, d, 0)
    if d.size and d.max() > tol * scale:
        k = np.unravel_index(np.argmax(d), d.shape)
        raise Violation("%s: value at %s is %.6g on the GPU path, %.6g on the "
                        "CPU path (%d of %d values differ)" % (
                            msg, k, g[k], w[k], int((d > tol * scale).sum()),
                            d.size))


class Cpu:
    """CPU results are computed once per input."""
    def __init__(self):
        self.d = {}

    def get(self, key, f):
        if key not in self.d:
            self.d = {key: f()}
        return self.d[key]


def case(ctx, cache, key, block, cpu, gpu_call, tol=TOL):
    from mc import gpu

    def body():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = cache.get(key, cpu)
            for order in ("forward", "reverse"):
                gpu.MODE["order"] = order
                mark = len(gpu.LOG)
                ctx.state((key, block, order))
                try:
                    got = gpu_call(block)
                except IndexError as e:
                    raise Violation("a thread accesses outside an array: %s"
                                    % e)
                finally:
                    gpu.MODE["order"] = "forward"
                launches(ctx, mark)
                compare(got, want, "order %s" % order, tol)
                if ctx.thorough:
                    continue
                break
        return got
    ctx.case("%s/b%s" % (key, "x".join(map(str, np.atleast_1d(block)))), body)


def angles(n, t=0.07):
    return np.float32(np.linspace(t, t + np.pi * (n - 1) / n, n))


def run(ctx):
    import algotom.rec.reconstruction as rec
    import algotom.rec.vertrec as vr
    deep = ctx.thorough
    cache = Cpu()
    # ---------------------------------------------- back-projection kernels
    for w, n, pad in itertools.product(range(1, 8 if not deep else 10),
                                       (1, 2, 3), (False, True)):
        mid = 0.5 * (w - 1)
        for c in sorted({mid + 0.13, 0.3, max(w - 1.45, 0.05), -0.6,
                         w + 0.4}):
            ang = angles(n)
            s = fill((n, w), n * 10 + w, -1, 2)
            for block in BLOCKS:
                case(ctx, cache, "bp/%dx%d/c%.2f/%d" % (n, w, c, pad), block,
                     lambda: rec.back_projection_cpu(
                         s, ang, np.float32(c), edge_pad=pad),
                     lambda b: rec.back_projection_gpu(
                         s, ang, c, block=b, edge_pad=pad))
    for w, ns, n, pad in itertools.product(range(1, 6 if not deep else 8),
                                           (1, 2, 3), (1, 2), (False, True)):
        mid = 0.5 * (w - 1)
        for c in sorted({mid + 0.13, 0.3, w - 1.45}):
            ang = angles(n, 0.4)
            s = fill((n, ns, w), n * 10 + w + ns, -1, 2)
            for block in BLOCKS:
                case(ctx, cache, "bpc/%dx%dx%d/c%.2f/%d" % (
                    n, ns, w, c, pad), block,
                    lambda: np.stack([rec.back_projection_cpu(
                        np.ascontiguousarray(s[:, k]), ang, np.float32(c),
                        edge_pad=pad) for k in range(ns)], axis=1),
                    lambda b: rec.back_projection_gpu_chunk(
                        s, ang, c, block=b, edge_pad=pad))
    for n, h, w, pad in itertools.product((1, 2), (1, 2, 3, 5), (1, 2, 3, 5),
                                          (False, True)):
        p = fill((n, h, w), n * 7 + h * 3 + w, -1, 2)
        k = np.float32(np.arange(w) - 0.5 * (w - 1))
        xl, yl = np.float32(k * 0.8 + 0.1), np.float32(k * 0.6 - 0.2)
        ang = angles(n)
        for c in (0.5 * (w - 1) + 0.13, 0.2, w - 0.4):
            for block in BLOCKS:
                case(ctx, cache, "vbp/%dx%dx%d/c%.2f/%d" % (n, h, w, c, pad),
                     block,
                     lambda: vr.vertical_back_projection_cpu(
                         p, ang, xl, yl, np.float32(c), edge_pad=pad),
                     lambda b: vr.vertical_back_projection_gpu(
                         p, ang, xl, yl, c, block=b, edge_pad=pad))
                for ns in (1, 2, 3):
                    if ns != 2 and not deep and block not in ((2, 2), (3, 2)):
                        continue
                    xm = np.float32([xl + 0.3 * s for s in range(ns)])
                    ym = np.float32([yl - 0.2 * s for s in range(ns)])
                    case(ctx, Cpu(), "vbpc/%dx%dx%dx%d/c%.2f/%d" % (
                        ns, n, h, w, c, pad), block,
                        lambda: vr.vertical_back_projection_cpu_chunk(
                            p, ang, xm, ym, np.float32(c), edge_pad=pad),
                        lambda b: vr.vertical_back_projection_gpu_chunk(
                            p, ang, xm, ym, c, block=b, edge_pad=pad))
    if ctx.thorough or True:
        reconstructions(ctx, rec, vr, deep)
    correlations(ctx, deep)
    ctx.extra["kernels_run_by_fallback"] = __import__(
        "mc.gpu", fromlist=["MODE"]).MODE.get("fallbacks", 0)


def reconstructions(ctx, rec, vr, deep):
    cache = Cpu()
    blocks = [(2, 2), (3, 4), (16, 16)]
    # ------------------------------------------------------- FBP and BPF
    for name, f in (("fbp", rec.fbp_reconstruction),
                    ("bpf", rec.bpf_reconstruction)):
        for nd, n, w in itertools.product((1, 2, 3), (2, 3), (4, 5, 6)):
            # nd = number of sinograms; 1 is given as 2D and as 3D
            for three in ((False, True) if nd == 1 else (True,)):
                shape = (n, nd, w) if three else (n, w)
                s = fill(shape, n * 10 + w + nd, 0.2, 1.0)
                ang = angles(n)
                for ratio, log in itertools.product((None, 0.0, 0.8),
                                                    (True, False)):
                    if not deep and ratio == 0.0 and log:
                        continue
                    kw = dict(angles=ang, ratio=ratio, apply_log=log, ncore=1)
                    c = 0.5 * (w - 1) + 0.23
                    for b in blocks:
                        case(ctx, cache, "%s/%s/r%s/%d" % (
                            name, "x".join(map(str, shape)), ratio, log), b,
                            lambda: f(s, c, gpu=False, **kw),
                            lambda b: f(s, c, gpu=True, block=b, **kw),
                            5e-4)
    # ------------------------------------------------ vertical slices
    n, h, w = 5, 3, 7
    p = fill((n, h, w), 3, 0.2, 1.0)
    ang = angles(n)
    for filt, chunk, mask, log in itertools.product(
            ("after", "before", None), (2, 5, 30), (False, True),
            (True, False)):
        kw = dict(angles=ang, ramp_filter=filt, chunk_size=chunk,
                  masking=mask, apply_log=log, show_progress=False, ncore=1)
        for b in blocks[:2]:
            key = "%s/%d/%d/%d" % (filt, chunk, mask, log)
            case(ctx, Cpu(), "ver/" + key, b,
                 lambda: vr.vertical_reconstruction(
                     p, 3, 3.2, alpha=25.0, gpu=False, **kw),
                 lambda b: vr.vertical_reconstruction(
                     p, 3, 3.2, alpha=25.0, gpu=True, block=b, **kw), 5e-4)
            case(ctx, Cpu(), "verm/" + key, b,
                 lambda: vr.vertical_reconstruction_multiple(
                     p, 1, 5, 3.2, alpha=25.0, step_index=2, gpu=False, **kw),
                 lambda b: vr.vertical_reconstruction_multiple(
                     p, 1, 5, 3.2, alpha=25.0, step_index=2, gpu=True,
                     block=b, **kw), 5e-4)
            case(ctx, Cpu(), "vera/" + key, b,
                 lambda: vr.vertical_reconstruction_different_angles(
                     p, [2, 4], [20.0, 70.0], 3.2, gpu=False, **kw),
                 lambda b: vr.vertical_reconstruction_different_angles(
                     p, [2, 4], [20.0, 70.0], 3.2, gpu=True, block=b, **kw),
                 5e-4)


def textured(shape, seed):
    return np.float32(fill(shape, seed, 0.2, 1.0))


def correlations(ctx, deep):
    import algotom.util.correlation as co
    import algotom.prep.phase as ph
    blocks = [(1, 1), (2, 3), (3, 2), (4, 4), (16, 16)]
    # ------------------------------------------------ correlation maps
    cache = Cpu()
    for h0, w0 in itertools.product((1, 2, 4, 6), (1, 3, 4, 7)):
        for h1, w1 in itertools.product(range(1, h0 + 1), range(1, w0 + 1)):
            if not deep and (h1 + w1) % 2 and h0 > 2:
                continue
            for d in (0, 1, 2):
                sh = (d,) if d else ()
                ref = textured(sh + (h0, w0), 3 + h0 + w0)
                mat = textured(sh + (h1, w1), 5 + h1 + w1)
                for b in blocks:
                    if not deep and d and b in ((1, 1), (3, 2)):
                        continue
                    case(ctx, cache, "map/%d/%dx%d/%dx%d" % (
                        d, h0, w0, h1, w1), b,
                        lambda: co.generate_correlation_map(ref, mat),
                        lambda b: co.generate_correlation_map(
                            ref, mat, gpu=True, block=b))
    # constant images: no contrast
    for d, b in itertools.product((0, 2), blocks):
        sh = (d,) if d else ()
        ref, mat = np.ones(sh + (4, 5), np.float32), np.ones(
            sh + (2, 3), np.float32)
        case(ctx, Cpu(), "mapflat/%d" % d, b,
             lambda: co.generate_correlation_map(ref, mat),
             lambda b: co.generate_correlation_map(ref, mat, gpu=True,
                                                   block=b))
    # ------------------------------------------------ local shifts
    modes = [("2d", 0, 1), ("3d1", 2, 1), ("3d2", 2, 2)]
    sizes = [(7, 8), (9, 7)] if not deep else [(7, 8), (9, 7), (8, 11)]
    for (tag, d, dim), (h, w), win, margin in itertools.product(
            modes, sizes, (1, 3, 4), (1, 2)):
        edge = margin + win // 2
        if min(h, w) < 2 * edge + 1:
            continue
        # 2 samples per window always correlate to +-1 (ties): 4 instead
        sh = (d if win > 1 else d + 2,) if d else ()
        ref = textured(sh + (h, w), h + win)
        mat = np.roll(ref, 1, axis=-1) + 0.05 * textured(sh + (h, w), 77)
        if win == 1 and d == 0:
            continue                    # single pixels have no contrast
        for norm, ng, chunk in itertools.product((True, False),
                                                 (True, False),
                                                 (None, 1, 3)):
            if d == 0 and ng:
                continue                # option for 3D inputs
            if not deep and chunk == 3 and not norm:
                continue
            kw = dict(dim=dim, win_size=win, margin=margin, norm=norm,
                      norm_global=ng, chunk_size=chunk, ncore=1)
            key = "%s/%dx%d/%d/%d/%d%d/%s" % (tag, h, w, win, margin, norm,
                                              ng, chunk)
            for b in blocks[1:4] if deep else blocks[1:3]:
                case(ctx, Cpu(), "loc/" + key, b,
                     lambda: co.find_local_shifts(ref, mat, gpu=False, **kw),
                     lambda b: co.find_local_shifts(ref, mat, gpu=True,
                                                    block=b, **kw), 2e-3)
                if tag == "3d2":
                    for method in ("diff", "poly_fit"):
                        case(ctx, Cpu(), "hyb/%s/%s" % (key, method), b,
                             lambda: co.find_local_shifts(
                                 ref, mat, gpu=False, method=method, **kw),
                             lambda b: co.find_local_shifts(
                                 ref, mat, gpu="hybrid", method=method,
                                 block=b, **kw), 2e-3)
    # ------------------------------------------------ umpa
    for (h, w), win, margin, dark, chunk in itertools.product(
            sizes, (3, 4), (1, 2), (False, True), (None, 1, 3)):
        edge = margin + win // 2
        if min(h, w) < 2 * edge + 1:
            continue
        ref = textured((3, h, w), h + win)
        mat = np.float32(0.9 * np.roll(ref, 1, axis=-1) +
                         0.05 * textured((3, h, w), 77))
        for filt in (("hamming", None) if deep else ("hamming",)):
            kw = dict(win_size=win, margin=margin, dark_signal=dark,
                      chunk_size=chunk, ncore=1, filter_name=filt)
            for b in blocks[1:3]:
                case(ctx, Cpu(), "umpa/%dx%d/%d/%d/%d/%s/%s" % (
                    h, w, win, margin, dark, chunk, filt), b,
                    lambda: co.find_local_shifts_umpa(ref, mat, gpu=False,
                                                      **kw),
                    lambda b: co.find_local_shifts_umpa(
                        ref, mat, gpu=True, block=b, **kw), 5e-3)
    # ------------------------------------------------ global shift
    ref = textured((13, 14), 5)
    mat = np.roll(ref, (1, -1), axis=(0, 1)) + 0.03 * textured((13, 14), 9)
    pts = [list(range(5, 9)) * 2, [5, 6, 7, 8, 6, 7, 8, 5]]
    for npt in range(1, 9):
        ij = [pts[0][:npt], pts[1][:npt]]
        for gv, norm, ret, b in itertools.product(
                ("median", "mean", "mixed"), (False, True), (False, True),
                (1, 2, 3, 32)):
            if ret and gv != "mean":
                continue
            kw = dict(list_ij=ij, global_value=gv, norm=norm,
                      return_list=ret, ncore=1)
            case(ctx, Cpu(), "glob/%d/%s/%d/%d" % (npt, gv, norm, ret), b,
                 lambda: co.find_global_shift_based_local_shifts(
                     ref, mat, 4, 2, gpu=False, **kw),
                 lambda b: co.find_global_shift_based_local_shifts(
                     ref, mat, 4, 2, gpu=True, block=b, **kw), 2e-3)
    # ------------------------------------------------ callers
    for sub, meth, axis in itertools.product((True, False),
                                             ("diff", "poly_fit"),
                                             (None, 0, 2)):
        for b in blocks[1:3]:
            r3 = textured((4, 9, 10), 5)
            m3 = r3[:, 2:7, 3:8]
            r, m = (r3[0], m3[0]) if axis is None else (r3, r3)
            mg = 2
            kw = dict(margin=mg, axis=axis, sub_pixel=sub, method=meth)
            case(ctx, Cpu(), "map-shift/%d/%s/%s" % (sub, meth, axis), b,
                 lambda: co.find_shift_based_correlation_map(
                     r, m, gpu=False, **kw),
                 lambda b: co.find_shift_based_correlation_map(
                     r, m, gpu=True, block=b, **kw), 2e-3)
    ref = textured((2, 12, 13), 6)
    sam = np.float32(np.roll(ref, 1, axis=2) + 0.03 * textured(
        (2, 12, 13), 8))
    for fs, dim, dark, g in itertools.product(
            ("correl", "umpa"), (1, 2), (False, True), (True, "hybrid")):
        if fs == "umpa" and (dim == 2 or g == "hybrid"):
            continue
        if g == "hybrid" and dim == 1:
            continue
        kw = dict(find_shift=fs, dim=dim, win_size=3, margin=2, ncore=1,
                  dark_signal=dark, pad=4, surf_method="FC")
        case(ctx, Cpu(), "track/%s/%d/%d/%s" % (fs, dim, dark, g), (3, 2),
             lambda: ph.retrieve_phase_based_speckle_tracking(
                 ref, sam, gpu=False, **kw),
             lambda b: ph.retrieve_phase_based_speckle_tracking(
                 ref, sam, gpu=g, block=b, **kw), 1e-2)
    for npt, gv in itertools.product((1, 3), ("mixed", "mean")):
        ij = [[5, 6, 5][:npt], [5, 6, 7][:npt]]
        kw = dict(global_value=gv, ncore=1)
        case(ctx, Cpu(), "stackshift/%d/%s" % (npt, gv), 2,
             lambda: ph.find_shift_between_image_stacks(
                 ref, sam, 3, 2, ij, gpu=False, **kw),
             lambda b: ph.find_shift_between_image_stacks(
                 ref, sam, 3, 2, ij, gpu=True, block=b, **kw), 2e-3)
