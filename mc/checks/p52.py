"""P52: operations that are linear by definition respond linearly.

Every public function that is linear (or affine) in its data by definition -
interpolations, geometric corrections, Fourier/wavelet filters, back
projections, stitching with fixed weights, ... - is probed with a unit change
of every single element, on two different data sets.
Oracle: the response to an element is the same on both data sets, whatever
the size of the change, and the difference between the results of the two data
sets is the sum of the responses of the elements in which they differ
(superposition over the complete basis).
"""
import numpy as np

from mc import impulse
from mc.core import check

SHARDS = 8
TECHNIQUE = ("exhaustive enumeration of all single-element changes (the "
             "complete basis) of every linear operation on the real code, "
             "compared across two states and summed against a third call")
LEVEL = "model_checking"
LEVEL_NOTE = ("complete basis per call (quick: the large arrays by an even "
              "stride); two data sets per operation")
RULE = "case = (operation, array, element); state = response of the element"
ASSUMPTIONS = ["equality within single precision: 2e-4 of the largest value"]

# operation: arrays in which it is linear (the others are held fixed)
LIN = {}


def lin(names, *arrays):
    for n in names.split():
        LIN[n] = arrays


lin("stitch_image/0/0 stitch_image/1/0 join_image/0/0 join_image/1/0", 0, 1)
lin("convert_sinogram_180_to_360 convert_sinogram_360_to_180/weights "
    "extend_sinogram/0", 0)
lin("generate_sinogram_helical_scan/180 generate_sinogram_helical_scan/360 "
    "generate_full_sinogram_helical_scan/180 "
    "generate_full_sinogram_helical_scan/360", 3)
lin("generate_sinogram_helical_scan/mask", 4)
lin("flat_field_correction/1d flat_field_correction/2d "
    "flat_field_correction/3d flat_field_correction/no-dark", 0)
lin("unwarp_projection unwarp_sinogram unwarp_sinogram/factors-array "
    "unwarp_sinogram_chunk mtf_deconvolution generate_tilted_sinogram "
    "generate_tilted_sinogram_chunk generate_tilted_profile_line "
    "generate_tilted_profile_chunk upsample_sinogram upsample_sinogram/360 "
    "downsample_cor complex_gradient", 0)
lin("remove_stripe_based_normalization/0/1 "
    "remove_stripe_based_normalization/0/2 "
    "remove_stripe_based_regularization/0/1/0 "
    "remove_stripe_based_regularization/0/2/0 remove_stripe_based_fft/0 "
    "remove_stripe_based_wavelet_fft/0 remove_blob remove_blob_1d "
    "fresnel_filter/1/0 fresnel_filter/2/0 double_wedge_filter/180 "
    "double_wedge_filter/360 double_wedge_filter/mask", 0)
lin("reconstruct_surface_from_gradient_FC_method/0 "
    "reconstruct_surface_from_gradient_SCS_method/0 align_image_stacks "
    "align_image_stacks/sample", 0, 1)
lin("apply_ramp_filter apply_ramp_filter/window back_projection_cpu/0 "
    "back_projection_cpu/1 apply_circular_ramp_filter "
    "apply_circular_ramp_filter/window fbp_reconstruction/0 "
    "bpf_reconstruction/0 dfi_reconstruction/0 fbp_reconstruction/3d/0 "
    "bpf_reconstruction/3d/0 dfi_reconstruction/3d/0", 0)
lin("vertical_reconstruction/before/0 vertical_reconstruction/after/0 "
    "vertical_back_projection_cpu vertical_back_projection_cpu_chunk", 0)
for _a in "01":
    lin("sort_backward/%s separate_frequency_component/%s "
        "separate_frequency_component/window/%s generate_fitted_image/%s "
        "apply_regularization_filter/%s" % ((_a,) * 5), 0)
lin("mapping/0 mapping/1 mapping/3 apply_wavelet_decomposition "
    "interpolate_inside_stripe/linear interpolate_inside_stripe/cubic "
    "transform_slice_forward transform_slice_backward "
    "transform_slice_forward/coord apply_gaussian_filter "
    "apply_1d_regularizer downsample/mean remove_ring_based_fft "
    "make_sinogram add_stripe_artifact/full", 0)
lin("apply_wavelet_reconstruction apply_wavelet_reconstruction/ignore "
    "apply_filter_to_wavelet_component/0 "
    "apply_filter_to_wavelet_component/1 "
    "apply_filter_to_wavelet_component/2", 0, 1, 2, 3, 4, 5, 6)

AMP = (1.0, -0.6)


def other(w):
    """A second data set."""
    i = np.arange(w.size).reshape(w.shape)
    return 2.0 + 1.3 * np.sin(1.7 * i + 2.0) + 0.4 * np.cos(0.63 * i)


def probe(ctx, name, n, nums, cap):
    """All elements of array n."""
    base, shapes = impulse.call(name)
    size = int(np.prod(shapes[n]))
    second = {m: other for m in nums}
    base2, _ = impulse.call(name, second)
    ctx.step(2)
    check(len(base) == len(base2), "number of outputs")
    idx = range(size)
    if size > cap:
        # an even walk that meets all rows, columns and parities
        step = size / cap
        idx = sorted({int(k * step) for k in range(cap)} | {0, size - 1})
    total = [np.zeros(b.shape, complex) for b in base]
    scale = [max(1.0, float(np.abs(b).max()), float(np.abs(b2).max()))
             if b.size else 1.0 for b, b2 in zip(base, base2)]
    got = {}

    def keep(w):
        got[0] = w.astype(np.float64)
        return w
    impulse.call(name, {n: keep})
    diff = (np.asarray(other(got[0]), np.float32).astype(np.float64)
            - got[0]).ravel()
    worst = 0.0
    for k in idx:
        a = AMP[k % len(AMP)]

        def bump(w, k=k, a=a):
            w.flat[k] += a
            return w
        one, _ = impulse.call(name, {n: bump})
        ch = dict(second)
        ch[n] = lambda w: bump(np.asarray(other(w), w.dtype))
        two, _ = impulse.call(name, ch)
        ctx.step(2)
        for o, (b, b2, x, y) in enumerate(zip(base, base2, one, two)):
            check(x.shape == b.shape == y.shape, "shape", n, k)
            if not b.size:
                continue
            r1, r2 = x.astype(complex) - b, y.astype(complex) - b2
            lim = 2e-4 * max(scale[o], float(np.abs(r1).max()))
            err = float(np.abs(r1 - r2).max())
            worst = max(worst, err / lim)
            check(err <= lim, "output %d: response to element %s of array %d "
                  "depends on the data" % (o, np.unravel_index(
                      k, shapes[n]), n), err, lim)
            total[o] += r1 * (diff[k] / a)
        ctx.state((name, n, k))
    if size <= cap:
        third, _ = impulse.call(name, {n: other})
        ctx.step()
        for o, (b, x) in enumerate(zip(base, third)):
            if b.size:
                err = float(np.abs(x.astype(complex) - b - total[o]).max())
                lim = 5e-4 * max(scale[o], float(np.abs(x).max()))
                check(err <= lim, "output %d is not the sum of the responses "
                      "of array %d" % (o, n), err, lim)
    return size <= cap


def run(ctx):
    cap = 3000 if ctx.thorough else 160
    for name, nums in LIN.items():
        for n in nums:
            ctx.case("%s/%d" % (name, n), probe, ctx, name, n, nums, cap)
