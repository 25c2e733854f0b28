"""Stand-in for the optional package TomoPy (not installed here): the part of
its interface the project calls, with its documented conventions, computing a
plain back projection that depends on every argument."""
import threading

import numpy as np

CALLS = []
_LOCK = threading.Lock()
FILTERS = ["none", "shepp", "cosine", "hann", "hamming", "ramlak", "parzen",
           "butterworth", "custom", "custom2d"]


def one(sino, theta, center, filter_name, filter_par):
    """Reconstruct [angle, column]; the rotation axis is at the middle of the
    square result."""
    n = sino.shape[1]
    u = np.arange(n) - n / 2.0
    x, y = np.meshgrid(u, u)
    out = np.zeros((n, n))
    cols = np.arange(n)
    gain = (1 + FILTERS.index(filter_name)) * (1 + float(filter_par))
    for row, t in zip(np.asarray(sino, np.float64), theta):
        p = x * np.cos(t) - y * np.sin(t) + center
        out += np.interp(p, cols, row, left=0.0, right=0.0) * (1 + 0.1 * t)
    return np.float32(out * gain)


def recon(tomo, theta, center=None, sinogram_order=False, algorithm=None,
          num_gridx=None, num_gridy=None, filter_name="none",
          filter_par=(0.5, 8), init_recon=None, ncore=None, nchunk=None,
          **kwargs):
    tomo = np.asarray(tomo)
    if tomo.ndim != 3:
        raise ValueError("tomo must be a 3D array")
    if algorithm != "gridrec":
        raise ValueError("Keyword 'algorithm' is not gridrec: %r" % algorithm)
    if kwargs or num_gridx is not None or num_gridy is not None:
        raise ValueError("unexpected options %r" % sorted(kwargs))
    if filter_name not in FILTERS:
        raise ValueError("unknown filter %r" % filter_name)
    if ncore is not None and ncore < 1:
        raise ValueError("ncore must be positive")
    if not sinogram_order:
        tomo = np.moveaxis(tomo, 0, 1)
    if tomo.shape[1] != len(theta):
        raise ValueError("%d projections, %d angles" % (tomo.shape[1],
                                                        len(theta)))
    n = tomo.shape[2]
    c = np.full(len(tomo), n / 2.0 if center is None else center, np.float64)
    par = np.ravel(filter_par)[0]
    with _LOCK:
        CALLS.append({"ncore": ncore, "shape": tomo.shape})
    return np.stack([one(s, theta, k, filter_name, par)
                     for s, k in zip(tomo, c)])
