"""Stand-in for the optional ASTRA toolbox (not installed here): the part of
its interface the project calls, with its documented conventions.  Objects
live in tables until they are deleted, so that leaks, double deletions and
uses after deletion are visible."""
import itertools
import threading

import numpy as np

LOCK = threading.RLock()
IDS = itertools.count(100)
DATA, PROJ, ALG = {}, {}, {}
RUNS = []
METHODS = ["BP", "FBP", "SIRT", "SART", "ART", "CGLS"]
METHODS += [m + "_CUDA" for m in ("BP", "FBP", "SIRT", "SART", "CGLS", "EM")]
FILTERS = ["none", "ram-lak", "shepp-logan", "cosine", "hamming", "hann",
           "tukey", "lanczos", "triangular", "gaussian", "blackman",
           "parzen", "kaiser"]
BROKEN = set()                 # methods this installation does not offer


def one(sino, angles, method, filter_name, num_iter):
    """Reconstruct [angle, column] with the axis at the middle column."""
    n = sino.shape[1]
    u = np.arange(n) - (n - 1) / 2.0
    x, y = np.meshgrid(u, u)
    out = np.zeros((n, n))
    gain = 1.0 + METHODS.index(method)
    if filter_name is not None:
        gain += 0.01 * (1 + FILTERS.index(filter_name))
    if not method.startswith(("BP", "FBP")):
        gain += 0.001 * num_iter
    for row, t in zip(np.asarray(sino, np.float64), angles):
        p = x * np.cos(t) - y * np.sin(t) + (n - 1) / 2.0
        out += np.interp(p, np.arange(n), row, left=0., right=0.) \
            * (1 + 0.1 * t)
    return np.float32(out * gain)


def create_proj_geom(kind, width, count, angles):
    assert kind == "parallel", kind
    return {"type": kind, "DetectorWidth": float(width),
            "DetectorCount": int(count),
            "ProjectionAngles": np.array(angles, np.float64)}


def create_vol_geom(rows, cols):
    return {"GridRowCount": int(rows), "GridColCount": int(cols)}


def create_projector(kind, proj_geom, vol_geom):
    assert kind in ("line", "strip", "linear", "cuda"), kind
    with LOCK:
        k = next(IDS)
        PROJ[k] = (kind, proj_geom, vol_geom)
    return k


def astra_dict(method):
    return {"type": method, "option": {}}


class data2d:
    @staticmethod
    def create(kind, geom, data=None):
        if kind == "-sino":
            shape = (len(geom["ProjectionAngles"]), geom["DetectorCount"])
        elif kind == "-vol":
            shape = (geom["GridRowCount"], geom["GridColCount"])
        else:
            raise ValueError("unknown data type %r" % kind)
        if data is None:
            data = np.zeros(shape, np.float32)
        data = np.array(np.broadcast_to(data, shape) if np.ndim(data) == 0
                        else data, np.float32)
        if data.shape != shape:
            raise ValueError("The dimensions of the data do not match those "
                             "specified in the geometry: %s %s"
                             % (data.shape, shape))
        with LOCK:
            k = next(IDS)
            DATA[k] = [kind, geom, data]
        return k

    @staticmethod
    def get(k):
        with LOCK:
            return DATA[k][2].copy()

    @staticmethod
    def delete(ids):
        for k in np.atleast_1d(ids):
            with LOCK:
                del DATA[int(k)]


class projector:
    @staticmethod
    def delete(ids):
        for k in np.atleast_1d(ids):
            with LOCK:
                del PROJ[int(k)]


class algorithm:
    @staticmethod
    def create(cfg):
        with LOCK:
            m = cfg["type"]
            if m not in METHODS or m in BROKEN:
                raise RuntimeError("Unknown algorithm type %r" % m)
            if "CUDA" not in m and cfg["ProjectorId"] not in PROJ:
                raise RuntimeError("ProjectorId")
            sino, vol = (DATA[cfg["ProjectionDataId"]],
                         DATA[cfg["ReconstructionDataId"]])
            assert sino[0] == "-sino" and vol[0] == "-vol"
            k = next(IDS)
            ALG[k] = dict(cfg)
        return k

    @staticmethod
    def run(k, num_iter=1):
        with LOCK:
            cfg = ALG[k]
            sino = DATA[cfg["ProjectionDataId"]]
            RUNS.append((cfg["type"], num_iter))
        filt = None
        if cfg["type"].startswith("FBP"):
            filt = cfg.get("FilterType",
                           cfg.get("option", {}).get("FilterType", "ram-lak"))
        rec = one(sino[2], sino[1]["ProjectionAngles"], cfg["type"], filt,
                  num_iter)
        with LOCK:
            vol = DATA[cfg["ReconstructionDataId"]]
            assert vol[2].shape == rec.shape
            vol[2] = rec

    @staticmethod
    def delete(ids):
        for k in np.atleast_1d(ids):
            with LOCK:
                del ALG[int(k)]


def clear():
    with LOCK:
        DATA.clear(), PROJ.clear(), ALG.clear()


def alive():
    return {"data": len(DATA), "projectors": len(PROJ), "algorithms":
            len(ALG)}
