"""Schedule exploration of CUDA kernels at memory-access level.

The kernels are decorated while numba's CUDA simulator is on, so their Python
bodies are available; the simulator's launch is replaced by ours.  A launch
runs every thread of every block of the grid one after the other on logging
arrays and records which array elements each thread reads and writes:

* an access outside an array is an error (real devices corrupt memory there);
* threads whose accesses do not conflict commute, so all thread schedules are
  equivalent to the recorded one (a single Mazurkiewicz trace);
* for conflicting threads the launch is repeated with every order rotation
  and every single preemption at a conflicting access, and the results are
  compared.
"""
import threading
import types

import numpy as np

MODE = {"order": "forward"}
LOG = []                       # one Launch per kernel launch


class Unsupported(Exception):
    pass


class Dim3:
    def __init__(self, t):
        t = tuple(t) + (1,) * (3 - len(t))
        self.x, self.y, self.z = t

    def __iter__(self):
        return iter((self.x, self.y, self.z))


class Launch:
    def __init__(self, name, grid, block):
        self.name, self.grid, self.block = name, grid, block
        self.reads, self.writes = {}, {}
        self.accesses = 0
        self.conflicts = frozenset()
        self.different = None
        self.local = threading.local()
        self.hook = None

    def note(self, addr, write):
        t = self.local.tid
        self.accesses += 1
        (self.writes if write else self.reads).setdefault(
            addr, set()).add(t)
        if self.hook is not None and addr in self.hook[1]:
            self.hook[0](t)

    def find_conflicts(self):
        bad = set()
        for a, w in self.writes.items():
            if len(w) > 1 or (a in self.reads and self.reads[a] - w):
                bad.add(a)
        self.conflicts = frozenset(bad)
        return bad


class GArr:
    """Array in device memory; ``ad`` holds the address of every element."""
    __slots__ = ("a", "ad", "log")

    def __init__(self, a, ad, log):
        self.a, self.ad, self.log = a, ad, log

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return self.a.dtype

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __getitem__(self, key):
        ad = self.ad[key]
        if isinstance(ad, np.ndarray):
            return GArr(self.a[key], ad, self.log)
        self.log.note(int(ad), False)
        return self.a[key]

    def __setitem__(self, key, value):
        ad = self.ad[key]
        if isinstance(ad, np.ndarray):
            raise Unsupported("slice assignment")
        self.log.note(int(ad), True)
        self.a[key] = value


class _Mod(types.SimpleNamespace):
    """What the kernels see as ``cuda``."""

    def __getattr__(self, name):
        raise Unsupported("cuda." + name)


_idx = threading.local()


def _make_module(grid, block, real):
    gd, bd = Dim3(grid), Dim3(block)

    def coords():
        b, t = _idx.block, _idx.thread
        return [b[k] * (tuple(bd)[k]) + t[k] for k in range(3)]

    def fgrid(n):
        c = coords()
        return c[0] if n == 1 else tuple(c[:n])

    def gridsize(n):
        c = [a * b for a, b in zip(gd, bd)]
        return c[0] if n == 1 else tuple(c[:n])

    class M(_Mod):
        @property
        def threadIdx(self):
            return Dim3(_idx.thread)

        @property
        def blockIdx(self):
            return Dim3(_idx.block)

    class Local:
        @staticmethod
        def array(shape, dtype=np.float32):
            dt = np.dtype(getattr(dtype, "name", dtype))
            return np.zeros(shape, dtype=dt)

    m = M(grid=fgrid, gridsize=gridsize, gridDim=gd, blockDim=bd,
          local=Local, jit=real.jit, is_available=real.is_available)
    return m


def _threads(grid, block):
    g = tuple(grid) + (1,) * (3 - len(grid))
    b = tuple(block) + (1,) * (3 - len(block))
    out = []
    for bi in np.ndindex(*g):
        for ti in np.ndindex(*b):
            out.append((bi, ti))
    return out


def _run_thread(fn, args, log, tid, th):
    log.local.tid = tid
    _idx.block, _idx.thread = th
    fn(*args)


def _device_args(args, log):
    out, back, base = [], [], 0
    for a in args:
        if isinstance(a, np.ndarray) and a.ndim > 0:
            d = np.array(a, order="C", copy=True)
            ad = np.arange(base, base + d.size).reshape(d.shape)
            base += d.size + 16
            out.append(GArr(d, ad, log))
            back.append((a, d))
        else:
            out.append(a)
    return out, back


def _order(ths, kind):
    n = len(ths)
    ids = list(range(n))
    if kind == "reverse":
        ids.reverse()
    elif kind.startswith("rot"):
        k = int(kind[3:]) % n
        ids = ids[k:] + ids[:k]
    return ids


def _sequential(fn, args, grid, block, name, kind):
    log = Launch(name, grid, block)
    dargs, back = _device_args(args, log)
    ths = _threads(grid, block)
    for i in _order(ths, kind):
        _run_thread(fn, dargs, log, i, ths[i])
    return log, back


def _preempted(fn, args, grid, block, name, bad, victim, stop):
    """The victim stops before its stop-th conflicting access, everybody
    else runs, the victim goes on."""
    log = Launch(name, grid, block)
    dargs, back = _device_args(args, log)
    ths = _threads(grid, block)
    cond = threading.Condition()
    st = {"n": 0, "reached": False, "turn": "v", "err": None}

    def hook(t):
        if t != victim:
            return
        with cond:
            if st["n"] == stop and not st["reached"]:
                st["reached"] = True
                st["turn"] = "o"
                cond.notify_all()
                while st["turn"] != "v":
                    cond.wait()
            st["n"] += 1
    log.hook = (hook, bad)

    def body():
        try:
            _run_thread(fn, dargs, log, victim, ths[victim])
        except BaseException as e:      # noqa
            st["err"] = e
        with cond:
            st["turn"] = "o"
            cond.notify_all()
    tv = threading.Thread(target=body, daemon=True)
    tv.start()
    with cond:
        while st["turn"] != "o":
            cond.wait()
    for i in range(len(ths)):
        if i != victim:
            _run_thread(fn, dargs, log, i, ths[i])
    with cond:
        st["turn"] = "v"
        cond.notify_all()
    tv.join()
    if st["err"] is not None:
        raise st["err"]
    return back, st["reached"]


def _same(b1, b2):
    return all(np.allclose(x[1], y[1], rtol=1e-4, atol=1e-5, equal_nan=True)
               for x, y in zip(b1, b2))


def launch(kernel, args, original):
    from numba.cuda.simulator import kernel as simk
    grid, block = simk.normalize_kernel_dimensions(kernel.grid_dim,
                                                   kernel.block_dim)
    fn = kernel.fn
    from numba import cuda as real
    g = fn.__globals__
    saved = {k: v for k, v in g.items() if v is real}
    fake = _make_module(grid, block, real)
    name = fn.__name__
    MODE["inside"] = True
    try:
        for k in saved:
            g[k] = fake
        log, back = _sequential(fn, args, grid, block, name, MODE["order"])
        bad = log.find_conflicts()
        if bad:
            tids = sorted({t for a in bad for t in
                           log.writes.get(a, set()) | log.reads.get(a, set())})
            for kind in ["reverse"] + ["rot%d" % k for k in tids[1:9]]:
                _, b2 = _sequential(fn, args, grid, block, name, kind)
                if not _same(back, b2):
                    log.different = "thread order " + kind
            for v in tids[:12]:
                for stop in range(40):
                    b2, reached = _preempted(fn, args, grid, block, name,
                                             bad, v, stop)
                    if not reached:
                        break
                    if not _same(back, b2):
                        log.different = (
                            "thread %d preempted before its conflicting "
                            "access %d" % (v, stop))
        LOG.append(log)
        for a, d in back:
            a[...] = d
        return None
    except Unsupported:
        for k in saved:
            g[k] = saved[k]
        MODE["inside"] = False
        MODE["fallbacks"] = MODE.get("fallbacks", 0) + 1
        return original(kernel, *args)
    finally:
        MODE["inside"] = False
        for k in saved:
            g[k] = saved[k]


def install():
    """Call after NUMBA_ENABLE_CUDASIM=1 is set and numba is imported."""
    from numba.cuda.simulator import kernel as simk
    original = simk.FakeCUDAKernel.__call__

    def call(self, *args):
        if self._device:
            if MODE.get("inside"):
                return self.fn(*args)
            return original(self, *args)
        return launch(self, args, original)
    simk.FakeCUDAKernel.__call__ = call
