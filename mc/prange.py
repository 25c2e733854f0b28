"""Interleaving exploration of numba ``prange`` loops at memory-access level.

With JIT disabled the kernels are plain Python; ``numba.prange`` is replaced
(before the project is imported) by an iterator under our control and the
arrays a kernel works on by logging arrays, so that

* one pass records, per loop iteration, every read and write of every shared
  array element;
* iterations without conflicting accesses commute: every assignment of
  iterations to threads and every interleaving is equivalent to the recorded
  one (a single Mazurkiewicz trace);
* for conflicting iterations the interleavings around the conflicting
  accesses are executed one by one (one thread per iteration, hand-off before
  each conflicting access, depth-first over all choices up to a preemption
  bound) and their results compared.

Arrays created inside an iteration are private to it, scalars are private
(numba's rule) and a whole-array ``a += x`` is numba's array reduction.
"""
import sys
import threading

import numpy as np

ACTIVE = None          # current Recorder


class Recorder:
    def __init__(self, mode, order=None, conflict=None, chooser=None):
        self.mode = mode
        self.order = order
        self.conflict = conflict or frozenset()
        self.chooser = chooser
        self.local = threading.local()
        self.reads = {}
        self.writes = {}
        self.accesses = 0
        self.loops = 0
        self.niter = 0

    # iteration id of the calling code (None outside the parallel loop)
    def cur(self):
        return getattr(self.local, "it", None)

    def note(self, arr, addrs, write):
        it = self.cur()
        if it is None or arr.owner_it == it:
            return
        self.accesses += len(addrs)
        if self.mode == "record":
            (self.writes if write else self.reads).setdefault(
                (self.loops, it), set()).update(addrs)
        elif self.chooser is not None and self.conflict.intersection(addrs):
            self.chooser.point(it)


class Tracked(np.ndarray):
    """ndarray that reports element reads and writes to the recorder."""
    owner_it = None
    whole = False

    def __array_finalize__(self, obj):
        self.owner_it = getattr(obj, "owner_it", None)
        self.whole = False

    def _addr(self, key):
        base = np.ndarray.__array_interface__.__get__(self)["data"][0]
        idx = self._index()[key]
        flat = np.ravel(idx)
        return [base + int(o) for o in flat]

    def _index(self):
        offs = np.zeros(self.shape, dtype=np.int64)
        for ax, (n, st) in enumerate(zip(self.shape, self.strides)):
            sh = [1] * self.ndim
            sh[ax] = n
            offs = offs + (np.arange(n, dtype=np.int64) * st).reshape(sh)
        return offs

    def __getitem__(self, key):
        out = np.ndarray.__getitem__(self, key)
        if isinstance(out, np.ndarray) and out.base is not None:
            return out                    # a view: noted when it is used
        if ACTIVE is not None:
            ACTIVE.note(self, self._addr(key), False)
        return out

    def __setitem__(self, key, value):
        if ACTIVE is not None:
            if isinstance(value, Tracked):
                ACTIVE.note(value, value._addr(Ellipsis), False)
            ACTIVE.note(self, self._addr(key), True)
        np.ndarray.__setitem__(self, key, value)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        plain = []
        for x in inputs:
            if isinstance(x, Tracked):
                red = (out is not None and any(o is x for o in out)
                       and x.whole)
                if ACTIVE is not None and not red:
                    ACTIVE.note(x, x._addr(Ellipsis), False)
                plain.append(x.view(np.ndarray))
            else:
                plain.append(x)
        if out is not None:
            po = []
            for o in out:
                if isinstance(o, Tracked):
                    if ACTIVE is not None and not o.whole:
                        ACTIVE.note(o, o._addr(Ellipsis), True)
                    po.append(o.view(np.ndarray))
                else:
                    po.append(o)
            getattr(ufunc, method)(*plain, out=tuple(po), **kw)
            return out[0] if len(out) == 1 else out
        return getattr(ufunc, method)(*plain, **kw)


def track(a, private_to=None):
    t = np.ascontiguousarray(a).view(Tracked)
    t.owner_it = private_to
    t.whole = True
    return t


class NumpyProxy:
    """numpy as the kernels see it: allocations are logged arrays."""
    ALLOC = ("zeros", "empty", "ones", "full", "zeros_like", "empty_like",
             "ones_like", "full_like", "copy", "array", "ascontiguousarray")

    def __getattr__(self, name):
        f = getattr(np, name)
        if name in self.ALLOC:
            def g(*a, **k):
                out = f(*a, **k)
                if ACTIVE is None or not isinstance(out, np.ndarray) \
                        or out.ndim == 0:
                    return out
                return track(np.array(out), ACTIVE.cur())
            return g
        return f


def fake_prange(*args):
    rng = range(*args)
    rec = ACTIVE
    if rec is None or rec.cur() is not None:
        return iter(rng)                      # nested loops are sequential
    return _outer(rec, rng)


def _outer(rec, rng):
    rec.loops += 1
    its = list(rng)
    rec.niter = max(rec.niter, len(its))
    order = its if rec.order is None else rec.order(its)
    for i in order:
        rec.local.it = i
        try:
            yield i
        finally:
            rec.local.it = None


def install():
    """Call before the project is imported."""
    import numba
    numba.prange = fake_prange


def patch_modules():
    import algotom
    for name, mod in list(sys.modules.items()):
        if name.startswith("algotom.") and getattr(mod, "np", None) is np:
            mod.np = NumpyProxy()


def unpatch_modules():
    for name, mod in list(sys.modules.items()):
        if name.startswith("algotom.") and isinstance(
                getattr(mod, "np", None), NumpyProxy):
            mod.np = np


def wrap(args):
    return [track(a) if isinstance(a, np.ndarray) else a for a in args]


def execute(kernel, args, rec):
    global ACTIVE
    ACTIVE = rec
    patch_modules()
    try:
        targs = wrap(args)
        out = kernel(*targs)
        return np.array(np.asarray(out))
    finally:
        ACTIVE = None
        unpatch_modules()


def conflicts(rec):
    """Addresses with a conflicting pair of accesses, and how many pairs."""
    bad = set()
    keys = sorted(set(rec.reads) | set(rec.writes))
    seen_w, seen_any = {}, {}
    for k in keys:
        loop = k[0]
        for a in rec.writes.get(k, ()):
            if (loop, a) in seen_any and seen_any[(loop, a)] != {k}:
                bad.add(a)
        for a in rec.reads.get(k, ()):
            if (loop, a) in seen_w and seen_w[(loop, a)] != {k}:
                bad.add(a)
        for a in rec.writes.get(k, ()):
            seen_w.setdefault((loop, a), set()).add(k)
            seen_any.setdefault((loop, a), set()).add(k)
        for a in rec.reads.get(k, ()):
            seen_any.setdefault((loop, a), set()).add(k)
    return bad


class LostUpdate:
    """Deterministic replay of one preemption inside iteration ``victim``:
    it is stopped before its n-th conflicting access, all other iterations
    run to completion, then it goes on.  Implemented by running the kernel in
    two threads on the same arrays: one executes only the victim iteration,
    the other the remaining ones."""


def preempted(kernel, args, victim, stop_at, conflict):
    """Result of the schedule 'victim runs until just before its stop_at-th
    conflicting access, everybody else runs, victim finishes'.  Returns
    (result, reached)."""
    global ACTIVE
    shared = {}
    lock = threading.Condition()
    state = {"turn": "victim", "count": 0, "reached": False, "vdone": False}

    class Chooser:
        def point(self, it):
            if it != victim:
                return
            with lock:
                if state["count"] == stop_at and not state["reached"]:
                    state["reached"] = True
                    state["turn"] = "others"
                    lock.notify_all()
                    while state["turn"] != "victim":
                        lock.wait()
                state["count"] += 1

    rec = Recorder("explore", conflict=conflict, chooser=Chooser())

    # Both threads execute the kernel body on the same shared arrays: the
    # allocation proxy hands the second thread the arrays of the first one.
    alloc = {"v": [], "o": []}
    who = threading.local()

    class SharedProxy(NumpyProxy):
        def __getattr__(self, name):
            f = getattr(np, name)
            if name in self.ALLOC:
                def g(*a, **k):
                    if rec.cur() is not None:
                        return track(np.array(f(*a, **k)), rec.cur())
                    lst = alloc[who.tag]
                    n = len(lst)
                    if who.tag == "o" and n < len(alloc["v"]):
                        out = alloc["v"][n]
                    else:
                        out = track(np.array(f(*a, **k)))
                    lst.append(out)
                    return out
                return g
            return f

    targs = wrap(args)
    result = {}

    def body(tag):
        who.tag = tag
        rec.local.filter = tag
        try:
            result[tag] = kernel(*targs)
        except BaseException as e:             # noqa
            result[tag] = e
        with lock:
            if tag == "v":
                state["vdone"] = True
                state["turn"] = "others"
            else:
                state["turn"] = "victim"
            lock.notify_all()

    def order(its):
        if rec.local.filter == "v":
            return [i for i in its if i == victim]
        return [i for i in its if i != victim]
    rec.order = order
    ACTIVE = rec
    mods = [m for n, m in list(sys.modules.items())
            if n.startswith("algotom.") and getattr(m, "np", None) is np]
    proxy = SharedProxy()
    for m in mods:
        m.np = proxy
    try:
        tv = threading.Thread(target=body, args=("v",), daemon=True)
        tv.start()
        with lock:
            while state["turn"] != "others":
                lock.wait(10)
        to = threading.Thread(target=body, args=("o",), daemon=True)
        to.start()
        to.join(30)
        with lock:
            state["turn"] = "victim"
            lock.notify_all()
        tv.join(30)
    finally:
        ACTIVE = None
        for m in mods:
            m.np = np
    out = result.get("v")
    if isinstance(out, BaseException):
        raise out
    return np.array(np.asarray(out)), state["reached"]
