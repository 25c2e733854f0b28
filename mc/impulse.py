"""Every public array function as a map from each of its inputs to its
outputs, probed element by element (shared by P52 and P53)."""
import warnings

import numpy as np

from mc import table
from mc.core import quiet


class Probe(table.Data):
    """The plain data, with one array scaled and one element of it changed.

    change = {number of the array: function(array) -> array}
    """

    def __init__(self, change=None):
        super().__init__("plain", "f4")
        self.change, self.ruled = change or {}, []

    def out(self, v, ruled=True):
        n = len(self.made)
        w = super().out(v, ruled)
        if ruled:
            self.ruled.append(n)
            if n in self.change:
                w = np.ascontiguousarray(self.change[n](w.copy()),
                                         dtype=w.dtype)
                self.made[-1] = w
        return w


def leaves(r):
    """All numeric arrays of a result."""
    if isinstance(r, (tuple, list)):
        for v in r:
            yield from leaves(v)
    elif isinstance(r, dict):
        for k in sorted(r, key=str):
            yield from leaves(r[k])
    elif r is not None and not isinstance(r, str):
        v = np.asarray(r)
        if v.dtype.kind in "biufc":
            yield v


def call(name, change=None):
    """Outputs and the arrays (number, shape) of one call."""
    D = Probe(change)
    fn, a, kw = table.ENTRIES[name](D)
    np.random.seed(1)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        r = [np.array(v) for v in leaves(quiet(fn, *a, **kw))]
    return r, {n: D.made[n].shape for n in D.ruled
               if D.made[n].dtype.kind == "f"}
