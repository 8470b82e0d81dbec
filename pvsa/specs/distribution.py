"""Spectra (pvtrace.material.distribution)."""
import numpy as np
from pvtrace.material.distribution import Distribution


def outside(x, lo, hi):
    return np.any(np.logical_or(np.array(x) < lo, np.array(x) > hi))


@spec("pvtrace/geometry/utils.py:allinrange", props="P36", domain={"sym:x": ["$num", "$nums"], "sym:x_range": ["$nums3"]})
def allinrange(x, x_range):
    for v in np.atleast_1d(x):
        if v < x_range[0] or v > x_range[1]:
            return False
    return True


@spec("pvtrace/material/distribution.py:Distribution.__init__", props="P36 P06", domain={"sym:x": [None, "$asc3", "$asc3", "$nums3"], "sym:y": ["$num", "$nums3", ("tuple", "$pos", "$num", "$pos"), "$pos3", "$pos3", "$pos3", ("tuple", "$pos", ["$inf", "$pos"], "$pos")], "sym:hist": [True, False]}, trials=240)
def distribution_init(self, x, y, hist=False):
    self.hist = hist
    if x is None and isinstance(y, float):
        self._x = None
        self._y = y
        return
    for i in range(len(x) - 1):
        if not x[i + 1] > x[i]:
            raise ValueError()
    if not np.all(np.isfinite(y)) or np.any(y < 0.0):
        raise ValueError()
    self._x = x
    self._y = y
    self._x_range = (np.min(x), np.max(x))
    if hist:
        self._cdf = np.cumsum(y) / np.sum(y)
        self._edges = np.insert(x, len(x), x[-1] + (x[-1] - x[-2]))
    else:
        area = np.cumsum((y[1:] + y[:-1]) / 2)
        self._cdf = np.hstack([0.0, area / area[-1]])


@spec("pvtrace/material/distribution.py:Distribution.__call__", props="P36 P04", domain={"sym:x": ["$num", "$edge", "$edge", "$nums"], "attr:hist": [True, False], "attr:_x": [None, "$asc3", "$asc3"], "attr:_y": ["$num", "$pos3", "$pos3"], "attr:_x_range": "$pair", "attr:_edges": "$asc"}, trials=500)
def distribution_call(self, x):
    if self._x is None and isinstance(self._y, float):
        if isinstance(x, (list, tuple, np.ndarray)):
            return np.zeros(len(x)) + self._y
        return self._y
    lo, hi = self._x_range
    if outside(x, lo, hi):
        raise ValueError()
    if self.hist:
        return self._y[np.searchsorted(self._edges[:-1], x)]
    return np.interp(x, self._x, self._y)


@spec("pvtrace/material/distribution.py:Distribution.lookup", props="P36 P06", domain={"sym:x": [("range", 0.0, 4.0), "$edge", ("tuple", ("range", 0.0, 4.0), "$edge"), ("tuple", "$edge", "$edge", "$edge")], "attr:hist": [True, False], "attr:_x": ["$asc3"], "attr:_cdf": ["$cdf3"], "attr:_x_range": "$pair", "attr:_edges": "$asc3"}, trials=120)
def distribution_lookup(self, x):
    lo, hi = self._x_range[0], self._x_range[1]
    if outside(x, lo, hi):
        raise ValueError()
    if self.hist:
        return self._cdf[np.searchsorted(self._edges[:-1], x)]
    return np.interp(x, self._x, self._cdf)


@spec("pvtrace/material/distribution.py:Distribution.sample", props="P36 P06", domain={"sym:p": ["$unit", "$unit", "$num", ("near", 0.0, 1.0), ("tuple", "$unit", "$unit"), ("tuple", "$unit", "$num", "$unit"), ("tuple", "$num", "$unit")], "attr:hist": [True, False], "attr:_x": ["$asc3"], "attr:_cdf": ["$cdf3", "$cdf3", "$cdf3", ("tuple", [0.0], ("range", 0.2, 0.8), ("range", 0.85, 0.99))]}, trials=900)
def distribution_sample(self, p):
    if outside(p, 0.0, 1.0):
        raise ValueError()
    if self.hist:
        i = np.searchsorted(self._cdf, p)
        if i >= len(self._x):
            return self._x[-1]
        return self._x[i]
    return np.interp(p, self._cdf, self._x)


@spec("pvtrace/material/distribution.py:Distribution.from_functions", props="P36 P19", opaque=("Distribution",), params={"cls": "none"}, domain={"sym:x": "$nums", "sym:hist": [True, False], "call:?": ["$nums3", ("tuple", "$num", ["$inf", "$num"], "$num")]})
def from_functions(cls, x, callables, hist=False):
    x = np.array(x)
    if len(x.shape) != 1:
        raise ValueError()
    y = np.zeros(len(x))
    for f in callables:
        v = f(x)
        v[np.where(~np.isfinite(v))] = 0.0
        y += v
    return Distribution(x=x, y=y, hist=hist)
