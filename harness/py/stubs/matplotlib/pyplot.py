import json
import numpy as np

_plots = []


class _Any:
    """any other object of the library: every method is accepted and does nothing"""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: _Any()
    def __iter__(self): return iter((_Any(), _Any()))


class _Axes(_Any):
    def __init__(self, dim): self.dim = dim

    def quiver(self, *a, **k):
        n = 2 * self.dim
        v = [np.atleast_1d(np.asarray(x, dtype=float)) for x in a[:n]]
        if len(v) != n: raise ValueError("quiver: %d arrays" % len(v))
        b = np.broadcast_arrays(*v)
        _plots.append(dict(dim=self.dim, arrows=[[float(x) for x in r] for r in zip(*(w.ravel() for w in b))], length=k.get("length")))
        json.dump(_plots, open("plot.json", "w"))
        return _Any()


class _Figure(_Any):
    def add_subplot(self, *a, projection=None, **k): return _Axes(3 if projection == "3d" else 2)
    def add_axes(self, *a, **k): return self.add_subplot(*a, **k)
    def gca(self, **k): return self.add_subplot(**k)


def figure(*a, **k): return _Figure()
def axes(*a, **k): return _Figure().add_subplot(**k)
def subplots(*a, subplot_kw=None, **k): return _Figure(), _Figure().add_subplot(**(subplot_kw or {}))


def __getattr__(name):
    if name.startswith("__"): raise AttributeError(name)
    return lambda *a, **k: _Any()
