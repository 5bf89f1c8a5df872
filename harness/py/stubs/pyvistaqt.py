"""Stand-in for the 3D window: the list of what it shows."""
import numpy as np
import pyvista as pv

current = []


class QtInteractor:
    def __init__(self, *a, **k):
        self.actors_, self.interactor = [], object()
        current.append(self)

    def clear_actors(self): self.actors_ = []
    clear = clear_actors

    def add_mesh(self, m, color=None, scalars=None, **k):
        if isinstance(m, pv.Glyphs):
            a = ("arrows", m.points.copy(), m.dirs.copy(), m.length.copy())
        else:
            v = None
            if color is None:
                if scalars is None: v = m.cell_data.get(m.cell_data.last)
                else: v = m.cell_data[scalars] if isinstance(scalars, str) else np.array(scalars)
            a = ("surface", m.points[m.tris].copy(), None if v is None else np.array(v), bool(k.get("smooth_shading")))
        self.actors_.append(a)
        return a

    def remove_actor(self, a, *x, **k):
        n = len(self.actors_)
        self.actors_ = [b for b in self.actors_ if b is not a]
        return len(self.actors_) < n

    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
