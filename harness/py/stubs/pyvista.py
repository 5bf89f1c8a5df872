"""Stand-in for the part of pyvista that holds data: PolyData, normals, glyphs."""
import numpy as np


class _Data(dict):
    """arrays by name; the last one set is the one shown"""
    last = None
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, np.array(v)); self.last = k


class PolyData:
    def __init__(self, points=None, faces=None, **k):
        self.points = np.array(points, dtype=float).reshape(-1, 3)
        self.tris = np.zeros((0, 3), dtype=int) if faces is None else np.array(faces).reshape(-1, 4)[:, 1:].astype(int)
        self.cell_data, self.point_data = _Data(), _Data()
        self.normals = None

    def compute_normals(self, inplace=False, cell_normals=True, point_normals=True, flip_normals=False, **k):
        p = self.points[self.tris]
        n = np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0])
        n = n / np.linalg.norm(n, axis=1)[:, None]
        m = self if inplace else self.copy()
        m.normals = -n if flip_normals else n
        return m

    def copy(self, *a, **k):
        m = PolyData(self.points)
        m.tris, m.normals = self.tris.copy(), self.normals
        for x, y in self.cell_data.items(): m.cell_data[x] = y
        for x, y in self.point_data.items(): m.point_data[x] = y
        return m

    @property
    def cell_normals(self):
        if self.normals is None: self.compute_normals(inplace=True)
        return np.array(self.normals)
    face_normals = cell_normals

    @property
    def n_cells(self): return len(self.tris)
    @property
    def n_points(self): return len(self.points)

    def __setitem__(self, k, v):
        (self.point_data if len(v) == len(self.points) else self.cell_data)[k] = v
    def __getitem__(self, k): return self.point_data[k] if k in self.point_data else self.cell_data[k]

    def set_active_scalars(self, name, *a, **k):
        for d in (self.cell_data, self.point_data):
            if name in d: d.last = name

    def glyph(self, orient=True, scale=True, factor=1.0, geom=None, **k):
        v = self.point_data[orient if isinstance(orient, str) else self.point_data.last]
        n = np.linalg.norm(v, axis=1)
        if scale is False: length = np.full(len(v), float(factor))
        else: length = factor * (np.abs(self.point_data[scale]) if isinstance(scale, str) and self.point_data[scale].ndim == 1 else n)
        return Glyphs(self.points.copy(), v / n[:, None], length)


class Glyphs:
    def __init__(self, points, dirs, length): self.points, self.dirs, self.length = points, dirs, length


def __getattr__(name):
    if name.startswith("__"): raise AttributeError(name)
    return lambda *a, **k: None
