"""Stand-in for meshio.read on gmsh files, built on gmsh itself (nodes in the order of their tags)."""
import numpy as np


class _Block:
    def __init__(self, type, data): self.type, self.data = type, data
    def __iter__(self): return iter((self.type, self.data))


class Mesh:
    def __init__(self, points=None, cells=(), point_data=None, cell_data=None, field_data=None):
        self.points = points
        self.cells = [c if isinstance(c, _Block) else _Block(c[0], np.asarray(c[1])) for c in (cells.items() if isinstance(cells, dict) else cells)]
        self.point_data, self.cell_data, self.field_data = point_data or {}, cell_data or {}, field_data or {}

    def write(self, name, *a, **k):
        """the content, as JSON; like meshio, refuses data that do not fit the points"""
        import json
        for v in self.point_data.values():
            if len(v) != len(self.points): raise ValueError("len(points) = %d, but len(point_data) = %d" % (len(self.points), len(v)))
        json.dump(dict(points=np.asarray(self.points).tolist(), cells=[[b.type, np.asarray(b.data).tolist()] for b in self.cells],
                       point_data={n: np.asarray(v).tolist() for n, v in self.point_data.items()}), open(name, "w"))


def write(name, mesh, *a, **k): mesh.write(name)
def write_points_cells(name, points, cells, point_data=None, **k): Mesh(points, cells, point_data).write(name)


def read(filename):
    import gmsh
    gmsh.initialize(); gmsh.option.setNumber("General.Terminal", 0)
    try:
        gmsh.open(str(filename))
        m = Mesh()
        tags, xyz, _ = gmsh.model.mesh.getNodes()
        o = np.argsort(np.array(tags, dtype=np.int64))
        m.points = np.array(xyz, dtype=float).reshape(-1, 3)[o]
        idx = {int(tags[k]): n for n, k in enumerate(o)}
        m.cells, phys, m.field_data = [], [], {}
        for d, t in gmsh.model.getPhysicalGroups():
            n = gmsh.model.getPhysicalName(d, t)
            if n: m.field_data[n] = np.array([t, d])
        for d, e in gmsh.model.getEntities():
            g = gmsh.model.getPhysicalGroupsForEntity(d, e)
            ty, _, nt = gmsh.model.mesh.getElements(d, e)
            for a, b in zip(ty, nt):
                name = {1: "line", 2: "triangle", 4: "tetra", 15: "vertex"}[int(a)]
                k = {1: 2, 2: 3, 4: 4, 15: 1}[int(a)]
                c = np.array([idx[int(x)] for x in b]).reshape(-1, k)
                m.cells.append(_Block(name, c))
                phys.append(np.full(len(c), int(g[0]) if len(g) else 0))
        m.cell_data = {"gmsh:physical": phys}
        return m
    finally:
        gmsh.finalize()
