"""Stand-in for vtk: records what is written, as JSON."""
import json
VTK_TETRA = 10


class vtkFloatArray:
    def __init__(self): self.n, self.name, self.v = 1, None, []
    def SetNumberOfComponents(self, n): self.n = n
    def SetName(self, s): self.name = s
    def InsertNextTuple(self, t):
        assert len(t) >= self.n
        self.v.append([float(x) for x in t[:self.n]])


vtkDoubleArray = vtkFloatArray


class vtkPoints:
    def __init__(self): self.p = []
    def SetNumberOfPoints(self, n): self.p = [[0., 0., 0.] for _ in range(n)]
    def InsertPoint(self, i, *p):
        p = p[0] if len(p) == 1 else p
        while len(self.p) <= i: self.p.append([0., 0., 0.])
        self.p[i] = [float(x) for x in p]
    SetPoint = InsertPoint
    def InsertNextPoint(self, *p): self.InsertPoint(len(self.p), *p)


class _PD:
    def __init__(self): self.d = []
    def SetVectors(self, a): self.d.append(("vectors", a))
    def SetScalars(self, a): self.d.append(("scalars", a))
    def AddArray(self, a): self.d.append(("array", a))


class vtkUnstructuredGrid:
    def __init__(self): self.p, self.c, self.pd = None, [], _PD()
    def SetPoints(self, p): self.p = p
    def InsertNextCell(self, t, n, ids): self.c.append([t, [int(x) for x in ids[:n]]])
    def GetPointData(self): return self.pd


class vtkXMLUnstructuredGridWriter:
    def SetFileName(self, f): self.f = f
    def SetInputData(self, g): self.g = g
    def SetDataModeToBinary(self): pass
    def SetDataModeToAscii(self): pass
    def Write(self):
        g = self.g
        json.dump(dict(points=g.p.p, cells=g.c, data=[[k, a.name, a.n, a.v] for k, a in g.pd.d]), open(self.f, "w"))
