import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools, collections

ck = Check("C25")
T = TIER == "thorough"
pool = Pool(build_program())
SCR = tempfile.mkdtemp(prefix="fgv25.")
atexit.register(shutil.rmtree, SCR, True)
os.makedirs(SCR + "/py/feellgood")
for f in ("__init__.py", "core.py", "meshMaker.py", "settingsMaker.py"):
    shutil.copy(os.path.join(REPO, "python-modules", f), SCR + "/py/feellgood/")


# ---- an independent reader of MSH 2.2 and 4.1 ASCII files
def parse(text):
    """(names {(dim,tag): name}, nodes {tag: p}, elements [(type, set of physical names, nodes)])"""
    sec = {}
    cur = None
    for l in text.split("\n"):
        if l.startswith("$End"): cur = None
        elif l.startswith("$"): cur = l[1:].strip(); sec[cur] = []
        elif cur is not None: sec[cur].append(l)
    ver = sec["MeshFormat"][0].split()[0]
    names = {}
    for l in sec["PhysicalNames"][1:]:
        d, t, n = l.split(None, 2)
        names[int(d), int(t)] = n.strip()[1:-1]
    assert len(names) == int(sec["PhysicalNames"][0]), "wrong number of physical names"
    nodes, el = {}, []
    DIM = {1: 1, 2: 2, 4: 3, 15: 0}
    NV = {1: 2, 2: 3, 4: 4, 15: 1}
    if ver.startswith("2"):
        for l in sec["Nodes"][1:]:
            w = l.split(); nodes[int(w[0])] = tuple(map(float, w[1:4]))
        assert len(nodes) == int(sec["Nodes"][0]), "wrong number of nodes"
        assert len(sec["Elements"]) - 1 == int(sec["Elements"][0]), "wrong number of elements"
        # in this format the entity carries the physical group: an entity listed with two groups is in both
        ent = collections.defaultdict(set)
        raw = []
        for l in sec["Elements"][1:]:
            w = [int(x) for x in l.split()]
            d = DIM[w[1]]
            ent[d, w[4]].add(names[d, w[3]])
            v = tuple(w[3 + w[2]:])
            assert len(v) == NV[w[1]], "wrong number of nodes in element %s" % l
            raw.append((w[1], (d, w[4]), v))
        el = [(t, ent[e], v) for t, e, v in raw]
        assert len({l.split()[0] for l in sec["Elements"][1:]}) == len(raw), "element tags are not distinct"
    else:
        it = iter(sec["Entities"])
        cnt = [int(x) for x in next(it).split()]
        ent = {}
        for d in range(4):
            for _ in range(cnt[d]):
                w = next(it).split()
                o = 4 if d == 0 else 7
                n = int(w[o])
                ent[d, int(w[0])] = {names[d, int(x)] for x in w[o + 1:o + 1 + n]}
        it = iter(sec["Nodes"])
        nb = int(next(it).split()[0])
        for _ in range(nb):
            k = int(next(it).split()[3])
            tags = [int(next(it)) for _ in range(k)]
            for t in tags: nodes[t] = tuple(map(float, next(it).split()[:3]))
        it = iter(sec["Elements"])
        nb = int(next(it).split()[0])
        for _ in range(nb):
            d, e, t, k = map(int, next(it).split())
            for _ in range(k): el.append((t, ent[d, e], tuple(int(x) for x in next(it).split()[1:])))
    return names, nodes, el


# ---- shapes: is p on the surface called n (None: anywhere on the boundary)?  is p in the body?
def near(a, b, s): return abs(a - b) <= 1e-6 * s


class Box:
    curved = 0

    def __init__(self, a, b): self.a, self.b = a, b; self.s = max(map(abs, tuple(a) + tuple(b))); self.volume = np.prod(np.abs(np.subtract(b, a)))
    def inside(self, p): return all(min(l, h) - 1e-6 * self.s <= x <= max(l, h) + 1e-6 * self.s for l, x, h in zip(self.a, p, self.b))
    cells = 0

    def on(self, p):
        o = self.sides(p)
        if self.cells and "zmax" in o:    # the unit cells of the top
            o |= {"c%d,%d" % (i, j) for i in range(int(p[0]) - 1, int(p[0]) + 2) for j in range(int(p[1]) - 1, int(p[1]) + 2) if i - 1e-6 <= p[0] <= i + 1 + 1e-6 and j - 1e-6 <= p[1] <= j + 1 + 1e-6}
        return o

    def sides(self, p): return {"xyz"[k] + m for k in range(3) for m, v in (("min", self.a[k]), ("max", self.b[k])) if near(p[k], v, self.s)}


class Cyl:
    def __init__(self, r, t, r1=0, suf=("side", "bottom", "top")):
        self.r, self.t, self.r1, self.s = r, t, r1, max(r, t); self.volume = math.pi * (r * r - r1 * r1) * t; self.suf = suf; self.curved = 1

    def inside(self, p):
        q = math.hypot(p[0], p[1])
        return q <= self.r * (1 + 1e-6) and q >= self.r1 * .69 and abs(p[2]) <= self.t / 2 + 1e-6 * self.s

    def on(self, p):
        q = math.hypot(p[0], p[1]); o = set()
        if near(p[2], -self.t / 2, self.s): o.add("bottom")
        if near(p[2], self.t / 2, self.s): o.add("top")
        if near(q, self.r, self.s): o.add("outer" if self.r1 else "side")
        if self.r1 and near(q, self.r1, self.s): o.add("inner")
        return o


class Ell:
    curved = 1

    def __init__(self, a, c): self.a, self.c, self.s = a, c, max(a, c); self.volume = 4 / 3 * math.pi * a * a * c
    def f(self, p): return math.sqrt((p[0] ** 2 + p[1] ** 2) / self.a ** 2 + p[2] ** 2 / self.c ** 2)
    def inside(self, p): return self.f(p) <= 1 + 1e-5
    def on(self, p): return {"s"} if near(self.f(p), 1, 1) else set()


class Rev:
    curved = 1

    def __init__(self, P):
        self.P = P; self.s = max(abs(x) for q in P for x in q)
        self.volume = sum(math.pi / 3 * (z2 - z1) * (r1 * r1 + r1 * r2 + r2 * r2) for (r1, z1), (r2, z2) in zip(P, P[1:]))

    def R(self, z):
        for (r1, z1), (r2, z2) in zip(self.P, self.P[1:]):
            if min(z1, z2) - 1e-9 <= z <= max(z1, z2) + 1e-9: return r1 + (r2 - r1) * (z - z1) / (z2 - z1)
        return None

    def inside(self, p):
        z = min(max(p[2], self.P[0][1]), self.P[-1][1])
        return near(z, p[2], self.s) and math.hypot(p[0], p[1]) <= self.R(z) * (1 + 1e-6)

    def on(self, p):
        o = set()
        if near(p[2], self.P[0][1], self.s): o.add("bottom")
        if near(p[2], self.P[-1][1], self.s): o.add("top")
        z = min(max(p[2], self.P[0][1]), self.P[-1][1])
        if near(math.hypot(p[0], p[1]), self.R(z), self.s): o.add("side")
        return o


class IcoS:
    curved = 0
    PHI = (1 + math.sqrt(5)) / 2
    s = 2
    volume = 5 / 12 * (3 + math.sqrt(5)) * 8
    # twenty planes at the inradius
    N = [v for v in itertools.product((-1, 1), repeat=3)] + [p for a in (-1, 1) for b in (-1, 1) for p in
         ((0, a / ((1 + math.sqrt(5)) / 2), b * (1 + math.sqrt(5)) / 2), (a / ((1 + math.sqrt(5)) / 2), b * (1 + math.sqrt(5)) / 2, 0), (b * (1 + math.sqrt(5)) / 2, 0, a / ((1 + math.sqrt(5)) / 2)))]
    IN = 2 * (3 * math.sqrt(3) + math.sqrt(15)) / 12

    def h(self, p): return max(np.dot(p, n) / np.linalg.norm(n) for n in self.N)
    def inside(self, p): return self.h(p) <= self.IN * (1 + 1e-6)
    def on(self, p): return {k for k, n in enumerate(self.N) if near(np.dot(p, n) / np.linalg.norm(n), self.IN, 1)}


# ---- one generated file
def verify(job):
    fn, cls, args, kw, make, extra, shape, vol, surfs, hs = job["fn"], job["cls"], job["args"], job["kw"], job["make"], job["extra"], job["shape"], job["vol"], job["surfs"], job["h"]
    nm = "%s%s %s %s %s" % (cls, tuple(args), kw or "", make, extra or "")
    st = result.get(fn, ("no answer", ""))
    rep = dict(maker=[cls, args, kw, make, extra], answer=st)
    if not ck.expect(st[0] == "ok" and os.path.exists(fn), "%s: no mesh: %s" % (nm, st), rep): return
    text = ptext = open(fn, errors="replace").read()
    os.remove(fn)
    if os.path.exists(fn + ".41"):     # formats the parser does not know: what gmsh makes of them
        ptext = open(fn + ".41").read()
        os.remove(fn + ".41")
    rep["msh"] = text[:200000]
    try:
        names, nodes, el = parse(ptext)
    except Exception as e:
        return ck.expect(False, "%s: malformed mesh file: %r" % (nm, e), rep)
    ck.count(states=len(el))
    ok = lambda c, why: ck.expect(c, "%s: %s" % (nm, why), rep)
    if not ok(sorted(nodes) == list(range(1, len(nodes) + 1)), "nodes are not numbered from 1 to N"): return
    if not ok({n for (d, _), n in names.items() if d == 3} == {vol}, "volume regions %s instead of %s" % (names, vol)): return
    if not ok({n for (d, _), n in names.items() if d == 2} - set(job["empty"]) == set(surfs) - set(job["empty"]), "surface regions %s instead of %s" % (names, sorted(surfs))): return
    tets = [e for e in el if e[0] == 4]
    tris = [e for e in el if e[0] == 2]
    if not ok(len(tets) + len(tris) == len(el), "elements other than tetrahedra and triangles"): return
    if not ok(tets and all(e[1] == {vol} for e in tets), "tetrahedra out of the volume region"): return
    if not ok(all(len(e[1]) == 1 for e in tris), "a triangle belongs to %s" % [sorted(e[1]) for e in tris if len(e[1]) != 1][:1]): return
    m = re.search(r"(\d+) nodes, (\d+) tetrahedra(?:, (\d+) triangles)?", st[1])
    ok(m and (int(m.group(1)), int(m.group(2))) == (len(nodes), len(tets)) and m.group(3) in (None, str(len(tris))),
       "announces %r, the file has %d nodes, %d tetrahedra, %d triangles" % (st[1].strip(), len(nodes), len(tets), len(tris)))
    P = {k: np.array(v) for k, v in nodes.items()}
    if not ok({n for e in tets for n in e[2]} == set(nodes), "nodes outside of every tetrahedron"): return
    vols = np.array([np.dot(np.cross(P[b] - P[a], P[c] - P[a]), P[d] - P[a]) / 6 for _, _, (a, b, c, d) in tets])
    V = np.abs(vols).sum()
    if not ok(np.abs(vols).min() > 1e-9 * V / len(tets), "a flat tetrahedron"): return
    for k, p in P.items():
        if not ok(shape.inside(p), "node %d at %s is out of the body" % (k, p)): return
    # conformity: faces shared by at most two tetrahedra (on opposite sides); the lone ones are the named triangles, once each
    face = collections.defaultdict(list)
    for _, _, t in tets:
        for i in range(4): face[tuple(sorted(t[:i] + t[i + 1:]))].append(t[i])
    if not ok(all(len(v) <= 2 for v in face.values()), "a face shared by more than two tetrahedra"): return
    for f, v in face.items():
        if len(v) == 2:
            a, b, c = (P[x] for x in f)
            n = np.cross(b - a, c - a)
            if not ok(np.dot(n, P[v[0]] - a) * np.dot(n, P[v[1]] - a) < 0, "two tetrahedra overlap"): return
    outer = {f for f, v in face.items() if len(v) == 1}
    got = collections.Counter(tuple(sorted(e[2])) for e in tris)
    if not ok(set(got) == outer and max(got.values()) == 1, "%d surface triangles (%d distinct) for %d outer faces, %d of them not outer faces" % (
            len(tris), len(got), len(outer), len(set(got) - outer))): return
    for _, (n,), t in ((a, tuple(b), c) for a, b, c in tris):
        common = set.intersection(*(shape.on(P[x]) for x in t))
        if not ok(common, "outer face %s is not on the surface of the body" % [tuple(P[x]) for x in t]): return
        if not ok(surfs[n] is None or surfs[n] & common, "a triangle of %r lies on %s: %s" % (n, sorted(map(str, common)), [tuple(P[x]) for x in t])): return
        if surfs[n] is None:       # the main surface must not keep what a sub-surface claims
            for m, w in surfs.items():
                if m != n and w and not ok(not w & common, "a triangle of %r lies on %s" % (n, m)): return
    if shape.curved:
        # inscribed polyhedron: the missing volume is of second order in the element size
        e = max(np.linalg.norm(P[a] - P[b]) for _, _, t in tris for a, b in itertools.combinations(t, 2))
        ok(V <= shape.volume * (1 + .02) and V >= shape.volume * (1 - hs * e * e), "volume %.6g instead of %.6g (edges up to %.3g)" % (V, shape.volume, e))
    else:
        ok(abs(V - shape.volume) < 1e-9 * shape.volume, "volume %.10g instead of %.10g" % (V, shape.volume))
    # the solver reads it: same volume (Zeeman energy of a uniform state), same surface (a run with every region declared)
    H = (0., 0., 1.)
    S = settings({vol: dict(Ms=8e5, Ae=1e-11, alpha_LLG=.5)}, {n: dict(suppress_charges=True) for n in surfs if n not in job["empty"]}, H, mag=(0, 0, 1), cols=["t", "E_zeeman", "E_demag", "<Mz>"], step=1e-13, n=0)
    o = pool.run({"m.msh": text, "s.yml": yaml_dump(S)}, env={"VERIF_SCRIPT": ""}, post=Out, timeout=120)
    rep["err"] = o.err
    ck.count(0, 1, 1)
    if not ok(o.ok and len(o.evol.rows) == 1, "the solver refuses the mesh: %s %s" % (o.status, (o.err or o.out)[-300:])): return
    r = o.row(0)
    ok(abs(r["E_zeeman"] / (-8e5 * V * 1e-27) - 1) < 1e-6, "the solver sees a volume of %.8g instead of %.8g" % (r["E_zeeman"] / -8e5 * 1e27, V))
    ok(abs(r["E_demag"]) < 1e-12 * abs(r["E_zeeman"]) + 1e-40, "charges are left (E_demag = %g) although every surface region suppresses them" % r["E_demag"])


jobs = []


def add(cls, args, kw, make, shape, vol, surfs, extra=(), h=0., empty=()):
    k = len(jobs)
    fn = "%s/m%d.msh" % (SCR, k)
    jobs.append(dict(fn=fn, cls=cls, args=args, kw=kw, make=make, extra=list(extra), shape=shape, vol=vol, surfs=surfs, h=h, empty=empty))


VOLN = ["V", "vol 1", "v:x", "\u00b5m", " v\t "]
SURFN = ["S", "surf 1", "s#2", "\u00e9", "  S "]
# Cuboid: every subdivision up to a bound, three placements, names, transformations
n = 5 if T else 3
for i, (nx, ny, nz) in enumerate(itertools.product(range(1, n + 1), repeat=3)):
    for a, b in (((0, 0, 0), (4, 5, 6)), ((-3.5, -1, 2), (-.5, 4, 2.25)), ((-256, -256, -2), (256, 256, 2))) if T or max(nx, ny, nz) < 3 else (((-3.5, -1, 2), (-.5, 4, 2.25)),):
        q = (i + len(jobs)) % 5
        add("Cuboid", [a, b, nx, ny, nz], {}, [VOLN[q], SURFN[q]], Box(a, b), VOLN[q], {SURFN[q]: None})
for nx, ny, nz in itertools.product((1, 2, 3), repeat=3) if T else ((1, 1, 1), (2, 1, 3), (1, 3, 2), (2, 2, 2)):
    a, b = (-1, 0, 2), (2, 4, 7)
    side = {"xmin": -1, "xmax": 2, "ymin": 0, "ymax": 4, "zmin": 2, "zmax": 7}
    for k in (1, 2, 3) if T else (1, 2):
        for c in itertools.combinations(sorted(side), k):
            add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", dict({"S": None}, **{"sub " + s: {s} for s in c}), [["sub", "sub " + s, s, side[s]] for s in c])
    c = sorted(side)[:5]
    add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", dict({"S": None}, **{"sub " + s: {s} for s in c}), [["sub", "sub " + s, s, side[s]] for s in c])
    for f, B in (("id", Box(a, b)), ("scale", Box((-2, 0, 1), (4, 12, 3.5))), ("swap", Box((0, 2, -1), (4, 7, 2))), ("mirror", Box((1, 0, 2), (-2, 4, 7))), ("zero min", Box((0, 0, 0), (3, 4, 5))),
                 ("zero max", Box((-3, -4, -5), (0, 0, 0))), ("tuple", Box((.999, 0, 1002), (1.002, 400, 1007)))):
        add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], B, "V", {"S": None}, [["tr", f]])
    # every outer triangle moved to one sub-surface, or to two: nothing is left in the main surface; a sub-surface without triangles
    add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", {"S": set(), "sub": set(side)}, [["sub", "sub", "all"]], empty=("S",))
    add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", {"S": None, "sub": set()}, [["sub", "sub", "none"]], empty=("sub",))
    add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", {"S": set(), "sub xmin": {"xmin"}, "rest": set(side) - {"xmin"}}, [["sub", "sub xmin", "xmin", -1], ["sub", "rest", "all"]], empty=("S",))
    add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", {"S": None, " sub ": {"xmin"}, "SUB\t": {"xmax"}, "200": {"zmin"}}, [["sub", " sub ", "xmin", -1], ["sub", "SUB\t", "xmax", 2], ["sub", "200", "zmin", 2]])
# long cuboids
for nx, ny, nz in ((12, 1, 1), (1, 12, 2), (2, 1, 12), (33, 1, 1), (1, 40, 1), (1, 1, 65), (10, 11, 9)) + (((1, 101, 1), (129, 1, 2), (1, 1, 257), (11, 2, 34)) if T else ()):
    for a, b in (((0, 0, 0), (4, 5, 6)), ((-3.5, -1, 2), (-.5, 4, 2.25))):
        add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", {"S": None})
        side = {"xmin": a[0], "xmax": b[0], "ymin": a[1], "ymax": b[1], "zmin": a[2], "zmax": b[2]}
        add("Cuboid", [a, b, nx, ny, nz], {}, ["V", "S"], Box(a, b), "V", dict({"S": None}, **{"sub " + s: {s} for s in ("xmax", "ymin")}), [["sub", "sub " + s, s, side[s]] for s in ("xmax", "ymin")])
# many sub-surfaces: one per unit cell of the top
for k in (9, 98, 99, 100, 101, 120):
    nx, ny = (10, 12) if k > 9 else (3, 3)
    B = Box((0, 0, 0), (nx, ny, 2)); B.cells = 1
    c = list(itertools.product(range(nx), range(ny)))[:k]
    add("Cuboid", [(0, 0, 0), (nx, ny, 2), nx, ny, 1], {}, ["V", "S"], B, "V", dict({"S": None}, **{"c%d,%d" % x: {"c%d,%d" % x} for x in c}), [["sub", "c%d,%d" % x, "cell", [x[0], x[1], 2]] for x in c])
add("Ico", [], {}, ["V", "S"], IcoS(), "V", {"S": None})
add("Ico", [], {}, ["vol 1", "s:#2"], IcoS(), "vol 1", {"s:#2": None})
# the makers based on gmsh
for ff in (4.1, 2.2):
    kw = {"fileFormat": ff}
    for q, (a, b) in enumerate((((0, 0, 0), (4, 5, 6)), ((-3, -2, 1), (3, 4, 3)), ((-1, -1, -5), (1, 1, 5)))):
        for ms in (1., 2., 4.) if T else (2., 4.):
            add("Hexahedron", [a, b, ms, SURFN[q], VOLN[q]], kw, [], Box(a, b), VOLN[q], {SURFN[q]: None})
    for r, t in ((4, 5), (3, 1), (2, 8), (5., .75)) if T else ((4, 5), (3, 1)):
        for ms in (1., 2.) if T else (2.,):
            for part in (False, True):
                s = {"S_" + x: {x} for x in ("side", "bottom", "top")} if part else {"S": None}
                add("Cylinder", [r, t, ms, "S", "V"], dict(kw, partitionSurface=part), [], Cyl(r, t), "V", s, h=.3 / r / r)
                add("SolidOfRevolution", [[[r, -t], [r, t]], ms, "S", "V"], dict(kw, partitionSurface=part), [], Rev([[r, -t], [r, t]]), "V", s, h=.3 / r / r)
    for P in ([[3, 0], [4, 2], [2, 5]], [[1, -2], [3, 0], [1, 2]], [[2, 0], [2, 1], [4, 3], [1, 6]], [[4, -1], [3, 2], [3.5, 3]]) if T else ([[3, 0], [4, 2], [2, 5]], [[1, -2], [3, 0], [1, 2]]):
        for part in (False, True):
            s = {"S_" + x: {x} for x in ("side", "bottom", "top")} if part else {"S": None}
            for ms in (1., 1.5) if T else (1.5,):
                add("SolidOfRevolution", [P, ms, "S", "V"], dict(kw, partitionSurface=part), [], Rev(P), "V", s, h=.3 / min(q[0] for q in P) ** 2)
    for r1, r2, l in ((2, 4, 5), (3, 4, 2), (1, 3, 1)) if T else ((2, 4, 5), (1, 3, 1)):
        for part in (False, True):
            s = {"S_" + x: {x} for x in ("inner", "outer", "bottom", "top")} if part else {"S": None}
            add("Tube", [r1, r2, l, 1.5, "S", "V"], dict(kw, partitionSurface=part), [], Cyl(r2, l, r1), "V", s, h=.3 / r1 / r1)
    for a, c in ((3, 5), (4, 4), (5, 2), (1, 6)) if T else ((3, 5), (4, 4), (5, 2)):
        for ms in (1., 2.) if T else (1.5,):
            add("Ellipsoid", [a, c, ms, "S", "V"], kw, [], Ell(a, c), "V", {"S": None}, h=1.5 / min(a, c) ** 2)
for ff in (2.1, 3.0, 4.0):      # the other formats gmsh writes
    kw = {"fileFormat": ff}
    add("Hexahedron", [(0, 0, 0), (4, 5, 6), 4., "S", "V"], kw, [], Box((0, 0, 0), (4, 5, 6)), "V", {"S": None})
    for part in (False, True):
        s = {"S_" + x: {x} for x in ("side", "bottom", "top")} if part else {"S": None}
        add("Cylinder", [4, 5, 2., "S", "V"], dict(kw, partitionSurface=part), [], Cyl(4, 5), "V", s, h=.3 / 16)
        s = {"S_" + x: {x} for x in ("inner", "outer", "bottom", "top")} if part else {"S": None}
        add("Tube", [2, 4, 5, 1.5, "S", "V"], dict(kw, partitionSurface=part), [], Cyl(4, 5, 2), "V", s, h=.3 / 4)
    add("Ellipsoid", [3, 5, 1.5, "S", "V"], kw, [], Ell(3, 5), "V", {"S": None}, h=1.5 / 9)
# far from unit size, thin and elongated bodies, in the other direction
for r, t, ms in ((400, 300, 200), (.04, .05, .02), (50, 5, 12), (5, 150, 4)) if not T else ((400, 300, 200), (.04, .05, .02), (50, 5, 12), (5, 150, 4), (1000, 20, 300), (3, 300, 3)):
    for part in (False, True):
        s = {"S_" + x: {x} for x in ("side", "bottom", "top")} if part else {"S": None}
        add("Cylinder", [r, t, ms, "S", "V"], dict(partitionSurface=part), [], Cyl(r, t), "V", s, h=.3 / r / r)
        s2 = {"S_" + x: {x} for x in ("inner", "outer", "bottom", "top")} if part else {"S": None}
        add("Tube", [.5 * r, r, t, ms * .6, "S", "V"], dict(partitionSurface=part), [], Cyl(r, t, .5 * r), "V", s2, h=1.2 / r / r)
    add("Hexahedron", [(-r, r, t), (r, 3 * r, 2 * t), ms, "S", "V"], {}, [], Box((-r, r, t), (r, 3 * r, 2 * t)), "V", {"S": None})
for a, c, ms in ((10, 1, 1.), (1, 12, .8), (300, 200, 100)):
    add("Ellipsoid", [a, c, ms, "S", "V"], {}, [], Ell(a, c), "V", {"S": None}, h=1.5 / min(a, c) ** 2)
for a, b in (((4, 5, 6), (0, 0, 0)), ((0, 5, 0), (4, 0, 6)), ((4, 0, 6), (0, 5, 0)), ((0, 0, 6), (4, 5, 0))):
    add("Hexahedron", [a, b, 4., "S", "V"], {}, [], Box(a, b), "V", {"S": None})
    add("Cuboid", [a, b, 2, 1, 3], {}, ["V", "S"], Box(a, b), "V", {"S": None})
result = {}


def make(chunk):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "harness/py/mkmesh.py"), SCR + "/py"], input=json.dumps([[j["fn"], j["cls"], j["args"], j["kw"], j["make"], j["extra"]] for j in chunk]),
                       capture_output=True, text=True, timeout=800)
    for l in p.stdout.splitlines():
        try:
            f, st, out = json.loads(l)
        except ValueError:
            continue
        result[f] = (st, out)
    for j in chunk: result.setdefault(j["fn"], ("generator died", p.stderr[-400:]))


pool.map(make, [jobs[k::NPROC] for k in range(NPROC)])
pool.map(verify, jobs)
ck.sample({"makers": ["%s%s" % (j["cls"], j["args"]) for j in jobs[::max(1, len(jobs) // 6)]]})
ck.sample({"bounds": "%d meshes: Cuboid with 1..%d subdivisions per axis, all choices of up to %d sub-surfaces, transformations; Ico; Hexahedron, Cylinder, Tube, Ellipsoid, SolidOfRevolution in formats 2.2 and 4.1, with and without partitioned surfaces" % (len(jobs), n, 3 if T else 2)})
pool.close()
ck.finish(exhaustive=True)
