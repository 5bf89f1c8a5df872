import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C07")
T = TIER == "thorough"
pool = Pool(build_program())
PTS = [(0, 0, 0), (7, 1, 0), (1, 6, 0), (2, 1, 5), (3, 2, -6), (6, 6, 3)]
TA, TB, TC = (0, 1, 2, 3), (0, 2, 1, 4), (0, 1, 2, 5)   # A|B share the face 0,1,2; C overlaps on the same face
COLS = ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"]
MAT = dict(Ms=8e5, Ae=1e-11, alpha_LLG=.1, K=1e5)


def files(mesh, vols=("v0",), surfs=(), mats=None, msh=None, sp=None, mag=(1, .5, .3)):
    S = settings({v: dict((mats or {}).get(v, MAT)) for v in vols}, {s: dict((sp or {}).get(s, {})) for s in surfs} or None, (.1, .2, 0), mag=mag, cols=COLS, step=1e-13, n=1,
                 dtmin=1e-16, dtmax=5e-14, tol=1e-10)
    return {"s.yml": yaml_dump(S), "m.msh": msh if msh is not None else mesh.msh()}


def run(f):
    def post(r):
        o = Out(r); o.made = sorted(x for x in r.files() if x not in f); o.errtxt = r.err
        return o
    return pool.run(f, env={"VERIF_SCRIPT": ""}, post=post)


def verdict(name, f, valid):
    o = run(f)
    ck.count(1, 1, 1)
    rep = dict(files={k: (v if isinstance(v, str) else repr(v)) for k, v in f.items()}, status=o.status, err=o.errtxt, made=o.made)
    if valid:
        return o if ck.expect(o.ok and len(o.evol.rows) == 2, "%s: valid mesh, yet the run ended with %s: %s" % (name, o.status, o.errtxt[-200:]), rep) else None
    ck.expect(o.status != "exit 0" and o.status != "timeout" and o.status != "signal 11", "%s: this mesh must be refused, yet the run ended with %s" % (name, o.status), rep)
    ck.expect(o.errtxt.strip() != "", "%s: refused without a message" % name, rep)
    ck.expect(not o.made, "%s: refused, but %s was written" % (name, o.made), rep)
    return None


# ---- 1. sharing rules: every multiset (multiplicity <= 2) of surface triangles over all node triples
def legal(tets, tris):
    face = {}
    for r, t in tets:
        for f in itertools.combinations(sorted(t), 3): face.setdefault(f, []).append(r)
    if any(len(v) > 2 for v in face.values()): return False
    cnt = {}
    for s, t in tris: cnt[tuple(sorted(t))] = cnt.get(tuple(sorted(t)), 0) + 1
    for k, n in cnt.items():
        if n > 1 or k not in face: return False
        if len(face[k]) == 2 and face[k][0] == face[k][1]: return False
    return True


jobs = []
TRIPLES = list(itertools.combinations(range(5), 3))
for regs in (("v0", "v0"), ("v0", "v1")):
    tets = [(regs[0], TA), (regs[1], TB)]
    base = [c for c in itertools.product((0, 1), repeat=10)]
    multi = [c for c in itertools.product((0, 1, 2), repeat=10) if 2 in c and sum(c) <= (5 if T else 3)]
    for c in base + multi:
        tris = []
        for k, n in enumerate(c):
            for j in range(n):
                a = TRIPLES[k]
                # orientation and surface of a duplicate vary with the position
                tris.append((("s0", "s1")[(k + j) % 2], a if (k + j) % 3 else (a[1], a[0], a[2])))
        jobs.append((regs, tets, tris, PTS[:5]))
# tetrahedra sets: every multiset of three tetrahedra of {A, B, C, A again} over region labels, with and without a triangle
for n in (1, 2, 3, 4):
    for ts in itertools.combinations_with_replacement((TA, TB, TC), n):
        for rg in itertools.product(("v0", "v1"), repeat=n):
            for tri in ([], [("s0", (0, 1, 2))], [("s0", (0, 1, 3))]):
                jobs.append((rg, list(zip(rg, ts)), tri, PTS))


def share(job):
    regs, tets, tris, pts = job
    used = sorted({n for _, t in tets + tris for n in t})  # gmsh drops unused nodes, and the program wants tags 1..N
    q = {n: i for i, n in enumerate(used)}
    m = Mesh([pts[n] for n in used], [(r, tuple(q[n] for n in t)) for r, t in tets], [(r, tuple(q[n] for n in t)) for r, t in tris])
    f = files(m, sorted(set(regs)), sorted({s for s, _ in tris}))
    verdict("tets %s triangles %s" % (tets, tris), f, legal(tets, tris))


pool.map(share, jobs)

# ---- 2. missing faces behave as if listed in a default region
MV = {"mm": {"v0": dict(MAT), "v1": dict(MAT)}, "md": {"v0": dict(MAT), "v1": dict(MAT, Ms=4e5)}, "mn": {"v0": dict(MAT), "v1": dict(Ms=0.)}, "nm": {"v0": dict(Ms=0.), "v1": dict(MAT)}}
bases = {}
FACES = [t for t in TRIPLES if legal([("v0", TA), ("v1", TB)], [("s", t)])]


def complete(job):
    mv, sub, two, flip = job
    tris = []
    for k, f in enumerate(FACES):
        if sub >> k & 1: tris.append((("s0", "s1")[k % 2 if two else 0], f if not flip else (f[1], f[0], f[2])))
    m = Mesh(PTS[:5], [("v0", TA), ("v1", TB)], tris)
    o = verdict("listed faces %s" % tris, files(m, ("v0", "v1"), sorted({s for s, _ in tris}), MV[mv]), True)
    if sub == 0 or o is None: return o
    b = bases[mv]
    for k in range(2):
        ra, rb = o.row(k), b.row(k)
        sc = sum(abs(rb[c]) for c in ("E_ex", "E_aniso", "E_demag", "E_zeeman"))
        for c in COLS:
            s = 1. if c[0] == "<" else (1e-12 if c == "t" else sc)
            if not ck.expect(abs(ra[c] - rb[c]) <= 1e-8 * s, "%s: listing faces %s in a surface region changes %s from %.12g to %.12g" % (mv, tris, c, rb[c], ra[c]),
                             dict(msh=m.msh())): return
    ua, ub = np.array(o.sol[1].u), np.array(b.sol[1].u)
    ck.expect(np.allclose(np.nan_to_num(ua), np.nan_to_num(ub), atol=1e-7) and np.allclose(o.sol[1].phi, b.sol[1].phi, rtol=1e-6, atol=1e-11),
              "%s: listing faces %s in a surface region changes the state" % (mv, tris), dict(msh=m.msh()))


for mv in MV: bases[mv] = complete((mv, 0, 0, 0))
pool.map(complete, [(mv, sub, two, flip) for mv in MV if bases[mv] for sub in range(1, 128) for two in (0, 1) for flip in (0, 1) if T or (two, flip) in ((0, 0), (1, 1))])


# ---- 3. element types, dimension, names
def raw(nodes, elems, phys, orphans=0):
    """elems: (gmsh type, physical, nodes)"""
    used = sorted({n for e in elems for n in e[2]})
    q = {n: i for i, n in enumerate(used)}
    nodes, elems = [nodes[n] for n in used] + list(nodes[len(nodes) - orphans:] if orphans else []), [(t, p, tuple(q[n] for n in ns)) for t, p, ns in elems]
    o = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$PhysicalNames", str(len(phys))] + ['%d %d "%s"' % p for p in phys] + ["$EndPhysicalNames"]
    o += ["$Nodes", str(len(nodes))] + ["%d %.9g %.9g %.9g" % ((i + 1,) + tuple(p)) for i, p in enumerate(nodes)] + ["$EndNodes", "$Elements", str(len(elems))]
    o += ["%d %d 2 %d %d %s" % (i + 1, t, p, p, " ".join(str(x + 1) for x in n)) for i, (t, p, n) in enumerate(elems)] + ["$EndElements", ""]
    return "\n".join(o)


CUBE = [(0, 0, 0), (5, 0, 0), (5, 5, 0), (0, 5, 0), (0, 0, 5), (5, 0, 5), (5, 5, 5), (0, 5, 5)]
mid = lambda a, b: tuple((x + y) / 2 for x, y in zip(a, b))
P = PTS[:5] + [(20 + x, y, z) for x, y, z in CUBE]   # 0-4 tets, 5-12 cube
E2 = [(0, 1), (1, 2), (0, 2), (0, 3), (2, 3), (1, 3)]
P2 = PTS[:4] + [mid(PTS[a], PTS[b]) for a, b in E2]
V, S2 = (3, 300, "v0"), (2, 200, "s0")
ELEMS = {  # name: (type, nodes, allowed)
    "tet": (4, (0, 1, 2, 3)), "tri": (2, (0, 1, 2)), "point": (15, (0,)), "line": (1, (0, 1)),
    "quad": (3, (5, 6, 7, 8)), "hexa": (5, tuple(range(5, 13))), "prism": (6, (5, 6, 7, 9, 10, 11)), "pyramid": (7, (5, 6, 7, 8, 9))}
ALLOWED = {"tet", "tri", "point", "line"}
PHY = {"tet": 300, "hexa": 300, "prism": 300, "pyramid": 300, "tri": 200, "quad": 200, "line": 100, "point": 10}
cases = []
for k in range(1, len(ELEMS) + 1):
    for sub in itertools.combinations(ELEMS, k):
        el = [(ELEMS[e][0], PHY[e], ELEMS[e][1]) for e in sub]
        ok = set(sub) <= ALLOWED and "tet" in sub
        cases.append(("elements %s" % "+".join(sub), raw(P, el, [V, S2, (1, 100, "l"), (0, 10, "p")]), ("v0",), ("s0",) if "tri" in sub or "quad" in sub else (), ok))
        # unwanted elements outside every named region
        if not ok and "tet" in sub:
            el = [(ELEMS[e][0], PHY[e] + (7 if e not in ALLOWED else 0), ELEMS[e][1]) for e in sub]
            cases.append(("elements %s in other regions" % "+".join(sub), raw(P, el, [V, S2, (1, 100, "l"), (0, 10, "p"), (3, 307, "x"), (2, 207, "y")]), ("v0",),
                          ("s0",) if "tri" in sub else (), False))
cases.append(("second order tetrahedron", raw(P2, [(11, 300, (0, 1, 2, 3, 4, 5, 6, 7, 9, 8))], [V]), ("v0",), (), False))
cases.append(("second order triangle", raw(P2, [(4, 300, (0, 1, 2, 3)), (9, 200, (0, 1, 2, 4, 5, 6))], [V, S2]), ("v0",), ("s0",), False))
cases.append(("first and second order tetrahedra", raw(P2 + [(3, 2, -6)], [(11, 300, (0, 1, 2, 3, 4, 5, 6, 7, 9, 8)), (4, 300, (0, 2, 1, 10))], [V]), ("v0",), (), False))
# names: all subsets of regions named in the settings against all subsets present in the mesh
for inmesh in itertools.product((0, 1), repeat=4):     # v0 v1 s0 s1
    el, ph = [], []
    if inmesh[0]: el.append((4, 300, TA)); ph.append((3, 300, "v0"))
    if inmesh[1]: el.append((4, 301, TB)); ph.append((3, 301, "v1"))
    if inmesh[2]: el.append((2, 200, (0, 1, 3) if inmesh[0] else (0, 1, 4))); ph.append((2, 200, "s0"))
    if inmesh[3]: el.append((2, 201, (1, 2, 4) if inmesh[1] else (1, 2, 3))); ph.append((2, 201, "s1"))
    if not (inmesh[0] or inmesh[1]): continue
    for named in itertools.product((0, 1), repeat=4):
        if not (named[0] or named[1]): continue
        ok = all(b >= a for a, b in zip(named, inmesh))
        # a triangle named in the settings must lie on a tetrahedron that takes part
        if ok and named[2] and not named[0 if inmesh[0] else 1]: ok = False
        if ok and named[3] and not named[1 if inmesh[1] else 0]: ok = False
        cases.append(("mesh has %s, settings name %s" % (inmesh, named), raw(PTS[:5], el, ph), tuple(n for n, x in zip(("v0", "v1"), named) if x),
                      tuple(n for n, x in zip(("s0", "s1"), named[2:]) if x), ok))
one = [(4, 300, TA), (2, 200, (0, 1, 2))]
for nm, v, s, ok in (("surface named as volume", ("s0",), (), False), ("volume named as surface", ("v0",), ("v0",), False), ("case differs", ("V0",), (), False),
                     ("trailing space", ("v0 ",), (), False), ("same name for a volume and a surface", ("v0",), (), True), ("no region named", (), (), False)):
    cases.append((nm, raw(PTS[:4], one, [V, S2]), v, s, ok))
cases.append(("homonym volume and surface", raw(PTS[:4], one, [V, (2, 200, "v0")]), ("v0",), ("v0",), True))
cases.append(("orphan nodes", raw(PTS[:6], one, [V, S2], 2), ("v0",), ("s0",), True))
cases.append(("no physical names", raw(PTS[:4], one, []), ("v0",), (), False))
cases.append(("only triangles", raw(PTS[:4], one[1:], [S2]), (), ("s0",), False))
cases.append(("empty file", "", ("v0",), (), False))
cases.append(("not a mesh", "hello\nworld\n", ("v0",), (), False))


def typ(c):
    nm, txt, v, s, ok = c
    verdict(nm, files(None, v, s, msh=txt), ok)


pool.map(typ, cases)
f = files(None, msh=""); del f["m.msh"]
verdict("missing mesh file", f, False)

# ---- 4. every prefix of a mesh file that lacks part of the elements is refused
m = grid(1, 1, 1, (5., 5., 5.), region=lambda i, j, k: "v0", surface=lambda c, r: "s0" if all(abs(q[2]) < 1e-9 for q in c) else None)
lines = m.msh().split("\n")
end = lines.index("$EndElements")
cuts = []
for n in range(end): cuts.append(("file cut before line %d '%s'" % (n, lines[n]), "\n".join(lines[:n]) + "\n", False))
cuts.append(("whole file", m.msh(), True))
pool.map(lambda c: verdict(c[0], files(None, ("v0",), ("s0",), msh=c[1]), c[2]), cuts)

# ---- 5. file formats: the same mesh in every text and binary version
prog = r"""
import gmsh, sys
gmsh.initialize(); gmsh.option.setNumber("General.Terminal", 0)
gmsh.open(sys.argv[1])
for v in (2.2, 4.0, 4.1):
    for b in ((0,) if v == 4.0 else (0, 1)):
        gmsh.option.setNumber("Mesh.MshFileVersion", v); gmsh.option.setNumber("Mesh.Binary", b)
        gmsh.write("%s/%s_%d.msh" % (sys.argv[2], v, b))
"""
ms = {"two": Mesh(PTS[:5], [("v0", TA), ("v1", TB)], [("s0", (0, 1, 3)), ("s1", (0, 1, 2))]), "box": grid(1, 1, 2, (6., 5., 4.), region=lambda i, j, k: "v%d" % k, surface=lambda c, r: "s0" if len(r) == 2 else ("s1" if c[0][0] == c[1][0] == c[2][0] == 0 else None))}
nf = 0
for nm, m in ms.items():
    d = tempfile.mkdtemp(prefix="fgm.")
    try:
        open(d + "/in.msh", "w").write(m.msh())
        r = subprocess.run(["/usr/bin/python3", "-c", prog, d + "/in.msh", d], capture_output=True, text=True)
        if r.returncode: raise SystemExit("HARNESS-ERROR: gmsh conversion failed: " + r.stderr[-500:])
        sp = {"s0": dict(suppress_charges=True)}
        mt = {"v1": dict(MAT, Ms=5e5)}
        mag = Raw('["1+x*1e8", "z*2e8", 0.3]')
        b = None
        for k in [None] + sorted(x for x in os.listdir(d) if x != "in.msh"):
            f = files(None, ("v0", "v1"), ("s0", "s1"), mt, msh=open(d + "/" + (k or "in.msh"), "rb").read(), sp=sp, mag="@")
            f["s.yml"] = f["s.yml"].replace('"@"', str(mag))
            o = verdict("%s, format %s" % (nm, k or "2.2 text"), f, True)
            nf += 1
            if o is None: continue
            if k is None: b = o; continue
            if b is None: continue
            same = all(close(x, y, 1e-6, 1e-8 * abs(rb[-1])) for ra, rb in zip(o.evol.rows, b.evol.rows) for x, y in zip(ra, rb))
            # gmsh renumbers the nodes: rows are matched by value
            ua, ub = np.array(o.sol[1].u), np.array(b.sol[1].u)
            dd = np.abs(ua[:, None, :] - ub[None, :, :]).max(-1)
            ck.expect(same and ua.shape == ub.shape and (dd.min(0) < 1e-6).all() and (dd.min(1) < 1e-6).all(), "%s: results differ when the mesh is stored in format %s" % (nm, k), None)
    finally:
        shutil.rmtree(d)


# ---- 6. node tags: any order of the lines gives the same run; gaps are refused or harmless
def tagged(tags, order, m):
    o = m.msh().split("\n")
    i, j, k = o.index("$Nodes"), o.index("$EndNodes"), o.index("$Elements")
    nl = [" ".join([str(tags[q])] + o[i + 2 + q].split()[1:]) for q in range(len(m.nodes))]
    el = []
    for l in o[k + 2:o.index("$EndElements")]:
        w = l.split()
        el.append(" ".join(w[:5] + [str(tags[int(x) - 1]) for x in w[5:]]))
    return "\n".join(o[:i + 2] + [nl[q] for q in order] + o[j:k + 2] + el + ["$EndElements", ""])


TM = Mesh(PTS[:5], [("v0", TA), ("v1", TB)], [("s0", (0, 1, 3))])
tmag = Raw('["1+x*1e8", "z*2e8", 0.3]')


def tag_run(nm, txt, ok=None):
    f = files(None, ("v0", "v1"), ("s0",), {"v1": dict(MAT, Ms=5e5)}, msh=txt, mag="@")
    f["s.yml"] = f["s.yml"].replace('"@"', str(tmag))
    if ok: return verdict(nm, f, True)
    o = pool.run(f, post=Out)
    ck.count(1, 1, 1)
    ck.expect(not o.timeout and not (o.sig and o.sig != 6), "%s: %s" % (nm, o.status), dict(msh=txt))
    if o.rc != 0:
        ck.expect(o.evol is None and not o.sol, "%s: refused after output was written" % nm, dict(msh=txt))
        return None
    return o


tb = tag_run("tags 1..5", tagged(range(1, 6), range(5), TM), True)


def tag_case(job):
    tags, order = job
    txt = tagged(tags, order, TM)
    nm = "node tags %s listed in the order %s" % (list(tags), list(order))
    o = tag_run(nm, txt, sorted(tags) == [1, 2, 3, 4, 5])
    if o is None or tb is None: return
    if not ck.expect(bool(o.evol) and len(o.evol.rows) == len(tb.evol.rows) and not o.bad, "%s: %s" % (nm, o.status), dict(msh=txt)): return
    same = all(close(x, y, 1e-6, 1e-8 * abs(rb[-1])) for ra, rb in zip(o.evol.rows, tb.evol.rows) for x, y in zip(ra, rb))
    ua, ub = np.array(o.sol[1].u), np.array(tb.sol[1].u)
    if sorted(tags) == [1, 2, 3, 4, 5]: ua = ua[[t - 1 for t in tags]]
    ck.expect(same and ua.shape == ub.shape and np.abs(ua - ub).max() < 1e-6, "%s: accepted with other results" % nm, dict(msh=txt))


tj = [(p, range(5)) for p in itertools.permutations(range(1, 6))] + [(range(1, 6), p) for p in itertools.permutations(range(5))]
tj += [(tuple(t for t in range(1, 7) if t != g), range(5)) for g in range(1, 6)]            # one gap
tj += [(tuple(t + o for t in range(1, 6)), range(5)) for o in (1, 2, 4, 5, 10, 1000)]       # shifted
tj += [(tuple(o * t for t in range(1, 6)), range(5)) for o in (2, 3, 100)]                  # spread
tj += [((1, 2, 3, 4, t), range(5)) for t in (6, 7, 9, 10, 100, 10 ** 6)] + [((t, 2, 3, 4, 5), range(5)) for t in (6, 7, 100)]
pool.map(tag_case, tj if tb else [])

# ---- 7. mesh entities that belong to no, one or several physical groups, some of them without a name
def msh41(vols, surfs, names):
    """vols: [(tet, [physical tags])], surfs: [(triangle, [tags])], names: [(dim, tag, name)]"""
    o = ["$MeshFormat", "4.1 0 8", "$EndMeshFormat", "$PhysicalNames", str(len(names))] + ['%d %d "%s"' % n for n in names] + ["$EndPhysicalNames"]
    o += ["$Entities", "0 0 %d %d" % (len(surfs), len(vols))]
    for l in (surfs, vols):
        o += ["%d -9 -9 -9 99 99 99 %d %s 0" % (i + 1, len(t), " ".join(map(str, t))) if t else "%d -9 -9 -9 99 99 99 0 0" % (i + 1) for i, (_, t) in enumerate(l)]
    o += ["$EndEntities", "$Nodes", "1 5 1 5", "3 1 0 5"] + [str(i + 1) for i in range(5)] + ["%.9g %.9g %.9g" % tuple(map(float, p)) for p in PTS[:5]] + ["$EndNodes"]
    ne = len(vols) + len(surfs)
    o += ["$Elements", "%d %d 1 %d" % (ne, ne, ne)]
    k = 0
    for d, ty, l in ((2, 2, surfs), (3, 4, vols)):
        for i, (e, _) in enumerate(l):
            k += 1
            o += ["%d %d %d 1" % (d, i + 1, ty), " ".join(str(x) for x in (k,) + tuple(n + 1 for n in e))]
    return "\n".join(o + ["$EndElements", ""])


GT = {"v0": 300, "v1": 301, "s0": 200, "s1": 201, "": 999}
SUBV = [("v0",), ("v1",), ("v0", "v1"), ("v1", "v0"), ("v0", ""), ("", "v0"), ()]
SUBS = [("s0",), ("s1",), ("s0", "s1"), ("s1", "s0"), ("s1", ""), ("", "s1"), ()]
GTET, GTRI = (TA, TB), ((0, 1, 3), (0, 2, 4))
GSP = {"s0": dict(Ks=1e-3, uk=[0, 1, 1]), "s1": dict(Ks=-2e-3, uk=[1, 0, 1])}
GMT = {"v1": dict(MAT, Ms=5e5)}


def groups(job):
    mem, named = job     # groups of the two tetrahedra and of the two triangles; regions of the settings
    take = [[g for g in dict.fromkeys(m) if g in named] for m in mem]
    if any(len(t) > 1 for t in take[:2]): return        # the same tetrahedron in two regions: not specified
    present = {g for m in mem for g in m}
    ok = set(named) <= present and any(take[:2]) and all(len(t) < 2 for t in take[2:]) and not (take[2] and not take[0]) and not (take[3] and not take[1])
    names = [(3 if g[0] == "v" else 2, GT[g], g) for g in ("v0", "v1", "s0", "s1") if g in present]
    txt = msh41([(t, [GT[g] for g in m]) for t, m in zip(GTET, mem)], [(t, [GT[g] for g in m]) for t, m in zip(GTRI, mem[2:])], names)
    vs, ss = [g for g in named if g[0] == "v"], [g for g in named if g[0] == "s"]
    nm = "entities in the groups %s, settings name %s" % (mem, named)

    def fs(msh):
        f = files(None, vs, ss, GMT, msh=msh, sp=GSP, mag="@")
        f["s.yml"] = f["s.yml"].replace('"@"', str(tmag))
        return f
    o = verdict(nm, fs(txt), ok)
    if o is None or not all(take[:2]): return
    m = Mesh(PTS[:5], [(take[i][0], t) for i, t in enumerate(GTET)], [(take[2 + i][0], t) for i, t in enumerate(GTRI) if take[2 + i]])
    b = verdict(nm + ", as one group each", fs(m.msh()), True)
    if b is None: return
    same = all(close(x, y, 1e-6, 1e-8 * abs(rb[-1])) for ra, rb in zip(o.evol.rows, b.evol.rows) for x, y in zip(ra, rb))
    ua, ub = np.array(o.sol[1].u), np.array(b.sol[1].u)
    ck.expect(same and np.abs(ua - ub).max() < 1e-6, "%s: results differ from those of a mesh where each belongs to its region only" % nm, dict(msh=txt, settings=fs(txt)["s.yml"]))


gj = []
NAMED = [v + s for v in (("v0",), ("v1",), ("v0", "v1"), ("v1", "v0")) for s in ((), ("s0",), ("s1",), ("s0", "s1"))]
for mem in itertools.product(SUBV, SUBV, SUBS, SUBS):
    if not T and sum(len(m) != 1 for m in mem) > 2: continue
    for named in NAMED:
        if T or len(set(mem[0] + mem[1]) & {"v0", "v1"}) == len([g for g in named if g[0] == "v"]): gj.append((mem, named))
pool.map(groups, gj)

# ---- 8. the same rules on meshes with many faces: a defect anywhere in the list is found, completion covers every face
def large(job):
    n, what, pos, order = job
    full = grid(n, n, n, (4., 4., 4.), region=lambda i, j, k: "v%d" % (2 * k >= n))
    faces = sorted(full.outer_faces().items())     # face -> incidences
    outer = [l[0][1] for k, l in faces if len(l) == 1]
    cnt = {}
    for r, t in full.tets:
        for f in itertools.combinations(sorted(t), 3): cnt.setdefault(f, []).append(r)
    inter = [f for f, l in cnt.items() if len(l) == 2 and l[0] != l[1]]
    inner = [f for f, l in cnt.items() if len(l) == 2 and l[0] == l[1]]
    tris = [("s0", t) for t in outer] + [("s1", t) for t in inter]
    ok = True
    at_ = lambda l: l[{"first": 0, "mid": len(l) // 2, "last": len(l) - 1}[pos]]
    if what == "some": tris = tris[::2]
    elif what == "none": tris = []
    elif what == "twice": tris.append(at_(tris)); ok = False
    elif what == "twice, other region": t = at_(tris); tris.append(("s1" if t[0] == "s0" else "s0", t[1][::-1])); ok = False
    elif what == "inner": tris.append(("s1", at_(inner))); ok = False
    elif what == "stray": t = at_(outer); far = max(range(len(full.nodes)), key=lambda q: sum((a - b) ** 2 for a, b in zip(full.nodes[q], full.nodes[t[0]]))); tris.append(("s1", (t[0], t[1], far))); ok = False
    elif what == "tet twice": full.tets.append(at_(full.tets)); ok = False
    if order == "rev": tris = tris[::-1]; full.tets = full.tets[::-1]
    elif order == "mix": tris = tris[1::3] + tris[::3] + tris[2::3]; full.tets = full.tets[1::2] + full.tets[::2]
    full.tris = tris
    o = verdict("%d^3 cells, %s (%s, %s)" % (n, what, pos, order), files(full, ("v0", "v1"), sorted({s for s, _ in tris}), {"v1": dict(MAT, Ms=5e5)}), ok)
    if what in ("all", "some", "none"): BIG[n, what, order] = o, full


BIG = {}
LN = (5, 7) if not T else (5, 7, 9, 11)
pool.map(large, [(n, w, p, o) for n in LN for o in ("std", "rev", "mix") for w, ps in (("all", ("first",)), ("some", ("first",)), ("none", ("first",)), ("twice", ("first", "mid", "last")), ("twice, other region", ("first", "mid", "last")),
                 ("inner", ("first", "mid", "last")), ("stray", ("first", "mid", "last")), ("tet twice", ("first", "mid", "last"))) for p in ps])
for (n, w, o_), (o, m) in BIG.items():
    b = BIG[n, "all", "std"][0]
    if o is None or b is None: continue
    for ra, rb in zip(o.evol.rows, b.evol.rows):
        sc = sum(abs(x) for x in rb[4:8])
        ck.expect(all(abs(x - y) <= 2e-4 * (1. if 0 < c < 4 else sc) for c, (x, y) in enumerate(zip(ra, rb)) if c), "%d^3 cells: %s faces listed, order %s: %r instead of %r" % (n, w, o_, ra, rb), None)
print(len(jobs), len(cases), len(cuts), nf, len(gj))
ck.sample(str(jobs[0])); ck.sample(cases[-1][0]); ck.sample(cuts[10][0])
pool.close()
ck.finish(exhaustive=True)
