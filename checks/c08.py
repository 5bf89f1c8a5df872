import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C08")
T = TIER == "thorough"
pool = Pool(build_program())
PS = 1e-12
# materials deliberately without symmetry, so that any mix-up shows
MATS = {"v0": dict(Ae=1.3e-11, Ms=8e5, alpha_LLG=.1, K=3e5, uk=(.6, .0, .8)), "v1": dict(Ae=9e-12, Ms=5e5, alpha_LLG=.3, K3=2e5),
        "v2": dict(Ms=0.), "v3": dict(Ae=1e-11, Ms=6e5, alpha_LLG=.2, K=-2e5, uk=(0., .6, .8))}
SURF = {"s0": dict(Ks=2e-3, uk=(0., 0., 1.)), "s1": dict(suppress_charges=True), "s2": dict(Ks=-1e-3, uk=(.8, .6, 0.)), "s3": {}}
B = np.array((.2, -.1, .3))
worst = {}


def base_tet():
    m = Mesh([(0, 0, 0), (7, 1, 0), (1, 6, 0), (2, 1, 5)], [("v0", (0, 1, 2, 3))])
    fs = sorted(m.outer_faces().items())
    m.tris = [("s0", fs[0][1][0][1]), ("s1", fs[1][1][0][1]), ("s2", fs[2][1][0][1])]
    return m


def base_two():
    m = Mesh([(0, 0, 0), (7, 1, 0), (1, 6, 0), (2, 1, 5), (3, 2, -6)], [("v0", (0, 1, 2, 3)), ("v1", (0, 2, 1, 4))])
    m.tris = [("s3", (0, 1, 2)), ("s0", (0, 1, 4)), ("s1", (1, 2, 3))]
    return m


def base_stack():
    return grid(1, 1, 3, (6., 5., 4.), region=lambda i, j, k: "v%d" % (k if k < 2 else 3),
                surface=lambda c, r: "s1" if len(r) == 1 and all(abs(q[0]) < 1e-9 for q in c) else ("s3" if len(r) == 2 else None))


def base_nm():
    return grid(1, 1, 3, (5., 6., 4.), region=lambda i, j, k: ("v0", "v2", "v1")[k],
                surface=lambda c, r: "s0" if len(r) == 1 and all(abs(q[2]) < 1e-9 for q in c) else None)


BASES = {"tet": base_tet(), "two": base_two(), "stack": base_stack(), "nm": base_nm()}


def js(p, u):
    return Raw("|\n  function(x,y,z){ var P=%s, U=%s, b=0, d=1e9; for (var i=0;i<P.length;i++){ var e=Math.abs(P[i][0]-x)+"
               "Math.abs(P[i][1]-y)+Math.abs(P[i][2]-z); if (e<d) {d=e;b=i;} } return U[b]; }" % (json.dumps(p.tolist()), json.dumps(u.tolist())))


class Var:
    """a way of writing the same problem down"""

    def __init__(self, base, name, perm=None, tetp=None, trip=None, teto=None, trio=None, vols=None, surfs=None, yv=None, rot=None,
                 shift=(0, 0, 0), unit=1.0, gvols=None, gsurfs=None, mode="full"):
        m = BASES[base]
        self.base, self.name = base, "%s/%s" % (base, name)
        n = len(m.nodes)
        self.perm = list(perm) if perm is not None else list(range(n))  # old index -> new index
        self.rot = np.array(rot if rot is not None else np.eye(3), float)
        p = [None] * n
        for i, q in enumerate(m.nodes):
            p[self.perm[i]] = tuple((self.rot @ (np.array(q)) + np.array(shift)) / unit)
        tets = [(r, tuple(self.perm[t[j]] for j in (tetp[k] if tetp else range(4)))) for k, (r, t) in enumerate(m.tets)]
        tris = [(r, tuple(self.perm[t[j]] for j in (trip[k] if trip else range(3)))) for k, (r, t) in enumerate(m.tris)]
        if teto: tets = [tets[k] for k in teto]
        if trio: tris = [tris[k] for k in trio]
        self.mesh = Mesh(p, tets, tris)
        self.gv, self.gs = gvols, gsurfs
        regs = yv or sorted({r for r, _ in tets})
        sr = surfs or sorted({r for r, _ in tris})
        R3 = lambda v: [float(x) for x in self.rot @ np.array(v)]
        mats = {}
        for g in regs:
            d = dict(MATS[g])
            if mode == "nocubic": d.pop("K3", None)
            if "uk" in d: d["uk"] = R3(d["uk"])
            if "K3" in d: d.update(ex=R3((1, 0, 0)), ey=R3((0, 1, 0)), ez=R3((0, 0, 1)))
            mats[g] = d
        sf = {}
        for g in sr:
            d = dict(SURF[g])
            if "uk" in d: d["uk"] = R3(d["uk"])
            sf[g] = d
        self.mats, self.regs = mats, sorted(regs)
        u = np.array([unitv(1 + .3 * i, math.sin(2. * i + 1), .7 * math.cos(3. * i)) for i in range(n)])
        self.un = np.empty((n, 3))
        for i in range(n): self.un[self.perm[i]] = self.rot @ u[i]
        self.cols = ["t"] + ["<M%s>" % c for c in "xyz"] + ["<dM%s/dt>" % c for c in "xyz"] + \
            ["%s:<M%s>" % (g, c) for g in self.regs if MATS[g]["Ms"] for c in "xyz"] + ["E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "max_angle", "max_dm"]
        S = settings(mats, sf, self.rot @ B, cols=self.cols, step=.1 * PS, n=2, dtmin=.0001 * PS, dtmax=.05 * PS, du=.5, tol=1e-12)
        if mode == "instant":
            S = settings(mats, sf, self.rot @ B, cols=self.cols, step=1e-17, n=2, du=.5, tol=1e-12)
        S["mesh"]["length_unit"] = unit * 1e-9
        self.scale = unit * 1e-9
        mag = any(MATS[g]["Ms"] == 0 for g in self.regs)
        self.useSol = not mag
        S["initial_magnetization"] = "in.sol" if self.useSol else js(np.array(self.mesh.nodes) * self.scale, self.un)
        self.S = S
        self.mode = mode

    def run(self):
        f = {"m.msh": self.mesh.msh(self.gv, self.gs), "s.yml": yaml_dump(self.S)}
        if self.useSol: f["in.sol"] = in_sol(self.un)
        self.files = f
        return pool.run(f, env={"VERIF_SCRIPT": ""}, post=Out)


REFS = {}
for b, md in itertools.product(BASES, ("full", "nocubic", "instant")):
    v = Var(b, "reference", mode=md)
    o = v.run()
    if not ck.expect(o.ok and len(o.evol.rows) == 3 and len(o.sol) == 3, "%s: reference run failed: %s" % (b, o.status), dict(files=v.files, err=o.err)): ck.finish()
    REFS[b, md] = (v, o)


def one(v):
    o = v.run()
    rv, ro = REFS[v.base, v.mode]
    rep = dict(files=v.files, reference=rv.files, err=o.err)
    if not ck.expect(o.ok and len(o.evol.rows) == 3 and len(o.sol) == 3, "%s: run failed: %s" % (v.name, o.status), rep): return
    for k in range(3):
        a, b = o.row(k), ro.row(k)
        es = sum(abs(b[c]) for c in ("E_ex", "E_aniso", "E_demag", "E_zeeman"))
        vs = max(abs(b["<dM%s/dt>" % c]) for c in "xyz") + 1e9
        for pre in [""] + [g + ":" for g in v.regs if MATS[g]["Ms"]]:
            for q, s in (("M", 1.), ("dM", vs)):
                if q == "dM" and pre: continue
                nm = ["%s<%s%s%s>" % (pre, q, c, "/dt" if q == "dM" else "") for c in "xyz"]
                e = v.rot @ np.array([b[c] for c in nm])
                for c, x in zip(nm, e):
                    w = abs(a[c] - x) / s
                    worst[q] = max(worst.get(q, 0), w)
                    if not ck.expect(w <= (1e-6 if q == "M" else 1e-4), "%s row %d: %s = %.10g, the reference description gives %.10g" % (v.name, k, c, a[c], x), rep): return
        for c in ("E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"):
            w = abs(a[c] - b[c]) / es
            worst["E"] = max(worst.get("E", 0), w)
            if not ck.expect(w <= 1e-6, "%s row %d: %s = %.12g, the reference description gives %.12g" % (v.name, k, c, a[c], b[c]), rep): return
        for c in ("max_angle", "max_dm"):
            if not ck.expect(abs(a[c] - b[c]) <= 1e-5 * (abs(b[c]) + 1e-2), "%s row %d: %s = %.10g, the reference description gives %.10g" % (v.name, k, c, a[c], b[c]), rep): return
        # node i of the mesh file is row i of the .sol file
        u, w = np.array(o.sol[k].u), np.array(ro.sol[k].u)
        ph, pw = np.array(o.sol[k].phi), np.array(ro.sol[k].phi)
        if not ck.expect(len(u) == len(w) and [int(r[0]) for r in o.sol[k].rows] == list(range(len(w))), "%s: snapshot %d has rows %s" % (v.name, k, [r[0] for r in o.sol[k].rows]), rep): return
        for i in range(len(w)):
            x, y = u[v.perm[i]], v.rot @ w[i]
            if np.isnan(w[i]).any():
                ok = np.isnan(x).all()
            else:
                d = np.abs(x - y).max(); worst["u"] = max(worst.get("u", 0), d); ok = d <= 2e-6
            if not ck.expect(ok, "%s snapshot %d: row %d = %s, the same node of the reference description has %s" % (v.name, k, v.perm[i], x, y), rep): return
            d = abs(ph[v.perm[i]] - pw[i]) / np.abs(pw).max()
            worst["phi"] = max(worst.get("phi", 0), d)
            if not ck.expect(d <= 1e-5, "%s snapshot %d: potential of row %d = %.10g, the same node of the reference description has %.10g" %
                             (v.name, k, v.perm[i], ph[v.perm[i]], pw[i]), rep): return
        ck.count(1, 1)
    ck.count(traces=1)


P3, P4, P5 = (list(itertools.permutations(range(n))) for n in (3, 4, 5))
jobs = []
I4, I3 = (0, 1, 2, 3), (0, 1, 2)
for q in P4:  # single tetrahedron: all renumberings x all vertex orders
    for p in P4:
        jobs.append(Var("tet", "nodes%s tet%s" % (q, p), perm=q, tetp=[p]))
for ps in itertools.product(P3, repeat=3):  # all vertex orders of its three surface triangles
    jobs.append(Var("tet", "tris%s" % (ps,), trip=ps))
for q in P4:
    for ps in P3:
        jobs.append(Var("tet", "nodes%s tris%s" % (q, ps), perm=q, trip=[ps] * 3))
for p, q in itertools.product(P4, P4):  # two tetrahedra: all vertex orders
    if T or P4.index(p) % 2 == P4.index(q) % 3 % 2: jobs.append(Var("two", "tets%s%s" % (p, q), tetp=[p, q]))
for q in P5:
    for p in (I4, (1, 0, 2, 3)):
        jobs.append(Var("two", "nodes%s tets%s" % (q, p), perm=q, tetp=[p, I4]))
    if T:
        for ps in P3: jobs.append(Var("two", "nodes%s tris%s" % (q, ps), perm=q, trip=[ps, I3, ps]))
for ps in itertools.product(P3, repeat=3):
    if T or ps[1] in (I3, (1, 0, 2)): jobs.append(Var("two", "tris%s" % (ps,), trip=ps))
for b in ("stack", "nm"):  # element order, region order, in the mesh and in the settings
    m = BASES[b]
    n = len(m.tets)
    regs = sorted({r for r, _ in m.tets})
    for yv in itertools.permutations(regs):
        for gv in itertools.permutations(regs):
            jobs.append(Var(b, "settings order %s mesh order %s" % (yv, gv), yv=list(yv), gvols=list(gv)))
    srs = sorted({r for r, _ in m.tris})
    for sv in itertools.permutations(srs):
        for gs in itertools.permutations(srs):
            jobs.append(Var(b, "surfaces %s %s" % (sv, gs), surfs=list(sv), gsurfs=list(gs)))
    for k in range(n):  # rotations and reversals of the element list
        jobs.append(Var(b, "elements from %d" % k, teto=[(k + i) % n for i in range(n)]))
        jobs.append(Var(b, "elements back from %d" % k, teto=[(k - i) % n for i in range(n)]))
    for i, j in itertools.combinations(range(n), 2):
        o = list(range(n)); o[i], o[j] = o[j], o[i]
        jobs.append(Var(b, "elements %d,%d exchanged" % (i, j), teto=o))
    nt = len(m.tris)
    for k in range(nt):
        jobs.append(Var(b, "triangles from %d" % k, trio=[(k + i) % nt for i in range(nt)]))
    N = len(m.nodes)
    for i, j in itertools.combinations(range(N), 2):  # all transpositions of nodes
        o = list(range(N)); o[i], o[j] = o[j], o[i]
        jobs.append(Var(b, "nodes %d,%d exchanged" % (i, j), perm=o))
    for s in range(1, N):
        jobs.append(Var(b, "nodes rotated by %d" % s, perm=[(i + s) % N for i in range(N)]))
        jobs.append(Var(b, "nodes mirrored at %d" % s, perm=[(s - i) % N for i in range(N)]))
    for k in range(n):  # one element described with another orientation
        for p in P4 if T else P4[1::5]:
            jobs.append(Var(b, "element %d as %s" % (k, p), tetp=[p if i == k else I4 for i in range(n)]))
# the 24 proper rotations of the axes, translations, units of length
rots = []
for p in P3:
    for s in itertools.product((1, -1), repeat=3):
        M = np.zeros((3, 3))
        for i in range(3): M[i, p[i]] = s[i]
        if np.linalg.det(M) > 0: rots.append(M)
c, s = math.cos(.7), math.sin(.7)
gen = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, .6, -.8], [0, .8, .6]])
for b in BASES:
    for k, r in enumerate(rots):
        # the cubic anisotropy is rotated at infinitesimal times only: see KF-C08-1
        jobs.append(Var(b, "axes rotation %d" % k, rot=r, mode="nocubic"))
        jobs.append(Var(b, "general rotation %d" % k, rot=gen @ r, mode="nocubic"))
        jobs.append(Var(b, "axes rotation %d, instant" % k, rot=r, mode="instant"))
        jobs.append(Var(b, "general rotation %d, instant" % k, rot=gen @ r, mode="instant"))
    for sh in itertools.product((-40., 0., 25.), repeat=3):
        jobs.append(Var(b, "shift %s" % (sh,), shift=sh))
    for un in (1e-3, .1, 2.5, 1000.):
        jobs.append(Var(b, "length unit %g nm" % un, unit=un))
pool.map(one, jobs)
# probe of the known finding on the cubic anisotropy's second-order term
v = Var("two", "probe", rot=gen)
o, ro = v.run(), REFS["two", "full"][1]
d = np.abs(np.array([o.row(2)["<M%s>" % c] for c in "xyz"]) - gen @ np.array([ro.row(2)["<M%s>" % c] for c in "xyz"])).max() if o.ok else 9
ck.expect(d < 1e-7, "probe: K3=2e5 with ex, ey, ez rotated together with everything else, two tetrahedra, 0.2 ps: <M> differs%s" % ("" if d < 1e-4 else " by %g" % d))
print("worst:", {k: float(v) for k, v in worst.items()}, len(jobs), "descriptions")
ck.sample(jobs[0].name); ck.sample(jobs[-1].name)
pool.close()
ck.finish(exhaustive=True, descriptions=len(jobs))
