import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C10")
T = TIER == "thorough"
pool = Pool(build_program())
worst = [0., 0.]


def selftest():
    """the closed form used by the reference for the potential of a triangle at its own corner, against brute force"""
    for pts in ([(0, 0, 0), (3, 1, 0), (1, 4, 2)], [(0, 0, 0), (1, 0, 0), (5, 1, 0)], [(1, 1, 1), (2, 1, 1), (1, 1, 4)]):
        m = Mesh(pts + [(2, 3, 17)], [("v", (0, 1, 2, 3))])
        r = R.Ref(m, scale=1.)
        for i in range(3):
            s = np.array([.3, -1.2, .7])
            c = r._corner((0, 1, 2), i, s, .5 * np.linalg.norm(np.cross(r.p[1] - r.p[0], r.p[2] - r.p[0])))
            p1, p2, p3 = (r.p[(i + k) % 3] for k in range(3)); s1, s2, s3 = (s[(i + k) % 3] for k in range(3))
            x, w = np.polynomial.legendre.leggauss(400)
            t = (x + 1) / 2; w = w / 2
            S2 = np.linalg.norm(np.cross(p2 - p1, p3 - p1))
            d = np.linalg.norm((p2 - p1)[None] + t[:, None] * (p3 - p2)[None], axis=1)
            q = (w * S2 / d * (.5 * s1 + .5 * ((1 - t) * s2 + t * s3))).sum()
            assert abs(q - c) < 1e-8 * abs(S2 / d.min()), ("corner potential", pts, i, q, c)


def js(p, u):
    return Raw("|\n  function(x,y,z){ var P=%s, U=%s, b=0, d=1e9; for (var i=0;i<P.length;i++){ var e=Math.abs(P[i][0]-x)+"
               "Math.abs(P[i][1]-y)+Math.abs(P[i][2]-z); if (e<d) {d=e;b=i;} } return U[b]; }" % (json.dumps(p.tolist()), json.dumps(u.tolist())))


def one(job):
    mesh, mats, surfs, scale, u, name = job
    r = R.Ref(mesh, mats, surfs, scale)
    S = settings(mats, surfs, (0, 0, 0), cols=["t", "E_demag"], n=0, step=1e-15)
    S["mesh"]["length_unit"] = scale
    nonmag = not r.magN.all()
    if nonmag: S["initial_magnetization"] = js(r.p, u)
    o = simulate(pool, mesh, S, None if nonmag else u)
    rep = dict(settings=yaml_dump(S), msh=mesh.msh(), u=u.tolist(), err=o.err, out=o.out)
    if not ck.expect(o.ok and len(o.evol.rows) == 1 and 0 in o.sol, "%s: run failed: %s" % (name, o.status), rep): return None
    um = np.where(r.magN[:, None], u, 0)
    phi = r.phi(um)
    got = np.array(o.sol[0].phi)
    # scale: potential of the same mesh if all charges had the same sign would be of order Ms*size
    sc = r.Ms.max() * scale * 5
    d = np.abs(got - phi)
    worst[0] = max(worst[0], d.max() / sc)
    if not ck.expect(len(got) == r.N and d.max() <= 1e-7 * sc, "%s: potential at node %d is %.9g, the magnetic charges give %.9g" %
                     (name, d.argmax(), got[d.argmax()], phi[d.argmax()]), rep): return None
    z = np.zeros(3)
    E = r.energies(u, phi, z)["E_demag"]
    se = r.esc(u, phi, z)["E_demag"]
    x = o.row(0)["E_demag"]
    worst[1] = max(worst[1], abs(x - E) / se if se else 0)
    if not ck.expect(abs(x - E) <= 1e-9 * se + 1e-40, "%s: E_demag %.12g, charges and potential give %.12g" % (name, x, E), rep): return None
    ck.count(1, r.N + 1, 1)
    return x, got, se


def tet(k):
    return Mesh([[(0, 0, 0), (8, 0, 0), (0, 8, 0), (0, 0, 8)], [(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)],
                 [(0, 0, 0), (20, 0, 1), (18, 3, 0), (10, 1, 2)]][k], [("v0", (0, 1, 2, 3))])


def box(o=(0., 0., 0.)):
    return grid(1, 1, 2, (6., 7., 5.), origin=o, region=lambda i, j, k: "v%d" % k,
                surface=lambda q, r: ("I" if len(r) == 2 else "Z0" if all(p[2] == o[2] for p in q) else "X0" if all(p[0] == o[0] for p in q) else None))


def flipped(m, mask):
    """reverse the orientation of the surface triangles selected by the bit mask"""
    n = Mesh(m.nodes, m.tets, [(g, t[::-1] if mask >> i & 1 else t) for i, (g, t) in enumerate(m.tris)])
    return n


selftest()
jobs, rel = [], []
M = lambda ms: dict(Ms=ms)
for k in range(3):
    for conf in itertools.product(range(4), repeat=4):
        if not T and k and (conf[0] + conf[3]) % 2: continue
        jobs.append((tet(k), {"v0": M(8e5)}, None, 1e-9, np.array([SMALL[i] for i in conf]), "tet%d/u=%s" % (k, conf)))
for a, b in itertools.product((8e5, 4e5, 0.), repeat=2):
    if a + b == 0: continue
    for sup in itertools.product((False, True), repeat=3):
        for uk in range(12 if T else 4):
            m = flipped(box(((0, 0, 0), (-30., -40., -50.), (1e3, 2e3, -500.))[uk % 3]), (0, 0b1010101, 0b1111111, 0b0110010)[uk % 4])
            u = np.array([ALPHA[(i * (uk + 1) + uk) % len(ALPHA)] for i in range(len(m.nodes))])
            jobs.append((m, {"v0": M(a), "v1": M(b)}, {g: dict(suppress_charges=s) for g, s in zip(("I", "Z0", "X0"), sup)}, 1e-9, u,
                         "box/Ms=%g,%g/suppress=%s/u%d" % (a, b, sup, uk)))
for mask in range(0, 64 if not T else 128):
    m = flipped(box(), mask)
    u = np.array([ALPHA[(i * 3 + 1) % len(ALPHA)] for i in range(len(m.nodes))])
    jobs.append((m, {"v0": M(8e5), "v1": M(3e5)}, {"I": {}, "Z0": {}, "X0": {}}, 1e-9, u, "orientation mask %d" % mask))
# many charges: every element and node far down the lists counts
for dims, two in (((7, 7, 7), 0), ((7, 7, 7), 1), ((40, 2, 2), 1), ((9, 9, 2), 0), ((2, 2, 60), 2)) + ((((12, 12, 12), 1), ((120, 3, 2), 0)) if T else ()):
    m = grid(*dims, (4., 3., 5.), origin=(-20., 7., 1.), region=lambda i, j, k: "v%d" % ((i + j + k) % 2 if two == 2 else two and 2 * (i + k) >= dims[0] + dims[2]),
             surface=lambda q, r: "I" if len(r) == 2 and r[0] != r[1] else "X0" if all(p[0] == -20. for p in q) else None)
    for uk in range(3):
        u = np.array([unitv(1 + .1 * i, math.sin(.3 * i + uk), math.cos(.017 * i)) if uk else ALPHA[(i * 5 + 1) % len(ALPHA)] for i in range(len(m.nodes))])
        jobs.append((m, {g: M(8e5 if g == "v0" else (3e5 if uk < 2 else 0.)) for g in sorted({g for g, _ in m.tets})}, {g: dict(suppress_charges=uk == 1) for g in sorted({g for g, _ in m.tris})}, 1e-9, u, "%s cells%s/u%d" % (dims, ", two regions" if two else "", uk)))
res = pool.map(one, jobs)
# along a run, whatever the attempts: each saved potential belongs to the magnetization saved with it
def along(job):
    mesh, mats, surfs, u, script, kind, name = job
    r = R.Ref(mesh, mats, surfs, 1e-9)
    S = settings(mats, surfs, (.4, -.7, .5), cols=["t", "E_demag"], n=3, step=2e-12, dtmin=1e-14, dtmax=1e-12, du=.5)
    nonmag = not r.magN.all()
    if nonmag: S["initial_magnetization"] = js(r.p, u)
    o = simulate(pool if kind == 2 else pool1, mesh, S, None if nonmag else u, env={"VERIF_SCRIPT": script, "VERIF_DUMAX": "0.5"})
    rep = dict(settings=yaml_dump(S), msh=mesh.msh(), u=u.tolist(), script=script, err=o.err)
    nm = "%s, history '%s', order-%d build" % (name, script, kind)
    if not ck.expect(o.ok and len(o.evol.rows) == 4 and all(k in o.sol for k in range(4)), "%s: run failed: %s" % (nm, o.status), rep): return
    sc = r.Ms.max() * 1e-9 * 5
    for k in range(4):
        uk = np.where(r.magN[:, None], np.array(o.sol[k].u), 0)
        phi, got = r.phi(uk), np.array(o.sol[k].phi)
        d = np.abs(got - phi)
        worst[2] = max(worst[2], d.max() / sc)
        if not ck.expect(d.max() <= 1e-6 * sc, "%s, snapshot %d: potential at node %d is %.9g, the magnetic charges of the saved state give %.9g" % (nm, k, d.argmax(), got[d.argmax()], phi[d.argmax()]), rep): return
        z = np.zeros(3)
        E, se, x = r.energies(uk, phi, z)["E_demag"], r.esc(uk, phi, z)["E_demag"], o.row(k)["E_demag"]
        if not ck.expect(abs(x - E) <= 3e-6 * se + 1e-40, "%s, row %d: E_demag %.12g, the saved state gives %.12g" % (nm, k, x, E), rep): return
        ck.count(1, r.N + 1)
    ck.count(0, 0, 1)
    moved = np.abs(np.array(o.sol[3].u)[r.magN] - np.array(o.sol[0].u)[r.magN]).max()
    ck.expect(moved > .01, "%s: the magnetization did not move (%g)" % (nm, moved), rep)


worst.append(0.)
pool1 = Pool(build_program(first_order=True))
runs = []
for kind in (2, 1):
    for uk in range(8 if T else 3):
        for sc in ("", "R", "F", "AR", "ARFA", "RRA") + (("AF", "AAR", "FFA", "RAFR") if T else ()):
            m = tet(uk % 3)
            u = np.array([ALPHA[(i * (uk + 1) + uk) % len(ALPHA)] for i in range(4)])
            runs.append((m, {"v0": dict(Ms=8e5, Ae=1e-11, alpha_LLG=.2)}, None, u, sc, kind, "tet%d/u%d" % (uk % 3, uk)))
            m = box((-30., 4., 5.))
            u = np.array([ALPHA[(i * (uk + 1) + uk) % len(ALPHA)] for i in range(len(m.nodes))])
            for a, b in ((8e5, 4e5), (0., 6e5)):
                runs.append((m, {"v0": dict(Ms=a, Ae=1e-11, alpha_LLG=.2), "v1": dict(Ms=b, Ae=1e-11, alpha_LLG=.3)}, {"I": {}, "Z0": dict(suppress_charges=True), "X0": {}}, u, sc, kind, "box/Ms=%g,%g/u%d" % (a, b, uk)))
# few charged triangles: every choice of charged faces of a tetrahedron and of a box, several evaluations
for sup in itertools.product((False, True), repeat=4):
    for uk in range(3 if T else 1):
        m = tet(uk % 3)
        m.tris = [("s%d" % i, l[0][1]) for i, l in enumerate(m.outer_faces().values())]
        u = np.array([ALPHA[(i * (uk + 1) + uk) % len(ALPHA)] for i in range(4)])
        for kind in (2, 1):
            runs.append((m, {"v0": dict(Ms=8e5, Ae=1e-11, alpha_LLG=.2)}, {"s%d" % i: dict(suppress_charges=x) for i, x in enumerate(sup)}, u, "AR", kind, "tet, suppressed %s/u%d" % (sup, uk)))
BF = ((2, 0.), (2, 10.), (0, 0.), (0, 6.), (1, 0.), (1, 7.))
for sup in itertools.product((False, True), repeat=6):
    if not T and sum(sup) < 4: continue
    m = grid(1, 1, 2, (6., 7., 5.), region=lambda i, j, k: "v0", surface=lambda q, r: next(("f%d" % i for i, (ax, v) in enumerate(BF) if len(r) == 1 and all(p[ax] == v for p in q)), None))
    u = np.array([ALPHA[(i * 2 + 1) % len(ALPHA)] for i in range(len(m.nodes))])
    runs.append((m, {"v0": dict(Ms=8e5, Ae=1e-11, alpha_LLG=.2)}, {"f%d" % i: dict(suppress_charges=x) for i, x in enumerate(sup)}, u, "AR", 2, "box, suppressed %s" % (sup,)))
pool.map(along, runs)
pool1.close()
# relations between runs: reversal, Ms and length scaling, uniform states have positive energy
for k in range(3):
    for conf in itertools.product(range(4), repeat=4):
        if sum(conf) % (1 if T else 3): continue
        u = np.array([SMALL[i] for i in conf])
        b = (tet(k), {"v0": M(6e5)}, None, 1e-9)
        rel.append(((conf, k), b + (u, "rel"), b + (-u, "reversed"), (tet(k), {"v0": M(12e5)}, None, 1e-9, u, "2Ms"),
                    (tet(k), {"v0": M(6e5)}, None, 2e-9, u, "2x length")))
out = pool.map(one, [j for x in rel for j in x[1:]])
for i, x in enumerate(rel):
    a, b, c, d = out[4 * i:4 * i + 4]
    if None in (a, b, c, d): continue
    f = lambda what, p, q, s: ck.expect(abs(p - q) <= 1e-9 * s, "%s %s: %.12g vs %.12g" % (what, x[0], p, q), dict(case=str(x[0])))
    f("E_demag changes when M is reversed", b[0], a[0], a[2])
    f("E_demag does not scale as Ms^2", c[0], 4 * a[0], 4 * a[2])
    f("E_demag does not scale as volume", d[0], 8 * a[0], 8 * a[2])
    ck.count(transitions=3)
un = []
for d in ALPHA:
    for m in (tet(0), tet(1), grid(2, 2, 2, (5., 5., 5.)), grid(3, 1, 1, (5., 5., 5.))):
        un.append((m, {g: M(8e5) for g, _ in m.tets}, None, 1e-9, np.array([d] * len(m.nodes)), "uniform %s" % np.round(d, 2)))
for j, x in zip(un, pool.map(one, un)):
    if x: ck.expect(x[0] > 0, "%s: demag energy %g of a uniformly magnetized body is not positive" % (j[-1], x[0]))
print("worst potential deviation %.2g, energy %.2g, %d runs" % (worst[0], worst[1], len(jobs) + len(out) + len(un)))
for j in (jobs[0], jobs[-1]): ck.sample({"case": j[-1]})
pool.close()
ck.assumptions = ["ScalFMM replaced by an exact direct sum with the same interface (ScalFMM is not available in the sandbox)"]
ck.finish(exhaustive=True)
