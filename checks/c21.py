import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from spin import *
import itertools

ck = Check("C21")
T = TIER == "thorough"
pool = Pool(build_program())
worst = [0.]
SIG = {"h": 5.8e7, "l": 4e6, "m": 1.7e7}


class VOut(Out):
    def __init__(self, res):
        super().__init__(res)
        v = [f for f in res.files() if f.endswith("_V.sol")]
        self.vfiles = v
        self.V = None
        try:
            if len(v) == 1:
                rows = [l.split() for l in res.read(v[0]).splitlines() if l and l[0] != "#"]
                if [int(r[0]) for r in rows] == list(range(len(rows))): self.V = np.array([float(r[1]) for r in rows])
        except Exception as e:
            self.bad = "unreadable potential file: %r" % e


def perm(m, P, flip):
    """renumber the nodes; flip some triangles' and tetrahedra's orientation"""
    Q = [P.index(i) for i in range(len(P))]
    return Mesh([m.nodes[i] for i in P], [(r, tuple(Q[x] for x in (t[:2] + t[3:] + t[2:3] if flip and i % 2 else t))) for i, (r, t) in enumerate(m.tets)],
                [(r, tuple(Q[x] for x in (t[::-1] if flip and i % 2 else t))) for i, (r, t) in enumerate(m.tris)])


def mats_for(sigs):
    return {"v%d" % i: dict(Ae=1e-11, Ms=8e5 if i % 2 == 0 else 0., P=.5, sigma=SIG[c], dens_state=1.34e47, l_sd=10e-9, l_sf=15e-9) for i, c in enumerate(sigs)}


def run(mesh, mats, surfs, args=("s.yml",)):
    S = spin_settings(mats, surfs, mag=(1, .3, .2), n=0)
    f = {"m.msh": mesh.msh(), "s.yml": yaml_dump(S)}
    return pool.run(f, args=args, env={"VERIF_SCRIPT": ""}, post=VOut), dict(settings=f["s.yml"], msh=f["m.msh"])


def one(job):
    name, mesh, sigs, surfs = job
    mats = mats_for(sigs)
    o, rep = run(mesh, mats, surfs)
    ck.count(states=1, transitions=1, traces=1)
    if not ck.expect(o.V is not None and len(o.V) == len(mesh.nodes) and not o.sig, "%s: no potential file: %s %s" % (name, o.status, o.err[-200:]), rep): return
    ref = Transport(mesh, mats, surfs)
    V = ref.potential()
    D = ref.D
    # the file has 8 decimals; the solver's relative residual is 1e-8, amplified by the condition number
    span = max(V.max() - V.min(), 1e-300)
    scale = max(np.abs(V).max(), 1e-300)
    ck.expect(np.abs(o.V[D] - V[D]).max() <= 1e-8 * max(np.abs(V[D]).max(), 1e-300), "%s: imposed potential not met: %r" % (name, (o.V[D] - V[D]).tolist()), rep)
    tol = 2e-8 * scale + 2e-6 * span
    d = np.abs(o.V - V).max() / tol
    worst[0] = max(worst[0], d)
    ck.expect(d <= 1, "%s: potential %r, expected %r" % (name, o.V.tolist(), V.tolist()), rep)
    # current balance at the free nodes, and the total current through the imposed surface leaves through the other one
    if span > 1e-4 * scale:
        res = ref.K @ o.V - ref.b
        flow = np.abs(ref.b).sum()
        ck.expect(np.abs(res[~D]).max() <= 2e-3 * flow, "%s: current balance %r of %g A" % (name, res[~D].tolist(), flow), rep)
        ck.expect(abs(res[D].sum() + ref.b.sum()) <= 5e-3 * flow, "%s: current through the grounded surface %g, imposed %g" % (name, res[D].sum(), ref.b.sum()), rep)


def meshes():
    yield "1x1x1", lambda w: sides(1, 1, 1, (6., 5., 4.), (1., -2., 0.), lambda i, j, k: "v0", w), 1
    yield "1x1x2", lambda w: sides(1, 1, 2, (6., 5., 4.), (1., -2., 0.), lambda i, j, k: "v%d" % k, w), 2
    yield "2x1x1", lambda w: sides(2, 1, 1, (6., 5., 4.), (-3., 2., 7.), lambda i, j, k: "v%d" % i, w), 2
    if T:
        yield "1x2x2", lambda w: sides(1, 2, 2, (6., 5., 4.), (-3., 2., 7.), lambda i, j, k: "v%d" % (j ^ k), w), 2
        yield "3x1x1", lambda w: sides(3, 1, 1, (3., 5., 4.), (-3., 2., 7.), lambda i, j, k: "v%d" % i, w), 3
        yield "2x2x2", lambda w: sides(2, 2, 2, (3., 5., 4.), (-3., 2., 7.), lambda i, j, k: "v%d" % (i + j & 1), w), 2


jobs = []
for nm, mk, nr in meshes():
    for a, b in itertools.permutations(SIDES, 2):
        for jn, V in ((1e8, 0.), (-3e9, 2e-6), (0., 1e-3), (2e7, -5e-7)) + (((1e12, .1), (-1e8, 0.)) if T else ()):
            for sg in (["".join(x) for x in itertools.product("hl", repeat=nr)] if T or (a, b) in (("z0", "z1"), ("x0", "y1")) else ["hlm"[:nr]]):
                jobs.append(("%s sigma %s, jn=%g on %s, V=%g on %s" % (nm, sg, jn, a, V, b), mk((a, b)), sg,
                             {a: dict(jn=jn, uP=[0, 1, 0]), b: dict(V=V, s=[0, 0, 0])}))
m0 = sides(1, 1, 2, (6., 5., 4.), (1., -2., 0.), lambda i, j, k: "v%d" % k, ("z0", "z1"))
n = len(m0.nodes)
perms = [list(range(n)), list(range(n))[::-1]] + [[(i + s) % n for i in range(n)] for s in range(1, n)] + [[(i * q) % n for i in range(n)] for q in (5, 7, 11)]
for P in perms:
    for flip in (False, True):
        m = perm(m0, P, flip)
        jobs.append(("numbering %r%s" % (P, " flipped" if flip else ""), m, "hl", {"z1": dict(jn=1e8, uP=[0, 1, 0]), "z0": dict(V=1e-6, s=[0, 0, 0])}))
pool.map(one, jobs)

# boundary conditions that (do not) determine the problem: every assignment to three surfaces
OPT = {"": {}, "j": dict(jn=1e8, uP=[0, 1, 0]), "V": dict(V=1e-6), "s": dict(s=[0, 0, 0]), "Vs": dict(V=2e-6, s=[0, 0, 0]), "0": dict(jn=0., uP=[1, 0, 0]), "Ks": dict(Ks=1e-3)}
tally = {"accepted": 0, "refused": 0}


def bc(job):
    names, opts = job
    mesh = sides(1, 1, 2, (6., 5., 4.), (1., -2., 0.), lambda i, j, k: "v%d" % k, names)
    surfs = {n_: OPT[o] for n_, o in zip(names, opts)}
    nj = sum(o in ("j", "0") for o in opts)
    nv = sum("V" in o for o in opts)
    ns = sum("s" in OPT[o] for o in opts)
    o, rep = run(mesh, mats_for("hl"), surfs)
    ck.count(states=1, transitions=1, traces=1)
    nm = "boundary conditions %s" % ", ".join("%s: %s" % (a, b or "none") for a, b in zip(names, opts))
    if not ck.expect(not o.sig and not o.timeout, "%s: %s" % (nm, o.status), rep): return
    if nj != 1 or nv != 1:
        tally["refused"] += 1
        ck.expect(o.rc != 0 and o.err.strip() != "" and o.evol is None and not o.vfiles, "%s: not refused (%s)" % (nm, o.status), rep)
    elif ns == 1:
        tally["accepted"] += 1
        ck.expect(o.V is not None and (o.rc == 0 or "potential" not in o.err), "%s: refused: %s %s" % (nm, o.status, o.err[-200:]), rep)
        if o.V is not None:
            V = Transport(mesh, mats_for("hl"), surfs).potential()
            ck.expect(np.abs(o.V - V).max() <= 2e-8 * np.abs(V).max() + 2e-5 * (V.max() - V.min()), "%s: potential %r, expected %r" % (nm, o.V.tolist(), V.tolist()), rep)


for names in (("z0", "z1", "x0"), ("z0", "z1")) + ((("x0", "y1", "z1"), ("x0", "x1", "y0", "z1")) if T else ()):
    pool.map(bc, [(names, o) for o in itertools.product(OPT, repeat=len(names))])

# long wires: problems that need many iterations are solved, or the run stops with an error
def wire(job):
    n, sg, jn, V0 = job
    mesh = sides(1, 1, n, (6., 5., 2.), (0., 0., 0.), lambda i, j, k: "v%d" % (k * len(sg) // n), ("z0", "z1"))
    mats = mats_for(sg)
    for g in mats: mats[g]["Ms"] = 0. if g != "v0" else 8e5
    surfs = {"z1": dict(jn=jn, uP=[0, 1, 0]), "z0": dict(V=V0, s=[0, 0, 0])}
    S = spin_settings(mats, surfs, mag=(1, .3, .2), n=0)
    f = {"m.msh": mesh.msh(), "s.yml": yaml_dump(S)}
    o = pool.run(f, env={"VERIF_SCRIPT": ""}, post=VOut, timeout=300)
    rep = dict(settings=f["s.yml"], msh=f["m.msh"], err=o.err)
    ck.count(states=1, transitions=1, traces=1)
    nm = "wire of %d cells, sigma %s, jn=%g, V=%g" % (n, sg, jn, V0)
    if not ck.expect(not o.sig and not o.timeout and (o.rc == 0 or o.err.strip() != ""), "%s: %s" % (nm, o.status), rep): return
    if o.V is None:
        tally["unsolved"] = tally.get("unsolved", 0) + 1
        ck.expect(o.rc != 0 and o.evol is None, "%s: no potential, yet %s" % (nm, o.status), rep)
        ck.expect(n > 100 or "s" in sg, "%s: not solved: %s" % (nm, o.err[-200:]), rep)
        return
    tally["wires"] = tally.get("wires", 0) + 1
    V = Transport(mesh, mats, surfs).potential()
    span = V.max() - V.min()
    d = np.abs(o.V - V).max()
    WIRE.append((d / span, n, sg))
    ck.expect(d <= 1e-4 * span + 2e-8 * np.abs(V).max(), "%s: potential off by %g of %g" % (nm, d, span), rep)


WIRE = []
SIG["s"], SIG["t"] = 1e3, 1e9
pool.map(wire, [(n, sg, 1e8, V0) for n in (10, 60, 150, 300, 600) + ((1000,) if T else ()) for sg in ("h", "hl", "ts", "st", "tst", "hlhl") for V0 in (0., 1e-6)])
print(max(WIRE) if WIRE else None, tally)
ck.sample("worst potential error / tolerance %.2g" % worst[0])
pool.close()
ck.finish(exhaustive=True, bc_verdicts=tally)
