import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C05")
T = TIER == "thorough"
pool = Pool(build_program())
# the reference itself: its nodal forces are minus the gradient of its energies (single material)
TERM = dict(A=dict(Ae=1.3e-11), K=dict(K=4e5, uk=(1., 2., -1.)), K3=dict(K3=-3e5, ex=(1., 1., 0.), ey=(-1., 1., 0.), ez=(0., 0., 1.)))
BEXT = (0.21, -0.4, 0.13)
KS = dict(Ks=2e-3, uk=(2., -1., 1.))
TOL = 1e-4
worst = [0.]


def mat(terms, alpha=.5, Ms=8e5):
    m = dict(Ae=0., Ms=Ms, alpha_LLG=alpha)
    for t in terms:
        m.update(TERM.get(t, {}))
    return m


def selftest():
    mesh = tetmesh("skew", surf=True)
    rng = np.array([unitv(1, .2, .3), unitv(.4, -1, .2), unitv(-.1, .3, 1), unitv(.5, .5, -.4)])
    for terms in (["A"], ["K"], ["B"], ["Ks"]):
        r = R.Ref(mesh, {"v0": mat(terms)}, {"S": KS if "Ks" in terms else {}})
        H = np.array(BEXT) / MU0 if "B" in terms else np.zeros(3)
        z = np.zeros(r.N)
        F = r.force(rng, z, H)
        for i in range(4):
            for d in range(3):
                h = 1e-4
                a, b = rng.copy(), rng.copy(); a[i, d] += h; b[i, d] -= h
                g = -(r.energies(a, z, H)["E_tot"] - r.energies(b, z, H)["E_tot"]) / (2 * h) / (MU0 * 8e5)
                assert abs(g - F[i, d]) < 1e-6 * np.abs(F).max(), ("reference gradient", terms)


def tetmesh(kind, surf=False):
    p = dict(unit=[(0, 0, 0), (8, 0, 0), (0, 8, 0), (0, 0, 8)], skew=[(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)])[kind]
    m = Mesh(p, [("v0", (0, 1, 2, 3))])
    if surf:
        f = [l[0][1] for l in m.outer_faces().values()]
        m.tris = [("S", f[0]), ("S", f[2][::-1])]  # either orientation
    return m


def twotets():
    m = Mesh([(0, 0, 0), (8, 0, 1), (0, 8, 0), (1, 0, 8), (7, 8, 6)], [("v0", (0, 1, 2, 3)), ("v1", (1, 4, 2, 3))])
    m.tets = [(r, t if m.vol(t) > 0 else (t[0], t[2], t[1], t[3])) for r, t in m.tets]
    return m


def cube(shared):
    m = grid(1, 1, 1, (7., 8., 9.), origin=(2., 1., -3.))
    m.tets = [("v%d" % (k % 2 if shared else k), t) for k, (r, t) in enumerate(m.tets)]
    return m


def fan():
    """many tets around one interior node"""
    c = [(0, 0, 0), (9, 0, 0), (-9, 1, 0), (0, 8, 1), (0, -8, 0), (1, 0, 9), (0, 1, -9)]
    m = Mesh(c, [])
    k = 0
    for x in (1, 2):
        for y in (3, 4):
            for z in (5, 6):
                t = (0, x, y, z)
                if m.vol(t) < 0: t = (0, y, x, z)
                m.tets.append(("v%d" % (k % 3), t)); k += 1
    return m


def one(job):
    mesh, mats, surfs, B, u, name = job
    r = R.Ref(mesh, mats, surfs)
    regs = sorted(set(r.regions))
    cols = ["t"] + ["%s:<dM%s/dt>" % (g, d) for g in regs if mats[g]["Ms"] > 0 for d in "xyz"] + ["<dMx/dt>", "<dMy/dt>", "<dMz/dt>"]
    S = settings(mats, surfs, B, cols=cols, n=1)
    uu = np.where(r.magN[:, None], u, np.nan)
    bad = not r.magN.all()
    # a .sol file cannot describe non-magnetic nodes: there the initial magnetization is given by expressions
    if bad:
        f = "[" + ",".join("[%s]" % ",".join("%.17g" % c for c in q) for q in r.p) + "]"
        w = "[" + ",".join("[%s]" % ",".join("%.17g" % c for c in q) for q in u) + "]"
        S["initial_magnetization"] = Raw("|\n  function(x,y,z){ var P=%s, U=%s, b=0, d=1e9; for (var i=0;i<P.length;i++){ var e=Math.abs(P[i][0]-x)+"
                                         "Math.abs(P[i][1]-y)+Math.abs(P[i][2]-z); if (e<d) {d=e;b=i;} } return U[b]; }" % (f, w))
    o = simulate(pool, mesh, S, None if bad else u)
    rep = dict(settings=yaml_dump(S), nodes=mesh.nodes, tets=mesh.tets, tris=mesh.tris, u=u.tolist(), err=o.err)
    if not ck.expect(o.ok and len(o.evol.rows) == 2, "%s: run failed: %s %s" % (name, o.status, o.bad), rep): return
    H = np.array(B) / MU0
    v = r.velocity(u, r.phi(u), H, GAMMA0)
    sc = np.abs(v).max()
    row = o.row(1)
    exp = [("", r.avg(v))] + [(g + ":", r.avg(v, g)) for g in regs if mats[g]["Ms"] > 0]
    # a velocity that vanishes by symmetry is compared against the size of its contributions
    floor = GAMMA0 * (np.linalg.norm(H) + 2e5) * 1e-3
    for g, e in exp:
        for d in range(3):
            x = row["%s<dM%s/dt>" % (g, "xyz"[d])]
            dev = abs(x - e[d]) / max(sc, floor)
            worst[0] = max(worst[0], dev)
            if not ck.expect(dev < TOL, "%s: %s<dM%s/dt> = %.8g, LLG equation gives %.8g (scale %.3g)" % (name, g, "xyz"[d], x, e[d], sc), rep): return
    ck.count(1, 1, 1)


selftest()
jobs = []
names = ["A", "K", "K3", "B", "Ks"]
subsets = [c for k in range(6) for c in itertools.combinations(names, k)]
key = [()] + [(n,) for n in names] + [tuple(names)]


def add_tet(kind, terms, alpha, conf):
    surf = "Ks" in terms
    mesh = tetmesh(kind, surf)
    jobs.append((mesh, {"v0": mat(terms, alpha)}, {"S": KS} if surf else None, BEXT if "B" in terms else (0, 0, 0),
                 np.array([SMALL[i] for i in conf]), "tet/%s/%s/alpha=%g/u=%s" % (kind, "+".join(terms) or "demag", alpha, conf)))


for conf in itertools.product(range(4), repeat=4):
    for terms in (subsets if T else key):
        if T or terms == tuple(names) or sum(conf) % 4 == 0 or conf[0] == conf[1]:
            for kind in ("unit", "skew") if T else ("skew",):
                add_tet(kind, terms, .5 if sum(conf) % 2 else .02, conf)
for terms in subsets:
    for conf in itertools.product((0, 2), (1, 3), (0, 3), (2, 1)):
        for alpha in (.02, .5, 1.) + ((0., 1e-9, 10.) if terms in key else ()):
            add_tet("unit", terms, alpha, conf)
# signs and magnitudes of the constants: every combination of signs of K, K3 and Ks, with weak and strong fields
for sk, s3, ss in itertools.product((-1, 0, 1), repeat=3):
    for scale, B in ((1, (0, 0, 0)), (1e-3, BEXT), (5, (-3., 2., 5.)), (0.2, (0., 0., -.01))):
        for conf in itertools.product((0, 3), (1, 2), (0, 2), (3, 1)) if T else ((0, 1, 2, 3), (3, 2, 0, 1), (0, 2, 2, 3)):
            m = mat(["A"], .1)
            if sk: m.update(K=sk * scale * 4e5, uk=(1., 2., -1.))
            if s3: m.update(K3=s3 * scale * 3e5, ex=(1., 1., 0.), ey=(-1., 1., 0.), ez=(0., 0., 1.))
            jobs.append((tetmesh("skew", True), {"v0": m}, {"S": dict(KS, Ks=ss * scale * 2e-3)}, B, np.array([SMALL[i] for i in conf]),
                         "signs/K%+d,K3%+d,Ks%+d/x%g/B=%s/u=%s" % (sk, s3, ss, scale, B, conf)))
            # ... which acts on a surface without charges as well
            if ss and (T or conf[0] == 3):
                jobs.append((tetmesh("skew", True), {"v0": m}, {"S": dict(KS, Ks=ss * scale * 2e-3, suppress_charges=True)}, B, np.array([SMALL[i] for i in conf]),
                             "signs/no charges/K%+d,K3%+d,Ks%+d/x%g/B=%s/u=%s" % (sk, s3, ss, scale, B, conf)))
kinds = {"a": mat(["A", "K"], .05, 8e5), "b": mat(["A", "K3"], .4, 3e5), "c": mat(["A"], .2, 1.4e6), "n": mat([], .5, 0.),
         "d": dict(mat(["A"], .1, 6e5), K=-5e5, uk=(1., -1., 3.), K3=2e5)}
for ka, kb in itertools.product("abcdn", repeat=2):
    if ka + kb == "nn": continue
    for conf in itertools.product(range(4 if T else 3), repeat=5 if T else 4):
        conf = conf + ((sum(conf) + 1) % 4,) * (5 - len(conf))
        jobs.append((twotets(), {"v0": kinds[ka], "v1": kinds[kb]}, None, BEXT if sum(conf) % 2 else (0, 0, 0),
                     np.array([SMALL[i] for i in conf]), "two/%s%s/u=%s" % (ka, kb, conf)))
for shared in (True, False):
    m = cube(shared)
    for conf in itertools.product((0, 2), repeat=8):
        if not T and sum(c == 2 for c in conf) > 3: continue
        ks = "abcabn" if shared else "abcnca"
        mats = {g: kinds[ks[int(g[1:])]] for g, _ in m.tets}
        jobs.append((m, mats, None, BEXT, np.array([SMALL[i] for i in conf]), "cube/%d/u=%s" % (shared, conf)))
for conf in itertools.product((0, 1, 3) if T else (1, 3), repeat=7):
    jobs.append((fan(), {"v0": kinds["a"], "v1": kinds["b"], "v2": kinds["c" if sum(conf) % 2 else "n"]}, None, BEXT,
                 np.array([SMALL[i] for i in conf]), "fan/u=%s" % (conf,)))
# exact directions: every pair of the 26 directions of components -1, 0, 1
LATT = [np.array(d, float) / np.linalg.norm(d) for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
for i, j in itertools.product(range(26), repeat=2):
    jobs.append((tetmesh("skew", False), {"v0": mat(["A", "K"] if (i + j) % 2 or T else ["A"], .1)}, None, BEXT,
                 np.array([LATT[i], LATT[j], LATT[i], LATT[j]]), "exact/%s/%s" % (LATT[i].round(3), LATT[j].round(3))))
pool.map(one, jobs)


# known limitation: surface anisotropy on an interface between regions of equal Ms
def equal_ms(ks):
    m = twotets()
    f = [l for l in m.outer_faces().values() if len(l) == 2][0][0][1]
    m.tris = [("I", f)]
    S = settings({"v0": kinds["a"], "v1": dict(kinds["b"], Ms=8e5)}, {"I": dict(Ks=ks, uk=(1., 0., 1.))}, BEXT, n=2, step=1e-14)
    o = simulate(pool, m, S, np.array([SMALL[i % 4] for i in range(5)]))
    ck.count(1, 1, 1)
    ck.expect(o.ok and len(o.evol.rows) == 3, "Ks=%g on an interface between two regions with the same Ms: run fails, %s" % (ks, o.status),
              dict(settings=yaml_dump(S), out=o.out))


equal_ms(0.)
equal_ms(1e-3)


# relaxation: with damping, in a constant field, the total energy never increases; equilibria stay put
def relax(job):
    mk, mats, surfs, B, u, name = job
    S = settings(mats, surfs, B, cols=["t", "E_tot"], step=2e-13, n=12, dtmin=1e-17, dtmax=1e-13, du=.02, tol=1e-8, save=12)
    o = simulate(pool, mk, S, u)
    rep = dict(settings=yaml_dump(S), u=u.tolist(), err=o.err)
    if not ck.expect(o.ok and len(o.evol.rows) == 13, "relax %s: run failed: %s" % (name, o.status), rep): return
    E = o.evol.col("E_tot")
    span = max(max(E) - min(E), 1e-9 * max(map(abs, E)))
    for k in range(12):
        ck.expect(E[k + 1] <= E[k] + 1e-3 * span, "relax %s: energy increased in row %d: %r" % (name, k + 1, E), rep)
    ck.count(13, 12, 1)


def equilibrium(job):
    mesh, mats, surfs, B, d, name = job
    u = np.array([d] * len(mesh.nodes))
    S = settings(mats, surfs, B, cols=["t", "<Mx>", "<My>", "<Mz>", "E_tot"], step=5e-13, n=4, dtmin=1e-16, dtmax=5e-13, du=.1, tol=1e-8)
    o = simulate(pool, mesh, S, u)
    rep = dict(settings=yaml_dump(S), err=o.err)
    if not ck.expect(o.ok and len(o.evol.rows) == 5, "equilibrium %s: run failed: %s" % (name, o.status), rep): return
    x = np.array(o.evol.rows[-1][1:4])
    ck.expect(np.abs(x - d).max() < 1e-6, "equilibrium %s moved from %s to %s" % (name, d, x), rep)
    ck.count(5, 4, 1)


rj = []
for i, (a, b, c) in enumerate(itertools.product(range(4), range(4), range(0, 4, 1 if T else 2))):
    for terms in subsets[1::1 if T else 3]:
        surf = "Ks" in terms
        # magnetization and energy constants divided by 1000: same fields, negligible demag field (whose discrete
        # form is not exactly a gradient on such coarse meshes)
        sm = {k: (v / 1e3 if k in ("Ae", "Ms", "K", "K3") else v) for k, v in mat(terms, .3).items()}
        rj.append((tetmesh("skew", surf), {"v0": sm}, {"S": dict(KS, Ks=KS["Ks"] / 1e3)} if surf else None, BEXT if "B" in terms else (0, 0, 0),
                   np.array([unitv(*(SMALL[a] + .1 * SMALL[b] + .03 * SMALL[(c + k) % 4])) for k in range(4)]), "%s u=%s" % ("+".join(terms), (a, b, c))))
pool.map(relax, rj)
ej = []
box = grid(1, 1, 2, (5., 5., 5.), surface=lambda q, r: "S")
for d in ALPHA:
    for sgn in (1, -1):
        for K in (0., 2e5):
            ej.append((box, {"vol": dict(Ms=8e5, Ae=1e-11, alpha_LLG=.2, K=K, uk=tuple(d))}, {"S": dict(suppress_charges=True)},
                       tuple(.1 * d * sgn), d, "uniform M=%s, B=%+g M, K=%g" % (np.round(d, 2), .1 * sgn, K)))
pool.map(equilibrium, ej)
jobs += rj + ej
print("worst relative deviation %.3g over %d runs" % (worst[0], len(jobs)))
ck.sample({"jobs": [j[-1] for j in jobs[::max(1, len(jobs) // 5)]]})
pool.close()
ck.assumptions = ["first output step is 1e-17 s, so the observed velocity is the t->t0 limit up to 1e-4 relative",
                  "demagnetizing potential computed by the direct-sum stand-in for ScalFMM"]
ck.finish(worst_relative_deviation=worst[0], exhaustive=True)
