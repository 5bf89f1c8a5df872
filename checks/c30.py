import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from spin import *
import itertools

ck = Check("C30")
T = TIER == "thorough"
pools = {2: Pool(build_program()), 1: Pool(build_program(kind="fo", first_order=1))}
worst = dict(macro=9., mix=9., rel=0.)
FLOOR = 3e-8        # states are saved with 8 significant digits


def run(order, mesh, S, u, N):
    """final state of N fixed steps"""
    o = simulate(pools[order], mesh, S, u)
    if not o.ok or len(o.evol.rows) != N + 1 or N not in o.sol: return None, "run failed: %s %s" % (o.status, (o.out + o.err)[-300:])
    return np.array(o.sol[N].u), None


def steps(Tf, N, mats, surfs, B, spin):
    h = Tf / N
    kw = dict(B=B, cols=["t", "<Mx>"], step=h, n=N, save=N, dtmin=h / 2, dtmax=2 * h, du=5., tol=1e-11 if spin else 1e-13)
    return spin_settings(mats, surfs, **kw) if spin else settings(mats, surfs, **kw)


def exact(r, u, H, Tf, n):
    """the semi-discrete LLG equation, integrated by RK4 with steps so small that its own error is below FLOOR"""
    h = Tf / n
    I = np.eye(3 * r.N).reshape(3 * r.N, r.N, 3)
    P = np.stack([r.phi(e) for e in I], axis=1)        # the potential is linear in the magnetization
    f = lambda u, t: r.velocity(u, P @ u.ravel(), H(u, t), GAMMA0)
    for k in range(n):
        t = k * h
        k1 = f(u, t); k2 = f(u + h / 2 * k1, t + h / 2); k3 = f(u + h / 2 * k2, t + h / 2); k4 = f(u + h * k3, t + h)
        u = u + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        u = u / np.where(r.magN, np.linalg.norm(u, axis=1), 1)[:, None]
    return u


def converge(job):
    nm, kind, order, mesh, mats, surfs, B, H, u, Tf, Ns, spin = job
    r = R.Ref(mesh, mats, surfs)
    x = exact(r, u, H, Tf, 64)
    move = np.abs(x - u).max()
    err = []
    for N in Ns:
        S = steps(Tf, N, mats, surfs, B, spin)
        y, why = run(order, mesh, S, u, N)
        rep = dict(settings=yaml_dump(S), msh=mesh.msh(), u=u.tolist(), first_order=order == 1)
        if not ck.expect(y is not None, "%s, %d steps: %s" % (nm, N, why), rep): return
        err.append(np.abs(y - x)[r.magN].max())
        ck.count(N, N, 1)
    rep["errors"], rep["steps"] = err, Ns
    # size of the error, then its decrease at each halving of the step
    lim = .012 if kind == "macro" else .03
    worst["rel"] = max(worst["rel"], (err[0] - FLOOR) / move / lim)
    ck.expect(err[0] <= lim * move + FLOOR, "%s: with %d steps the state is off by %.3g, %.3g of the motion" % (nm, Ns[0], err[0], err[0] / move), rep)
    need = 3.2 if kind == "macro" else 1.75
    for a, b in zip(err, err[1:]):
        if a > 40 * FLOOR:
            worst[kind] = min(worst[kind], a / b)
            ck.expect(b <= a / need + FLOOR, "%s: halving the time step changed the error from %.3g to %.3g only" % (nm, a, b), rep)


jobs = []
cst = lambda B: (lambda u, t: np.array(B, float) / MU0)
# macrospin in a uniform field with a uniaxial anisotropy: second order
cube = grid(1, 1, 1, (5., 5., 5.))
dirs = [((0, 0, 1), (1, 0, 0), (0, .6, .8)), ((1, -1, 2), (1, 2, 3), (1, 1, 1)), ((0, 0, -1), (1, -2, 1.3), (0, 0, 1)), ((1, 0, 0), (-.9, .3, .1), (0, 1, 0))]
if T:
    dirs = [(tuple(b), tuple(m), tuple(k)) for b, m, k in itertools.product([ALPHA[2], ALPHA[4], ALPHA[7]], [SMALL[0], SMALL[3], unitv(-1, .2, -.3)], [ALPHA[1], ALPHA[6], unitv(2, 1, -1)])]
for al, Bm, K in itertools.product((.05, .2, 1.) if T else (.1, .5), (0, .5, 2.), (0, .4, -.4)):
    if not Bm and not K: continue
    for bd, ud, kd in dirs:
        B = tuple(float(x) for x in Bm * unitv(*bd))
        kd = unitv(*kd)
        c = abs(unitv(*ud) @ kd)
        b = unitv(*ud) @ unitv(*bd)
        if (not Bm and (c < .05 or c > .95)) or (not K and abs(b) > .95): continue      # (nearly) an equilibrium
        tq = np.linalg.norm(np.cross(unitv(*ud), np.array(B) + 2 * K * (unitv(*ud) @ kd) * kd))
        if tq < .25 * (Bm + 2 * abs(K)): continue
        mats = {"vol": dict(Ms=1., Ae=0., alpha_LLG=al, K=K, uk=[float(x) for x in kd])}
        h0 = .1 * al / (GAMMA0 * (Bm + 2 * abs(K)) / MU0)
        for o in (2, 1) if T else (2,):
            jobs.append(("macrospin alpha=%g B=%s K=%g uk=%s u=%s, order-%d build" % (al, np.round(B, 3), K, np.round(kd, 3), np.round(unitv(*ud), 3), o), "macro",
                         o, cube, mats, None, B, cst(B), np.array([unitv(*ud)] * 8), 8 * h0, (8, 16, 32), False))
# the demagnetizing field of a uniform start, without exchange: second order too
for dims, (K, Bm), al in itertools.product(((5., 5., 20.), (20., 20., 4.)) + (((8., 5., 12.), (30., 4., 6.)) if T else ()), ((0., 0.), (3e5, 0.), (0., .4), (-2e5, .6)), (.1, .5) + ((1.,) if T else ())):
    mesh = grid(1, 1, 1, dims)
    for q, ud in enumerate(((1, 0, 1), (.3, .5, .7)) + (((-1, .2, .4), (.1, -1, .5)) if T else ())):
        mats = {"vol": dict(Ms=8e5, Ae=0., alpha_LLG=al, K=K, uk=[.6, 0., .8])}
        B = tuple(float(x) for x in Bm * unitv(0, .6, .8))
        h0 = .1 * al / (GAMMA0 * 8e5) / (1 + 2 * abs(K) / 8e5 + Bm)
        jobs.append(("shape %s K=%g B=%g alpha=%g u%d" % (dims, K, Bm, al, q), "macro", 2, mesh, mats, None, B, cst(B), np.array([unitv(*ud)] * 8), 8 * h0, (8, 16, 32), False))
nmacro = len(jobs)
# every mix of terms on a non-uniform state: at least first order
box = grid(1, 1, 1, (5., 6., 7.), surface=lambda p, t: "s")
tet = Mesh([(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)], [("vol", (0, 1, 2, 3))])
tet.tris = [("s", l[0][1]) for l in tet.outer_faces().values()]
U = lambda n, q: np.array([unitv(1 + .2 * math.sin(i + q), .5 * math.cos(2 * i - q), .4 + .3 * math.sin(3 * i + 2 * q)) for i in range(n)])
terms = ["A", "D", "K", "Ks", "K3", "B"]
for n in range(1, 7):
    for c in itertools.combinations(terms, n):
        f = 1. if "D" in c else 1e-3
        for mk, mesh in (("box", box), ("tet", tet)):
            if mk == "tet" and not T and n not in (2, 5): continue
            for al, q in itertools.product((.05, .3, 1.), (0, 1, 2)) if T else ((.3, 0),):
                mats = {"vol": dict(Ms=8e5 * f, Ae=1e-11 * f if "A" in c else 0., alpha_LLG=al, K=5e5 * f if "K" in c else 0., uk=[0., .6, .8], K3=3e5 * f if "K3" in c else 0.)}
                su = {"s": dict(Ks=1e-3 * f if "Ks" in c else 0., uk=[.6, 0., .8])}
                B = (.3, .4, .1) if "B" in c else (0., 0., 0.)
                for o in (2, 1) if T or n == 1 or "D" in c else (2,):
                    jobs.append(("%s %s alpha=%g u%d, order-%d build" % (mk, "+".join(c), al, q, o), "mix", o, mesh, mats, su, B, cst(B), U(len(mesh.nodes), q),
                                 4e-13 * min(1., max(al, .2) / .3), (12, 24, 48), False))
# two materials
two = grid(2, 1, 1, (5., 5., 5.), region=lambda i, j, k: "v%d" % i)
for o, q in itertools.product((2, 1), (0, 1, 2) if T else (0,)):
    mats = {"v0": dict(Ms=8e5, Ae=1e-11, alpha_LLG=.3, K=4e5, uk=[0., .6, .8]), "v1": dict(Ms=4e5, Ae=2e-11, alpha_LLG=.1, K3=2e5)}
    jobs.append(("two materials u%d, order-%d build" % (q, o), "mix", o, two, mats, None, (.1, -.2, .3), cst((.1, -.2, .3)), U(12, q), 4e-13, (12, 24, 48), False))
# time dependent field
for o, (w, al) in itertools.product((2, 1), ((5e12, .3), (2e12, .1), (8e12, .5)) if T else ((5e12, .3),)):
    mats = {"vol": dict(Ms=8., Ae=1e-16, alpha_LLG=al)}
    B = ("0.5*Math.sin(%r*t)" % w, "0.4*Math.cos(%r*t)" % w, "1+1e11*t")
    jobs.append(("B(t), w=%g alpha=%g, order-%d build" % (w, al, o), "mix", o, box, mats, {"s": dict(Ks=0.)}, B,
                 lambda u, t, w=w: np.array([.5 * math.sin(w * t), .4 * math.cos(w * t), 1 + 1e11 * t]) / MU0, U(8, 0), 4e-13, (12, 24, 48), False))
# spin transfer torque: the accumulation follows the magnetization
for regs, jn in ((("c",), 5e7), (("c", "p"), -2e7)) if not T else ((("c",), 5e7), (("c",), -2e8), (("c", "p"), -2e7), (("p", "c"), 5e7), (("p",), 2e7)):
    mesh = sides(len(regs), 1, 1, (6., 5., 4.), (1., -2., 3.), lambda i, j, k: "v%d" % i, ("x0", "x1"))
    mats = {"v%d" % i: dict({"c": CO, "p": PY}[g], alpha_LLG=.3) for i, g in enumerate(regs)}
    su = {"x1": dict(jn=jn, uP=[0., 0., 1.]), "x0": dict(V=0., s=[0., 0., 0.])}
    tr = Transport(mesh, mats, su)
    V = tr.potential()
    a = R.Ref(mesh, mats).a
    for o in (2, 1):
        jobs.append(("spin torque %s jn=%g, order-%d build" % ("".join(regs), jn, o), "mix", o, mesh, mats, su, (0., 0., 0.),
                     lambda u, t, tr=tr, V=V, a=a: tr.field(tr.spin(u, V), a), U(len(mesh.nodes), 1), 4e-13, (12, 24, 48), True))
pools[2].map(converge, jobs)
print("%d problems; smallest error ratio per halving: macrospin %.3f, mixes %.3f; largest first error %.2f of its limit" %
      (len(jobs), worst["macro"], worst["mix"], worst["rel"]))
for p in pools.values(): p.close()
ck.sample({"problems": [j[0] for j in jobs[::max(1, len(jobs) // 6)]]})
ck.assumptions = ["demagnetizing potential computed by the direct-sum stand-in for ScalFMM", "convergence decided on step counts in ratio 1:2:4 within the asymptotic range"]
ck.finish(exhaustive=True, **worst)
