import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools, re

ck = Check("C20")
T = TIER == "thorough"
pool = Pool(build_program())
PROF = {  # profile: JavaScript, Python (B per unit amplitude, positions in m)
    "uniform": ("return [0.1, -0.2, 0.3];", lambda p: np.broadcast_to((.1, -.2, .3), p.shape)),
    "linear": ("return [0.1+z*2e7, y*1e7, -0.2+x*3e7];", lambda p: np.stack([.1 + p[..., 2] * 2e7, p[..., 1] * 1e7, -.2 + p[..., 0] * 3e7], -1)),
    "local": ("return z > 8e-9 ? [0.3, 0, 0.1] : [0, -0.2, 0];",
              lambda p: np.where((p[..., 2] > 8e-9)[..., None], (.3, 0, .1), (0, -.2, 0))),
    "quadratic": ("return [x*y*1e16, z*z*1e15, 0.1];", lambda p: np.stack([p[..., 0] * p[..., 1] * 1e16, p[..., 2] ** 2 * 1e15, 0 * p[..., 0] + .1], -1)),
}
AMP = {"const": ("return 1;", lambda t: 1.), "ramp": ("return t*1e12;", lambda t: t * 1e12), "cos": ("return cos(t*3e12)-0.4;", lambda t: math.cos(t * 3e12) - .4),
       "step": ("return t < 0.45e-12 ? 0.2 : 1.5;", lambda t: .2 if t < .45e-12 else 1.5),
       "pulse": ("return t > 0.25e-12 && t < 0.65e-12 ? 1.2 : 0;", lambda t: 1.2 if .25e-12 < t < .65e-12 else 0.)}
MAT = {"a": dict(Ae=1.3e-11, Ms=8e5, alpha_LLG=.1), "b": dict(Ae=9e-12, Ms=4e5, alpha_LLG=.3), "n": dict(Ms=0.)}
worst = {}
PS = 1e-12


def mesh_for(nreg, order):
    m = grid(1, 1, nreg, (6., 5., 4.), origin=(1., -2., 0.), region=lambda i, j, k: "v%d" % k)
    if order == "rev": m.tets = m.tets[::-1]
    elif order == "mix": m.tets = m.tets[::2] + m.tets[1::2]
    return m


def js(p, u):
    return Raw("|\n  function(x,y,z){ var P=%s, U=%s, b=0, d=1e9; for (var i=0;i<P.length;i++){ var e=Math.abs(P[i][0]-x)+"
               "Math.abs(P[i][1]-y)+Math.abs(P[i][2]-z); if (e<d) {d=e;b=i;} } return U[b]; }" % (json.dumps(p.tolist()), json.dumps(u.tolist())))


def one(job):
    ms, order, prof, amp, uk, yorder = job
    name = "%s/%s/%s*%s/u%d/%s" % (ms, order, prof, amp, uk, yorder)
    mesh = mesh_for(len(ms), order)
    regs = ["v%d" % i for i in range(len(ms))]
    if yorder == "rev": regs = regs[::-1]
    mats = {g: MAT[ms[int(g[1:])]] for g in regs}
    r = R.Ref(mesh, mats)
    u0 = np.array([ALPHA[(i * (uk + 1) + uk) % len(ALPHA)] if uk % 2 else unitv(1 + .1 * i, .4, .3 * math.sin(i + uk)) for i in range(r.N)])
    B = {"Bext": {"space": Raw('"function(x,y,z) { %s }"' % PROF[prof][0]), "time": Raw('"function(t) { %s }"' % AMP[amp][0])}}
    h = .3 * PS
    cols = ["t", "E_zeeman", "E_tot", "E_ex", "E_demag"] + ["<dM%s/dt>" % d for d in "xyz"] + \
        ["%s:<dM%s/dt>" % (g, d) for g in regs if mats[g]["Ms"] for d in "xyz"]
    S = settings(mats, None, B, cols=cols, step=h, n=3, dtmin=h / 50, dtmax=h * 100, du=.9)
    S["initial_magnetization"] = js(r.p, u0)
    o = simulate(pool, mesh, S)
    rep = dict(settings=yaml_dump(S), msh=mesh.msh(), err=o.err, out=o.out)
    if not ck.expect(o.ok and len(o.evol.rows) == 4, "%s: run failed: %s" % (name, o.status), rep): return
    sp = PROF[prof][1](r.gauss())
    for k in range(4):
        row = o.row(k); t = row["t"]
        u = u0 if k == 0 else np.array(o.sol[k].u)
        H = AMP[amp][1](t) * sp / MU0
        E = r.energies(u, np.zeros(r.N), H)["E_zeeman"]
        sc = r.esc(u, np.zeros(r.N), np.abs(sp).max() * 1.5 / MU0)["E_zeeman"]
        tol = (1e-9 if k == 0 else 1e-6) * sc
        worst["E"] = max(worst.get("E", 0), abs(row["E_zeeman"] - E) / tol)
        if not ck.expect(abs(row["E_zeeman"] - E) <= tol, "%s row %d: E_zeeman %.12g, the field at the elements' positions gives %.12g" % (name, k, row["E_zeeman"], E), rep): return
        ck.expect(abs(row["E_tot"] - row["E_zeeman"] - row["E_ex"] - row["E_demag"]) <= 1e-12 * (sc + abs(row["E_ex"]) + abs(row["E_demag"])), "%s: E_tot is not the sum" % name, rep)
        ck.count(1, 1)
    # dynamics: velocity of an infinitesimal first step, for several starting times
    t0 = (0., .3 * PS, .7 * PS)[uk % 3]
    S = settings(mats, None, B, cols=cols, step=1e-17, n=1, t0=t0)
    S["initial_magnetization"] = js(r.p, u0)
    o = simulate(pool, mesh, S)
    if not ck.expect(o.ok and len(o.evol.rows) == 2, "%s: run failed: %s" % (name, o.status), rep): return
    v = r.velocity(u0, r.phi(np.where(r.magN[:, None], u0, 0)), AMP[amp][1](t0) * sp / MU0, GAMMA0)
    sc = np.abs(v).max()
    for g in [None] + [g for g in regs if mats[g]["Ms"]]:
        e = r.avg(v, g)
        for d in range(3):
            x = o.row(1)["%s<dM%s/dt>" % (g + ":" if g else "", "xyz"[d])]
            worst["v"] = max(worst.get("v", 0), abs(x - e[d]) / sc)
            if not ck.expect(abs(x - e[d]) <= 1e-4 * sc, "%s: %s<dM%s/dt> = %.8g at t=%g, the LLG equation with the local field gives %.8g" %
                             (name, g or "", "xyz"[d], x, t0, e[d]), dict(rep, settings=yaml_dump(S))): return
    ck.count(1, 1, 1)


VAR = {  # other terms and features next to the field
    "plain": ({}, {}, {}), "K": (dict(K=3e5, uk=[1, 1, 0]), {}, {}), "K3": (dict(K3=-2e5), {}, {}), "Ks+": ({}, dict(Ks=1e-3, uk=[0, 1, 1]), {}), "Ks-": ({}, dict(Ks=-1e-3, uk=[1, 0, 1]), {}),
    "suppress": ({}, dict(suppress_charges=True), {}), "all": (dict(K=-3e5, uk=[0, 1, 2], K3=1e5), dict(Ks=-5e-4, uk=[1, 2, 0], suppress_charges=True), {}),
    "recenter": (dict(K=3e5, uk=[0, 0, 1]), {}, {"recentering": {"enable": True, "direction": "Z", "threshold": .05}}), "verbose": ({}, {}, {})}


def equivalent(job):
    """a uniform profile with amplitude f(t) is the uniform field f(t)*B, whatever the other terms"""
    ms, amp, var = job[:3]
    ts = job[3] if len(job) > 3 else 1.          # time scale: amplitudes that vary within far shorter times, followed by far shorter steps
    mesh = mesh_for(len(ms), "std")
    vm, vs, ex = VAR[var]
    mesh.tris = [("s", l[0][1] if q % 2 else l[0][1][::-1]) for q, (k, l) in enumerate(sorted(mesh.outer_faces().items())) if len(l) == 1]
    mats = {"v%d" % i: dict(MAT[m], **(vm if m != "n" else {})) for i, m in enumerate(ms)}
    surfs = {"s": vs}
    expr = {"const": "1", "ramp": "t*1e12", "cos": "cos(t*3e12)-0.4", "step": "(t < 0.45e-12 ? 0.2 : 1.5)", "pulse": "(t > 0.25e-12 && t < 0.65e-12 ? 1.2 : 0)"}[amp]
    if ts != 1: expr = re.sub(r"\bt\b", "(t*%g)" % (1 / ts), expr)
    cols = ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_demag", "E_zeeman", "E_aniso", "E_tot"]
    u = Raw('[1, "x*1e8", 0.3]') if var != "recenter" else Raw('[0.3, 0.1, "z > 5e-9 ? 1 : -1"]')
    out = []
    for B in ({"Bext": {"space": Raw('"function(x,y,z) { return [0.1, -0.2, 0.3]; }"'), "time": Raw('"function(t) { return %s; }"' % expr)}},
              ["0.1*(%s)" % expr, "-0.2*(%s)" % expr, "0.3*(%s)" % expr]):
        S = settings(mats, surfs, B, cols=cols, step=.3 * PS * ts, n=4, dtmin=.001 * PS * ts, dtmax=.3 * PS * ts, du=.1, extra=dict(ex))
        S["initial_magnetization"] = u
        o = simulate(pool, mesh, S)
        out.append(o)
    rep = dict(settings=yaml_dump(S), err=o.err)
    nm = "uniform profile %s/%s/%s%s" % (ms, amp, var, "" if ts == 1 else " times %g" % ts)
    if not ck.expect(out[0].status == out[1].status and (var == "recenter" or out[0].ok) and len(out[0].evol.rows) == len(out[1].evol.rows), "%s: runs end differently, %s with %s" % (nm, out[0].status, out[1].status), rep): return
    if var != "recenter" and not ck.expect(len(out[0].evol.rows) == 5, "%s: %d rows" % (nm, len(out[0].evol.rows)), rep): return
    for k in range(len(out[1].evol.rows)):
        for c in range(1, 9):
            a, b = (o.evol.rows[k][c] for o in out)
            s = 1. if c < 4 else sum(abs(x) for x in out[1].evol.rows[k][4:8])
            ck.expect(abs(a - b) <= 1e-7 * s, "%s row %d: %s = %.12g, uniform field gives %.12g" % (nm, k, cols[c], a, b), rep)
    ck.count(5, 5, 2)


jobs = []
words = ["".join(w) for n in (1, 2, 3) for w in itertools.product("abn", repeat=n) if set(w) != {"n"}]
words += ["".join(w) for w in itertools.product("an", repeat=4) if set(w) != {"n"}]
k = 0
for ms in words:
    for prof, amp in itertools.product(PROF, AMP):
        k += 1
        if T or k % 4 == 0 or (prof == "linear" and amp == "pulse" and len(ms) < 4) or (prof == "local" and amp == "ramp"):
            for order in ("std", "rev", "mix") if T else (("std", "rev", "mix")[k % 3],):
                jobs.append((ms, order, prof, amp, k % 5, "rev" if (k // 2) % 2 else "std"))
for q, ms in enumerate(("a" * 30, "anb" * 9, "n" * 25 + "ab", "ba" + "n" * 30 + "a")):   # many elements and regions
    for e, prof in enumerate(p for p in PROF if p != "uniform"):
        jobs.append((ms, ("std", "rev", "mix")[(q + e) % 3], prof, list(AMP)[(q + e) % len(AMP)], q + e, "rev" if e % 2 else "std"))
pool.map(one, jobs)
eq = [(ms, amp, v) for ms in words for amp in AMP for v in VAR if (v == "plain" and len(ms) < 4) or T or (len(ms) < 3 and amp in ("cos", "pulse"))]
eq += [(ms, amp, v, ts) for ms in ("a", "ab", "nab") for amp in AMP for v in VAR for ts in (1e-2, 1e-3, 1e-4) if v in ("plain", "all") or T]
pool.map(equivalent, eq)
print("worst:", {k: float(v) for k, v in worst.items()}, len(jobs), len(eq))
ck.sample({"case": jobs[0]}); ck.sample({"case": jobs[-1]})
pool.close()
ck.finish(exhaustive=True)
