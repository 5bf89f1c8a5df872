import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from spin import *
import itertools

ck = Check("C22")
T = TIER == "thorough"
pool = Pool(build_program())
worst = {}
# slow: diffusion so slow that the current polarized by the magnetization dominates the injected one
MAT = {"c": CO, "n": CU, "p": PY, "q": dict(CO, dens_state=3e52, l_sd=4e-9), "m": dict(CU, dens_state=9e52), "r": dict(PY, dens_state=2e51),
       "h": dict(CO, alpha_LLG=.6), "g": dict(PY, alpha_LLG=1., K=3e5, uk=[0, 1, 1]), "z": dict(CO, alpha_LLG=1e-6, Ms=1.4e6), "k": dict(PY, alpha_LLG=.3, K=-2e5, uk=[1, 0, 0], Ae=0.)}


class SpOut(Out):
    def __init__(self, res):
        super().__init__(res)
        self.text = {f: res.read(f) for f in res.files() if f.endswith(".sol")}


def config(regs, axis, jn, uP, s0, flip=False, names=None):
    """a bar of len(regs) regions along axis, current injected at the far end (or the near one)"""
    k = "xyz".index(axis)
    n = [1, 1, 1]; n[k] = len(regs)
    a, b = axis + "1", axis + "0"
    if flip: a, b = b, a
    mesh = sides(*n, (6., 5., 4.), (1., -2., 3.), lambda *i: "v%d" % i[k], (a, b))
    mats = {"v%d" % i: MAT[c] for i, c in enumerate(regs)}
    return mesh, mats, {a: dict(jn=jn, uP=list(uP)), b: dict(V=1e-6, s=list(s0))}


def js(p, u):
    return Raw("|\n  function(x,y,z){ var P=%s, U=%s, b=0, d=1e9; for (var i=0;i<P.length;i++){ var e=Math.abs(P[i][0]-x)+"
               "Math.abs(P[i][1]-y)+Math.abs(P[i][2]-z); if (e<d) {d=e;b=i;} } return U[b]; }" % (json.dumps(p.tolist()), json.dumps(u.tolist())))


def check_s(tr, V, text, nm, rep, tol=2e-6):
    so = Sol(text)
    s = spin_cols(text)
    if not ck.expect(s.shape == (tr.N, 3), "%s: no spin accumulation in the saved file" % nm, rep): return None
    ref = tr.spin(np.nan_to_num(np.array(so.u)), V)
    sc = np.abs(ref).max()
    d = np.abs(s - ref).max() / sc
    worst["s"] = max(worst.get("s", 0), d / tol)
    ck.expect(d <= tol, "%s: spin accumulation off by %.3g of %.3g:\n%r\nexpected\n%r" % (nm, d * sc, sc, s.tolist(), ref.tolist()), rep)
    ck.count(states=1)
    return s


def run(conf, S, files=None, env=None):
    mesh, mats, surfs = conf
    f = {"m.msh": mesh.msh(), "s.yml": yaml_dump(S)}
    f.update(files or {})
    o = pool.run(f, env=env or {"VERIF_SCRIPT": ""}, post=SpOut)
    return o, dict(settings=f["s.yml"], msh=f["m.msh"], env=env, files=files)


def state(job):
    """every saved state of a short run, and the torque on each of them"""
    nm, conf, u = job
    mesh, mats, surfs = conf
    tr = Transport(mesh, mats, surfs)
    V = tr.potential()
    r = R.Ref(mesh, {k: {a: b for a, b in m.items() if a in R.DEFMAT} for k, m in mats.items()})
    regs = [g for g in sorted(mats) if mats[g]["Ms"] > 0]
    cols = ["t"] + ["%s:<dM%s/dt>" % (g, d) for g in regs for d in "xyz"]
    S = spin_settings(mats, surfs, B=(.1, -.2, .05), cols=cols, n=2)
    S["initial_magnetization"] = js(r.p, u)
    o, rep = run(conf, S)
    ck.count(transitions=3, traces=1)
    if not ck.expect(o.ok and len(o.evol.rows) == 3, "%s: %s %s" % (nm, o.status, o.err[-300:]), rep): return
    for k in range(3):
        check_s(tr, V, o.text["o_iter%d.sol" % k], "%s, state %d" % (nm, k), rep)
    s = tr.spin(u, V)
    H = np.array((.1, -.2, .05)) / MU0 + tr.field(s, r.a)
    v = r.velocity(u, r.phi(u), H, GAMMA0)
    # the spin torque is a sizeable part of the velocity, otherwise nothing is compared
    v0 = r.velocity(u, r.phi(u), np.array((.1, -.2, .05)) / MU0, GAMMA0)
    sc = np.abs(v).max()
    part.append(np.abs(v - v0).max() / sc)
    for k in (1, 2):
        row = o.row(k)
        for g in regs:
            e = r.avg(v, g)
            for d in range(3):
                x = row["%s:<dM%s/dt>" % (g, "xyz"[d])]
                dev = abs(x - e[d]) / sc
                worst["v"] = max(worst.get("v", 0), dev / 2e-4)
                if not ck.expect(dev < 2e-4, "%s: row %d %s:<dM%s/dt> = %.8g, expected %.8g" % (nm, k, g, "xyz"[d], x, e[d]), rep): return


def history(job):
    nm, conf, u, script, sig = job
    mesh, mats, surfs = conf
    tr = Transport(mesh, mats, surfs)
    V = tr.potential()
    h = 2e-14
    S = spin_settings(mats, surfs, B=(.1, -.2, .05), step=h, n=3, dtmin=1e-18, dtmax=h * .7, du=.05, cols=["t", "<Mx>", "<My>", "<Mz>"])
    S["initial_magnetization"] = js(tr.p, u)
    env = {"VERIF_SCRIPT": script, "VERIF_DUMAX": "0.05"}
    if sig: env["VERIF_SIGNAL"] = sig
    o, rep = run(conf, S, env=env)
    ck.count(transitions=len(o.attempts), traces=1)
    nm = "%s history %r%s" % (nm, script, " " + sig if sig else "")
    if sig:
        if not ck.expect("o_at_exit.sol" in o.text, "%s: no final state: %s" % (nm, o.status), rep): return
    elif not ck.expect(o.ok and len(o.evol.rows) == 4, "%s: %s %s" % (nm, o.status, o.err[-300:]), rep): return
    for f in sorted(o.text):
        if "_V." in f: continue
        s = check_s(tr, V, o.text[f], "%s, %s" % (nm, f), rep)
        # restarted from there: same spin accumulation
        if s is not None and (T or f in ("o_iter2.sol", "o_at_exit.sol")):
            S2 = dict(S, initial_magnetization="back.sol", outputs=dict(S["outputs"], final_time=Sol(o.text[f]).time))
            q, rep2 = run(conf, S2, {"back.sol": o.text[f]})
            ck.count(transitions=1, traces=1)
            if ck.expect(q.ok and "o_iter0.sol" in q.text, "%s, restarted from %s: %s %s" % (nm, f, q.status, q.err[-300:]), rep2):
                d = np.abs(spin_cols(q.text["o_iter0.sol"]) - s).max() / np.abs(s).max()
                worst["restart"] = max(worst.get("restart", 0), d / 2e-6)
                ck.expect(d < 2e-6, "%s, restarted from %s: spin accumulation differs by %g" % (nm, f, d), rep2)


part = []
jobs = []
REGS = ["c", "nc", "cn", "ncn", "cnp", "qm", "mrq", "h", "gz", "hnk"] + (["p", "pc", "cncn", "npn", "mq", "rq", "qmqm"] if T else [])
for regs in REGS:
    for axis in "xyz":
        for jn, uP, s0, flip in ((2e7, (0, 1, 0), (0, 0, 0), False), (-3e7, (1, 0, 1), (0, 0, 0), True), (9e6, (-1, 2, 1), (400., -900., 500.), False), (0., (0, 0, 1), (600., 0., 800.), True)):
            conf = config(regs, axis, jn, uP, s0, flip)
            N = len(conf[0].nodes)
            for w in range(6 if T else 3):
                if w == 0: u = np.array([unitv(1, .3, .2)] * N)
                elif w % 2: u = np.array([ALPHA[(i * w + 2 * w) % len(ALPHA)] for i in range(N)])
                else: u = np.array([unitv(math.cos(.5 * i + w), math.sin(.5 * i + w), .2 * w - .3) for i in range(N)])
                jobs.append(("%s along %s, jn=%g uP=%r s=%r, u%d" % (regs, axis, jn, uP, s0, w), conf, u))
pool.map(state, jobs)
jobs = []
for regs, axis in (("nc", "z"), ("ncn", "x")) + ((("cnp", "y"), ("c", "z")) if T else ()):
    conf = config(regs, axis, 4e5, (0, 1, 0), (0, 0, 0))
    N = len(conf[0].nodes)
    u = np.array([unitv(math.cos(.3 * i), math.sin(.3 * i), .4) for i in range(N)])
    L = 5 if T else 3
    for n in range(L + 1):
        for sc in itertools.product("AFR", repeat=n):
            sc = "".join(sc)
            if sc.endswith("A"): continue   # same as the shorter script
            jobs.append(("%s/%s" % (regs, axis), conf, u, sc, None))
    for k in range(1, 5):
        for sc in ("", "AFR"[:k], "RF"):
            jobs.append(("%s/%s" % (regs, axis), conf, u, sc, "solve:%d:15" % k))
pool.map(history, jobs)


# parameters which do (not) define the problem: every assignment of polarization and density of states to the regions, 0 to 2 surfaces with s
def admit(job):
    regs, Ps, Ns, ns = job
    mesh, mats, surfs = config(regs, "x", 1e7, (0, 1, 0), (0, 0, 0))
    mats = {r: dict(m, P=P, dens_state=n) for (r, m), P, n in zip(mats.items(), Ps, Ns)}
    mesh, mats, surfs = mesh, mats, {k: dict(v) for k, v in surfs.items()}
    far, near = [k for k in surfs if "jn" in surfs[k]][0], [k for k in surfs if "V" in surfs[k]][0]
    if ns == 0: del surfs[near]["s"]
    if ns == 2: surfs[far]["s"] = [0, 0, 0]
    S = spin_settings(mats, surfs, mag=(1, .3, .2), n=0)
    f = {"m.msh": mesh.msh(), "s.yml": yaml_dump(S)}
    o = pool.run(f, env={"VERIF_SCRIPT": ""}, post=SpOut)
    ck.count(states=1, transitions=1, traces=1)
    nm = "regions %s, P %s, density of states %s, %d surfaces with s" % (regs, Ps, Ns, ns)
    ok = all(0 <= P < 1 for P in Ps) and all(n_ != 0 for n_ in Ns) and ns == 1
    if ok: ck.expect(o.rc == 0 and len(o.text) > 0, "%s: refused: %s %s" % (nm, o.status, o.err[-200:]), dict(f))
    else: ck.expect(o.rc and not o.sig and o.err.strip() != "" and not o.text, "%s: not refused (%s)" % (nm, o.status), dict(f))


def stiff(job):
    """a problem that may be too hard for the solver: every state saved solves it, or the run stops with an error"""
    regs, n, lsd, lsf, N0, uP, mag, script = job
    mesh = sides(n[0] * len(regs), n[1], n[2], (6., 5., 4.), (0., 0., 0.), lambda i, j, k: "v%d" % (i // n[0]), ("x1", "x0"))
    mats = {"v%d" % i: dict(MAT[c], l_sd=lsd, l_sf=lsf, dens_state=N0) for i, c in enumerate(regs)}
    surfs = {"x1": dict(jn=1e9, uP=list(uP)), "x0": dict(V=0., s=[0, 0, 0])}
    tr = Transport(mesh, mats, surfs)
    V = tr.potential()
    S = spin_settings(mats, surfs, B=(1., .3, 0.), mag=mag, n=3, step=1e-14, dtmin=1e-20, du=.1, cols=["t", "<Mx>", "<My>", "<Mz>"])
    o, rep = run((mesh, mats, surfs), S, env={"VERIF_SCRIPT": script})
    ck.count(transitions=4, traces=1)
    nm = "%s %s cells, l_sd %g, l_sf %g, density of states %g, uP %r, m %r, history %r" % (regs, n, lsd, lsf, N0, uP, mag, script)
    if not o.ok:
        ck.expect(not o.sig and o.rc and (o.err.strip() or "**ABORTED**" in o.out), "%s: stopped without a word: %s" % (nm, o.status), rep)
        outcome["stopped"] = outcome.get("stopped", 0) + 1
    else: outcome["completed"] = outcome.get("completed", 0) + 1
    for f in sorted(o.text):
        if "_V." in f: continue
        so = Sol(o.text[f])
        be, bc = tr.residual(np.nan_to_num(np.array(so.u)), V, spin_cols(o.text[f]))
        ck.count(states=1)
        worst["stiff"] = max(worst.get("stiff", 0), be / 1e-5)
        if not ck.expect(be < 1e-5 and bc < 1e-5, "%s: %s (%s): the spin accumulation does not solve the problem: residual %.3g, boundary values off by %.3g" % (nm, f, o.status, be, bc), rep): return


outcome = {}
jobs = []
for regs, n in (("c", (2, 1, 1)), ("c", (5, 3, 3)), ("cn", (3, 2, 2))) + ((("ncp", (3, 3, 3)), ("p", (8, 2, 2))) if T else ()):
    for lsd in (1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-15):
        for lsf in (5e-9, 1e-6) if T else (5e-9,):
            for N0 in (1.34e47, 3e51):
                for uP, mag in (((0, 0, 1), (0, 0, 1)), ((0, 1, 0), (1, 0, 0)), ((0, 0, 1), (.6, 0, .8))):
                    for script in ("", "F", "RA", "AF") if T else ("", "F"):
                        jobs.append((regs, n, lsd, lsf, N0, uP, mag, script))
pool.map(stiff, jobs)
ck.sample("hard problems: %r" % outcome)
for k, v in sorted(worst.items()): ck.sample("worst %s error / tolerance %.2g" % (k, v))
PV = (0., .5, .999, 1., 1.5, -.1)
jobs = []
for regs in ("c", "nc", "cnp" if T else "cn"):
    k = len(regs)
    for Ps in itertools.product(PV, repeat=k):
        jobs.append((regs, Ps, (1.34e47,) * k, 1))
    for Ns in itertools.product((0., 1.34e47, 5e46), repeat=k):
        for ns in (0, 1, 2): jobs.append((regs, (.4,) * k, Ns, ns))
pool.map(admit, jobs)
ck.sample("the spin torque is up to %.2g (median %.2g) of the velocity" % (max(part), sorted(part)[len(part) // 2]))
pool.close()
ck.finish(exhaustive=True)
