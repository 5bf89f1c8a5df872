import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C06")
T = TIER == "thorough"
pool = Pool(build_program())
PS = 1e-12
EXPR = {
    "const": Raw("[0, 3, 4]"), "tiny": Raw("[1e-30, 2e-30, -1e-30]"), "huge": Raw("[1e120, 0, -1e120]"),
    "linear": Raw('["x*1e9+0.1", "-y*1e9", "2+z*1e9"]'), "trig": Raw('["cos(x*1e9)", "sin(x*1e9)", 0.2]'),
    "func": Raw('"function(x,y,z) { return [z*1e9-20, 1, x*1e9]; }"'),
    "region": Raw('"function(x,y,z,r) { return r.includes(\'v0\') ? [1, 2, 0.5] : r.includes(\'v1\') ? [0, -5, 1] : [0.1, 0.1, 7]; }"'),
}


def mesh3(shape):
    if shape == "stack":
        return grid(1, 1, 3, (6., 5., 4.), region=lambda i, j, k: "v%d" % k)
    if shape == "quad":  # 2x2 columns: nodes shared by up to four regions
        return grid(2, 2, 1, (5., 5., 5.), region=lambda i, j, k: "v%d" % (2 * i + j))
    if shape == "large":   # many elements, one layer per region
        return grid(9, 8, 3, (5., 4., 5.), region=lambda i, j, k: "v%d" % k)
    if shape == "chain":
        return grid(1, 1, 150, (5., 4., 5.), region=lambda i, j, k: "v%d" % (k // 75))
    # one node belongs to eight tetrahedra of four regions
    c = [(0, 0, 0), (9, 0, 0), (-9, 1, 0), (0, 8, 1), (0, -8, 0), (1, 0, 9), (0, 1, -9)]
    m = Mesh(c, [])
    for n, (x, y, z) in enumerate(itertools.product((1, 2), (3, 4), (5, 6))):
        t = (0, x, y, z)
        if m.vol(t) < 0: t = (0, y, x, z)
        m.tets.append(("v%d" % (n // 2), t))
    return m


SH = {s: mesh3(s) for s in ("stack", "quad", "fan", "large", "chain")}


def one(job):
    shape, mag, ex, script, sig = job
    mesh = SH[shape]
    regs = sorted({g for g, _ in mesh.tets})
    mats = {g: (dict(Ms=8e5 if m == 1 and isinstance(m, int) else float(m), alpha_LLG=.2, Ae=1e-11 * min(1., m / 8e5) if m != 1 else 1e-11) if m else dict(Ms=0.)) for g, m in zip(regs, mag)}
    magN = {n for g, t in mesh.tets for n in t if mats[g]["Ms"] > 0}
    du = .5
    S = settings(mats, None, (.1, "0.2*cos(t*1e12)", .05), cols=["t", "<Mx>"], step=.2 * PS, n=3, dtmin=.001 * PS, dtmax=1 * PS, du=du, tol=1e-8)
    S["initial_magnetization"] = EXPR[ex]
    name = "%s/%s/%s/%s%s" % (shape, "".join("nm"[m] if m in (0, 1) and isinstance(m, int) else "(%g)" % m for m in mag), ex, script or "-", "/sig" if sig else "")
    env = {"VERIF_SCRIPT": script, "VERIF_DUMAX": repr(du)}
    if sig: env["VERIF_SIGNAL"] = sig

    def post(res):
        return res.status, {f: res.read(f) for f in res.files() if f.endswith(".sol")}, res.err[-800:]
    f = {"m.msh": mesh.msh(), "s.yml": yaml_dump(S)}
    st, sols, err = pool.run(f, env=env, post=post)
    rep = dict(settings=yaml_dump(S), msh=mesh.msh(), env=env, err=err)
    want = 4 if not sig else None
    if not ck.expect(st in (("exit 0",) if not sig else ("signal 15", "exit 0")) and (want is None or len(sols) == want) and sols,
                     "%s: run ended with %s and %d configurations" % (name, st, len(sols)), rep): return
    for fn, txt in sols.items():
        try:
            u = Sol(txt).u
        except Exception as e:
            ck.violation("%s: %s cannot be read: %r" % (name, fn, e), rep); return
        if not ck.expect(len(u) == len(mesh.nodes), "%s: %s has %d nodes" % (name, fn, len(u)), rep): return
        for i, v in enumerate(u):
            if i in magN:
                n = math.sqrt(sum(x * x for x in v))
                if not ck.expect(abs(n - 1) < 1e-6, "%s: %s node %d is magnetic, |M| = %r" % (name, fn, i, n), rep): return
            elif not ck.expect(all(math.isnan(x) for x in v), "%s: %s node %d is not magnetic, M = %r" % (name, fn, i, v), rep): return
        ck.count(states=1)
    ck.count(transitions=len(sols), traces=1)


jobs = []
for shape in SH:
    n = len({g for g, _ in SH[shape].tets})
    for mag in itertools.product((0, 1), repeat=n):
        if not any(mag): continue
        for ex in EXPR:
            if shape in ("large", "chain"): jobs.append((shape, mag, ex, "R", None)); continue
            for sc in ("", "R", "F", "ZR"):
                jobs.append((shape, mag, ex, sc, None))
        if shape in ("large", "chain"): continue
        for sc in itertools.product("ARFZ", repeat=5 if T else 3):
            jobs.append((shape, mag, "trig", "".join(sc), None))
        for k in range(6 if T else 3):
            for sc in ("", "R", "FR"):
                jobs.append((shape, mag, "trig", sc, "solve:%d:15" % k))
# any positive saturation magnetization makes a region magnetic
MSV = (1e-9, 1e-3, .5, 1.5, 30., 1e3, 5e6)
for shape in ("stack", "fan"):
    n = len({g for g, _ in SH[shape].tets})
    for k in range(n):
        for ms in MSV:
            jobs.append((shape, tuple(ms if i == k else 0 for i in range(n)), "trig", "", None))
            jobs.append((shape, tuple(ms if i == k else 1 for i in range(n)), "linear", "R", None))
pool.map(one, jobs)


# long histories: thousands of steps of every size, drift must not build up
def long(job):
    du, n, ang = job
    m = single_tet(12.)
    g = m.tets[0][0]
    w = 1.76e11 * 2.0    # precession in 2 T, rad/s
    dt = du / (w * math.sin(ang))
    S = settings({g: dict(Ms=1e3, alpha_LLG=.001, Ae=1e-11)}, None, (0., 0., 2.), cols=["t", "<Mx>", "<My>", "<Mz>"], step=dt * n / 2, n=2, dtmin=dt / 20, dtmax=dt * 1.001, du=max(.5, 10 * du), tol=1e-8)
    S["initial_magnetization"] = Raw("[%r, 0, %r]" % (math.sin(ang), math.cos(ang)))
    o = simulate(pool, m, S, timeout=300)
    rep = dict(settings=yaml_dump(S), msh=m.msh(), err=o.err)
    nm = "%d steps of %g rad" % (n, du)
    if not ck.expect(o.ok and len(o.sol) == 3, "%s: run ended with %s" % (nm, o.status), rep): return
    for k in range(3):
        for i, v in enumerate(o.sol[k].u):
            q = math.sqrt(sum(x * x for x in v))
            ck.expect(abs(q - 1) < 1e-6, "%s: configuration %d, node %d: |M| = %r" % (nm, k, i, q), rep)
        a = math.sqrt(sum(o.row(k)["<M%s>" % c] ** 2 for c in "xyz"))   # a uniform state: the average is a unit vector as well
        ck.expect(abs(a - 1) < 1e-7, "%s: row %d, |<M>| = %.12g" % (nm, k, a), rep)
    ck.count(n, n, 1)


LONG = [(du, int(min(4000, max(200, 4e-5 / du ** 2))) * (5 if T else 1), ang) for du in (2e-6, 1e-5, 3e-5, 7e-5, 1e-4, 3e-4, 1e-3, 1e-2, .1, .4) for ang in (1.2, .5)]
pool.map(long, LONG)


# magnetizations that cannot be normalized must not start a simulation
def reject(e):
    S = settings({"vol": dict(Ms=8e5)}, cols=["t"], step=.2 * PS, n=2, dtmin=.001 * PS, dtmax=1 * PS)
    S["initial_magnetization"] = Raw(e)
    o = simulate(pool, grid(1, 1, 1, (5., 5., 5.)), S)
    ck.count(1, 1, 1)
    ck.expect(o.rc not in (0, -1) and not o.sol, "initial magnetization %s cannot be normalized, yet: %s, %d configurations saved" % (e, o.status, len(o.sol)),
              dict(settings=yaml_dump(S), err=o.err))


pool.map(reject, ["[0, 0, 0]", '["x", 0, 0]', '["1/0", 0, 0]', '["sqrt(-1)", 1, 0]', '"function(x,y,z) { return [0, 0, y]; }"',
                  '"function(x,y,z,r) { return [0, 0, 0]; }"', '"function(x,y,z) { return [1, \'a\', 0]; }"'])
print(len(jobs), "runs")
ck.sample(str(jobs[0])); ck.sample(str(jobs[-1]))
pool.close()
ck.finish(exhaustive=True)
