import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C09")
T = TIER == "thorough"
pool = Pool(build_program())
ALL = ["iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length",
       "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz"]
PS = 1e-12
FIELDS = [((0.1, -.05, .2), lambda t: (0.1, -.05, .2)),
          (("0.1*t/1e-12", "0.05*cos(2e12*t)", "-0.1+0.02*t*1e12"), lambda t: (0.1 * t / PS, .05 * math.cos(2e12 * t), -.1 + .02 * t * 1e12)),
          ({"Bext": Raw("|\n  function(t) { if (t < 0.9e-12) return [0.2, 0, 0]; return [0, 0.1, 0.3]; }")},
           lambda t: (.2, 0, 0) if t < .9 * PS else (0, .1, .3))]
worst = {}


def meshes():
    a = Mesh([(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)], [("v0", (0, 1, 2, 3))])
    b = grid(2, 1, 1, (5., 6., 7.), origin=(-20., -30., -40.), region=lambda i, j, k: "v%d" % i)       # all coordinates negative
    c = grid(1, 1, 3, (6., 5., 4.), origin=(-3., 2., 1.), region=lambda i, j, k: "v%d" % k,
             surface=lambda q, r: "S" if len(r) == 1 and all(p[2] == 1. for p in q) else ("I" if len(r) == 2 else None))
    return dict(tet=a, neg=b, stack=c)


MAT = {"a": dict(Ae=1.3e-11, Ms=8e5, alpha_LLG=.1, K=3e5, uk=(1., 2., -1.)), "b": dict(Ae=9e-12, Ms=4e5, alpha_LLG=.3, K3=-2e5),
       "c": dict(Ae=1e-11, Ms=6e5, alpha_LLG=.2, K=-2e5, uk=(0., 1., 1.), K3=1e5), "n": dict(Ms=0.)}
MSH = meshes()


def upat(N, k):
    r = [ALPHA[(i * (k + 1) + k) % len(ALPHA)] for i in range(N)]
    if k % 3 == 0:  # smooth
        r = [unitv(1 + .1 * i, .5 - .07 * k, math.sin(i + k) * .3) for i in range(N)]
    return np.array(r)


def check_rows(o, r, u0, fl, cols, regs, rep, name, exact0, dts, script):
    """compare every column of every row with its definition on the configuration saved with the row"""
    prev = None
    for k, vals in enumerate(o.evol.rows):
        t = o.evol.rows[k][cols.index("t")] if "t" in cols else None
        if t is None: return
        s = o.sol.get(k)
        if not ck.expect(s is not None and len(s.u) == r.N, "%s: no configuration saved with row %d" % (name, k), rep): return
        u = np.array(s.u)
        ck.expect(abs(s.time - t) <= 1e-6 * abs(t) + 1e-30, "%s: row %d time %g, .sol time %g" % (name, k, t, s.time), rep)
        # each row's own reference state: exact initial data, or the 8 digits of the .sol file
        tol = 4e-7
        phi = r.phi(np.where(r.magN[:, None], u, 0))
        if k == 0 and exact0:
            tol = 1e-10
            ck.expect(np.abs(np.where(r.magN[:, None], u - u0, 0)).max() < 1e-7, "%s: initial configuration altered" % name, rep)
            u = np.where(r.magN[:, None], u0, np.nan)
            phi = r.phi(np.where(r.magN[:, None], u, 0))
        H = np.array(fl(t)) / MU0
        E = r.energies(u, phi, H)
        sc = r.esc(u, phi, H)
        sc["E_tot"] = sum(sc.values())
        last = dts[k] if dts else None
        exp = {}
        for c in cols:
            reg, _, key = c.rpartition(":")
            reg = reg or None
            if key == "iter": e = (k, 0)
            elif key == "t": continue
            elif key == "dt": e = (last, 1e-9 * last) if k and last else None
            elif key in E: e = (E[key], tol * sc[key] + 1e-40)
            elif key[0] == "H": e = (H["xyz".index(key[1])], 1e-9 * np.abs(H).max() + 1e-9)
            elif key.startswith("<M"): e = (r.avg(u, reg)["xyz".index(key[2])], tol)
            elif key == "max_angle":
                a = r.max_angle(u)
                e = (a, 2e-7 / max(math.sin(a), 3e-4) + tol)
            elif key == "Thiele_length":
                x = r.thiele(u, reg)
                e = (x, 1e-5 * x) if math.isfinite(x) and x < 1e-3 else None
            elif key in ("<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "max_dm"):
                # needs the state before the last time step: only when the whole row is one step
                if prev is None or not last or abs(last - (t - prev[0])) > 1e-6 * last: continue
                d = np.where(r.magN[:, None], u / (u * prev[1]).sum(1)[:, None] - prev[1], 0)
                m = np.linalg.norm(d, axis=1).max()
                if key == "max_dm": e = (m, 4e-7 + 1e-5 * m)
                else: e = (r.avg(d / last, reg)["xyz".index(key[3])], (4e-7 + 1e-5 * m) / last)
            else:
                raise SystemExit("unknown column " + key)
            if e is None: continue
            x = vals[cols.index(c)]
            dev = abs(x - e[0]) / e[1] if e[1] else (0 if x == e[0] else 9)
            worst[key] = max(worst.get(key, 0), dev if dev == dev else 9e9)
            if not ck.expect(dev <= 1, "%s row %d: column %s is %.12g, but the saved state at that time gives %.12g" % (name, k, c, x, e[0]), rep): return
            ck.count(transitions=1)
        prev = (t, u)


def simulate_case(job):
    mk, ms, uk, fk, script, du, cols = job
    mesh = MSH[mk]
    regs = sorted({g for g, _ in mesh.tets})
    mats = {g: MAT[m] for g, m in zip(regs, ms)}
    surfs = {"S": dict(suppress_charges=True, Ks=(0., 8e-4, -6e-4)[(uk + fk) % 3], uk=(0., .6, .8)), "I": dict(Ks=1e-3 if all("n" in ms[i:i + 2] for i in range(2)) else 0., uk=(1., 0., 1.))} if mesh.tris else None
    r = R.Ref(mesh, mats, surfs)
    u0 = upat(r.N, uk)
    B, fl = FIELDS[fk]
    name = "%s/%s/u%d/B%d/%s" % (mk, ms, uk, fk, script or "-")
    if cols is None:
        cols = list(ALL) + ["%s:%s" % (g, c) for g, m in zip(regs, ms) if m != "n" for c in ("<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMz/dt>", "Thiele_length")]
    h = .3 * PS
    S = settings(mats, surfs, B, cols=cols, step=h, n=4, dtmin=h / 50, dtmax=h * 100, du=du)
    nonmag = not r.magN.all()
    if nonmag:
        ps = json.dumps(r.p.tolist()); us = json.dumps(u0.tolist())
        S["initial_magnetization"] = Raw("|\n  function(x,y,z){ var P=%s, U=%s, b=0, d=1e9; for (var i=0;i<P.length;i++){ var e=Math.abs(P[i][0]-x)+"
                                         "Math.abs(P[i][1]-y)+Math.abs(P[i][2]-z); if (e<d) {d=e;b=i;} } return U[b]; }" % (ps, us))
    o = simulate(pool, mesh, S, None if nonmag else u0, env={"VERIF_SCRIPT": script, "VERIF_DUMAX": repr(du)})
    rep = dict(settings=yaml_dump(S), nodes=mesh.nodes, tets=mesh.tets, tris=mesh.tris, u=u0.tolist(), script=script, err=o.err)
    if not ck.expect(o.ok and len(o.evol.rows) == 5, "%s: run failed: %s %s" % (name, o.status, o.bad), rep): return
    if not ck.expect(o.evol.columns == cols and all(len(x) == len(cols) for x in o.evol.rows), "%s: columns differ from those requested" % name, rep): return
    # time step that ended each row, from the recorded attempts (t is the start of the attempt)
    dts = {}
    tc = cols.index("t")
    for k, row in enumerate(o.evol.rows):
        c = [a for a in o.attempts if abs(a[2] + a[3] - row[tc]) < 1e-6 * h]
        dts[k] = c[-1][3] if c else None
    check_rows(o, r, u0, fl, cols, regs, rep, name, True, dts, script)
    ck.count(states=len(o.evol.rows), traces=1)


jobs = []
SCR = ["", "R", "FA", "AF", "ARA", "G"]
for uk in range(12 if T else 6):
    for fk in range(3):
        for ms in ("a", "b", "c"):
            for sc in SCR:
                jobs.append(("tet", ms, uk, fk, sc, .9, None))
        for ms in ("aa", "ab", "ba", "ca", "an", "na", "bn"):
            for sc in (SCR if T else SCR[:4] if uk < 2 else [""]):
                jobs.append(("neg", ms, uk, fk, sc, .9, None))
        for ms in itertools.product("abn", repeat=3):
            ms = "".join(ms)
            if set(ms) == {"n"}: continue
            for sc in (SCR if T else ["", "RA"][:1 + (uk == 0)]):
                jobs.append(("stack", ms, uk, fk, sc, .9, None))
# every single column, every ordered pair, every rotation of the full list
sel = [[c] for c in ALL] + [[a, b] for a, b in itertools.permutations(ALL, 2)] + [ALL[i:] + ALL[:i] for i in range(len(ALL))] + [ALL[::-1]]
pool.map(simulate_case, jobs)
base = {}
ref_case = {}


def column_case(cols):
    mesh = MSH["neg"]
    mats = {"v0": MAT["a"], "v1": MAT["b"]}
    S = settings(mats, None, FIELDS[1][0], cols=cols, step=.3 * PS, n=2, dtmin=.01 * PS, dtmax=3 * PS, save=False)
    o = simulate(pool, mesh, S, upat(len(mesh.nodes), 1))
    rep = dict(settings=yaml_dump(S), err=o.err)
    if not ck.expect(o.ok and o.evol.columns == cols and len(o.evol.rows) == 3 and all(len(x) == len(cols) for x in o.evol.rows),
                     "columns %s: bad .evol" % cols, rep): return None
    ck.count(1, 1, 1)
    return [dict(zip(cols, x)) for x in o.evol.rows]


full = column_case(list(ALL))
for cols, rows in zip(sel, pool.map(column_case, sel)):
    if rows is None or full is None: continue
    for k in range(3):
        for c in cols:
            ck.expect(close(rows[k][c], full[k][c], 1e-12, 1e-300), "column %s depends on the selection %s: %r vs %r" % (c, cols, rows[k][c], full[k][c]))
# region names: any string may precede the last colon of a column name
NAMES = ["core:1", "a b", ":", "x:", ":x", "a:b:c", "<Mx>", "iter", "v0:<Mx>", "é", "1", "-1", "Hx"]


def named_case(pair):
    mesh = MSH["neg"]
    m = Mesh(mesh.nodes, [(pair[int(g[1:])], t) for g, t in mesh.tets])
    cols = ["t"] + ["%s:<M%s>" % (g, d) for g in pair for d in "xyz"] + ["<Mx>"] + ["%s:Thiele_length" % g for g in pair]
    ref = ["t"] + ["v%d:<M%s>" % (i, d) for i in (0, 1) for d in "xyz"] + ["<Mx>", "v0:Thiele_length", "v1:Thiele_length"]
    out = []
    for mm, nn, cc in ((m, pair, cols), (mesh, ("v0", "v1"), ref)):
        S = settings({nn[0]: MAT["a"], nn[1]: MAT["b"]}, None, FIELDS[1][0], cols=cc, step=.3 * PS, n=1, dtmin=.01 * PS, dtmax=3 * PS, save=False)
        out.append((simulate(pool, mm, S, upat(len(mesh.nodes), 1)), S))
    (o, S), (q, _) = out
    rep = dict(settings=yaml_dump(S), err=o.err)
    if ck.expect(q.ok and o.ok and o.evol.columns == cols, "regions named %r: bad .evol (%s)" % (pair, o.status), rep):
        for a, b in zip(o.evol.rows, q.evol.rows):
            ck.expect(all(close(x, y, 1e-9, 1e-300) for x, y in zip(a, b)), "regions named %r: columns differ from those of the same regions named v0, v1" % (pair,), rep)
    ck.count(1, 1, 1)


pool.map(named_case, [p for p in itertools.permutations(NAMES, 2) if T or NAMES.index(p[0]) < 4 or p[1] == "core:1"])


# opposite and equal neighbours: every small integer direction; the angle is pi or 0 whatever the rounding of the unit vectors
def opposite_case(job):
    mk, d, sg = job
    mesh = MSH[mk]
    regs = sorted({g for g, _ in mesh.tets})
    S = settings({g: MAT["c"] for g in regs}, None, FIELDS[0][0], cols=list(ALL), step=.3 * PS, n=0, dtmin=.01 * PS, dtmax=3 * PS, save=False)
    a, b = mesh.nodes[0][0], mesh.nodes[0][1]
    S["initial_magnetization"] = Raw("|\n  function(x,y,z){ var s = Math.abs(x-(%r))+Math.abs(y-(%r)) < 1e-3 ? %d : 1; return [s*%d,s*%d,s*%d]; }" % ((a * 1e-9, b * 1e-9, sg) + d))
    S["initial_magnetization"] = Raw(S["initial_magnetization"].replace("1e-3", "1e-12"))
    o = simulate(pool, mesh, S, None)
    rep = dict(settings=yaml_dump(S), err=o.err)
    nm = "magnetization along %s, %s at one node of %s" % (d, "opposite" if sg < 0 else "equal", mk)
    ck.count(1, 1, 1)
    if not ck.expect(o.ok and len(o.evol.rows) == 1, "%s: run failed: %s" % (nm, o.status), rep): return
    row = dict(zip(ALL, o.evol.rows[0]))
    e = math.pi if sg < 0 else 0.
    ck.expect(abs(row["max_angle"] - e) < 5e-7, "%s: max_angle is %r" % (nm, row["max_angle"]), rep)
    ck.expect(all(x == x for x in o.evol.rows[0]), "%s: nan in the row %s" % (nm, o.evol.rows[0]), rep)
    got = [l for l in o.out.splitlines() if l.startswith("Maximum magnetization angle")]
    ck.expect(not got or got[0].split(":")[1].strip().rstrip("\u00b0") == "180" or sg > 0, "%s: %s" % (nm, got), rep)


rg = (-7, -3, 0, 1, 2, 5) if T else (-3, 0, 1, 2, 5)
pool.map(opposite_case, [(mk, d, sg) for mk in ("tet", "neg") for d in itertools.product(rg, repeat=3) if any(d) for sg in (-1, 1)])
print("worst (fraction of tolerance):", {k: round(v, 3) for k, v in sorted(worst.items())}, len(jobs) + len(sel), "runs")
pool.close()
ck.sample({"case": "%s/%s/u%d/B%d/%s" % jobs[0][:5]})
ck.sample({"case": "%s/%s/u%d/B%d/%s" % jobs[-1][:5]})
ck.finish(exhaustive=True)
