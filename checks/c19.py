"""C19: recentering.  All axes x wall positions x signs x thresholds x mesh placements, on chain meshes, stepped with imposed zero
velocities (so that the only change of state is the recentering itself) and with the natural dynamics; every snapshot is compared with
an explicit model of the translation.  Restarting from a recentered snapshot must continue the run (same potential, same next state)."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C19")
T = TIER == "thorough"
pool = Pool(build_program())
STEP0 = 1e-14
AX = "XYZ"
N = 6
TOL = 2e-6


def chain(axis, origin, jitter=0., nonmag=False, spacing=4.):
    n = [2, 2, 2]; n[axis] = N
    d = [7., 7., 7.]; d[axis] = spacing
    tr = (axis + 1) % 3
    reg = (lambda i, j, k: "non" if (i, j, k)[tr] == 1 else "vol") if nonmag is True else None
    if nonmag == "two": reg = lambda i, j, k: "a" if (i, j, k)[axis] < 2 else "vol"
    if nonmag == "three": reg = lambda i, j, k: "z" if (i, j, k)[axis] >= 3 else "non" if (i, j, k)[tr] == 1 else "vol"
    m = grid(*n, tuple(d), origin=origin, region=reg) if reg else grid(*n, tuple(d), origin=origin)
    if jitter:
        lo = [min(p[c] for p in m.nodes) for c in range(3)]; hi = [max(p[c] for p in m.nodes) for c in range(3)]
        m.nodes = [tuple(x if x in (lo[c], hi[c]) else x + jitter * math.sin(1.7 * i + c) for c, x in enumerate(p)) for i, p in enumerate(m.nodes)]
    return m


class Model:
    def __init__(self, mesh, mats):
        self.p = np.array(mesh.nodes, float)
        self.c = (self.p.max(0) + self.p.min(0)) / 2
        self.l = self.p.max(0) - self.p.min(0)
        self.mag = sorted({n for g, t in mesh.tets for n in t if mats[g]["Ms"] > 0})
        self.ref = R.Ref(mesh, mats)
        self.pm = self.p[self.mag]

    def near(self, q):
        """indices of the nearest magnetic nodes (several if tied)"""
        d = np.linalg.norm(self.pm - q, axis=1)
        return [self.mag[k] for k in np.nonzero(d <= d.min() * (1 + 1e-7) + 1e-9)[0]]

    def avg(self, u, a):
        return float(self.wn @ np.where(np.isfinite(u[:, a]), u[:, a], 0.))

    def step(self, u, a, thr):
        """None: error expected; otherwise (moved, [set of allowed values per node])"""
        m = self.avg(u, a)
        if abs(abs(m) - abs(thr)) < 1e-6: return "skip"
        if abs(m) < abs(thr): return False, [[x] for x in u]
        e = np.eye(3)[a]
        L, Rr = self.near(self.c - .5 * self.l * e), self.near(self.c + .5 * self.l * e)
        uL, uR = {round(u[i, a], 9) for i in L}, {round(u[i, a], 9) for i in Rr}
        if len(uL) > 1 or len(uR) > 1: return "skip"
        uL, uR = uL.pop(), uR.pop()
        if uL * uR >= 0: return None
        D = m * .5 * self.l[a] * uL
        q = self.p + D * e
        q[:, a] = np.clip(q[:, a], self.c[a] - .5 * self.l[a], self.c[a] + .5 * self.l[a])
        d = np.linalg.norm(self.pm[None] - q[:, None], axis=2)
        ok = d <= d.min(1)[:, None] * (1 + 1e-7) + 1e-9
        out = [[u[self.mag[j]] for j in np.nonzero(ok[i])[0]] if i in self.mags else [u[i]] for i in range(len(u))]
        return True, out


def model(mesh, mats):
    m = Model(mesh, mats)
    m.wn = np.zeros(len(m.p))
    for g, t in mesh.tets:
        if mats[g]["Ms"] > 0: m.wn[list(t)] += abs(mesh.vol(t)) / 4
    m.wn /= m.wn.sum()
    m.mags = set(m.mag)
    return m


def pattern(mesh, a, w, s, kind):
    """wall at slab w along axis a, sign s; the transverse components label the transverse position"""
    lo = min(p[a] for p in mesh.nodes); hi = max(p[a] for p in mesh.nodes)
    b, c = (a + 1) % 3, (a + 2) % 3
    lb = min(p[b] for p in mesh.nodes); lc = min(p[c] for p in mesh.nodes)
    u = []
    for p in mesh.nodes:
        k = (p[a] - lo) / (hi - lo) * N
        x = (k - w)
        v = [0., 0., 0.]
        v[a] = s * (-1. if x > .25 else 1. if x < -.25 else 0.)
        if kind == "uniform": v[a] = s
        if kind == "other": v[a], v[b] = 0.05 * s, (-1. if x > 0 else 1.)   # wall of another component along the axis
        if kind == "zero_end" and k < .1: v[a] = 0.
        v[b] += .3 * math.sin(.9 + (p[b] - lb) / 7. + 2 * (p[c] - lc) / 7.) + .01 * k
        v[c] += .4 * math.cos(.3 + 1.3 * (p[b] - lb) / 7. - .8 * (p[c] - lc) / 7.) + .02 * k
        if kind == "zero_end" and k < .1 and abs(v[b]) + abs(v[c]) < .1: v[b] = .5
        u.append(np.array(v) / math.sqrt(sum(y * y for y in v)))
    return np.array(u)


MESH = {}
def get(key):
    if key not in MESH:
        axis, origin, jit, nm = key
        mesh = chain(axis, origin, jit, nm)
        mats = {"vol": dict(Ms=8e5, alpha_LLG=.1, Ae=1e-11)}
        if nm in (True, "three"): mats["non"] = dict(Ms=0.)
        if nm == "two": mats = {"a": dict(Ms=3e5, alpha_LLG=.1, Ae=1e-11), "vol": mats["vol"]}
        if nm == "three": mats["z"] = dict(Ms=1.2e6, alpha_LLG=.5, Ae=2e-11)
        MESH[key] = (mesh, mats, model(mesh, mats), mesh.msh())
    return MESH[key]


def allowed(got, want, mags):
    for i, ws in enumerate(want):
        g = got[i]
        if i not in mags:
            if not all(math.isnan(x) for x in g): return i
            continue
        if not any(np.max(np.abs(g - w)) < TOL for w in ws): return i
    return None


def one(job):
    key, a, (w, s, kind), thr, script, enable = job[:6]
    STEP = job[6] if len(job) > 6 else STEP0
    mesh, mats, mod, msh = get(key)
    name = "chain along %s at %s%s%s, recentering %s along %s, wall at slab %s sign %+d (%s), threshold %s, script %s, step %g" % (
        AX[key[0]], key[1], ", distorted" if key[2] else "", ", non-magnetic half" if key[3] is True else ", %s regions" % key[3] if key[3] else "", "on" if enable else "off", AX[a], w, s, kind, thr, script or "natural", STEP)
    u0 = pattern(mesh, key[0], w, s, kind)
    rows = len(script) if script else 2
    script = script and script + "Z" * 60
    S = settings(mats, None, (0, 0, 0), cols=["t", "<Mx>", "<My>", "<Mz>", "E_demag", "E_tot"], step=STEP, n=rows, dtmin=STEP / (64 if script else 2), dtmax=STEP * (64 if script else 2), du=.5, tol=1e-10)
    rec = {"enable": enable, "direction": AX[a]}
    if thr is not None: rec["threshold"] = thr
    S["recentering"] = rec
    txt = yaml_dump(S)
    for i in range(len(u0)):
        if i not in mod.mags: u0[i] = math.nan
    env = {"VERIF_SCRIPT": script, "VERIF_DUMAX": ".5"}
    rep = dict(settings=txt, msh=msh, initial=in_sol(u0), env=env)
    o = pool.run({"m.msh": msh, "s.yml": txt, "in.sol": in_sol(u0)}, env=env, post=Out)
    ck.count(traces=1)
    th = .1 if thr is None else thr
    u, t = u0, 0.
    moved_any = False
    # snapshot 0 is the initial state, before any step
    if not ck.expect(0 in o.sol and allowed(o.sol[0].u, [[x] for x in u0], mod.mags) is None, "%s: the initial state is altered or missing (%s) %s" % (name, o.status, o.err), rep): return
    u = np.array(o.sol[0].u)
    for k in range(1, rows + 1):
        if script:
            pre = u
        else:   # natural dynamics: the same step without recentering, from the same state (at rest)
            S2 = dict(S); S2["recentering"] = {"enable": False}
            S2["outputs"] = dict(S["outputs"], final_time=STEP)
            S2["initial_time"] = 0.
            p = pool.run({"m.msh": msh, "s.yml": yaml_dump(S2), "in.sol": in_sol(u)}, post=Out)
            if not ck.expect(1 in p.sol, "%s: reference run failed: %s %s" % (name, p.status, p.err), rep): return
            # continuation from a snapshot: same potential, same energies
            if k > 1:
                d = max(abs(x - y) for x, y in zip(p.sol[0].phi, o.sol[k - 1].phi))
                sc = max(abs(x) for x in p.sol[0].phi)
                if not ck.expect(d < 1e-5 * sc, "%s: the potential of snapshot %d is not that of its magnetization" % (name, k - 1), rep): return
                for c in ("E_demag", "E_tot"):
                    x, y = p.evol.col(c)[0], o.evol.col(c)[k - 1]
                    if not ck.expect(close(x, y, 1e-5, 1e-25), "%s: %s of row %d is %r, %r for its magnetization" % (name, c, k - 1, y, x), rep): return
            pre = np.array(p.sol[1].u)
        steps = [x for x in o.attempts if x[1] == 0 and x[4] <= .5 and (k - 1) * STEP <= x[2] + x[3] / 2 < k * STEP]
        if not script and not ck.expect(len(o.attempts) <= 2, "%s: unexpected integration steps %s" % (name, o.attempts), rep): return
        st, moved = (False, [[x] for x in pre]), False
        cur = pre
        for _ in steps:
            st = mod.step(cur, a, th) if enable else (False, [[x] for x in cur])
            if st is None or st == "skip": break
            moved |= st[0]
            if any(len({tuple(y) for y in x}) > 1 for x in st[1]) and len(steps) > 1: st = "skip"; break
            cur = np.array([x[0] for x in st[1]])
        if st == "skip": return
        if st is None:
            ck.expect(o.status != "exit 0" and not o.sig and ("wall" in o.err.lower()) and k not in o.sol,
                      "%s: there is no wall to recenter at step %d, but the run ended with %s (%s)" % (name, k, o.status, o.err), rep)
            ck.count(states=1)
            return
        want = st[1]
        if not ck.expect(k in o.sol, "%s: row %d missing (%s) %s" % (name, k, o.status, o.err), rep): return
        got = np.array(o.sol[k].u)
        bad = allowed(got, want, mod.mags)
        if not ck.expect(bad is None, "%s: snapshot %d, node %s: magnetization %s, expected %s (%s)" % (
                name, k, bad, None if bad is None else got[bad], None if bad is None else want[bad], "recentered" if moved else "not recentered"), rep): return
        for c in range(3):
            x, y = o.evol.col("<M%s>" % "xyz"[c])[k], mod.avg(got, c)
            if not ck.expect(abs(x - y) < 1e-5, "%s: row %d reports <M%s> = %r, the snapshot has %r" % (name, k, "xyz"[c], x, y), rep): return
        ck.count(states=1, transitions=1)
        moved_any |= moved
        u = got
        if not script and not moved: return   # v != 0 from here on: the reference run would start at rest
    ck.expect(o.status == "exit 0", "%s: the run ended with %s %s" % (name, o.status, o.err), rep)
    if moved_any: ck.sample(name)


ORI = [(0., 0., 0.), (-100., -100., -100.), (13.7, -42.1, 5.3)]
WALLS = [(w, s, "wall") for w in (.5, 1, 2, 3, 4, 5.5) for s in (1, -1)]
jobs = []
for axis in range(3):
    for a in range(3):
        for o in (ORI if a == axis else ORI[2:]):
            for ws in WALLS:
                for thr in (0., .05, .1, .3, .9, -.3, None) if a == axis else (.02, .3):
                    for sc in ("Z", "ZZZ"):
                        jobs.append(((axis, o, 0., False), a, ws, thr, sc, True))
        for kind in ("uniform", "other", "zero_end"):
            for s in (1, -1):
                for thr in (.01, .3, .9):
                    jobs.append(((axis, ORI[1], 0., False), a, (3, s, kind), thr, "ZZ", True))
                    jobs.append(((axis, ORI[1], 0., False), a, (2, s, kind), thr, "ZZ", True))
        jobs.append(((axis, ORI[0], 0., False), a, (1, 1, "wall"), .1, "ZZ", False))
    for ws in WALLS:
        for jit in (0., 1.1):
            jobs.append(((axis, ORI[2], jit, False), axis, ws, .1, "", True))   # natural dynamics
            jobs.append(((axis, ORI[2], jit, True), axis, ws, .1, "", True))
            jobs.append(((axis, ORI[2], jit, True), axis, ws, .1, "ZZ", True))
            for nm in ("two", "three"):
                for thr in (0., .1, .3): jobs.append(((axis, ORI[2], jit, nm), axis, ws, thr, "ZZ", True))
            # longer steps: the second step after a recentering starts at rest
            for nm in (False, True, "two"): jobs.append(((axis, ORI[2], jit, nm), axis, ws, .1, "", True, 4e-14))
        for sc in itertools.product("ZRFG", repeat=4 if T else 3):
            if ws[1] > 0 and ws[0] in (1, 4) or T: jobs.append(((axis, ORI[0], .9, False), axis, ws, .1, "".join(sc) + "Z", True))
    if T:
        for w in [x * .25 for x in range(1, 4 * N)]:
            for s in (1, -1):
                for thr in (0., .02, .1, .2, .5, .7):
                    for o in ORI:
                        for jit in (0., .7, 1.5):
                            for nm in (False, True):
                                jobs.append(((axis, o, jit, nm), axis, (w, s, "wall"), thr, "ZZZZ", True))
                                if thr == .1: jobs.append(((axis, o, jit, nm), axis, (w, s, "wall"), thr, "", True))
for key in {j[0] for j in jobs}: get(key)
pool.map(one, jobs)


# a wall that a field keeps pushing: it is brought back each time, however often
def pushed(job):
    a, s, f, thr, vis = job          # vis: integration steps of 1/2 ps between two output rows
    n, h = 30, 2.
    dims, sp = [1, 1, 1], [6., 6., 6.]
    dims[a], sp[a] = n, h
    mesh = grid(*dims, tuple(sp), region=lambda i, j, k: "vol")
    uk = [0., 0., 0.]; uk[a] = 1.
    B = [.0, .0, .0]; B[a] = f * 2.
    p = np.array(mesh.nodes)
    u0 = []
    for q in p:
        x = (q[a] - n * h / 2) / 4.
        v = [0., 0., 0.]; v[a] = -s * math.tanh(x); v[(a + 1) % 3] = 1 / math.cosh(x); v[(a + 2) % 3] = .05
        u0.append(np.array(v) / np.linalg.norm(v))
    S = settings({"vol": dict(Ms=5e5, alpha_LLG=.5, Ae=1e-11, K=8e5, uk=uk)}, None, tuple(B), cols=["t", "<Mx>", "<My>", "<Mz>"], step=vis * 5e-13, n=(240 if T else 120) // vis, dtmin=1e-17, dtmax=5e-13, du=.2, tol=1e-6)
    S["recentering"] = {"enable": True, "direction": AX[a], "threshold": thr}
    o = pool.run({"m.msh": mesh.msh(), "s.yml": yaml_dump(S), "in.sol": in_sol(np.array(u0))}, post=Out, timeout=300)
    S2 = dict(S); S2["recentering"] = {"enable": False}
    b = pool.run({"m.msh": mesh.msh(), "s.yml": yaml_dump(S2), "in.sol": in_sol(np.array(u0))}, post=Out, timeout=300)
    rep = dict(settings=yaml_dump(S), msh=mesh.msh(), err=o.err)
    nm = "wall %+d along %s, field %+d, threshold %g, a row every %d steps" % (s, AX[a], f, thr, vis)
    if not ck.expect(o.ok and b.ok and len(o.evol.rows) == len(b.evol.rows), "%s: %s, without recentering %s" % (nm, o.status, b.status), rep): return
    x, y = o.evol.col("<M%s>" % AX[a].lower()), b.evol.col("<M%s>" % AX[a].lower())
    PUSH.append((max(abs(v) for v in x), max(abs(v) for v in y)))
    ck.count(states=len(x), transitions=len(o.attempts), traces=2)
    if max(abs(v) for v in y) < .5: return   # the field does not move the wall: nothing to see
    ck.expect(max(abs(v) for v in x) < thr + 3. / n, "%s: <M%s> reaches %g" % (nm, AX[a].lower(), max(x, key=abs)), rep)


PUSH = []
pool.map(pushed, [(a, s, f, thr, v) for a in range(3) for s in (1, -1) for f in (1, -1) for thr in (.05, .2) for v in ((2, 120) if thr == .2 or T else (2,))])
if not any(y > .5 for _, y in PUSH) and not ck.viol: raise SystemExit("HARNESS-ERROR: the pushed walls do not move")
print(sorted(PUSH)[-3:], min(y for _, y in PUSH))
ck.sample(dict(pushed_wall="largest |<M>| %.3g with recentering, at least %.3g without" % (max(x for x, _ in PUSH), min(y for _, y in PUSH)) if PUSH else ""))
ck.finish(exhaustive=True, bounds="%d runs: chain meshes along each axis (6 slabs, 2x2 section; also distorted, translated, half non-magnetic), "
          "12%s wall positions/signs, thresholds, direction setting equal to or different from the chain axis, zero-velocity scripts up to %d steps "
          "with rejected and failed attempts, and natural steps" % (len(jobs), "+46" if T else "", 5 if T else 4),
          oracle="explicit model of the translation (nearest magnetic node, any of the tied ones); for natural steps, the same step without recentering followed by the model")
