import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hist import *

ck = Check("C04")
T = TIER == "thorough"
exe = build_program()
COL = ["iter", "t", "<Mx>", "<My>", "<Mz>"]
K = dict(cols=COL, du=.4, dtmin=.01, dtmax=1.)
cfgs = [
    Cfg("save1", tf=2., save=1, field=(.2, .1, .3), **K),
    Cfg("save2", tf=3., save=2, field=(.2, .1, .3), **K),
    Cfg("nosave", tf=1., save=0, field=(.2, .1, .3), **K),
    Cfg("t0", t0=4., tf=5., save=5, field=(.2, .1, .3), **K),
    Cfg("mixed", mesh="mixed", tf=1., save=1, mag=("1", "0.3", "x*1e9/8"), field=(.2, .1, .3), **K),
    Cfg("long", tf=3., step=1., save=1, field=(.2, .1, .3), cols=COL, du=.4, dtmin=.005, dtmax=.02),       # many steps between rows
    Cfg("rows", tf=2.4, step=.02, save=50, field=(.2, .1, .3), cols=COL, du=.4, dtmin=.005, dtmax=.02),    # many rows
    Cfg("deep", tf=1., save=1, field=(.2, .1, .3), **dict(K, dtmin=1e-6)),     # many rejections in a row
]
SIG = {2: "SIGINT", 15: "SIGTERM"}
OUT = set()


def interp(ref, t):
    """<M> at time t from the fine-grained undisturbed run"""
    rows = ref.evol.rows
    for a, b in zip(rows, rows[1:]):
        if a[1] <= t <= b[1] * (1 + 1e-12):
            w = (t - a[1]) / (b[1] - a[1])
            return [a[j] + w * (b[j] - a[j]) for j in (2, 3, 4)]
    return rows[-1][2:5] if t > rows[-1][1] * (1 - 1e-9) else rows[0][2:5]


def avg(c, sol):
    """volume average over the magnetic volume of the P1 interpolation"""
    s, v = [0., 0., 0.], 0.
    for r, t in c.m.tets:
        if r == "vol":
            w = abs(c.m.vol(t)); v += w
            for i in t:
                for j in range(3):
                    s[j] += w * sol.u[i][j] / 4
    return [x / v for x in s]


def judge(c, h, base, fine, sig, script, point):
    tag = "[%s script=%s %s at %s] " % (c.name, script or "-", SIG[sig], point)
    rep = lambda: dict(h.replay(), signal=sig, point=point)
    ck.count(states=1, transitions=len(h.att), traces=1)
    lines = h.trace.splitlines()
    k = next((i for i, l in enumerate(lines) if l.startswith("X ")), None)
    if not ck.expect(k is not None, tag + "signal point not reached again", rep): return
    if not ck.expect(h.bad is None and not h.timeout, tag + "bad outcome %s" % (h.bad or "timeout"), rep): return
    later = [l for l in lines[k:] if l.startswith("S ")]
    ck.expect(not later, tag + "%d integration steps attempted after the signal" % len(later), rep)
    # the state at the signal: time of the last retained attempt
    att = h.att
    nkept = [i for i in range(len(att)) if h.retained(i)]
    tnow = att[nkept[-1]][2] + att[nkept[-1]][3] if nkept else c.start
    finished = bool(nkept) and close(tnow, c.target(c.n), 1e-9)
    if finished and h.rc == 0 and not h.sig:
        OUT.add("completed")
        ck.expect(len(h.evol.rows) == c.n + 1, tag + "completed without all rows", rep)
        ck.expect("o_at_exit.sol" not in h.sols, tag + "exit file although completed", rep)
        return
    ck.expect(h.sig == sig, tag + "terminated with %s" % h.status, rep)
    # rows: exactly the visible times reached
    nv = sum(1 for j in range(c.n + 1) if c.target(j) <= tnow * (1 + 1e-9) + 1e-24)
    ck.expect(h.evol is not None and h.evol.complete and len(h.evol.rows) == nv, tag + "%d rows, %d visible times were reached" % (len(h.evol.rows) if h.evol else -1, nv), rep)
    for a, b in zip(h.evol.rows, base.evol.rows):
        ck.expect(close(a[1], b[1], 1e-12, 1e-28) and all(abs(x - y) < 1e-7 for x, y in zip(a, b)), tag + "rows altered: %s vs %s" % (a, b), rep)
    want = {"o_iter%d.sol" % j for j in range(nv) if c.save and j % c.save == 0}
    if c.save:
        want.add("o_at_exit.sol")
    ck.expect(set(h.sols) == want, tag + "files %s instead of %s" % (sorted(h.sols), sorted(want)), rep)
    s = h.sols.get("o_at_exit.sol")
    if s and c.save:
        OUT.add(("saved", c.name, len(att)))
        if not ck.expect(s.complete and len(s.rows) == len(c.m.nodes), tag + "exit file incomplete", rep): return
        ck.expect(s.time is not None and close(s.time, tnow, 2e-6, 1e-21), tag + "exit file at time %r, simulation at %.9g" % (s.time, tnow), rep)
        m = avg(c, s)
        r = interp(fine, tnow)
        ck.expect(all(abs(x - y) < 0.01 for x, y in zip(m, r)), tag + "exit file holds <M>=%s, the last retained state at t=%.6g has %s" % (m, tnow, r), rep)
        last = "o_iter%d.sol" % (nv - 1)
        if last in h.sols and close(c.target(nv - 1), tnow, 1e-9, 1e-25):
            for i, (u, v) in enumerate(zip(s.u, h.sols[last].u)):
                if not ck.expect(all((math.isnan(x) and math.isnan(y)) or abs(x - y) < 3e-7 for x, y in zip(u, v)), tag + "exit file differs from the last retained state at node %d: %s vs %s" % (i, u, v), rep): break
    else:
        OUT.add(("nosave", len(att)))


with Pool(exe) as pool:
    plan = []
    for c in cfgs:
        fine = Cfg(c.name + "-fine", t0=c.t0, tf=c.tf, step=.05, save=0, mesh=c.mesh, field=(.2, .1, .3),
                   mag=("1", "0.3", "x*1e9/8") if c.mesh == "mixed" else ("1", "0.3", "0.2"), cols=COL, du=.4, dtmin=.001, dtmax=.05)
        fh = fine.run(pool, "", post=lambda r: Hist(fine, "", r))
        if fh.rc != 0:
            ck.violation("[%s] undisturbed run ends with %s" % (fine.name, fh.status), fh.replay()); continue
        n0 = pool.runs
        many = c.name in ("long", "rows")
        scripts = [h for h in explore(pool, c, "RF", 0 if many or c.name == "deep" else 2 if T else 1, 5)]
        if T and not many:
            scripts += [c.run(pool, s, post=lambda r: Hist(c, s, r)) for s in full_scripts("ARF", 3)]
        if c.name == "deep":
            scripts += [c.run(pool, s, post=lambda r: Hist(c, s, r)) for s in ("R" * 2, "R" * 3, "R" * 4, "R" * 6, "ARRRR", "RRFRRR", "F" * 5, "AFRFRF")]
            if all(h.rc for h in scripts[1:]): raise SystemExit("HARNESS-ERROR: no run with many rejections ends")
        seen = set()
        work = []
        for h in scripts:
            if h.script in seen or h.rc != 0:
                continue
            seen.add(h.script)
            pts = [tuple(l.split()[1:3]) for l in h.trace.splitlines() if l.startswith("E ")]
            for kind, i in pts:
                if not T and int(i) > 12 and kind != ("demag" if many else "solve") and not (many and kind == "solve" and int(i) % 5 == 0):
                    continue
                for sig in SIG if not many else [sorted(SIG)[int(i) % 2]]:
                    work.append((h, "%s:%s" % (kind, i), sig))
        # everything written before the handlers are installed belongs to start-up
        for (b, pt, sig, h) in pool.imap(lambda w: (w[0], w[1], w[2], c.run(pool, w[0].script, env={"VERIF_SIGNAL": "%s:%d" % (w[1], w[2])}, post=lambda r: Hist(c, w[0].script, r))), work):
            judge(c, h, b, fh, sig, b.script, pt)
            if len(OUT) in (2, 5):
                ck.sample(dict(config=c.name, script=b.script, point=pt, signal=sig, status=h.status, files=sorted(h.sols)))
        plan.append("%s: %d histories x every solve/demag/write point x {SIGINT,SIGTERM}: %d runs" % (c.name, len(seen), pool.runs - n0))
    # restarting from the saved state resumes at that time and state
    c = cfgs[0]
    for pt in ("solve:0", "solve:1", "solve:2", "demag:2", "written:3"):
        r = c.run(pool, "", env={"VERIF_SIGNAL": pt + ":15"})
        txt = r.read("o_at_exit.sol"); pool.drop(r)
        if not ck.expect(txt is not None, "no exit file for a signal at %s" % pt): continue
        s0 = Sol(txt)
        files = dict(c.files); files["in.sol"] = txt
        S = json.loads(json.dumps(c.S)); S["initial_magnetization"] = "in.sol"; S["outputs"]["evol_time_step"] = .5 * PS
        S["outputs"]["final_time"] = s0.time + 1 * PS
        files["s.yml"] = yaml_dump(S)
        r = pool.run(files)
        ev = Evol(r.read("o.evol") or "")
        s1 = r.read("o_iter0.sol"); pool.drop(r)
        ck.count(states=1, transitions=1, traces=1)
        if ck.expect(r.rc == 0 and ev.rows and s1, "restart after a signal at %s fails: %s %s" % (pt, r.status, r.err[-200:])):
            ck.expect(close(ev.rows[0][1], s0.time, 1e-12, 1e-28), "restart after a signal at %s starts at t=%g, saved t=%g" % (pt, ev.rows[0][1], s0.time))
            ck.expect(all(abs(x - y) < 2e-7 for u, v in zip(Sol(s1).u, s0.u) for x, y in zip(u, v)), "restart after a signal at %s does not start from the saved state" % pt)
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(OUT), bounds=plan)
