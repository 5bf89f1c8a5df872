import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hist import *

ck = Check("C02")
T = TIER == "thorough"
exe = build_program()
cfgs = [
    Cfg("base", save=0),
    Cfg("ratio4", dtmin=.2, dtmax=.8, save=0, tf=4.),
    Cfg("ratio2", dtmin=.3, dtmax=.6, save=0, tf=2.),
    Cfg("tight", dtmin=.24, dtmax=.25, save=0, tf=1.),
    Cfg("wide", dtmin=.001, dtmax=2.5, save=0, tf=2.),
    Cfg("t0", t0=3., tf=5., dtmin=.05, dtmax=.5, save=0),
    Cfg("long", tf=6., step=3., dtmin=.1, dtmax=1., save=0),
    Cfg("pow2", dtmin=.25, dtmax=1., save=0, tf=2.),
    Cfg("fixed", dtmin=.5, dtmax=.5, save=0, tf=2.),
    Cfg("fixed1", dtmin=1., dtmax=1., save=0, tf=2.),
    Cfg("narrow", dtmin=.18, dtmax=.25, save=0, tf=2.),
    # natural (unforced) rejections: the field turns the magnetization faster than max(du) allows
    Cfg("natural", field=(3., 0.5, 2.), du=.02, tf=1., dtmin=.002, dtmax=.5, save=0),
    Cfg("ramp", field=("1e12*t*4", "0", "1"), du=.05, tf=1., dtmin=.0005, dtmax=.5, save=0),
]
OUT = set()
KINDS = dict(retained=0, discarded=0, aborted=0)


def check(h):
    c = h.cfg
    rep = h.replay
    tag = "[%s %s] " % (c.name, h.script)
    ck.count(states=len(h.att) + 1, transitions=len(h.att), traces=1)
    if not ck.expect(not h.timeout and not h.sig, tag + "run did not terminate: %s" % h.status, rep): return
    lo, hi = c.dtmin * PS, c.dtmax * PS * (1 + 1e-6)
    L = math.sqrt(c.dtmin * c.dtmax) * PS       # limit on dt imposed by the past, growing with successes
    tend = c.target(c.n)
    for i, (l, st, t, dt, du) in enumerate(h.att):
        ck.expect(lo <= dt <= hi, tag + "attempt %d uses dt=%.9g outside [min,max]=[%g,%g]" % (i, dt, lo, hi), rep)
        ck.expect(t + dt <= tend * (1 + 1e-9) + 1e-24, tag + "attempt %d oversteps the final time" % i, rep)
        nxt = h.att[i + 1] if i + 1 < len(h.att) else None
        keep = h.retained(i)
        if i == 0:
            ck.expect(close(t, c.start, 1e-12, 1e-28), tag + "first step starts at %.9g" % t, rep)
        if keep:
            KINDS["retained"] += 1
            L = min(max(L, 1.1 * dt), .9 * dt * c.du / du, c.dtmax * PS)
            if nxt:
                ck.expect(close(nxt[2], t + dt, 1e-9), tag + "attempt %d (converged, du=%.3g) ended at %.12g but the next one starts at %.12g" % (i, du, t + dt, nxt[2]), rep)
        else:
            KINDS["discarded"] += 1
            L = min(L, dt / 2 if st != 0 else .9 * dt * c.du / du)
            if nxt:
                ck.expect(nxt[2] == t, tag + "attempt %d was not acceptable (status %d, du=%.4g) yet time advanced from %.12g to %.12g" % (i, st, du, t, nxt[2]), rep)
                ck.expect(nxt[3] < dt, tag + "retry after attempt %d with dt=%.9g, not smaller than %.9g" % (i, nxt[3], dt), rep)
    ok = bool(h.att) and h.retained(len(h.att) - 1)
    OUT.add((c.name, h.rc, h.aborted, len(h.att)))
    if h.rc == 0:
        ck.expect(not h.aborted, tag + "exit 0 with an abort message", rep)
        ck.expect(ok and close(h.att[-1][2] + h.att[-1][3], tend, 1e-9), tag + "normal end although the last attempt does not reach the final time", rep)
    else:
        KINDS["aborted"] += 1
        ck.expect(h.rc == 1 and h.aborted, tag + "status %s without abort message" % h.status, rep)
        # at the time of the abort no number of equal steps of an allowed size reaches the next output
        t = c.start if not h.att else h.att[-1][2] + (h.att[-1][3] if ok else 0)
        k = 0
        while k <= c.n and c.target(k) <= t + 1e-9 * c.step * PS: k += 1
        r = c.target(k) - t
        eps = 0 if c.name == "pow2" and not any(h.retained(i) for i in range(len(h.att))) else 1e-9
        n = max(1, math.ceil(r / L * (1 - 1e-12) - eps))
        while n * L * (1 - eps) < r: n += 1
        ck.expect(not n * lo * (1 + eps) <= r, tag + "aborted at t=%.9g although %d steps of %.6g (min(dt)=%.6g, current limit at least %.6g) lead to %.9g" % (t, n, r / n, lo, L, c.target(k)), rep)
    if h.evol and h.evol.rows:  # reported dt / max_dm are those of the last retained step
        pass


with Pool(exe) as pool:
    plan = []
    for c in cfgs:
        b = 3 if T else 2
        hz = 14
        if c.name in ("base", "ratio4", "tight", "pow2"):
            b += 1; hz = 9
        if c.name in ("natural", "ramp"):
            b = 2 if T else 1; hz = 30
        n0 = pool.runs
        for h in explore(pool, c, "RFBL", b, hz):
            check(h)
            if pool.runs - n0 in (1, 9):
                ck.sample(dict(config=c.name, script=h.script, status=h.status, attempts=[list(a) for a in h.att[:4]]))
        plan.append("%s: <=%d deviations in the first %d attempts, %d runs" % (c.name, b, hz, pool.runs - n0))
    depth = 7 if T else 5
    for c in cfgs[:3]:
        n0 = pool.runs
        for h in pool.imap(lambda s: c.run(pool, s, post=lambda r: Hist(c, s, r)), full_scripts("ARF", depth)):
            check(h)
        plan.append("%s: all %d-letter histories over {A,R,F}, %d runs" % (c.name, depth, pool.runs - n0))
    # permanent failure must end in an abort, never hang
    for c in cfgs:
        for l in "FRGB":
            check(c.run(pool, l * 400, post=lambda r: Hist(c, l + "*", r)))
            for k in range(1, 6):
                check(c.run(pool, "A" * k + l * 400, post=lambda r: Hist(c, "A%d%s*" % (k, l), r)))
    # many failures in a row: each retry is still smaller, and the run recovers
    n0 = pool.runs
    for c in (Cfg("deep", save=0, tf=1., dtmin=1e-9, dtmax=2.), Cfg("deep3", save=0, tf=3., step=.5, dtmin=1e-6, dtmax=.5)):
        sc = [l * k for l in "FRGB" for k in range(1, 33)] + ["FR" * k for k in range(1, 16)] + ["A" * a + "F" * k + "A" * b + "F" * q for a in (0, 2) for k in (3, 9, 17) for b in (1, 5) for q in (2, 7, 12)]
        for h in pool.imap(lambda s: c.run(pool, s, timeout=120, post=lambda r: Hist(c, s, r)), sc + [l * 600 for l in "FRGB"]):
            check(h)
    plan.append("up to 32 discarded attempts in a row: %d runs" % (pool.runs - n0))
    # the limit applies to every node: the whole velocity on one node, every node x direction in its tangent plane
    for c in (Cfg("peak", save=0, tf=1., dtmin=.05, dtmax=.4), Cfg("peakblock", save=0, tf=1., dtmin=.05, dtmax=.4, mesh="block")):
        n0 = pool.runs
        jobs = [(s, k) for k in range(4 * len(c.m.nodes)) for s in (("B", "AR", "LB", "LRLB") if not T else ("B", "R", "L", "AR", "AB", "LB", "LRLB", "BLBL"))]
        for h in pool.imap(lambda j: c.run(pool, j[0], env={"VERIF_PEAK": str(j[1])}, post=lambda r: Hist(c, "%s on unknown %d" % j, r)), jobs):
            check(h)
        plan.append("%s: velocity on every single node, 4 directions, %d runs" % (c.name, pool.runs - n0))
    if min(KINDS.values()) == 0 and not ck.viol:
        raise SystemExit("HARNESS-ERROR: vacuous exploration %s" % KINDS)
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(OUT), step_kinds=KINDS, bounds=plan)
