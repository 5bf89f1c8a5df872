import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hist import *

ck = Check("C03")
T = TIER == "thorough"
exe = build_program()
COL = ["iter", "t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "max_angle"]
AN = {"mesh": {"volume_regions": {"vol": {"alpha_LLG": 0.3, "K": 2e5, "uk": [0, 1, 0]}}}}


def cfg(name, **k):
    c = Cfg(name, cols=COL, **k)
    c.kw = k
    return c


def kwcfg(c, **k):
    return cfg(c.name + "'", **dict(c.kw, **k))


EXACT = {True: 0, False: 0}


cfgs = [
    cfg("tet", tf=2., dtmin=.005, dtmax=.5, du=.4, save=1, extra=AN),
    cfg("nonuniform", tf=2., dtmin=.005, dtmax=.5, du=.4, save=1, mag=("1", "y*1e9/10", "0.2"),
        field=("0.1", "0.05*Math.cos(1e12*t)", "0.02"), extra=AN),
    cfg("mixed", mesh="mixed", tf=1., dtmin=.005, dtmax=.5, du=.4, save=1, mag=("1", "0.3", "x*1e9/8"),
        field=(0.1, 0.05, 0.02)),
    cfg("restart", tf=2., sol_t=.5, step=.5, dtmin=.005, dtmax=.5, du=.4, save=1, extra=AN),
]
OUT = set()


def compare(h, ref, tol, etol, what):
    """rows and snapshots of h agree with those of ref"""
    c = h.cfg
    rep = lambda: dict(h.replay(), reference=ref.script, ref_rows=ref.evol.rows[-2:])
    tag = "[%s %s vs %s] " % (c.name, h.script or "-", ref.script or "-")
    if not ck.expect(h.bad is None and h.evol is not None and h.sig == 0 and not h.timeout, tag + "bad outcome %s %s" % (h.status, h.bad), rep): return
    if h.rc != 0:
        OUT.add("abort"); n = len(h.evol.rows)
    else:
        n = len(ref.evol.rows)
        if not ck.expect(len(h.evol.rows) == n, tag + "row count differs", rep): return
    scale = max(abs(r[9]) for r in ref.evol.rows) + max(abs(x) for r in ref.evol.rows for x in r[5:9])
    for k in range(n):
        a, b = h.evol.rows[k], ref.evol.rows[k]
        for j in range(2, 5):
            if not ck.expect(abs(a[j] - b[j]) <= tol, tag + "%s row %d %s: %.9g vs %.9g" % (what, k, COL[j], a[j], b[j]), rep): return
        for j in range(5, 10):
            if not ck.expect(abs(a[j] - b[j]) <= etol * scale, tag + "%s row %d %s: %.9g vs %.9g" % (what, k, COL[j], a[j], b[j]), rep): return
    for f in set(h.sols) & set(ref.sols):
        for i, (u, v) in enumerate(zip(h.sols[f].u, ref.sols[f].u)):
            for x, y in zip(u, v):
                if not ck.expect((math.isnan(x) and math.isnan(y)) or abs(x - y) <= tol + 2e-7, tag + "%s %s node %d: %s vs %s" % (what, f, i, u, v), rep): return
    OUT.add((c.name, len(h.att), h.rc))


with Pool(exe) as pool:
    plan = []
    for c in cfgs:
        base = c.run(pool, "", post=lambda r: Hist(c, "", r))
        if base.rc != 0 or any(not base.retained(i) for i in range(len(base.att))):
            ck.violation("[%s] undisturbed run does not complete: %s" % (c.name, base.status), base.replay())
            continue
        # a discarded trial moves the magnetization by more than du=0.4; legitimate differences
        # come only from the integrator's own dt dependence
        n0 = pool.runs
        b, hz = (3, 9) if T else (2, 8)
        runs = {}
        for h in explore(pool, c, "RFGB", b, hz):
            ck.count(states=len(h.att) + 1, transitions=len(h.att), traces=1)
            compare(h, base, 0.012, 0.03, "discarded steps leave a trace:")
            runs[h.script] = h
            if pool.runs - n0 in (3, 60):
                ck.sample(dict(config=c.name, script=h.script, last_row=h.evol.rows[-1] if h.evol and h.evol.rows else None))
        # histories whose retained steps are identical (a failure and a du=1.9*limit rejection both
        # halve dt) must give the same results to solver tolerance
        for s, h in runs.items():
            ref = runs.get(s.replace("F", "R").replace("G", "R"))
            if ref is not None and ref is not h and len(h.att) == len(ref.att) and all(
                    x[2] == y[2] and abs(x[3] - y[3]) <= 1e-12 * y[3] for x, y in zip(h.att, ref.att)):
                ck.count(states=1)
                compare(h, ref, 2e-7, 1e-6, "failed and rejected step differ:")
        # a run that starts with k discarded attempts takes the same steps as an undisturbed run whose
        # initial dt is 2^k smaller (initial dt = sqrt(min*max)): same results to solver tolerance
        for k in (1, 2):
            c2 = kwcfg(c, dtmin=c.dtmin / 4 ** k)
            b2 = c2.run(pool, "", post=lambda r: Hist(c2, "", r))
            kept = [(a[2], a[3]) for i, a in enumerate(b2.att) if b2.retained(i)]
            for s, h in runs.items():
                if len(s) == k and not set(s) - set("RFG"):
                    mine = [(a[2], a[3]) for i, a in enumerate(h.att) if h.retained(i)]
                    same = len(mine) == len(kept) and all(abs(x[0] - y[0]) <= 1e-9 * c.tf * PS and abs(x[1] - y[1]) <= 1e-9 * y[1] for x, y in zip(mine, kept))
                    EXACT[same] += 1
                    if same:
                        ck.count(states=1)
                        compare(h, b2, 2e-7, 1e-6, "differs from the run without discarded steps:")
        plan.append("%s: <=%d discarded attempts among the first %d, %d runs" % (c.name, b, hz, pool.runs - n0))
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(OUT), exact_pairs=EXACT[True], inexact_pairs_skipped=EXACT[False], bounds=plan)
