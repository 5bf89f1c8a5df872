import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hist import *

ck = Check("C01")
T = TIER == "thorough"
exe = build_program()
cfgs = [
    Cfg("base"),
    Cfg("save2", save=2, tf=4.),
    Cfg("save3", save=3, tf=4., dtmin=.2, dtmax=.8),
    Cfg("nosave", save=0),
    Cfg("t0", t0=5., tf=7., save=1),
    Cfg("tneg", t0=-1.5, tf=.5, save=2),
    Cfg("decimal", t0=0.1, tf=0.7, step=.1, dtmin=.01, dtmax=.2, save=3),
    Cfg("sol", sol_t=2.25, tf=4.25, save=1),
    Cfg("solt0", sol_t=2.25, t0=1., tf=3., save=1),
    Cfg("solt00", sol_t=2.25, t0=0., tf=2., save=1),
    Cfg("cross", t0=-1., step=1.01, tf=1.02, dtmin=.01, dtmax=.6, save=1),
    Cfg("zero", t0=1., tf=1.),
    Cfg("nonmult", tf=2.4),
    Cfg("fine", tf=1., step=.5, dtmin=.01, dtmax=.1, save=1),
    Cfg("mixed", mesh="mixed", tf=2., save=1),
]
OUT = set()


def check(h):
    c = h.cfg
    rep = h.replay
    ck.count(states=len(h.att) + 1, transitions=len(h.att), traces=1)
    if not ck.expect(not h.timeout and not h.sig, "run did not terminate normally: %s" % h.status, rep): return
    if not ck.expect(h.bad is None, "output unreadable: %s" % h.bad, rep): return
    if not ck.expect(h.evol is not None and h.evol.columns == c.cols, "evol file missing or wrong columns", rep): return
    rows = h.evol.rows
    done = h.rc == 0
    OUT.add((c.name, h.rc, len(rows)))
    ck.expect(h.rc in (0, 1) and h.aborted == (h.rc == 1), "status %s does not match the abort message" % h.status, rep)
    if done:
        ck.expect(len(rows) == c.n + 1, "[%s %s] %d rows instead of %d" % (c.name, h.script, len(rows), c.n + 1), rep)
    else:
        ck.expect(len(rows) <= c.n + 1, "too many rows", rep)
    want = set()
    for k, r in enumerate(rows):
        it, t = r[0], r[1]
        ck.expect(it == k, "[%s %s] row %d numbered %g" % (c.name, h.script, k, it), rep)
        ck.expect(close(t, c.target(k), 1e-13, 1e-28), "[%s %s] row %d at t=%.17g instead of %.17g" % (c.name, h.script, k, t, c.target(k)), rep)
        if c.save and k % c.save == 0:
            want.add("o_iter%d.sol" % k)
    ck.expect(set(h.sols) == want, "[%s %s] snapshots %s instead of %s" % (c.name, h.script, sorted(h.sols), sorted(want)), rep)
    for f in want & set(h.sols):
        k = int(re.search(r"iter(\d+)", f).group(1))
        s = h.sols[f]
        ok = ck.expect(s.complete and len(s.rows) == len(c.m.nodes), "%s incomplete" % f, rep)
        ck.expect(s.time is not None and close(s.time, c.target(k), 2e-6, 1e-20), "[%s %s] %s carries time %r, row time %.9g" % (c.name, h.script, f, s.time, c.target(k)), rep)
        if ok and c.mesh == "tet":  # the snapshot's state is the row's state
            for j in range(3):
                a = sum(u[j] for u in s.u) / 4
                ck.expect(close(a, rows[k][4 + j], 0, 1e-6), "[%s %s] %s: <M%s>=%.9g in the snapshot, %.9g in the row" % (c.name, h.script, f, "xyz"[j], a, rows[k][4 + j]), rep)


with Pool(exe) as pool:
    plan = []
    for c in cfgs:
        b = (3 if T else 2)
        hz = 24 if T else 12
        if c.name == "base":
            hz = 10; b = 4 if T else 3
        if c.name == "fine":
            hz = 30; b = 2 if T else 1
        n0 = pool.runs
        for h in explore(pool, c, "RFL", b, hz):
            check(h)
            if pool.runs - n0 in (1, 7, 40):
                ck.sample(dict(config=c.name, script=h.script, status=h.status, attempts=len(h.att), rows=len(h.evol.rows) if h.evol else None))
        plan.append("%s: bound %d horizon %d, %d runs" % (c.name, b, hz, pool.runs - n0))
    # every sequence of outcomes at the beginning, including repeated failures down to min(dt)
    c = cfgs[0]
    depth = 6 if T else 5
    alpha = "ARFL" if T else "ARF"
    n0 = pool.runs
    for h in pool.imap(lambda s: c.run(pool, s, post=lambda r: Hist(c, s, r)), full_scripts(alpha, depth)):
        check(h)
    plan.append("base: all %d-letter histories over {%s}, %d runs" % (depth, alpha, pool.runs - n0))
    # the schedule itself: every (initial time, step, final time) of a grid, undisturbed
    n0 = pool.runs
    grid_ = []
    for t0 in (None, 0.3, -2., -.97) + ((7.7, 100.) if T else ()):
        for step in (1., .1, .3) + ((.7, 2.5) if T else ()):
            for q in list(range(0, 40, 1 if T else 3)) + [4, 16, 26, 34, 36, 14, 6]:
                if q % 10 == 5: continue  # half-way: either neighbour
                start = t0 or 0.
                grid_.append(Cfg("t0=%s step=%g ratio=%g" % (t0, step, q / 10), t0=t0, step=step, tf=start + q / 10 * step, dtmin=step / 10,
                                 dtmax=1.2 * step, save=(1, 2, 5, 0)[len(grid_) % 4]))
    for n, step, save in ((1000, .1, 250), (500, .7, 499), (257, 3., 256)):  # long runs
        grid_.append(Cfg("long%d" % n, t0=.1, step=step, tf=.1 + n * step, dtmin=step / 10, dtmax=step, save=save))
    for k in range(1, 60 if T else 25):   # a target close to 0, reached from negative times by steps of any size
        grid_.append(Cfg("cross%d" % k, t0=-.37 * k, step=.37 * k + .003, tf=.37 * k + .006, dtmin=.001, dtmax=.31 + .013 * k, save=1))
    for h in pool.imap(lambda c: c.run(pool, "", post=lambda r: Hist(c, "", r), timeout=120), grid_):
        check(h)
        ck.expect(h.rc == 0, "[%s] undisturbed run ended with %s" % (h.cfg.name, h.status), h.replay)
    plan.append("undisturbed schedules: %d runs" % (pool.runs - n0))
    # files of an earlier, longer simulation of the same name are in the directory
    n0 = pool.runs

    def rerun(job):
        c, sc, kind = job
        row = "\t".join(["7.7777777777777777e+77"] * len(c.cols)) + "\n"
        old = {"longer": "## columns: " + "\t".join(c.cols) + "\n" + row * 200, "line": row, "empty": "", "open": "# " + "x" * 5000}[kind]
        g = lambda k: {"longer": "## time: 1\n" + "9\t9\t9\t9\t9\n" * 300, "line": "0\t1\t0\t0\t0\n", "empty": "", "open": "0\t" * 4000}[kind]
        c.files = dict(FILES[c.name], **{"o.evol": old})
        c.files.update({"o_iter%d.sol" % k: g(k) for k in range(c.n + 1) if c.save and k % c.save == 0})
        return c.run(pool, sc, post=lambda r: Hist(c, sc, r))
    FILES = {c.name: dict(c.files) for c in cfgs}
    for kind in ("longer", "line", "empty", "open"):
        for h in pool.imap(rerun, [(c, sc, kind) for c in cfgs for sc in ("", "R", "FF")]):
            if h.aborted and h.script: continue   # what comes after an abort is not replaced
            check(h)
            ck.expect(h.rc == 0, "[%s over %s files] run ended with %s" % (h.cfg.name, kind, h.status), h.replay)
    plan.append("earlier output in the directory: %d runs" % (pool.runs - n0))
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(OUT), bounds=plan)
