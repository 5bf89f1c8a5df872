import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from spin import *
import itertools, errno

ck = Check("C26")
T = TIER == "thorough"
pool = Pool(build_program())
H = 2e-13
COLS = ["iter", "t", "<Mx>", "<My>", "<Mz>", "E_tot"]
A = dict(Ae=1.3e-11, Ms=8e5, alpha_LLG=.3)


def case(name):
    tet = Mesh([(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)], [("v0", (0, 1, 2, 3))])
    kw = dict(B=(.1, .2, .3), mag=(1, 1, .5), cols=COLS, step=H, n=2, save=1, dtmin=1e-17, dtmax=H, du=.1)
    if name == "tet": return tet, settings({"v0": A}, **kw), {}
    if name == "tet-dir":
        S = settings({"v0": A}, **kw); S["outputs"]["directory"] = "out"; return tet, S, {}
    if name == "tet-every2": return tet, settings({"v0": A}, **dict(kw, save=2, n=4)), {}
    if name == "tet-nosave": return tet, settings({"v0": A}, **dict(kw, save=0)), {}
    if name == "tet-exit": return tet, settings({"v0": A}, **dict(kw, n=3)), {"VERIF_SIGNAL": "solve:4:15"}
    if name == "tet-abort":   # the solver fails until the step is too small
        return tet, settings({"v0": A}, **dict(kw, dtmin=H / 3)), {"VERIF_SCRIPT": "AA" + "F" * 60}
    if name == "wide":   # rows longer than a buffer
        cols = COLS * 80
        return tet, settings({"v0": A}, **dict(kw, cols=cols, n=2)), {}
    if name == "meta":   # header longer than a buffer
        S = settings({"v0": A}, **dict(kw, n=1)); S["outputs"]["metadata"] = {"note": "x" * 9000}; return tet, S, {}
    if name == "big":    # .sol files longer than a buffer
        return grid(4, 4, 4, (3., 3., 3.), region=lambda i, j, k: "v0"), settings({"v0": A}, **dict(kw, n=1, du=.5)), {}
    if name == "none":   # final time before the initial time: only a header
        return tet, settings({"v0": A}, **dict(kw, n=0, t0=1e-12, extra={"outputs": {"final_time": 0.}})), {}
    m = sides(1, 1, 2, (6., 5., 4.), (1., -2., 0.), lambda i, j, k: "v%d" % k, ("z0", "z1"))
    return m, spin_settings({"v0": CU, "v1": CO}, {"z1": dict(jn=1e6, uP=[0, 1, 0]), "z0": dict(V=1e-6, s=[0, 0, 0])}, **dict(kw, n=1, du=.5)), {}


def strip(t):
    return None if t is None else "\n".join(l for l in t.split("\n") if not l.startswith(("## real-world time:", "## hostname:")))


class FOut:
    def __init__(self, res):
        self.rc, self.sig, self.timeout, self.status = res.rc, res.sig, res.timeout, res.status
        self.err, self.out = res.err, res.out
        self.files = {f: strip(res.read(f)) for f in res.files() if f.endswith((".evol", ".sol")) and os.path.isfile(res.path(f)) and not os.path.islink(res.path(f))}
        self.trace = [l.split(" ") for l in res.trace.splitlines()]


def run(name, env=None, obst=None):
    m, S, e = case(name)
    f = {"m.msh": m.msh(), "s.yml": yaml_dump(S)}
    f.update(obst or {})
    e = dict({"VERIF_SCRIPT": ""}, **e)
    e.update(env or {})
    return pool.run(f, env=e, post=FOut), dict(settings=f["s.yml"], msh=f["m.msh"], env=e, obstacles=obst)


def outcome(o):
    return "signal %d" % o.sig if o.sig else "timeout" if o.timeout else "exit %d" % o.rc


def fault(job):
    name, i, n, fname, err, short, once = job
    base = BASE[name][0]
    spec = "%d:%d" % (i, err) + ("" if short is None else ":%d" % short)
    if once: spec = "%d:%d:%d:1" % (i, err, -1 if short is None else short)
    o, rep = run(name, {"VERIF_WFAULT": spec})
    ck.count(states=1, transitions=sum(w[0] == "W" for w in o.trace), traces=1)
    nm = "%s: write %d (%d bytes of %s) %s%s" % (name, i, n, fname, "short by %d" % (n - short) if short is not None else "", "" if once and short is not None else " failing with %s%s" % (errno.errorcode[err], " once" if once else ""))
    if not ck.expect(not o.timeout and (not o.sig or o.sig == 15 == base.sig), "%s: %s" % (nm, outcome(o)), rep): return
    if once and short is not None and short > 0:   # a partial write is not an error: the rest has to follow
        tally["short"] += 1
        ck.expect(outcome(o) == outcome(base) and o.files == base.files, "%s: %s, output differs from the undisturbed run in %r" %
                  (nm, outcome(o), [f for f in set(o.files) | set(base.files) if o.files.get(f) != base.files.get(f)]), rep)
        return
    tally["faults"] += 1
    if o.files == base.files and outcome(o) == outcome(base): return   # recovered completely
    ck.expect(o.rc != 0 and not o.sig, "%s: the run ends with %s although %s" % (nm, outcome(o), ", ".join(
        "%s %s" % (f, "is missing" if f not in o.files else "is incomplete") for f in sorted(base.files) if o.files.get(f) != base.files[f])), rep)
    ck.expect(fname in o.err + o.out, "%s: the message does not name the file: %r" % (nm, (o.err + o.out)[-300:]), rep)


def closing(job):
    """the closing of an output file reports an error (network file systems, quotas)"""
    name, i, fname, err = job
    o, rep = run(name, {"VERIF_CFAULT": "%d:%d" % (i, err)})
    ck.count(states=1, transitions=sum(w[0] == "K" for w in o.trace), traces=1)
    nm = "%s: closing %s reports %s" % (name, fname, errno.errorcode[err])
    tally["closing"] += 1
    ck.expect(o.rc not in (0, -1) and not o.sig and not o.timeout, "%s: %s" % (nm, outcome(o)), rep)
    ck.expect(fname in o.err + o.out, "%s: the message does not name the file: %r" % (nm, (o.err + o.out)[-300:]), rep)


def obstacle(job):
    name, what, fname, obst = job
    o, rep = run(name, None, obst)
    ck.count(states=1, transitions=1, traces=1)
    nm = "%s: %s" % (name, what)
    tally["obstacles"] += 1
    ck.expect(o.rc not in (0, -1) and not o.sig and not o.timeout, "%s: %s" % (nm, outcome(o)), rep)
    ck.expect(fname in o.err + o.out, "%s: the message does not name %s: %r" % (nm, fname, (o.err + o.out)[-300:]), rep)


def crash(job):
    name, kind, i = job
    base, S = BASE[name][0], case(name)[1]
    t0 = S.get("initial_time", 0.)
    o, rep = run(name, {"VERIF_SIGNAL": "%s:%d:9" % (kind, i)})
    ck.count(states=1, transitions=len(o.trace), traces=1)
    nm = "%s: killed at %s %d" % (name, kind, i)
    if not ck.expect(o.sig == 9, "%s: %s" % (nm, outcome(o)), rep): return
    tally["kills"] += 1
    # visible steps completed before the last attempt started
    att = [float(w[3]) for w in o.trace if w[0] == "S"]
    done = sum(1 for k in range(1000) if att and k <= 50 and t0 + k * H <= att[-1] * (1 + 1e-12))
    rows = lambda t: [l for l in t.split("\n") if l and not l.startswith("#")]
    want = rows(base.files["o.evol"] if "o.evol" in base.files else base.files["out/o.evol"])[:done]
    d = "out/" if "out/o.evol" in base.files else ""
    got = o.files.get(d + "o.evol")
    if done:
        if ck.expect(got is not None and rows(got)[:done] == want and got.count("\n") >= got[:got.index(want[-1])].count("\n") + 1 if got and want[-1] in got else False,
                     "%s: rows of the %d completed steps are not all on file: %r" % (nm, done, got), rep):
            head = [l for l in got.split("\n") if l.startswith("## columns:")]
            ck.expect(len(head) == 1 and head[0].split(" ", 2)[2].split("\t") == S["outputs"]["evol_columns"], "%s: no column header" % nm, rep)
        every = S["outputs"]["mag_config_every"]
        for k in range(done):
            if every and k % every == 0:
                f = d + "o_iter%d.sol" % k
                ck.expect(o.files.get(f) == base.files[f], "%s: snapshot %s of a completed step is %s" % (nm, f, "missing" if f not in o.files else "incomplete"), rep)
    # what was undisturbed so far is a prefix of the undisturbed output
    for f, t in o.files.items():
        ck.expect(f in base.files and (base.files[f].startswith(t) or t.startswith("## real") or not t.endswith("\n")), "%s: %s differs from the undisturbed run" % (nm, f), rep)


tally = dict(faults=0, short=0, obstacles=0, kills=0, closing=0)
NAMES = ["tet", "tet-dir", "tet-every2", "tet-nosave", "tet-exit", "tet-abort", "wide", "meta", "big", "none", "spin"]
BASE = {}


def prep(n):
    BASE[n] = run(n)


pool.map(prep, NAMES)
fj, oj, cj, kj = [], [], [], []
for n in NAMES:
    o, rep = BASE[n]
    W = [(int(w[1]), int(w[3]), w[4]) for w in o.trace if w[0] == "W"]
    exp = 15 if n == "tet-exit" else 0
    if not ck.expect(o.sig == exp and not o.timeout and (o.rc == (1 if n == "tet-abort" else 0) or o.sig) and W and o.files, "%s: undisturbed run: %s %s" % (n, outcome(o), o.err[-300:]), rep): continue
    for i, size, fname in W:
        for err in (errno.ENOSPC, errno.EIO) + ((errno.EDQUOT, errno.EFBIG) if T else ()):
            fj.append((n, i, size, fname, err, None, False))
            fj.append((n, i, size, fname, err, None, True))
            for s in sorted({1, size // 2, size - 1} & set(range(1, size))):
                fj.append((n, i, size, fname, err, s, False))
        for s in (range(1, size) if T and size < 400 else sorted({1, size // 3, size // 2, size - 1} & set(range(1, size)))):
            fj.append((n, i, size, fname, errno.EIO, s, True))
    kj += [(n, int(w[1]), w[4], err) for w in o.trace if w[0] == "K" for err in (errno.EIO, errno.EDQUOT)]
    for f in sorted(o.files):
        b = os.path.basename(f)
        oj.append((n, "%s is a directory" % f, b, {f: None}))
        oj.append((n, "%s is on a full device" % f, b, {f: ("link", "/dev/full")}))
        oj.append((n, "%s links to a missing directory" % f, b, {f: ("link", "nowhere/" + b)}))
    nev = {}
    for w in o.trace:
        if w[0] == "E": nev[w[1]] = nev.get(w[1], 0) + 1
    if n not in ("tet-exit", "none"):
        for k, c in nev.items():
            if k in ("solve", "write", "written", "demag"):
                for i in range(c): cj.append((n, k, i))
oj.append(("tet-dir", "the output directory is a file", "out", {"out": "x"}))
oj.append(("tet-dir", "the output directory links to a missing one", "out", {"out": ("link", "no/where")}))
pool.map(fault, fj)
pool.map(obstacle, oj)
pool.map(closing, kj)
pool.map(crash, cj)
pool.close()
ck.finish(exhaustive=True, cases=tally)
