"""C11: parallel execution.  The program is compiled with its parallel policy; the parallel algorithms run under a controlled scheduler
(harness/par) which records every memory access of every task with the locks held.  Conflicting unsynchronized accesses are reported for
every pair of tasks of every parallel loop; task orders, reduction groupings, and all single preemptions at synchronization points are
explored and their results compared with the sequential run."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
from spin import *
import itertools

ck = Check("C11")
T = TIER == "thorough"
H = os.path.join(VERIF, "harness", "par")
WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "__cxa_guard_acquire", "__cxa_guard_release", "malloc", "free", "memcpy", "memmove",
        "memset", "rand", "duk_pcall", "duk_push_number"]
seqp = Pool(build_program())
try:
    PAR = build_program(kind="par", seq=0, cflags=("-O1", "-fsanitize=thread", "-DFG_PAR"), extra_inc=(H,), plain_src=(H + "/par_runtime.cpp",),
                        ldflags=tuple("-Wl,--wrap=" + w for w in WRAP))
except SystemExit:
    # the program builds, but uses a parallel algorithm which the controlled scheduler does not provide: nothing can be decided
    print("UNDECIDED: the controlled scheduler does not support a parallel algorithm used by the program")
    ck.finish(exhaustive=False, bounds="nothing explored: unsupported parallel algorithm")
    sys.exit(0)
pool = Pool(PAR)
COLS = ["iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"]


def cfg(name):
    S = None
    h = 2e-14
    kw = dict(cols=COLS, step=h, n=2, dtmin=h / 64, dtmax=h * 64, du=.5, tol=1e-10)
    MAT = dict(Ms=8e5, Ae=1e-11, alpha_LLG=.2, K=3e5, uk=[0., .6, .8], K3=1e5, ex=[1., 0., 0.], ey=[0., 1., 0.], ez=[0., 0., 1.])
    if name == "tet":
        m = single_tet(8.)
        S = settings({"vol": MAT}, None, (.1, .2, .05), mag=[1., .3, .2], **kw)
    elif name == "twotet":
        m = Mesh([(0, 0, 0), (8, 0, 0), (0, 8, 0), (0, 0, 8), (8, 8, 8)], [("vol", (0, 1, 2, 3)), ("vol", (1, 2, 3, 4))])
        m.tets = [(r, t if m.vol(t) > 0 else (t[0], t[1], t[3], t[2])) for r, t in m.tets]
        S = settings({"vol": MAT}, None, (.1, .2, .05), mag=[1., .3, .2], **kw)
    elif name in ("block", "field", "func", "recenter"):
        m = grid(2, 2, 2, (5., 6., 7.), region=lambda i, j, k: "a" if i == 0 else "n" if (j, k) == (1, 1) else "b", surface=lambda p, t: "s" if len(t) == 1 else None)
        mats = {"a": MAT, "b": dict(MAT, Ms=5e5, alpha_LLG=.5), "n": dict(Ms=0.)}
        B = (.1, .2, .05)
        if name == "field": B = {"Bext": {"space": Raw('"function(x,y,z) { return [1e8*x, 0.1-1e7*y, z*2e7]; }"'), "time": Raw('"function(t) { return Math.cos(t*1e12); }"')}}
        if name == "func": B = (Raw('"sin(t*1e13)"'), .1, Raw('"0.2*t*1e12"'))
        ex = {"recentering": {"enable": True, "direction": "X", "threshold": .9}} if name == "recenter" else {}
        S = settings(mats, {"s": dict(Ks=2e-4, uk=[0., 0., 1.])}, B, mag="in.sol", **kw)
        S["initial_magnetization"] = Raw('["cos(x*3e8+0.2)", "sin(y*2e8+1)", "0.3+z*1e7"]')
        S.update(ex)
        if name != "field": S["outputs"]["evol_columns"] = COLS + ["Hx", "a:<Mx>", "b:<dMy/dt>"]
    elif name == "spin":
        m = sides(3, 1, 1, (5., 6., 6.), region=lambda i, j, k: "v%d" % i, which=("x0", "x1"))
        S = spin_settings({"v0": CO, "v1": CU, "v2": PY}, {"x0": dict(V=1e-6, s=[0., 0., 0.]), "x1": dict(jn=2e7, uP=[0., 1., 0.])}, B=(.1, .2, .05),
                          mag=[1., .3, .2], **kw)
    return m.msh(), yaml_dump(S)


CF = {n: cfg(n) for n in ("tet", "twotet", "block", "field", "func", "recenter", "spin")}


class PO:
    def __init__(self, res):
        self.status, self.err, self.out = res.status, res.err[-500:], res.out[-300:]
        self.data = {}
        for f in res.files():
            if f.endswith((".evol", ".sol")):
                self.data[f] = [[float(x) for x in l.split("\t")] for l in res.read(f).splitlines() if l and l[0] != "#"]
        self.rep = [l for l in res.trace.splitlines() if l.startswith("P ") and not l.startswith("P stat")]
        self.stat = [l for l in res.trace.splitlines() if l.startswith("P stat")]


def same(a, b):
    """first difference beyond rounding, relative to the largest value of the column"""
    if set(a) != set(b): return "files %s instead of %s" % (sorted(b), sorted(a))
    for f in a:
        if len(a[f]) != len(b[f]): return "%s has %d rows instead of %d" % (f, len(b[f]), len(a[f]))
        for c in range(len(a[f][0])):
            s = max((abs(r[c]) for r in a[f] if not math.isnan(r[c])), default=0.)
            if f.endswith(".sol") and 1 <= c <= 3: s = 1.
            for i, (x, y) in enumerate(zip(a[f], b[f])):
                x, y = x[c], y[c]
                if math.isnan(x) != math.isnan(y) or abs(x - y) > 2e-6 * s: return "%s row %d column %d: %r instead of %r" % (f, i, c, y, x)
    return None


def run(n, env, p=None):
    msh, txt = CF[n]
    e = {"VERIF_SCRIPT": "", "VERIF_DUMAX": ".5", "OMP_NUM_THREADS": "1"}
    e.update(env)
    o = (p or pool).run({"m.msh": msh, "s.yml": txt}, env=e, post=PO, timeout=200)
    return o, dict(settings=txt, msh=msh, env=e)


base = {}
info = {}
for n in CF:
    o, rep = run(n, {}, seqp)
    if not ck.expect(o.status == "exit 0", "%s: the sequential run ended with %s %s" % (n, o.status, o.err), rep): ck.finish(exhaustive=False); sys.exit(1)
    base[n] = o


def one(job):
    n, env = job
    o, rep = run(n, env)
    name = "%s under schedule %s" % (n, env)
    ck.count(traces=1)
    for l in o.rep: ck.violation("%s: %s" % (name, l[2:]), rep)
    if o.rep: return
    if not ck.expect(o.status == "exit 0" and o.stat, "%s: the run ended with %s %s" % (name, o.status, o.err), rep): return
    d = same(base[n].data, o.data)
    ck.expect(d is None, "%s: the result differs from the sequential run: %s" % (name, d), rep)
    w = o.stat[0].split()
    ck.count(states=int(w[3]), transitions=int(w[4]))
    info[n] = (o.stat[0], max(info.get(n, ("", 0))[1], int(w[6])))
    return o


first = {n: one((n, {})) for n in CF}
jobs = []
for n in CF:
    orders = range(1, 120 if n in ("tet", "twotet") else 40) if T else range(1, 24 if n in ("tet", "twotet") else 7)
    for k in orders:
        for tr in (0, 1): jobs.append((n, {"VERIF_ORDER": str(k), "VERIF_TREE": str(tr)}))
    for qn in ((1, 2, 3, 5, 7, 11) if T else (1, 2, 7)):
        for k in (0, 1): jobs.append((n, {"VERIF_PREEMPT": "all:%d" % qn, "VERIF_ORDER": str(k)}))
# all single preemptions of the assembly loops
npre = 0
for n in ("tet", "twotet") + (("block",) if T else ()):
    o = first.get(n)
    if not o or not o.stat: continue
    regs = o.stat[0].split("|")[1].split()
    for r, x in enumerate(regs[:2 if T else 1]):
        nt, ns = map(int, x.split("x"))
        for i in range(nt):
            for p in range(0, ns, 1 if n != "block" else 5):
                for k in (0, 1):
                    jobs.append((n, {"VERIF_PREEMPT": "%d:%d:%d" % (r, i, p), "VERIF_ORDER": str(k)})); npre += 1
pool.map(one, jobs)
for n in info: ck.sample("%s: %s, up to %d context switches" % (n, info[n][0], info[n][1]), 10)
ck.finish(exhaustive=True, bounds="%d schedules of %d configurations; states = tasks executed, transitions = shared memory accesses recorded; every pair of tasks of "
          "every parallel loop checked for unsynchronized conflicts; task permutations, reduction groupings, round-robin preemption at every q-th lock operation, "
          "and %d single-preemption schedules (every lock operation of every task of the matrix assembly on the small meshes)" % (len(jobs) + len(CF), len(CF), npre),
          oracle="happens-before/lockset conflict relation; sequential build of the same sources (relative tolerance 2e-6 of each column)")
