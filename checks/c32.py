import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from spin import *
import itertools, re
from concurrent.futures import ThreadPoolExecutor

ck = Check("C32")
T = TIER == "thorough"
SCR = tempfile.mkdtemp(prefix="fgv32.")
atexit.register(shutil.rmtree, SCR, True)
os.makedirs(SCR + "/py/feellgood")
for f in ("__init__.py", "core.py", "meshMaker.py", "settingsMaker.py"):
    shutil.copy(os.path.join(REPO, "python-modules", f), SCR + "/py/feellgood/")
TOOLS = os.path.join(REPO, "tools")


class Runner:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "harness/py/runtool.py"), SCR + "/py"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, cwd, argv, env=None):
        self.p.stdin.write(json.dumps(dict(cwd=cwd, root=SCR, argv=argv, stdin=None, env=dict(env or {}, HOME=cwd))) + "\n"); self.p.stdin.flush()
        rc = json.loads(self.p.stdout.readline())
        rd = lambda f: open(os.path.join(cwd, f), errors="replace").read() if os.path.exists(os.path.join(cwd, f)) else ""
        return rc, rd(".stdout"), rd(".stderr")


runners = queue.Queue()
allr = [Runner() for _ in range(NPROC)]
for r in allr: runners.put(r)
cnt = itertools.count()


def tool(d, argv, env=None):
    r = runners.get()
    try: return r.run(d, argv, env)
    finally: runners.put(r)


def scratch(files):
    d = "%s/w%d" % (SCR, next(cnt))
    os.makedirs(d)
    for n, c in files.items(): open(os.path.join(d, n), "w", encoding="utf-8").write(c)
    return d


def done(d): shutil.rmtree(d, ignore_errors=True); ck.count(1, 1, 1)


def pmap(f, jobs):
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(f, jobs))


# ---- meshes, and magnetizations written the way the solver writes them
def with_faces(m, name=lambda p, t: "s"):
    for k, l in sorted(m.outer_faces().items()):
        if len(l) == 1: m.tris.append((name(l[0][1], l), l[0][1]))
    return m


MSH = {
    "one": with_faces(Mesh([(0, 0, 0), (7.125, 1, 1e-3), (1, 6, 0), (2, 1, 1 / 3)], [("v 0", (0, 1, 2, 3))])),
    "two": with_faces(Mesh([(0, 0, 0), (7, 1, 0), (1, 6, 0), (2, 1, 5), (3, 2, -6.25)], [("v0", (0, 1, 2, 3)), ("v1", (0, 2, 1, 4))]), lambda f, l: "up" if 3 in f else "down"),
    "box": grid(1, 1, 1, (5., 6., 7.), (-3.3, 2., 1.), surface=lambda p, t: "s"),
    "bar": sides(2, 1, 1, (6., 5., 4.), (1., -2., 3.), lambda i, j, k: "v%d" % i, ("x0", "x1")),
    "wall": grid(3, 2, 1, (1.5, 2., 3.), (-2., -2., -1.), region=lambda i, j, k: "abc"[i], surface=lambda p, t: "sk%d" % len(t)),
}
RTAG = {nm: m.msh() for nm, m in MSH.items()}
for nm in list(RTAG):           # the nodes listed in another order
    t = RTAG[nm]
    a, b = t.index("$Nodes\n"), t.index("$EndNodes")
    l = t[a:b].splitlines()
    RTAG[nm + "/rev"] = t[:a] + "\n".join(l[:2] + l[2:][::-1]) + "\n" + t[b:]


def mags(n, k):
    v = []
    for i in range(n):
        a = [math.cos(1.3 * i + k), math.sin(.7 * i * k + .2), math.cos(2.1 * i + .5 * k + 1)]
        r = math.sqrt(sum(x * x for x in a))
        v.append([float("%.17g" % (x / r)) for x in a])
    return v


def sol(v, meta=""):
    return "## feellgood version: x\n## time: 1e-12\n%s## columns: idx\tmx\tmy\tmz\tphi\n" % meta + "".join("%d\t%.17g\t%.17g\t%.17g\t%.7g\n" % (i, x[0], x[1], x[2], .1 * i) for i, x in enumerate(v))


# ---- fg-mesh-stat: the size of every region
def area(p, f):
    a, b, c = (p[i] for i in f)
    u, w = [b[i] - a[i] for i in range(3)], [c[i] - a[i] for i in range(3)]
    n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
    return math.sqrt(sum(x * x for x in n)) / 2


def stat(job):
    nm, var, ver, verb = job
    m = MSH[nm]
    d = scratch({"m.msh": RTAG[nm + var] if ver == 2 else v41[nm]})
    rc, so, se = tool(d, [TOOLS + "/fg-mesh-stat", "m.msh"] + (["-v"] if verb else []))
    lab = "fg-mesh-stat, mesh %s%s, MSH%d%s" % (nm, var, ver, " verbose" if verb else "")
    rep = dict(mesh=RTAG[nm + var], stdout=so, stderr=se)
    if ck.expect(rc == 0, "%s: failed: %s" % (lab, se[-300:]), rep):
        got = {}
        for n, k, v in re.findall(r"physical group named (.*?), indexed \d+, (surface|volume)= ([-+0-9.e]+)", so): got[k, n] = got.get((k, n), 0) + float(v)
        want = {}
        for r, f in m.tris: want["surface", r] = want.get(("surface", r), 0) + area(m.nodes, f)
        for r, t in m.tets: want["volume", r] = want.get(("volume", r), 0) + abs(m.vol(t))
        ck.expect(set(got) == set(want), "%s: regions %s, those of the mesh are %s" % (lab, sorted(got), sorted(want)), rep)
        for k in set(got) & set(want):
            ck.expect(abs(got[k] - want[k]) <= 1e-9 * want[k], "%s: %s of %s given as %.12g, it is %.12g" % (lab, k[0], k[1], got[k], want[k]), rep)
        c = re.search(r"including (\d+) 2D entities and (\d+) 3D entities", " ".join(so.split()))
        e = (len({r for r, _ in m.tris}), len({r for r, _ in m.tets}))
        ck.expect(c and (int(c[1]), int(c[2])) == e, "%s: counts %s, expected %s" % (lab, c and c[0], e), rep)
        if verb:
            n = sum(int(x) for x in re.findall(r"and (\d+) elements", so))
            ck.expect(n == len(m.tris) + len(m.tets), "%s: %d elements counted, there are %d" % (lab, n, len(m.tris) + len(m.tets)), rep)
    done(d)


# ---- fg-plot: the arrows drawn are those of the nodes asked for
PRED = [None, "x>0", "x>2.5 and mz<0.4", "sqrt(x*x+y*y)<4", "my*mx>0 or z<0", "abs(mz)>=0.5", "not (y>1)", "True", "mx<-2", "x<y<z+100"]
SUB = [None, "0 1 3 4", "0 2 3 5", "2 1 5 4", "1 2 4 5"]
PCT = [None, "100", "50", "25", "20", "10", "1"] if T else [None, "50", "25", "10"]


def plot(job):
    nm, var, ver, pred, sub, pct, k = job
    m = MSH[nm]
    v = mags(len(m.nodes), k)
    d = scratch({"m.msh": RTAG[nm + var] if ver == 2 else v41[nm], "x.sol": sol(v, "## Author: a # b\n" if k == 2 else "")})
    argv = [TOOLS + "/fg-plot", "m.msh", "x.sol"] + (["-f", pred] if pred else []) + (["-s", sub] if sub else []) + (["-P", pct] if pct else [])
    P = m.nodes if ver == 2 else [[float("%.16g" % x) for x in p] for p in m.nodes]
    allw = [list(p) + x for p, x in zip(P, v)]
    if pred:
        env = dict(vars(math)); env.update(abs=abs)
        allw = [r for r in allw if eval(pred, env, dict(zip(("x", "y", "z", "mx", "my", "mz"), r)))]
    if pct: allw = allw[::int(round(100 / float(pct)))]
    if sub: allw = [[r[int(i)] for i in sub.split()] for r in allw]
    lab = "fg-plot %s, mesh %s%s, MSH%d, state %d" % (" ".join(argv[3:]), nm, var, ver, k)
    if not allw and sub: return done(d)          # an empty 2D plot: nothing to compare
    rc, so, se = tool(d, argv)
    rep = dict(argv=argv[1:], mesh=RTAG[nm + var], sol=sol(v), stderr=se, expected=allw)
    if ck.expect(rc == 0 and os.path.exists(d + "/plot.json"), "%s: failed: %s" % (lab, se[-300:]), rep):
        g = json.load(open(d + "/plot.json"))
        rep["plots"] = g
        if ck.expect(len(g) == 1 and g[0]["dim"] == (2 if sub else 3), "%s: %d plots" % (lab, len(g)), rep):
            a, b = sorted(g[0]["arrows"]), sorted(allw)
            ck.expect(len(a) == len(b) and all(len(x) == len(y) and all(abs(p - q) <= 1e-9 * (1 + abs(q)) for p, q in zip(x, y)) for x, y in zip(a, b)),
                      "%s: %d arrows drawn %s, the nodes asked for are %d: %s" % (lab, len(a), a[:2], len(b), b[:2]), rep)
    done(d)


# ---- fg-3D: every sequence of user actions
EVENTS = [("mesh", "A"), ("mesh", "B"), ("mesh", "missing"), ("sol", "1"), ("sol", "2"), ("box", "vector"), ("box", "charge"), ("box", "smooth"), ("scale", ""), ("export", ""), ("mesh", "cancel"), ("sol", "cancel")]


def case(nmA, nmB, start, depth, only):
    d = scratch({})
    C = dict(dir=d, start=start, depth=depth, only=only, out=d + "/res.json", meshes={})
    for L, nm in (("A", nmA), ("B", nmB)):
        m = MSH[nm]
        open(d + "/%s.msh" % L, "w").write(m.msh())
        s = {}
        for k in (1, 2):
            v = mags(len(m.nodes), k + (2 if L == "B" else 0))
            open(d + "/%s%d.sol" % (L, k), "w").write(sol(v)); s["%s%d" % (L, k)] = v
        C["meshes"][L] = dict(path=d + "/%s.msh" % L, points=[list(p) for p in m.nodes], tris=[list(t) for _, t in m.tris], tets=[list(t) for _, t in m.tets], sols=s)
    json.dump(C, open(d + "/case.json", "w"))
    return d


def gui(job):
    nmA, nmB, start, depth, only = job
    d = case(nmA, nmB, start, depth, only)
    rc, so, se = tool(d, [TOOLS + "/fg-3D"] + ([d + "/%s.msh" % start] if start else []), env=dict(DISPLAY=":99", FGV_CASE=d + "/case.json"))
    lab = "fg-3D (%s) A=%s B=%s" % ("started on " + start if start else "started empty", nmA, nmB)
    if ck.expect(os.path.exists(d + "/res.json"), "%s: did not start: %s %s" % (lab, so[-200:], se[-300:]), dict(stdout=so, stderr=se)):
        r = json.load(open(d + "/res.json"))
        for h, what in r["bad"]:
            ck.violation("%s: after %s: %s" % (lab, ", ".join(" ".join(x).strip() for x in h) or "the start", what[:400]), dict(history=h, meshes={n: MSH[n].msh() for n in (nmA, nmB)}, stderr=se[-1000:]))
        ck.count(r["n"] + 1, r["n"], r["n"])
        global ngui
        with ck.lock: ngui += r["n"]
    shutil.rmtree(d, ignore_errors=True)


ngui = 0
# the 4.1 form of the meshes, by gmsh
d0 = scratch({nm + ".msh": m.msh() for nm, m in MSH.items()})
open(d0 + "/c.py", "w").write("import gmsh, sys\nfor n in sys.argv[1:]:\n  gmsh.initialize(); gmsh.option.setNumber('General.Terminal', 0); gmsh.open(n + '.msh')\n  gmsh.option.setNumber('Mesh.MshFileVersion', 4.1); gmsh.write(n + '4.msh'); gmsh.finalize()\n")
rc, so, se = tool(d0, [d0 + "/c.py"] + sorted(MSH))
assert rc == 0, se
v41 = {nm: open("%s/%s4.msh" % (d0, nm)).read() for nm in MSH}
shutil.rmtree(d0)

forms = [("", 2), ("/rev", 2), ("", 4)]
sj = [(nm, v, f, verb) for nm in MSH for v, f in forms for verb in (0, 1)]
pmap(stat, sj)
pj = [(nm, v, f, p, s, c, k) for nm in MSH for v, f in (forms if T else forms[1:]) for p in PRED for s in SUB for c in PCT for k in ((1, 2) if T else (1 + (f == 4),))]
pmap(plot, pj)
depth = 5 if T else 4
gj = [(a, b, st, depth - 1 if (a, b) != ("two", "box") else depth, [ev]) for a, b in (("two", "box"), ("wall", "one")) for st in ((None, "A", "B") if T else (None, "A")) for ev in EVENTS]
gj.sort(key=lambda j: -j[3])
pmap(gui, gj)
print("%d mesh statistics, %d plots, %d histories of the viewer (up to %d actions)" % (len(sj), len(pj), ngui, depth))
ck.sample({"bounds": "%d mesh statistics, %d plots, %d histories of user actions on the viewer, up to %d actions" % (len(sj), len(pj), ngui, depth)})
for r in allr: r.p.stdin.close()
ck.assumptions = ["matplotlib, pyvista, PyQt5, meshio and termcolor are not installed: stand-ins that record what is drawn and emit the widgets' signals take their place",
                  "the .sol files opened belong to the mesh opened last"]
ck.finish(exhaustive=True)
