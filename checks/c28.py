import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from spin import *
import itertools, yaml, re

ck = Check("C28")
T = TIER == "thorough"
pool = Pool(build_program())
SCR = tempfile.mkdtemp(prefix="fgv28.")
atexit.register(shutil.rmtree, SCR, True)
os.makedirs(SCR + "/py/feellgood")
for f in ("__init__.py", "core.py", "meshMaker.py", "settingsMaker.py"):
    shutil.copy(os.path.join(REPO, "python-modules", f), SCR + "/py/feellgood/")
TOOLS = os.path.join(REPO, "tools")


class Runner:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "harness/py/runtool.py"), SCR + "/py"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, cwd, argv, stdin=None, env=None):
        self.p.stdin.write(json.dumps(dict(cwd=cwd, root=SCR, argv=argv, stdin=stdin, env=dict(env or {}, HOME=cwd))) + "\n"); self.p.stdin.flush()
        rc = json.loads(self.p.stdout.readline())
        rd = lambda f: open(os.path.join(cwd, f), errors="replace").read() if os.path.exists(os.path.join(cwd, f)) else ""
        return rc, rd(".stdout"), rd(".stderr")


runners = queue.Queue()
allr = [Runner() for _ in range(NPROC)]
for r in allr: runners.put(r)
cnt = itertools.count()


def tool(d, argv, stdin=None, env=None):
    r = runners.get()
    try:
        return r.run(d, argv, stdin, env)
    finally:
        runners.put(r)


def scratch(files):
    d = "%s/w%d" % (SCR, next(cnt))
    os.makedirs(d)
    for n, c in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w", encoding="utf-8").write(c)
    return d


def done(d): shutil.rmtree(d, ignore_errors=True); ck.count(1, 1, 1)


# ---- meshes: real-valued coordinates, several regions, both formats, node tags listed in any order
def meshes():
    tet2 = Mesh([(0, 0, 0), (7, 1, 0), (1, 6, 0), (2, 1, 5), (3, 2, -6.25)], [("v0", (0, 1, 2, 3)), ("v1", (0, 2, 1, 4))])
    one = Mesh([(0, 0, 0), (7.12512345678912, 1, 1e-3), (1, 6, 0), (2, 1, 1 / 3)], [("v 0", (0, 1, 2, 3))])
    box = grid(1, 1, 1, (5., 6., 7.), (-3.3, 2., 1.), surface=lambda p, t: "s")
    bar = sides(2, 1, 1, (6., 5., 4.), (1., -2., 3.), lambda i, j, k: "v%d" % i, ("x0", "x1"))
    odd = Mesh([(0, 0, 0), (7, 1, 0), (1, 6, 0), (2, 1, 5), (3, 2, -6.25)], [(" v:0 ", (0, 1, 2, 3)), ("V#1 ", (0, 2, 1, 4))])
    return [("one", one), ("two", tet2), ("box", box), ("bar", bar), ("odd", odd)]


def shuffled(text, k):
    """the $Nodes lines of a 2.2 file in another order (tags unchanged)"""
    a, b = text.index("$Nodes\n"), text.index("$EndNodes")
    l = text[a:b].splitlines()
    n = l[2:]
    n = n[::-1] if k == 1 else n[1:] + n[:1] if k == 2 else n
    return text[:a] + "\n".join(l[:2] + n) + "\n" + text[b:]


MSH = {}
for nm, m in meshes():
    MSH[nm] = m
v41 = {}


def solve(nm, text, S, extra=None):
    """outputs of a real run on that mesh"""
    def post(r): return Out(r), {f: r.read(f) for f in r.files()}
    return pool.run(dict({"m.msh": text, "s.yml": yaml_dump(S)}, **(extra or {})), env={"VERIF_SCRIPT": ""}, post=post)


META = [None, [("Author", "me"), ("Project", "a: b # c")], [("Author", "\u00e9 l1\nl2"), ("time", "5"), ("note", "## x")]]
HAND = "# edited by hand\n#without blank\n##   spaces kept  \n#\n"


def run_settings(nm, meta=None, steps=2, t0=0):
    m = MSH[nm]
    regs = sorted({r for r, _ in m.tets})
    if nm == "bar":
        mats = {"v0": CO, "v1": CU}
        S = spin_settings(mats, {"x1": dict(jn=5e7, uP=[0., 0., 1.]), "x0": dict(V=0., s=[0., 0., 0.])}, mag=(1, .5, .3), cols=["t", "<Mx>", "<Mz>", "E_tot"], step=1e-14, n=steps, save=1, dtmin=1e-16, dtmax=5e-14, tol=1e-10)
    else:
        mats = {r: dict(Ms=8e5 if k == 0 else 4e5, Ae=1e-11, alpha_LLG=.1) for k, r in enumerate(regs)}
        S = settings(mats, {"s": {}} if nm == "box" else None, (.1, .2, .3), mag=(1, .5, .3), cols=["t", "<Mx>", "<Mz>", "E_tot"], step=1e-14, n=steps, save=1, dtmin=1e-16, dtmax=5e-14, tol=1e-10)
    S["initial_magnetization"] = Raw('["cos(x*1e8)", "0.3+y*1e7", "0.2-z*2e7"]')
    if meta: S["outputs"]["metadata"] = dict(meta)
    if t0:
        S["initial_time"] = t0
        S["outputs"]["final_time"] += t0
    return S


# ---- core.mesh and fg-merge-sol
def numbers(text):
    return [[float(x) for x in l.split("\t")] for l in text.splitlines() if l.strip() and not l.startswith("#")]


def same(a, b): return len(a) == len(b) and all(len(x) == len(y) and all(p == q or (p != p and q != q) for p, q in zip(x, y)) for x, y in zip(a, b))


SHOW = "import sys, json\nfrom feellgood.core import mesh\nm = mesh(sys.argv[1])\njson.dump([[list(p) for p in m.Nodes], m.Tet, m.Names], open('core.json', 'w'))\nm.infos()\n"


names = itertools.count()


def merge(job):
    nm, order, meta, ver = job
    m = MSH[nm]
    text = shuffled(m.msh(), order) if ver == 2 else v41[nm]
    S = run_settings(nm, meta)
    o, out = solve(nm, text, S)
    rep = dict(mesh=text, settings=yaml_dump(S), err=o.err)
    lab = "mesh %s, MSH%d, node order %d, metadata %s" % (nm, ver, order, meta)
    if not ck.expect(o.ok, "%s: the run itself failed: %s" % (lab, o.err[-300:]), rep): return
    d = scratch({"m.msh": text, "show.py": SHOW})
    rc, so, se = tool(d, [d + "/show.py", "m.msh"])
    nodes = [[float(x) if ver == 2 else float("%.16g" % x) for x in p] for p in m.nodes]   # (gmsh writes 16 digits)
    if ck.expect(rc == 0 and os.path.exists(d + "/core.json"), "%s: core.mesh failed: %s" % (lab, se[-300:]), rep):
        N, Te, Na = json.load(open(d + "/core.json"))
        ck.expect(same(N, nodes), "%s: core.mesh nodes %s" % (lab, N), rep)
        ck.expect(sorted(map(sorted, Te)) == sorted(sorted(t) for _, t in m.tets), "%s: core.mesh tetrahedra %s" % (lab, Te), rep)
        ck.expect(sorted(set(Na)) == sorted({r for r, _ in m.tets}), "%s: core.mesh names %s" % (lab, Na), rep)
    for f, t in sorted(out.items()):
        if not f.endswith(".sol"): continue
        open(d + "/x.sol", "w", encoding="utf-8").write(t)
        for to in (True, False):
            rc, so, se = tool(d, [TOOLS + "/fg-merge-sol", "m.msh", "x.sol"] + (["-o", "out.tsv"] if to else []))
            rep["sol"], rep["stderr"] = t, se
            if not ck.expect(rc == 0, "%s: fg-merge-sol %s failed: %s" % (lab, f, se[-300:]), rep): return done(d)
            r = open(d + "/out.tsv", encoding="utf-8").read() if to else so
            exp = [p + row[1:] for p, row in zip(nodes, numbers(t))]
            ck.expect(same(numbers(r), exp), "%s: fg-merge-sol %s gives %s instead of %s" % (lab, f, numbers(r)[:2], exp[:2]), rep)
            h = ["## columns: x\ty\tz\t" + l.partition("\t")[2] if l.startswith("## columns:") else l for l in t.splitlines() if l.startswith("#")]
            ck.expect([l for l in r.splitlines() if l.startswith("#")] == h, "%s: fg-merge-sol %s changed the header to %r" % (lab, f, [l for l in r.splitlines() if l.startswith("#")]), rep)
            ck.count(1, 1, 1)
    # fg-sol2vtk
    for f, t in sorted(out.items()):
        if not f.endswith(".sol") or "_V" in f: continue
        rows = numbers(t)
        for idx in ([], [1, 2, 3], [4], [], [3, 1], [1, 2, 3, 4], [], [0], []):
            xs, xv = (("x.sol", "x.vtu"), ("x.1.sol", "x.1.vtu"), ("./x.sol", "x.vtu"), ("sub.d/x.sol", "sub.d/x.vtu"))[next(names) % 4]
            os.makedirs(d + "/sub.d", exist_ok=True)
            open(d + "/" + xs, "w", encoding="utf-8").write(t if idx != [3, 1] else t.replace("\t", "  ") if "columns" not in t else "\n".join(l if l.startswith("#") else l.replace("\t", "  ") for l in t.split("\n")))
            rc, so, se = tool(d, [TOOLS + "/fg-sol2vtk", "m.msh", xs] + list(map(str, idx)) + (["--name", "q"] if len(idx) == 1 else []) + (["-o", "res"] if idx else []))
            if not ck.expect(rc == 0, "%s: fg-sol2vtk %s %s failed: %s" % (lab, f, idx, (so + se)[-300:]), rep): return done(d)
            fn = d + "/" + ("res.vtu" if idx else xv)
            if not ck.expect(os.path.exists(fn), "%s: fg-sol2vtk did not write %s" % (lab, fn), rep): return done(d)
            v = json.load(open(fn)); os.remove(fn)
            ck.expect(same(v["points"], nodes), "%s: fg-sol2vtk points %s" % (lab, v["points"]), rep)
            ck.expect(sorted((c[0], tuple(sorted(c[1]))) for c in v["cells"]) == sorted((10, tuple(sorted(t))) for _, t in m.tets), "%s: fg-sol2vtk cells %s" % (lab, v["cells"]), rep)
            want = idx or [1, 2, 3]
            ck.expect(len(v["data"]) == 1 and v["data"][0][0] == ("vectors" if len(want) == 3 else "scalars") and v["data"][0][2] == len(want) and
                      same(v["data"][0][3], [[r[k] for k in want] for r in rows]), "%s: fg-sol2vtk columns %s data %s" % (lab, want, v["data"]), rep)
            ck.count(1, 1, 1)
    done(d)


# ---- fg-sol2hdf5 then fg-h5extract
def h5(job):
    nm, meta, group, explicit, steps, ncol, t0, hand = job
    m = MSH[nm]
    S = run_settings(nm, meta, steps, t0)
    S["outputs"]["evol_columns"] = S["outputs"]["evol_columns"][:ncol]
    text = m.msh()
    o, out = solve(nm, text, S)
    rep = dict(mesh=text, settings=yaml_dump(S), err=o.err)
    lab = "mesh %s, metadata %s, group %s, %d steps, %d columns, from t=%s%s" % (nm, meta, group, steps, ncol, t0, ", edited headers" if hand else "")
    if not ck.expect(o.ok, "%s: the run itself failed: %s" % (lab, o.err[-300:]), rep): return
    sols = sorted(f for f in out if f.endswith(".sol"))
    if hand:   # comments added by hand, anywhere in the header
        for f in sols + ["o.evol"]:
            k = out[f].index("\n", hand - 1) + 1 if hand > 1 else 0
            out[f] = out[f][:k] + HAND + out[f][k:]
        for f in sols:
            if "_V" not in f: out[f] = re.sub("(?m)^## time: .*$", "## time: %.17g" % (1 / 3e9), out[f])
    d = scratch(dict({"m.msh": text, "s.yml": yaml_dump(S)}, **{f: out[f] for f in sols + ["o.evol"]}))
    g = group or "results"
    rc, so, se = tool(d, [TOOLS + "/fg-sol2hdf5"] + (["-a", group] if group else []) + ["a.h5", "s.yml"] + (sols if explicit else []))
    if not ck.expect(rc == 0, "%s: fg-sol2hdf5 failed: %s" % (lab, (so + se)[-400:]), rep): return done(d)

    def comp(what, files):
        rc, so, se = tool(d, [TOOLS + "/fg-h5extract", "a.h5", "-g", g, "-b", "x/q"] + (["-w", what] if what else []))
        if not ck.expect(rc == 0, "%s: fg-h5extract %s failed: %s" % (lab, what, (so + se)[-400:]), rep): return False
        got = {f: open(d + "/x/" + f, encoding="utf-8").read() for f in os.listdir(d + "/x")}
        for f in got: os.remove(d + "/x/" + f)
        if not ck.expect(sorted(got) == sorted(files), "%s: fg-h5extract %s wrote %s instead of %s" % (lab, what, sorted(got), sorted(files)), rep): return False
        for f, orig in files.items():
            t = got[f]
            rep["extracted"] = t
            if orig in ("m.msh", "s.yml"):
                ck.expect(t == (text if orig == "m.msh" else yaml_dump(S)), "%s: extracted %s differs" % (lab, orig), rep)
                continue
            ref = out[orig]
            ck.expect(same(numbers(t), numbers(ref)), "%s: extracted %s has %s, original %s" % (lab, orig, numbers(t)[:2], numbers(ref)[:2]), rep)
            hdr = lambda x, k: [l for l in x.splitlines() if l.startswith("#") and l.startswith("## " + k + ":")][-1:]
            ck.expect(hdr(t, "columns") == hdr(ref, "columns"), "%s: extracted %s has columns %r" % (lab, orig, hdr(t, "columns")), rep)
            # (numbers rewritten in another notation are fine)
            nrm = lambda x: sorted(l for l in x.splitlines() if l.startswith("#") and not l.startswith("## time:"))
            # (a _V.sol file has neither version, nor settings nor time: the extracted one may have them blank)
            ck.expect([l for l in nrm(t) if "_V" not in orig or l not in ("## feeLLGood version: ", "## settings file: ")] == nrm(ref), "%s: extracted %s has header %r, original %r" % (lab, orig, nrm(t), nrm(ref)), rep)
            if orig.endswith(".sol") and "_V" not in orig:
                ck.expect([float(l.split(":")[1]) for l in hdr(t, "time")] == [float(l.split(":")[1]) for l in hdr(ref, "time")], "%s: extracted %s is at time %r" % (lab, orig, hdr(t, "time")), rep)
                if 1:
                    # the solver restarts from it as from the original
                    res = []
                    for x in (ref, t):
                        S2 = dict(S, initial_magnetization="in.sol", initial_time=float(t0))
                        S2["outputs"] = dict(S["outputs"], mag_config_every=1); S2["outputs"].pop("metadata", None)
                        oo, ot = solve(nm, text, S2, {"in.sol": x})
                        if not ck.expect(oo.ok, "%s: the solver does not start from %s %s: %s" % (lab, "extracted" if x is t else "original", orig, oo.err[-300:]), rep): return False
                        res.append(numbers(ot["o.evol"]))
                    ck.expect(same(*res), "%s: restarting from extracted %s gives another run" % (lab, orig), rep)
            ck.count(1, 1, 1)
        return True

    os.makedirs(d + "/x")
    ds = {f: "qsolFile" + f[f.find("_"):] for f in sols}
    allf = dict({"q.evol": "o.evol", "q.msh": "m.msh", "q.yml": "s.yml"}, **{v: k for k, v in ds.items()})
    for what, files in (("evol", {"q.evol": "o.evol"}), ("mesh", {"q.msh": "m.msh"}), ("settings", {"q.yml": "s.yml"}), ("datasets", {v: k for k, v in ds.items()}),
                        (ds[sols[-1]][1:-4], {ds[sols[-1]]: sols[-1]}), (None, allf)):
        if not comp(what, files): break
    rc, so, se = tool(d, [TOOLS + "/fg-h5extract", "a.h5", "-g", "nope"])
    ck.expect(rc != 0, "%s: fg-h5extract accepts a missing group" % lab, rep)
    rc, so, se = tool(d, [TOOLS + "/fg-h5extract", "a.h5", "--view"])
    ck.expect(g in so and all(x[1:-4] in so for x in ds.values()), "%s: fg-h5extract --view shows %r" % (lab, so), rep)
    done(d)


# ---- fg-gensol: the solver starts from the generated state
GEN = {"const": ("[0, 0, 1]", lambda x, y, z: (0, 0, 1)), "lin": ("[x, 1 + y, z - 2]", lambda x, y, z: (x, 1 + y, z - 2)), "neg": ("[-3, 0.5, 1e-3]", lambda x, y, z: (-3, .5, 1e-3)),
       "trig": ("[np.cos(x), np.sin(x), 0.1]", lambda x, y, z: (math.cos(x), math.sin(x), .1)), "tiny": ("[1e-12*x, 3e-13, -1e-12*z]", lambda x, y, z: (1e-12 * x, 3e-13, -1e-12 * z)), "fine": ("[np.cos(1e9*x + z*1e8), np.sin(1e9*x + z*1e8), 0.5 + y]", lambda x, y, z: (math.cos(1e9 * x + z * 1e8), math.sin(1e9 * x + z * 1e8), .5 + y)), "big": ("[1e6*x, 1e6, 0]", lambda x, y, z: (1e6 * x, 1e6, 0))}


def gensol(job):
    nm, fs = job
    m = MSH[nm]
    regs = sorted({r for r, _ in m.tets})
    d = scratch({"m.msh": m.msh()})
    rep = dict(mesh=m.msh(), functions=fs)
    lab = "fg-gensol, mesh %s, functions %s" % (nm, fs)
    rc, so, se = tool(d, [TOOLS + "/fg-gensol", "m.msh"])
    if not ck.expect(rc == 0 and os.path.exists(d + "/init_cfg.py") and not os.path.exists(d + "/sol.in"), "%s: no template: %s" % (lab, se[-300:]), rep): return done(d)
    t = open(d + "/init_cfg.py", encoding="utf-8").read()
    g = {}
    exec(t.replace("import numpy as np", ""), g)
    tm = g["define_region_functions"]()
    if not ck.expect(sorted(tm) == regs and all(list(f(1, 2, 3)) == [0, 0, 1] for f in tm.values()), "%s: template %r" % (lab, t), rep): return done(d)
    rc, so, se = tool(d, [TOOLS + "/fg-gensol", "m.msh"])   # the template is valid as it stands
    ck.expect(rc == 0 and os.path.exists(d + "/sol.in") and all(r[1:4] == [0, 0, 1] for r in numbers(open(d + "/sol.in").read())), "%s: the template gives %r" % (lab, so), rep)
    fn = dict(zip(regs, fs))
    open(d + "/init_cfg.py", "w").write("import numpy as np\ndef define_region_functions():\n    return {%s}\n" % ", ".join("%r: lambda x, y, z: %s" % (r, GEN[f][0]) for r, f in fn.items()))
    if os.path.exists(d + "/sol.in"): os.remove(d + "/sol.in")
    rc, so, se = tool(d, [TOOLS + "/fg-gensol", "m.msh"])
    rep["stderr"] = se
    if not ck.expect(rc == 0 and os.path.exists(d + "/sol.in"), "%s: no sol.in: %s" % (lab, (so + se)[-300:]), rep): return done(d)
    sol = open(d + "/sol.in").read()
    rep["sol.in"] = sol
    rows = numbers(sol)
    choice = [[r for r, tt in m.tets if i in tt] for i in range(len(m.nodes))]
    if ck.expect([r[0] for r in rows] == list(range(len(m.nodes))) and all(r[4] == 0 for r in rows), "%s: rows %s" % (lab, rows[:2]), rep):
        for i, p in enumerate(m.nodes):
            ok = any(np.abs(np.array(rows[i][1:4]) - unitv(*GEN[fn[r]][1](*p))).max() < 3e-7 for r in set(choice[i]))
            ck.expect(ok, "%s: node %d at %s has %s" % (lab, i, p, rows[i][1:4]), rep)
        so = Sol(sol)
        ck.expect(so.time == 0 and so.columns == ["idx", "mx", "my", "mz", "phi"], "%s: header %s" % (lab, so.header), rep)
        S = run_settings(nm, steps=0)
        S["initial_magnetization"] = "sol.in"
        S.pop("spin_accumulation", None)
        if nm == "bar": S["mesh"]["surface_regions"] = {}
        o, out = solve(nm, m.msh(), S, {"sol.in": sol})
        if ck.expect(o.ok, "%s: the solver refuses sol.in: %s" % (lab, o.err[-300:]), rep):
            for i, u in enumerate(o.sol[0].u):
                ck.expect(all(x != x for x in u) or np.abs(np.array(u) - rows[i][1:4]).max() < 1e-6, "%s: node %d starts at %s instead of %s" % (lab, i, u, rows[i][1:4]), rep)
    done(d)


# ---- fg-configurator: the solver reads back the answers
ANS = ["", "me", "A. B", "a: b", "x # y", "#z", "'q'", '"dq"', "- l", "[1, 2]", "{a: b}", "yes", "null", "~", "123", "1e3", "0x1F", "\u00e9 \u00b5", "\U0001F600", "back\\slash", "* s", "& a", "! t", "% p", "@ at", "`b`", "| p", "> g",
       "a  b", "tab\tx", "trailing:", ": lead", "? k", "a, b", "{{x}}", "2020-01-01", "=", "<<", "true"]
LIC = ["0", "1", "2", "3", "-1", "x", ""]
LNAME = {"1": "CC BY", "2": "CC BY-SA"}


def config(job):
    a, b, l, how = job
    d = scratch({})
    env = {}
    if how == "xdg": env["XDG_CONFIG_HOME"] = d + "/cfg"; os.makedirs(d + "/cfg"); path = d + "/cfg/feellgood/default.yml"
    elif how == "xdg-missing": env["XDG_CONFIG_HOME"] = d + "/new/cfg"; path = d + "/new/cfg/feellgood/default.yml"
    elif how == "xdg-empty": env["XDG_CONFIG_HOME"] = ""; os.makedirs(d + "/.config"); path = d + "/.config/feellgood/default.yml"
    elif how == "home": os.makedirs(d + "/.config"); path = d + "/.config/feellgood/default.yml"
    elif how == "again": os.makedirs(d + "/.config/feellgood"); path = d + "/.config/feellgood/default.yml"; open(path, "w").write("outputs:\n  metadata:\n    Old: 1\n")
    else: path = d + "/.config/feellgood/default.yml"
    rc, so, se = tool(d, [TOOLS + "/fg-configurator"], stdin="%s\n%s\n%s\n" % (a, b, l), env=env)
    lab = "fg-configurator, answers %r, %s" % ((a, b, l), how)
    rep = dict(stderr=se, stdout=so)
    if not ck.expect(rc == 0 and os.path.exists(path), "%s: %s not written: %s" % (lab, os.path.basename(path), se[-300:]), rep): return done(d)
    t = open(path, encoding="utf-8").read()
    rep["file"] = t
    m = MSH["one"]
    S = settings({"v 0": dict(Ms=8e5)}, mag=(0, 0, 1), n=0)

    def post(r): return r.status, r.err, r.read("o.evol"), r.out
    h = lambda p: {".home/.config/feellgood/default.yml": t}
    st, err, ev, vo = pool.run(dict({"m.msh": m.msh(), "s.yml": yaml_dump(S)}, **h(0)), env={"VERIF_SCRIPT": "", "XDG_CONFIG_HOME": ""}, post=post)
    if ck.expect(st == "exit 0" and ev is not None, "%s: the solver refuses the file: %s" % (lab, err[-300:]), rep):
        want = [("Author", a), ("Affiliation", b)] + ([("Licence", LNAME[l])] if l in LNAME else [])
        hd = [x[3:] for x in ev.splitlines() if x.startswith("## ")]
        for k, v in want:
            e = "%s: %s" % (k, v)
            ck.expect((e in hd) if v else not any(x.startswith(k + ":") for x in hd), "%s: output header %r, expected %r" % (lab, hd, e), rep)
        if l not in LNAME: ck.expect(not any(x.startswith("Licence:") for x in hd), "%s: licence in header %r" % (lab, hd), rep)
        ck.expect(not any("Old" in x for x in hd), "%s: the old file survives: %r" % (lab, hd), rep)
    done(d)


# ---- settingsMaker: the solver reads the dictionary
def maker(job):
    lab, code, S = job
    d = scratch({"w.py": "from feellgood.settingsMaker import Settings\ns = Settings(%r)\n%s\ns.write('s.json')\n" % (S["mesh"]["filename"], code)})
    rc, so, se = tool(d, [d + "/w.py"])
    rep = dict(code=code, stderr=se)
    if not ck.expect(rc == 0 and os.path.exists(d + "/s.json"), "settingsMaker %s: failed: %s" % (lab, se[-300:]), rep): return done(d)
    t = open(d + "/s.json", encoding="utf-8").read()
    rep["json"] = t

    def post(r): return r.status, r.out, r.err
    v = lambda x, n: pool.run({"s.json": x, "s.yml": x}, args=("--verify", n), seed=False, post=post)
    a, b = v(t, "s.json"), v(yaml_dump(S), "s.yml")
    cut = lambda x: "\n".join(l for l in x.splitlines() if "s.json" not in l and "s.yml" not in l)
    ck.expect(a[0] == b[0] == "exit 0" and cut(a[1]) == cut(b[1]), "settingsMaker %s: read as\n%s\ninstead of\n%s %s" % (lab, cut(a[1])[-600:], cut(b[1])[-600:], a[2][-200:]), rep)
    done(d)


# the 4.1 form of the meshes, by gmsh
d0 = scratch({nm + ".msh": m.msh() for nm, m in MSH.items()})
open(d0 + "/c.py", "w").write("import gmsh, sys\nfor n in sys.argv[1:]:\n  gmsh.initialize(); gmsh.option.setNumber('General.Terminal', 0); gmsh.open(n + '.msh')\n  gmsh.option.setNumber('Mesh.MshFileVersion', 4.1); gmsh.write(n + '4.msh'); gmsh.finalize()\n")
rc, so, se = tool(d0, [d0 + "/c.py"] + sorted(MSH))
assert rc == 0, se
for nm in MSH: v41[nm] = open("%s/%s4.msh" % (d0, nm)).read()
shutil.rmtree(d0)

mj = [(nm, o, META[0], 2) for nm in MSH for o in (0, 1, 2)] + [(nm, 0, x, v) for nm in MSH for x in META for v in (2, 4)]
pool.map(merge, mj)
hj = [(nm, x, g, e, 2, 4, 0, 0) for nm in MSH for x in META for g, e in ((None, False), (None, True), ("run1", False), ("run1", True))] + \
     [(nm, None, None, True, st, nc, 0, 0) for nm in MSH for st in (0, 1, 3) for nc in (1, 2)] + \
     [(nm, x, None, True, 1, 4, t0, hd) for nm in MSH for x in META[::2] for t0, hd in ((1.2345678901234567e-7, 0), (1 / 3e9, 0), (0, 1), (0, 2), (0, 40))]
pool.map(h5, hj)
gj = []
for nm, m in MSH.items():
    k = len({r for r, _ in m.tets})
    gj += [(nm, fs) for fs in itertools.product(sorted(GEN), repeat=k)]
pool.map(gensol, gj)
cj = [(a, b, l, "home") for a in ANS for b in ("", "lab") for l in ("0", "2")] + [(a, b, "1", "home") for a, b in ((x, y) for x in (ANS if T else ANS[::4]) for y in ANS)] + \
     [("me", "lab", l, h) for l in LIC for h in ("home", "xdg", "xdg-missing", "xdg-empty", "again", "fresh")]
pool.map(config, cj)
base = {"outputs": {}, "mesh": {"filename": "m.msh"}}
ms = []
VALS = [("initial_magnetization", [1., 0., 0.]), ("initial_magnetization", ["x", "y", "0.1"]), ("initial_magnetization", "a \u00e9.sol"), ("Bext", [.1, 0., -2e-3]), ("Bext", ["sin(t)", "0", "1"]), ("initial_time", 1e-12)]
SUB = [("outputs", "file_basename", "a b"), ("outputs", "file_basename", "\U0001F600"), ("outputs", "file_basename", "tr\u00e9s: #x"), ("outputs", "evol_columns", ["t", "<Mx>", "E_tot"]), ("outputs", "evol_time_step", 2.5e-17), ("outputs", "final_time", 1.5e-9),
       ("outputs", "mag_config_every", 500), ("outputs", "mag_config_every", False), ("finite_element_solver", "nb_threads", 4), ("finite_element_solver", "tolerance", 1e-7), ("time_integration", "min(dt)", 5e-24), ("time_integration", "max(du)", .001),
       ("demagnetizing_field_solver", "nb_threads", 3)]
REG = [("Ms", 800e3), ("K3", -4.2e4), ("ex", [1., 0., 0.]), ("alpha_LLG", .02), ("Ae", 13e-12), ("uk", [0., .6, .8]), ("K", 1e5)]
for k in range(1 << 3):
    code, S = [], {"outputs": {}, "mesh": {"filename": ["m.msh", "a b/\u00e9 m.msh"][k % 2], "volume_regions": {}, "surface_regions": {}}}
    for n in (["v1"], ["v1", "v 2"], ["v:3", "v1"])[k % 3]:
        code.append("r = s.createVolRegion(%r)" % n)
        S["mesh"]["volume_regions"][n] = {}
        for i, (a, b) in enumerate(REG):
            if (k + i) % 3: code.append("r[%r] = %r" % (a, b)); S["mesh"]["volume_regions"][n][a] = b
        code.append("assert s.createVolRegion(%r) is r" % n)
    for n in (["s1"], [], ["s 1", "s2"])[k % 3]:
        code.append("r = s.createSurfRegion(%r)" % n); S["mesh"]["surface_regions"][n] = {}
        if k & 2: code.append("r['suppress_charges'] = True"); S["mesh"]["surface_regions"][n]["suppress_charges"] = True
        if k & 4: code.append("r['Ks'] = 1e-3; r['uk'] = [0.0, 0.6, 0.8]"); S["mesh"]["surface_regions"][n].update(Ks=1e-3, uk=[0., .6, .8])
    ms.append(("regions %d" % k, "\n".join(code), S))
for a, b in VALS:
    ms.append(("%s=%r" % (a, b), "s.createVolRegion('v')\ns[%r] = %r\nassert s[%r] == %r" % (a, b, a, b), {"mesh": {"filename": "m.msh", "volume_regions": {"v": {}}}, a: b}))
for g, a, b in SUB:
    ms.append(("%s.%s=%r" % (g, a, b), "s.createVolRegion('v')\ns[%r][%r] = %r" % (g, a, b), {"mesh": {"filename": "m.msh", "volume_regions": {"v": {}}}, g: {a: b}}))
for x, th in itertools.product("XYZ", (.1, .5)):
    ms.append(("recentering %s %g" % (x, th), "s.createVolRegion('v')\ns.recentering(%r, %r)" % (x, th), {"mesh": {"filename": "m.msh", "volume_regions": {"v": {}}}, "recentering": {"enable": True, "direction": x, "threshold": th}}))
pool.map(maker, ms)
print("%d merges, %d archives, %d generated states, %d configurations, %d settings" % (len(mj), len(hj), len(gj), len(cj), len(ms)))
ck.sample({"bounds": "%d mesh/solution pairs, %d archives, %d generated states, %d configurations, %d settings files" % (len(mj), len(hj), len(gj), len(cj), len(ms))})
for r in allr: r.p.stdin.close()
pool.close()
ck.assumptions = ["h5py, vtk and meshio are not installed: stand-ins with their documented behaviour take their place"]
ck.finish(exhaustive=True)
