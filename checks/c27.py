"""C27: names, placement and headers of the output files.  Column selections x directory forms x base name forms x metadata alphabets,
each combination run on the real program; every produced file is located, its header compared line by line with the configuration, its
rows with the declared columns, and the snapshot is read back by the program itself."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
from spin import *
import itertools, socket

ck = Check("C27")
T = TIER == "thorough"
pool = Pool(build_program())
STEP = 1e-13
COLS = ["iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length",
        "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz", "vol:<Mx>", "vol:<dMz/dt>", "vol:Thiele_length"]
mesh = grid(1, 1, 1, (10., 11., 12.))
MSH = mesh.msh()
q = lambda s: Raw(json.dumps(s, ensure_ascii=False))


def hdr(text):
    """(header lines, data lines, ok); lines are ended by \\n only"""
    if not text.endswith("\n"): return None
    lines = text[:-1].split("\n")
    k = 0
    while k < len(lines) and lines[k].startswith("#"): k += 1
    return lines[:k], lines[k:]


def meta_lines(meta):
    out = []
    for k, v in meta:
        v = v[:-1] if v.endswith("\n") else v
        out += ("## " + k.replace("\n", "\n##  ") + ": " + v.replace("\n", "\n##  ")).split("\n")
    return out


def one(job):
    what, cols, directory, base, mname, meta, setf, via, spin, t0, extra = job
    S = settings({"vol": dict(Ms=8e5)}, None, (.01, 0, .02), mag=[1., .2, .1], cols=cols, step=STEP, n=2, save=1, dtmin=STEP / 3, dtmax=STEP * 3, t0=t0)
    o = S["outputs"]
    o.pop("file_basename")
    if base is not None: o["file_basename"] = q(base)
    if directory is not None: o["directory"] = q(directory)
    if cols is None: o.pop("evol_columns")
    o["evol_columns"] = [q(c) for c in cols]
    S["mesh"]["filename"] = q(mname)
    m = MSH
    if spin:
        sm = spin_mesh()
        m = sm[0]
        S = spin_settings(*sm[1:], B=(0, 0, 0), mag=[1., .2, .1], cols=cols, step=STEP, n=2, save=1, dtmin=STEP / 3, dtmax=STEP * 3)
        S["mesh"]["filename"] = q(mname); S["outputs"].update({k: v for k, v in o.items() if k in ("file_basename", "directory", "evol_columns")})
        if base is None: S["outputs"].pop("file_basename", None)
        S["spin_accumulation"]["V_file"] = True
    txt = yaml_dump(S)
    if meta:
        txt = txt.replace("outputs:\n", "outputs:\n  metadata:\n" + "".join("    %s: %s\n" % (q(k), q(v)) for k, v in meta), 1)
    files = {mname: m}
    files.update(extra or {})
    stdin = "/dev/null"
    if via == "stdin": args, disp, files["stdin.yml"], stdin = ("-",), "standard input", txt, "stdin.yml"
    else: args, disp, files[setf] = (setf,), setf, txt
    name = "%s [columns %s; directory %r; base name %r; mesh %r; metadata %r; settings %r]" % (what, ",".join(cols), directory, base, mname, meta, disp)
    rep = dict(settings=txt, msh=m, args=args)
    inputs = {os.path.normpath(f) for f, v in files.items() if isinstance(v, str)}
    d = directory or ""
    d = d if d else "."
    sim = base or os.path.basename(mname)[:(os.path.basename(mname).rfind(".") if "." in os.path.basename(mname) else None)]
    want = {os.path.normpath(os.path.join(d, sim + x)) for x in [".evol"] + ["_iter%d.sol" % k for k in range(3)] + (["_V.sol"] if spin else [])}

    def post(res):
        # raw bytes are compared
        got = {}
        for f in res.files():
            if f not in inputs and not (os.path.islink(res.path(os.path.dirname(f) or "."))):
                got[f] = open(res.path(f), "rb").read().decode(errors="replace")
        for f in want:
            if f not in got and os.path.exists(res.path(f)): got[f] = open(res.path(f), "rb").read().decode(errors="replace")
        return res.status, res.err[-800:], got
    st, err, got = pool.run(files, args=args, stdin=stdin, env={"VERIF_SCRIPT": ""}, post=post)
    ck.count(traces=1)
    link = {k: v[1] for k, v in (extra or {}).items() if isinstance(v, tuple)}
    if link:   # seen through the link and directly
        got = {f: x for f, x in got.items() if os.path.dirname(f) not in link.values()}
    if not ck.expect(st == "exit 0", "%s: the run ended with %s %s" % (name, st, err), rep): return
    if not ck.expect(set(got) == want, "%s: output files %s, expected %s" % (name, sorted(got), sorted(want)), rep): return
    ml = meta_lines(meta)
    ev = None
    for f in sorted(want):
        h = hdr(got[f])
        if not ck.expect(h is not None and h[1] and not any(l.startswith("#") or not l for l in h[1]),
                         "%s: %s is not a header followed by data rows" % (name, f), rep): return
        head, data = h
        isV = f.endswith("_V.sol")
        tag = lambda t: [l[len(t):].strip() for l in head if l.startswith(t)]
        if not ck.expect(tag("## real-world time:"), "%s: %s has no date" % (name, f), rep): return
        if not isV:
            for t, v in (("## feeLLGood version:", None), ("## hostname:", HOST), ("## settings file:", disp)):
                x = tag(t)
                if not ck.expect(x and (v is None or v in x), "%s: %s: header line %s is %r, expected %r" % (name, f, t, x, v), rep): return
            # the user's metadata, in order, as consecutive lines
            ok = not ml or any(head[i:i + len(ml)] == ml for i in range(len(head)))
            if not ck.expect(ok, "%s: %s: metadata lines %r not found in header %r" % (name, f, ml, head), rep): return
        c = head[-1]
        if not ck.expect(c.startswith("## columns:"), "%s: %s: the header does not end with the column names: %r" % (name, f, c), rep): return
        cn = c[len("## columns:"):].strip(" ").split("\t")
        wc = list(cols) if f.endswith(".evol") else ["idx", "V"] if isV else ["idx", "mx", "my", "mz", "phi"] + (["sx", "sy", "sz"] if spin else [])
        if isV: wc = cn if len(cn) == 2 else wc
        if not ck.expect(cn == wc, "%s: %s: columns %r, expected %r" % (name, f, cn, wc), rep): return
        for l in data:
            w = l.split("\t")
            try: ok = len(w) == len(wc) and [float(x) for x in w] is not None
            except ValueError: ok = False
            if not ck.expect(ok, "%s: %s: row %r does not match the columns %r" % (name, f, l, wc), rep): return
        if f.endswith(".evol"):
            ev = [[float(x) for x in l.split("\t")] for l in data]
            if not ck.expect(len(ev) == 3, "%s: %d rows" % (name, len(ev)), rep): return
        if "_iter" in f and f.endswith(".sol"):
            k = int(f[f.rindex("_iter") + 5:-4])
            tt = (t0 or 0.) + k * STEP
            times = [l for l in head if l.startswith("## time:")]
            x = times[-1][8:] if times else None
            if not ck.expect(x is not None and close(float(x), tt, 1e-6, 1e-30), "%s: %s has time tag %r, expected %r" % (name, f, x, tt), rep): return
        ck.count(states=1)
    # the program reads its own snapshot back
    sf = os.path.normpath(os.path.join(d, sim + "_iter2.sol"))
    S2 = dict(S); S2["outputs"] = dict(o, file_basename="again", directory=".", final_time=(t0 or 0.) + 2 * STEP, evol_columns=["t", "<Mx>", "<My>", "<Mz>"])
    S2.pop("initial_time", None)
    S2["initial_magnetization"] = "snap.sol"
    S2["mesh"] = dict(S["mesh"], filename="mm.msh")
    r = pool.run({"mm.msh": m, "snap.sol": got[sf], "s2.yml": yaml_dump(S2)}, args=("s2.yml",), env={"VERIF_SCRIPT": ""},
                 post=lambda res: (res.status, res.err[-500:], res.read("again.evol"), res.read("again_iter0.sol")))
    if not ck.expect(r[0] == "exit 0" and r[2] and r[3], "%s: its snapshot cannot be read back: %s %s" % (name, r[0], r[1]), rep): return
    e = Evol(r[2])
    if not ck.expect(len(e.rows) == 1 and close(e.rows[0][0], (t0 or 0.) + 2 * STEP, 1e-6), "%s: restarting from its snapshot starts at %r" % (name, e.rows), rep): return
    a = [l.split("\t")[1:4] for l in hdr(got[sf])[1]]; b = [l.split("\t")[1:4] for l in hdr(r[3])[1]]
    ck.expect(len(a) == len(b) and all(abs(float(x) - float(y)) < 1e-6 or (x, y) == ("nan", "nan") for u, v in zip(a, b) for x, y in zip(u, v)),
              "%s: restarting from its snapshot changes the magnetization" % name, rep)
    ck.count(transitions=1)


HOST = socket.gethostname()
_SM = sides(2, 1, 1, (5., 6., 6.), region=lambda i, j, k: "v%d" % i, which=("x0", "x1"))
_SMSH = _SM.msh()
SURFS = {"x0": dict(V=1e-6, s=[0., 0., 0.]), "x1": dict(jn=2e7, uP=[0., 1., 0.])}


def spin_mesh():
    return _SMSH, {"v0": CO, "v1": CU}, SURFS


DIRS = [None, "", ".", "./", "out", "out/", "./out", "out.d", "a b", "\u00e9t\u00e9", "here", "here/", "link", "..data", "# x", "sub/../out2x"][:15]
BASES = [None, "", "o", "a.b", "with space", "o_iter3", ".hid"[1:], "n\u00f8m", "x:y", "# z", "1"]
MNAMES = ["m.msh", "m", "a.b.msh", "dir/m.msh", "./m.msh", "dir.x/mesh", "m.MSH", "sp ace.msh"]
SETS = ["s.yml", "conf", "./s.yml", "d/s.yml", "with space.yml", "#s.yml"]
KEYS = ["Author", "", " ", "time", "columns", "settings file", "feeLLGood version", "a: b", "#", "x\ny", "## time: 7", "real-world time", "k\tk", "\u00e9"]
VALS = ["me", "", " ", "5", "a: b", "# c", "l1\nl2", "l1\n\nl3", "end\n", "end\n\n", "\n", "tab\tx", 'q"uo\'te', "back\\slash", "\u00b5m \u65e5", "cr\rcr", "## time: 1e-3", "idx\tmx",
        "## columns: t", "\n## time: 3", "7\n## time: 8\n0\t1\t0\t0\t0", "~", "null", "true", "[1, 2]", "x" * 300]
EX = {"here": None, "real": None, "link": ("link", "real"), "dir": None}
jobs = []
C3 = ["t", "<Mx>", "E_tot"]
def add(what, cols=C3, directory=None, base="o", mname="m.msh", meta=(), setf="s.yml", via="file", spin=False, t0=None):
    extra = {}
    if directory and directory.rstrip("/") == "here": extra["here"] = None
    if directory == "link": extra["real"] = None; extra["link"] = ("link", "real")
    jobs.append((what, list(cols), directory, base, mname, list(meta), setf, via, spin, t0, extra))


for c in COLS: add("column", [c])
for a, b in itertools.permutations(COLS, 2): add("columns", [a, b])
for c in COLS: add("twice", [c, "t", c])
for r in (2, 3): add("many columns", COLS * r); add("many columns", [c for c in COLS for _ in range(r)])
for r in (20, 60): add("much metadata", meta=[("key %d" % i, "value %d" % i) for i in range(r)])
add("long metadata", meta=[("k" * 500, "v" * 20000), ("lines", "\n".join("line %d" % i for i in range(500)))])
add("all columns", COLS); add("all columns", COLS[::-1])
for d in DIRS:
    for b in BASES: add("names", directory=d, base=b)
    for m in MNAMES: add("names", directory=d, base=None, mname=m)
for m in MNAMES:
    for b in BASES: add("names", base=b, mname=m)
for s in SETS: add("settings name", setf=s)
for k in KEYS:
    for v in VALS: add("metadata", meta=[(k, v)])
for (k1, k2) in itertools.permutations(["time", "columns", "x\ny", "A"], 2):
    for v1, v2 in itertools.product(["5", "l1\nl2", "", "\n## time: 3"], repeat=2): add("metadata", meta=[(k1, v1), (k2, v2)])
for t0 in (1e-9, 3e-13, -2e-12, 2e-9): add("initial time", t0=t0, meta=[("time", "9")])
for d in (None, "", "out", "out/"):
    for b in (None, "o"):
        for v in ("file", "stdin"):
            add("stdin", directory=d, base=b, via=v); add("spin", directory=d, base=b, via=v, spin=True, meta=[("time", "4\n## columns: x")])
if T:
    for a, b, c in itertools.permutations(COLS, 3): add("columns", [a, b, c])
    for (k1, k2) in itertools.permutations(KEYS, 2):
        for v1, v2 in itertools.product(VALS[::3], repeat=2): add("metadata", meta=[(k1, v1), (k2, v2)])
    for d in DIRS:
        for b in BASES:
            for m in MNAMES:
                for s in SETS: add("names", directory=d, base=b, mname=m, setf=s)
pool.map(one, jobs)
ck.finish(exhaustive=True, bounds="%d runs: %d columns (all singles and ordered pairs%s), %d directory forms x %d base names, %d mesh names, %d settings file names, stdin, "
          "%d metadata keys x %d values (single; %spairs), spin accumulation files, initial times" % (
              len(jobs), len(COLS), ", triples" if T else "", len(DIRS), len(BASES), len(MNAMES), len(SETS), len(KEYS), len(VALS), "all " if T else "selected "),
          oracle="expected set of files, header lines, column names and time tags; snapshot read back by the program")
