"""Shared machinery of the FeeLLGood model-checking harness: building the program from /repo's
working tree, running it (fork server), writing meshes and settings, reading outputs, evidence."""
import atexit, fcntl, glob, hashlib, json, math, os, queue, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = min(8, os.cpu_count() or 1)
LIBS = ["-lyaml-cpp", "-lduktape", "-lann", "-lgmsh", "-ltbb", "-fopenmp"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


# ------------------------------------------------------------------ building
def _files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        if "CMakeFiles" in d:
            continue
        for f in fs:
            if os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return sorted(out)


def _hash(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        h.update(open(p, "rb").read()); h.update(b"\0")
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:16]


def source_files():
    return [f for f in _files(os.path.join(REPO, "src"), {".cpp", ".h", ".yml", ".in", ".hpp"})
            if os.path.basename(f) != "config.h"]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("BUILD-ERROR: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]), flush=True)
        raise SystemExit(2)


def _par(cmds):
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda c: _run(c[0], c[1]), cmds))


def make_src(dst, one_gauss=0, first_order=0, seq=1):
    """Copy the sources of the working tree and generate config.h as cmake would."""
    src = os.path.join(REPO, "src")
    for f in source_files():
        rel = os.path.relpath(f, src)
        os.makedirs(os.path.dirname(os.path.join(dst, rel)), exist_ok=True)
        shutil.copyfile(f, os.path.join(dst, rel))
    c = open(os.path.join(dst, "config.h.in")).read()
    c = c.replace("@FEELLGOOD_VERSION@", "verif")
    vals = dict(ONE_GAUSS_POINT=one_gauss, FIRST_ORDER=first_order, ENABLE_SEQ=seq)
    c = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m.group(1), vals.get(m.group(1), 0)), c)
    c = re.sub(r"@\w+@", "verif", c)
    open(os.path.join(dst, "config.h"), "w").write(c)


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self

    def __exit__(self, *a):
        self.f.close()


def _prune(kind, keep):
    for d in glob.glob(os.path.join(BUILD, kind + "-*")):
        if os.path.isdir(d) and os.path.basename(d) != keep:
            shutil.rmtree(d, ignore_errors=True)


def build_program(kind="main", one_gauss=0, first_order=0, seq=1, cflags=("-O1",), hooks=True,
                  extra_src=(), extra_inc=(), plain_src=(), ldflags=()):
    """Build the whole program against the direct-summation stand-in for ScalFMM. Returns exe path."""
    hs = _files(os.path.join(VERIF, "stub"), {".hpp"}) + \
        [os.path.join(VERIF, "harness", f) for f in ("zygote.cpp", "feellgood_verif.h")] + list(extra_src) + list(plain_src) + \
        [f for i in extra_inc for f in sorted(glob.glob(i + "/*")) if os.path.isfile(f)]
    key = "%s-%s" % (kind, _hash(source_files() + hs, one_gauss, first_order, seq, cflags, hooks, ldflags))
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, "feellgood")
    with _Lock(kind):
        if os.path.exists(exe):
            return exe
        _prune(kind, key)
        shutil.rmtree(d, ignore_errors=True)
        s = os.path.join(d, "src")
        os.makedirs(s)
        make_src(s, one_gauss, first_order, seq)
        _run(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml", "-o", "default-settings.o"], s)
        base = ["g++", "-std=c++17", "-DNDEBUG", "-fopenmp", "-w", "-I" + s] + ["-I" + i for i in extra_inc] + \
            ["-I" + os.path.join(VERIF, "stub"), "-I" + os.path.join(VERIF, "harness")] + list(cflags)
        if hooks:
            base.append("-DFEELLGOOD_VERIF")
        cmds, objs = [], []
        for c in sorted(glob.glob(s + "/*.cpp")) + [os.path.join(VERIF, "harness", "zygote.cpp")] + list(extra_src):
            o = os.path.join(d, os.path.basename(c)[:-4] + ".o")
            objs.append(o)
            cmds.append((base + ["-c", c, "-o", o], s))
        for c in plain_src:
            o = os.path.join(d, os.path.basename(c)[:-4] + ".o")
            objs.append(o)
            cmds.append((["g++", "-std=c++17", "-O2", "-w", "-c", c, "-o", o], s))
        cmds.sort(key=lambda c: -os.path.getsize(c[0][-3]))
        _par(cmds)
        _run(["objcopy", "--redefine-sym", "main=fg_main", os.path.join(d, "main.o")])
        _run(["g++", "-rdynamic"] + objs + [os.path.join(s, "default-settings.o"), "-o", exe + ".tmp"] + list(ldflags) + LIBS)
        for o in objs:
            os.remove(o)
        os.rename(exe + ".tmp", exe)
    return exe


def build_harness(name, sources, one_gauss=0, first_order=0, seq=1, cflags=("-O1",), repo_cpp=(), libs=LIBS,
                  extra_inc=(), link_defaults=False):
    """Build a C++ harness of /verif/harness against the repository's headers (and listed .cpp files)."""
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    hs = _files(os.path.join(VERIF, "stub"), {".hpp"}) + _files(os.path.join(VERIF, "harness"), {".h", ".hpp"}) + srcs
    key = "%s-%s" % (name, _hash(source_files() + hs, one_gauss, first_order, seq, cflags, repo_cpp))
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, name)
    with _Lock(name):
        if os.path.exists(exe):
            return exe
        _prune(name, key)
        shutil.rmtree(d, ignore_errors=True)
        s = os.path.join(d, "src")
        os.makedirs(s)
        make_src(s, one_gauss, first_order, seq)
        base = ["g++", "-std=c++17", "-fopenmp", "-w", "-I" + s] + ["-I" + i for i in extra_inc] + \
            ["-I" + os.path.join(VERIF, "stub"), "-I" + os.path.join(VERIF, "harness")] + list(cflags)
        cmds, objs = [], []
        for c in srcs + [os.path.join(s, x) for x in repo_cpp]:
            o = os.path.join(d, os.path.basename(c)[:-4] + ".o")
            objs.append(o)
            cmds.append((base + ["-c", c, "-o", o], s))
        if link_defaults:
            _run(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml", "-o", "default-settings.o"], s)
            objs.append(os.path.join(s, "default-settings.o"))
        _par(cmds)
        _run(["g++"] + objs + ["-o", exe + ".tmp"] + list(libs))
        os.rename(exe + ".tmp", exe)
    return exe


# ------------------------------------------------------------------ running
class Result:
    __slots__ = ("rc", "sig", "timeout", "out", "err", "dir", "trace")

    def __init__(self, rc, sig, timeout, out, err, dir, trace):
        self.rc, self.sig, self.timeout, self.out, self.err, self.dir, self.trace = rc, sig, timeout, out, err, dir, trace

    @property
    def status(self):
        return "timeout" if self.timeout else ("signal %d" % self.sig if self.sig else "exit %d" % self.rc)

    def path(self, f):
        return os.path.join(self.dir, f)

    def read(self, f):
        p = self.path(f)
        if not os.path.exists(p):
            return None
        return open(p, errors="replace").read()

    def files(self):
        r = []
        for d, sub, fs in os.walk(self.dir):
            sub[:] = [x for x in sub if x != ".home"]
            for f in fs:
                f = os.path.relpath(os.path.join(d, f), self.dir)
                if not os.path.basename(f).startswith(".") :
                    r.append(f)
        return sorted(r)

    def attempts(self):
        """[(letter, status, t, dt, dumax)] recorded by the solver hook"""
        out = []
        for l in self.trace.splitlines():
            w = l.split()
            if w and w[0] == "S":
                out.append((w[1], int(w[2]), float(w[3]), float(w[4]), float(w[5])))
        return out


def _esc(s):
    return str(s).replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n")


class Zygote:
    def __init__(self, exe, scratch):
        self.exe, self.scratch = exe, scratch
        self.start()

    def start(self):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        env = dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), HOME=self.scratch, LC_ALL="C",
                   OMP_NUM_THREADS="1", VERIF_ZYGOTE="%d:%d" % (r1, w2))
        self.p = subprocess.Popen([self.exe], stdin=subprocess.DEVNULL, pass_fds=(r1, w2), env=env,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.scratch)
        os.close(r1); os.close(w2)
        self.w = os.fdopen(w1, "wb", buffering=0)
        self.r = os.fdopen(r2, "rb")

    def run(self, cwd, args, env, stdin, timeout):
        f = [cwd, stdin, timeout, len(env)] + ["%s=%s" % kv for kv in env.items()] + list(args)
        self.w.write(("\t".join(_esc(x) for x in f) + "\n").encode("utf-8", "surrogateescape"))
        l = self.r.readline().decode().split()
        if len(l) != 2:
            raise SystemExit("HARNESS-ERROR: fork server died")
        return l[0], int(l[1])

    def close(self):
        self.w.close(); self.r.close(); self.p.wait()


class Pool:
    """N fork servers; run() executes one simulation in a fresh scratch directory."""

    def __init__(self, exe, n=NPROC):
        self.tmp = tempfile.mkdtemp(prefix="fgv.", dir=os.environ.get("TMPDIR", "/tmp"))
        atexit.register(shutil.rmtree, self.tmp, True)
        self.exe = exe
        self.q = queue.Queue()
        self.z = [Zygote(exe, self.tmp) for _ in range(n)]
        for z in self.z:
            self.q.put(z)
        self.n = n
        self.k = 0
        self.runs = 0
        self.lock = threading.Lock()

    def run(self, files, args=("s.yml",), env=None, seed=True, stdin="/dev/null", timeout=30, keep=False, post=None,
            home=None):
        """files: {name: content}; post(result) is evaluated before the scratch directory is removed."""
        with self.lock:
            self.k += 1; self.runs += 1
            d = os.path.join(self.tmp, "r%d" % self.k)
        os.makedirs(d)
        for n, c in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if c is None:                    # a directory
                os.makedirs(p)
            elif isinstance(c, tuple):       # ("link", target)
                os.symlink(c[1], p)
            elif isinstance(c, bytes):
                open(p, "wb").write(c)
            else:
                open(p, "w").write(c)
        e = {"VERIF_TRACE": os.path.join(d, ".trace"), "HOME": os.path.join(d, ".home")}
        if env:
            e.update(env)
        a = list(args)
        if seed is True:
            a = ["--seed", "1"] + a
        elif seed not in (False, None):
            a = ["--seed", str(seed)] + a
        if stdin != "/dev/null":
            stdin = os.path.join(d, stdin)
        z = self.q.get()
        try:
            k, v = z.run(d, a, e, stdin, timeout)
        finally:
            self.q.put(z)
        rd = lambda f: open(os.path.join(d, f), errors="replace").read() if os.path.exists(os.path.join(d, f)) else ""
        res = Result(v if k == "E" else -1, v if k == "S" else 0, k == "T", rd(".stdout"), rd(".stderr"), d, rd(".trace"))
        try:
            return post(res) if post else res
        finally:
            if not keep and post:
                shutil.rmtree(d, ignore_errors=True)

    def drop(self, res):
        shutil.rmtree(res.dir, ignore_errors=True)

    def map(self, fn, items):
        with ThreadPoolExecutor(self.n) as ex:
            return list(ex.map(fn, items))

    def imap(self, fn, items):
        with ThreadPoolExecutor(self.n) as ex:
            for r in ex.map(fn, items):
                yield r

    def close(self):
        for z in self.z:
            z.close()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------------ meshes
class Mesh:
    """nodes: list of 3-tuples; tets: list of (region, (a,b,c,d)) 0-based; tris: list of (region, (a,b,c))"""

    def __init__(self, nodes, tets, tris=()):
        self.nodes, self.tets, self.tris = [tuple(map(float, p)) for p in nodes], list(tets), list(tris)

    def msh(self, vols=None, surfs=None):
        vols = vols or sorted({r for r, _ in self.tets})
        surfs = surfs or sorted({r for r, _ in self.tris})
        o = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$PhysicalNames", str(len(vols) + len(surfs))]
        tag = {}
        for i, s in enumerate(surfs):
            tag[2, s] = 200 + i; o.append('2 %d "%s"' % (200 + i, s))
        for i, v in enumerate(vols):
            tag[3, v] = 300 + i; o.append('3 %d "%s"' % (300 + i, v))
        o += ["$EndPhysicalNames", "$Nodes", str(len(self.nodes))]
        o += ["%d %.17g %.17g %.17g" % ((i + 1,) + p) for i, p in enumerate(self.nodes)]
        o += ["$EndNodes", "$Elements", str(len(self.tets) + len(self.tris))]
        k = 0
        for r, n in self.tris:
            k += 1; o.append("%d 2 2 %d %d %s" % (k, tag[2, r], tag[2, r], " ".join(str(i + 1) for i in n)))
        for r, n in self.tets:
            k += 1; o.append("%d 4 2 %d %d %s" % (k, tag[3, r], tag[3, r], " ".join(str(i + 1) for i in n)))
        o += ["$EndElements", ""]
        return "\n".join(o)

    def vol(self, t):
        a, b, c, d = (self.nodes[i] for i in t)
        u, v, w = ([q[i] - a[i] for i in range(3)] for q in (b, c, d))
        return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])) / 6

    def outer_faces(self):
        """{sorted face: [(tet index, outward oriented face)]}"""
        f = {}
        for i, (r, t) in enumerate(self.tets):
            a, b, c, d = t
            fs = [(a, c, b), (b, c, d), (c, a, d), (d, a, b)]
            if self.vol(t) < 0:
                fs = [x[::-1] for x in fs]
            for x in fs:
                f.setdefault(tuple(sorted(x)), []).append((i, x))
        return f


KUHN = [(0, 1, 3, 7), (0, 1, 5, 7), (0, 2, 3, 7), (0, 2, 6, 7), (0, 4, 5, 7), (0, 4, 6, 7)]


def grid(nx, ny, nz, d=(1., 1., 1.), origin=(0., 0., 0.), region=None, surface=None):
    """Kuhn-subdivided box; region(i,j,k)->volume name; surface(face nodes coords list)->name|None."""
    idx = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    nodes = [(origin[0] + i * d[0], origin[1] + j * d[1], origin[2] + k * d[2])
             for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)]
    tets = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                c = [idx(i + (b & 1), j + (b >> 1 & 1), k + (b >> 2)) for b in range(8)]
                for q in KUHN:
                    tets.append((region(i, j, k) if region else "vol", tuple(c[x] for x in q)))
    m = Mesh(nodes, tets)
    m.tets = [(r, t if m.vol(t) > 0 else (t[0], t[1], t[3], t[2])) for r, t in m.tets]
    if surface:
        for fkey, l in sorted(m.outer_faces().items()):
            if len(l) == 1 or m.tets[l[0][0]][0] != m.tets[l[1][0]][0]:
                s = surface([m.nodes[x] for x in l[0][1]], [m.tets[x[0]][0] for x in l])
                if s:
                    m.tris.append((s, l[0][1]))
    return m


def single_tet(s=1.0, region="vol"):
    return Mesh([(0, 0, 0), (s, 0, 0), (0, s, 0), (0, 0, s)], [(region, (0, 1, 2, 3))])


# ------------------------------------------------------------------ settings and outputs
def yaml_dump(x, ind=0):
    """Minimal block/flow YAML writer with full float precision."""
    sp = "  " * ind
    if isinstance(x, dict):
        o = []
        for k, v in x.items():
            if isinstance(v, dict) and v:
                o.append("%s%s:\n%s" % (sp, yscalar(k, True), yaml_dump(v, ind + 1)))
            else:
                o.append("%s%s: %s\n" % (sp, yscalar(k, True), yflow(v)))
        return "".join(o)
    return sp + yflow(x) + "\n"


def yflow(v):
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (yscalar(k, True), yflow(w)) for k, w in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(yflow(w) for w in v) + "]"
    return yscalar(v)


class Raw(str):
    """a string to be emitted verbatim in YAML"""


def yscalar(v, key=False):
    if isinstance(v, Raw):
        return str(v)
    if v is None:
        return ""
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, float):
        return repr(float(v))
    if isinstance(v, int):
        return str(v)
    if key and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_()]*", v):
        return v
    v = v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
    return '"' + re.sub("[\x00-\x1f\x7f]", lambda c: "\\x%02x" % ord(c.group()), v) + '"'


class Evol:
    def __init__(self, text):
        self.header = [l for l in text.splitlines() if l.startswith("#")]
        self.columns = []
        for l in self.header:
            if l.startswith("## columns:"):
                self.columns = l[len("## columns:"):].strip().split("\t")
        body = [l for l in text.splitlines() if l.strip() and not l.startswith("#")]
        self.rows = [[float(x) for x in l.split("\t")] for l in body]
        self.complete = (text == "" or text.endswith("\n"))

    def col(self, name):
        i = self.columns.index(name)
        return [r[i] for r in self.rows]


class Sol:
    def __init__(self, text):
        self.header = [l for l in text.splitlines() if l.startswith("#")]
        self.time = None
        self.columns = None
        for l in self.header:
            if l.startswith("## time:"):
                self.time = float(l.split(":", 1)[1])
            if l.startswith("## columns:"):
                self.columns = l.split(":", 1)[1].strip().split("\t")
        self.rows = [[float(x) for x in l.split("\t")] for l in text.splitlines() if l.strip() and not l.startswith("#")]
        self.u = [tuple(r[1:4]) for r in self.rows]
        self.phi = [r[4] for r in self.rows]
        self.complete = text.endswith("\n")


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.findings = load_findings(pid)
        self.lock = threading.Lock()
        sys.excepthook = self._crash

    def _crash(self, typ, e, tb):
        """An error in the check itself: no verdict (exit 2), unless a violation was already established."""
        traceback.print_exception(typ, e, tb)
        sys.stderr.flush()
        if self.viol:
            try:
                self.finish(exhaustive=False)
            except SystemExit:
                pass
            sys.stdout.flush()
            os._exit(1)
        os._exit(2)

    def count(self, states=0, transitions=0, traces=0):
        with self.lock:
            self.cov["states"] += states
            self.cov["transitions"] += transitions
            self.cov["traces_validated_against_impl"] += traces

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(s)

    def violation(self, what, replay=None):
        """what: one-line description; replay: dict of files / anything JSON-serializable"""
        with self.lock:
            for f in self.findings:
                if re.search(f["match"], what):
                    if f["id"] not in [k["id"] for k in self.known]:
                        self.known.append(f)
                    return
            if len(self.viol) < 20:
                self.viol.append((what, replay))

    def expect(self, cond, what, replay=None):
        if not cond:
            self.violation(what, replay() if callable(replay) else replay)
        return bool(cond)

    def finish(self, **extra):
        self.cov.update(extra)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        tmp = os.path.join(d, "." + self.pid + ".tmp")
        json.dump(ev, open(tmp, "w"), indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (w, rep) in enumerate(self.viol[:5]):
                p = os.path.join(rd, "%s-%d.json" % (self.pid, i))
                json.dump(dict(property=self.pid, what=w, replay=rep), open(p, "w"), indent=1, default=str)
                print("  %s" % w[:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.stdout.flush()
            sys.exit(1)
        print("OK property=%s %s wall=%.1fs" % (self.pid, {k: v for k, v in self.cov.items() if isinstance(v, (int, bool))}, time.time() - self.t0))
        sys.exit(0)


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["known"] if f["property"] == pid]


def close(a, b, rtol=1e-9, atol=0.0):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def run_sharded(ck, exe, args=(), n=NPROC, timeout=3000):
    """Run n shards of an exploration harness (harness/mc.h protocol) and collect verdicts and coverage."""
    def sh(k):
        p = subprocess.run([exe, str(k), str(n), TIER] + list(args), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=timeout)
        return p
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(sh, range(n)))
    err = ""
    for p in res:
        c = False
        for l in p.stdout.splitlines():
            if l.startswith("V "):
                ck.violation(l[2:], dict(harness=os.path.basename(exe), detail=l[2:]))
            elif l.startswith("C "):
                a, b, t = map(int, l[2:].split()); ck.count(a, b, t); c = True
        if p.returncode < 0 or not c:
            ck.violation("exploration harness %s died with status %d: %s" % (os.path.basename(exe), p.returncode, p.stderr[-500:]), dict(stderr=p.stderr[-2000:], stdout=p.stdout[-2000:]))
        err += p.stderr[-300:]
    return err
