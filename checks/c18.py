import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools, yaml

ck = Check("C18")
T = TIER == "thorough"
pool = Pool(build_program())
TET = Mesh([(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)], [("v0", (0, 1, 2, 3))])
S1 = yaml_dump(settings({"v0": dict(Ae=1e-11, Ms=8e5, alpha_LLG=.5)}, None, (.1, .2, .3), mag=(1, 1, 0), cols=["iter", "t", "<Mx>", "<My>", "<Mz>", "E_tot"],
                        step=2e-13, n=2, dtmin=1e-17, dtmax=1e-12, du=.05, save=1))
S2 = S1.replace('"o"', '"q"').replace("alpha_LLG: 0.5", "alpha_LLG: 0.1")
FILES = {"s.yml": S1, "t.yml": S2, "m.msh": TET.msh(), "-v.yml": S1, "in": S1}
OPTS = {"-h": "help", "--help": "help", "-V": "version", "--version": "version", "--print-defaults": "defaults", "--print-template": "template",
        "--verify": "verify", "-v": "verbose", "--verbose": "verbose", "--seed": "seed"}
ALPHABET = list(OPTS) + ["--nope", "-x", "", "s.yml", "t.yml", "missing.yml", "-", "7", "--verb", "-hV", "--help=1"]


def model(a):
    """(kind, detail): what the documented command line does"""
    flags = set()
    seed = None
    i = 0
    while i < len(a) and a[i] in OPTS:
        f = OPTS[a[i]]
        flags.add(f)
        i += 1
        if f == "seed" and i < len(a):
            seed = a[i]
            i += 1
    for f in ("help", "version", "defaults", "template"):
        if f in flags: return f, None
    if len(a) - i != 1: return "usage", None
    f = a[i]
    if f in ("missing.yml", "--nope", "-x", "", "7", "--verb", "-hV", "--help=1"): return "nofile", f
    return ("verify" if "verify" in flags else "run"), (f, seed, "verbose" in flags)


def num(s):
    m = re.match(r"\s*([+-]?\d+)", s)
    return int(m.group(1)) % 2 ** 32 if m else 0


DEF = yaml.load(open(os.path.join(REPO, "src", "default-settings.yml")), yaml.BaseLoader)
ref = {}
kinds = {}


def body(r, base):
    out = {}
    for f in r.files():
        if f.startswith(base) and f.endswith((".evol", ".sol")):
            out[f] = [l for l in r.read(f).splitlines() if not l.startswith("## real-world time")]
    return out


def numbers(b):
    return {f: [[float(x) for x in l.split("\t")] for l in ls if not l.startswith("#")] for f, ls in b.items()}


def same(a, b, tol):
    if set(a) != set(b): return "files %s instead of %s" % (sorted(a), sorted(b))
    for f in a:
        if len(a[f]) != len(b[f]): return "%s: %d lines instead of %d" % (f, len(a[f]), len(b[f]))
        for k, (x, y) in enumerate(zip(a[f], b[f])):
            for p, q in zip(x, y):
                if not close(p, q, tol, 1e-21 if f.endswith(".evol") else 2e-7): return "%s line %d: %r instead of %r" % (f, k, p, q)
    return None


def case(a):
    r = pool.run(FILES, args=a, seed=False, stdin="in", timeout=20, post=lambda r: judge(a, r))


def judge(a, r):
    kind, d = model(a)
    with ck.lock: kinds[kind] = kinds.get(kind, 0) + 1
    ck.count(1, len(a), 1)
    rep = dict(args=a, out=r.out[-1500:], err=r.err[-500:])
    n = "feellgood %s" % " ".join(repr(x) for x in a)
    new = [f for f in r.files() if f not in FILES]
    if not ck.expect(not r.sig and not r.timeout, "%s: %s" % (n, r.status), rep): return
    if kind != "run": ck.expect(not new, "%s: wrote %s" % (n, new), rep)
    if kind in ("help", "version", "defaults", "template", "verify"):
        ck.expect(r.rc == 0, "%s: %s" % (n, r.status), rep)
        ck.expect("random seed:" not in r.out and "Computing time" not in r.out, "%s: simulated" % n, rep)
    if kind == "help":
        ck.expect("Usage" in r.out and all(o in r.out for o in OPTS), "%s: help does not describe the options" % n, rep)
    elif kind == "version":
        ck.expect("feeLLGood verif" in r.out and "ENABLE_SEQ" in r.out, "%s: no version" % n, rep)
    elif kind in ("defaults", "template"):
        try:
            ok = yaml.load(r.out, yaml.BaseLoader) == DEF
        except yaml.YAMLError:
            ok = False
        ck.expect(ok, "%s: the %s printed are not the default settings" % (n, kind), rep)
        if kind == "template": ck.expect("#" not in r.out and "\n\n" not in r.out, "%s: template has comments or blank lines" % n, rep)
        else: ck.expect("#" in r.out, "%s: comments missing" % n, rep)
    elif kind == "verify":
        try:
            y = yaml.load(r.out, yaml.BaseLoader)
        except yaml.YAMLError:
            y = None
        want = "q" if d[0] == "t.yml" else "o"
        ck.expect(y is not None and y["outputs"]["file_basename"] == want and "volume_regions" in y["mesh"], "%s: settings of %s not printed" % (n, d[0]), rep)
    elif kind == "usage":
        ck.expect(r.rc != 0 and "sage" in r.err, "%s: no usage error (%s)" % (n, r.status), rep)
    elif kind == "nofile":
        ck.expect(r.rc != 0 and r.err.strip() != "", "%s: no error (%s)" % (n, r.status), rep)
    else:
        f, seed, verb = d
        base = "q" if f == "t.yml" else "o"
        if not ck.expect(r.rc == 0 and base + ".evol" in new, "%s: no simulation (%s)" % (n, r.status), rep): return
        disp = "standard input" if f == "-" else f
        ck.expect(re.search(r"settings file:\s+%s$" % re.escape(disp), r.out, re.M), "%s: settings file not reported" % n, rep)
        ck.expect(("verbose mode" in r.out) == verb, "%s: verbose mode wrong" % n, rep)
        m = re.search(r"random seed:\s+(\d+)", r.out)
        if ck.expect(m, "%s: seed not reported" % n, rep) and seed is not None:
            ck.expect(int(m.group(1)) == num(seed), "%s: seed %s reported" % (n, m.group(1)), rep)
        b = body(r, base)
        b2 = numbers(b)
        e = same(b2, ref[base], 1e-6)
        ck.expect(e is None, "%s: result depends on the options: %s" % (n, e), rep)
        # the same seed: the same results, to the last digit
        if m:
            k = (base, m.group(1), disp)
            with ck.lock: first = ref.setdefault(k, b)
            ck.expect(first == b, "%s: two runs with seed %s differ" % (n, m.group(1)), rep)


for base, f in (("o", "s.yml"), ("q", "t.yml")):
    ref[base] = pool.run(FILES, args=("--seed", "12345", f), seed=False, post=lambda r: numbers(body(r, base)))
    ck.expect(len(ref[base]) == 4, "reference run of %s failed" % f)
seqs = [()] + [s for n in range(1, (4 if T else 3)) for s in itertools.product(ALPHABET, repeat=n)]
CORE = ["-h", "--version", "--print-defaults", "--print-template", "--verify", "-v", "--seed", "--nope", "s.yml", "7", ""] if not T else \
    ["-h", "--version", "--print-defaults", "--verify", "-v", "--seed", "--nope", "s.yml", "7"]
seqs += list(itertools.product(CORE, repeat=4 if T else 3))
# seeds
SEEDS = ["0", "1", "2", "42", "65536", "2147483647", "2147483648", "4294967295", "00012"]
for s in SEEDS:
    for v in ((), ("-v",), ("--verbose", "-v")):
        seqs += [("--seed", s) + v + ("s.yml",), v + ("--seed", s, "s.yml"), ("--seed", "3") + v + ("--seed", s, "t.yml"), ("--seed", s) + v + ("-",)] * 2
pool.map(case, seqs)


# different seeds are really used: the random basis does not influence what is computed, but the run without --seed draws one
def draw(_):
    return pool.run(FILES, args=("s.yml",), seed=False, post=lambda r: re.findall(r"random seed:\s+(\d+)", r.out))


ck.expect(len({tuple(x) for x in pool.map(draw, range(8))}) > 1, "eight runs without --seed all drew the same seed")
pool.close()
ck.sample(dict(kinds=kinds))
print(kinds)
ck.finish(exhaustive=True, sequences=len(seqs))
