import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from smodel import *

# verify(x) describes x (merge model), verify(verify(x)) describes x too, and running verify(x) gives the outputs of
# running x; over every key x an alphabet of unusual numbers and strings, and combinations of keys.
ck = Check("C15")
T = TIER == "thorough"
exe = build_program()
NUMS = [0.1 + 0.2, 1 / 3, 1e-300, 123456789.123456789, 1e22, 9007199254740993., 7.2911e-17, 1.7976931348623157e308, 4.9e-12]
INTS = [1, 2147483647, 12345]
STR = ["plain", "with space", " lead", "trail ", "a\"b", "a'b", "\"q\"", "back\\slash", "tail\\", "\\n", "a\\\"b", "#c", "a #c", "a: b", "a:", ": a", "tab\tx",
       "two\nlines", "two\nlines\n", "\nlead", "end\n", "\n", "x\n\n", "x\n\n\ny", "  ind\nx", "x\n  ind\n", "x \ny", "true", "null", "~", "1e5", "0x10", "- a", "{a}", "[a", "]", "%a", "@a",
       "!x", "&a", "*a", "|", ">", "`", ",", "?", "é-ü-漢", "a" * 300, "-", "--- x", "...", "a\rb", "\x01", "\x7f", "$HOME", "NaN", ".inf", "a\\\nb\\", "\"", "\\"]
JS = ["function(x, y, z) { return [1, 0, 0]; }", "function(x,y,z) {\n    var a = \"s\\\"\";\n    return [0, 1, a == 'q' ? 1 : 0];\n}",
      "function(x,y,z) {\n  // comment: # {}\n\n  return [0, x, 1];\n}\n", "function(x,y,z) { return [ /[\\d]/.test('1') ? 1 : 2, 0, 0]; }", " function(x,y,z) {\n return [1,1,0]; }",
      "function(x,y,z) {\n\treturn [1,\t1,0]; }\n", "function(x,y,z)\n{ return [3,1,0]; }\n\n", "function(x,y,z) { return [0,\"ab\\\\\".length,1]; }"]
JST = [s.replace("(x, y, z)", "(t)").replace("(x,y,z)", "(t)").replace("[0, x, 1]", "[0, t, 1]") for s in JS]
JS1 = ["function(t) { return t*1e9; }", "function(t) {\n  return \"a\\\\\".length * t;\n}\n", "function(t) {\n  return 1 }"]
EX = ["1", "x*1e9", "Math.cos(x)", "\"a\".length", "'\\\\'.length", "1 // c\n+ 2", "[1][0]", "{a:1}.a", "x > 0 ? 1 : -1", "1 /* # */", "\t1", "0.1 "]
cases = []
numk = [k for k in KEYS if isinstance(KEYS[k][0], float) and "__default__" not in k]
for k in numk:
    for v in NUMS + [-x for x in NUMS]:
        if v < 0 and k.endswith(("time_step", "length_unit", "min(dt)", "max(dt)")):
            continue
        if k.endswith("/Js") and abs(v) > 1e300:
            continue
        cases.append(at(k, v))
for k in ("outputs/mag_config_every", "demagnetizing_field_solver/nb_threads", "finite_element_solver/max(iter)"):
    cases += [at(k, v) for v in INTS]
for v in ([1e-3, 0, 1], [1, 1, 1], [-1, 2e-7, 3], [0, 0, -5]):
    for k in ("mesh/volume_regions/v1/uk", "mesh/volume_regions/v1/ex", "mesh/volume_regions/v1/ey", "mesh/volume_regions/v1/ez", "mesh/surface_regions/s1/uk", "mesh/surface_regions/s1/uP", "mesh/surface_regions/s1/s"):
        cases.append(merge(at(k, v), at("mesh/volume_regions/v1/K", 2.), at("mesh/volume_regions/v1/K3", 3.), at("mesh/surface_regions/s1/Ks", 3.), at("spin_accumulation/enable", True)))
for s in STR:
    for k in ("outputs/directory", "outputs/file_basename", "mesh/filename", "outputs/metadata/Author"):
        cases.append(at(k, s))
    cases += [{"outputs": {"evol_columns": ["t", s, "<Mx>"]}}, {"outputs": {"metadata": {s: "v", "w": s}}},
              {"mesh": {"volume_regions": {s: {"Ms": 3.}}}}, {"mesh": {"surface_regions": {s: {"Ks": 3.}, "z": {}}}}]
    if "function" not in s:
        cases.append({"initial_magnetization": s + ".sol" if s[-1:] not in ("\n",) else s})
for a in JS:
    cases.append({"initial_magnetization": a})
for a in JST:
    cases.append({"Bext": a})
for a in JS:
    for b in JS1:
        cases.append({"Bext": {"space": a, "time": b}})
for a in EX:
    for b in EX:
        cases.append({"initial_magnetization": [a, b, "1"]})
        cases.append({"Bext": ["2", a.replace("x", "t").replace("Mat.", "Math."), b.replace("x", "t")]})
ks = [k for k in KEYS if "__default__" not in k]
for i, p in enumerate(ks):
    for q in ks[i + 1:]:
        if any(c <= {p, q} for c in CONFLICT):
            continue
        for x in ((0, 0), (1, 1)) if not T else ((0, 0), (0, 1), (1, 0), (1, 1)):
            cases.append(merge(at(p, KEYS[p][x[0]]), at(q, KEYS[q][x[1]])))
for e in (False, True):     # subsets of surface boundary conditions, spin accumulation on/off
    for jn in (None, 1e11, 0.):
        for V in (None, .25):
            for uP in (None, [0, 3, 4]):
                for s in (None, [0, 0, 0], [1, 2, 3]):
                    if jn is not None and V is not None: continue
                    b = {k: v for k, v in dict(jn=jn, V=V, uP=uP, s=s).items() if v is not None}
                    cases.append({"spin_accumulation": {"enable": e, "V_file": True}, "mesh": {"surface_regions": {"s1": b, "s2": {"V": 0.}}}})
for e in (False, True):
    for d in "XYZ":
        cases.append({"recentering": {"enable": e, "direction": d, "threshold": 1 / 7}})
seen = set()


def case(s):
    t = yaml_dump(merge({"outputs": {}}, s))
    r1 = pool.run({"s.yml": t}, args=("--verify", "s.yml"), seed=False, post=lambda r: (r.status, r.out, r.err, r.files()))
    r2 = pool.run({"s.yml": r1[1]}, args=("--verify", "s.yml"), seed=False, post=lambda r: (r.status, r.out, r.err, r.files())) if r1[0] == "exit 0" else None
    return s, t, r1, r2


with Pool(exe) as pool:
    for s, t, r1, r2 in pool.imap(case, cases):
        ck.count(states=2, transitions=2, traces=1)
        rep = lambda: dict(settings=t, verify=r1, verify_again=r2)
        tag = "%s: " % json.dumps(s)[:300]
        if not ck.expect(r1[0] == "exit 0", tag + "--verify ends with %s: %s" % (r1[0], r1[2].strip()[:100]), rep): continue
        if not ck.expect(r2[0] == "exit 0", tag + "the output of --verify is refused: %s: %s" % (r2[0], r2[2].strip()[:100]), rep): continue
        seen.add(r1[1])
        m = Model([s])
        for x in diff(r1[1], m, 0.):
            ck.violation(tag + x, rep())
        for x in diff(r2[1], m, 0.):
            ck.violation(tag + "after reading the output of --verify: " + x, rep())
    # what --print-defaults and --print-template print is accepted and equals the built-in defaults
    for o in ("--print-defaults", "--print-template"):
        r = pool.run({}, args=(o,), seed=False, post=lambda r: (r.status, r.out))
        v = pool.run({"s.yml": r[1]}, args=("--verify", "s.yml"), seed=False, post=lambda r: (r.status, r.out, r.err))
        ck.count(states=1, transitions=2, traces=1)
        ck.expect(r[0] == "exit 0" and v[0] == "exit 0" and not diff(v[1], Model([{}]), 0.), "%s: not the built-in defaults: %s" % (o, diff(v[1], Model([{}]), 0.)[:3]), dict(printed=r[1], verify=v))
    # running the dump is running the settings
    m = grid(1, 1, 1, (5., 6., 7.), region=lambda i, j, k: "v1", surface=lambda p, r: "s1" if all(q[2] == 0 for q in p) else None)
    B0 = {"mesh": {"filename": "m.msh", "volume_regions": {"v1": {}}, "surface_regions": {"s1": {}}}, "initial_magnetization": ["1", "0.3", "x*1e8"], "Bext": ["0.1", "t*1e11", "0"],
          "outputs": {"final_time": 2e-13, "evol_time_step": 1e-13, "mag_config_every": 1, "evol_columns": ["t", "<Mx>", "<My>", "E_tot", "E_aniso", "E_demag", "Hy"]}}
    var = [{}, {"mesh": {"length_unit": 0.123456789e-8}}, {"Bext": JST[2]}, {"Bext": {"space": JS[2], "time": JS1[1]}}, {"initial_magnetization": JS[1]}, {"initial_magnetization": JS[7]},
           {"initial_magnetization": ["1", "1/3", "\"a\\\\\".length"]}, {"mesh": {"volume_regions": {"v1": {"Ms": 812345.6789, "Ae": 1.23456789e-11, "alpha_LLG": 1 / 7}}}},
           {"mesh": {"volume_regions": {"v1": {"K": 123456.789, "uk": [1, 2, 3]}}}}, {"mesh": {"volume_regions": {"v1": {"K3": 45678.9123, "ex": [1, 1, 0], "ey": [1, -1, 0]}}}},
           {"mesh": {"surface_regions": {"s1": {"Ks": 1.23456789e-4, "uk": [1, 1, 1]}}}}, {"mesh": {"surface_regions": {"s1": {"suppress_charges": True}}}},
           {"outputs": {"evol_time_step": 1.0000000001e-13, "final_time": 3.0000000003e-13}}, {"initial_time": 1.23456789e-14}, {"outputs": {"file_basename": "a \"b\" \\c", "directory": "d: e"}},
           {"time_integration": {"max(du)": .0123456789, "min(dt)": 1.23456789e-17, "max(dt)": 3.456789123e-14}}, {"finite_element_solver": {"tolerance": 1.23456789e-9, "max(iter)": 97}}, {"outputs": {"mag_config_every": 2}},
           {"outputs": {"metadata": {"A": "x\ny\\\"", "B b": "# z"}}}]

    def sim(text):
        return pool.run({"m.msh": m.msh(), "s.yml": text}, post=lambda r: (r.status, r.err[-300:], {
            x: "\n".join(l for l in r.read(x).splitlines() if not l.startswith(("## settings", "## real", "## host", "## feellgood", "## process"))) for x in r.files() if x.endswith((".evol", ".sol"))}))

    pairs = [(a, b) for i, a in enumerate(var) for b in var[i + 1 if i else 0:]] if T else [({}, a) for a in var] + [(var[i], var[i + 1]) for i in range(len(var) - 1)]

    def both(p):
        t = yaml_dump(merge(B0, *p))
        d = pool.run({"s.yml": t}, args=("--verify", "s.yml"), seed=False, post=lambda r: (r.status, r.out))
        return p, t, sim(t), d, sim(d[1])
    def same(x, y):
        """equal files up to the rounding of re-normalized unit vectors"""
        if sorted(x) != sorted(y): return False
        for f in x:
            if [l for l in x[f] if l.startswith("#")] != [l for l in y[f] if l.startswith("#")]: return False
            A, B = ([[float(w) for w in l.split()] for l in z[f] if not l.startswith("#")] for z in (x, y))
            if [len(r) for r in A] != [len(r) for r in B]: return False
            for j in range(len(A[0]) if A else 0):
                sc = max([abs(r[j]) for r in A if not math.isnan(r[j])] + [1e-300])
                if any(not (math.isnan(a[j]) and math.isnan(b[j])) and not abs(a[j] - b[j]) <= 1e-7 * sc for a, b in zip(A, B)): return False
        return True

    strip = lambda f: {x: [l for l in c.splitlines() if "time:" not in l or l.startswith("## time:")] for x, c in f.items()}
    for p, t, a, d, b in pool.imap(both, pairs):
        ck.count(states=2, transitions=3, traces=2)
        ck.expect(a[0] == b[0] and same(strip(a[2]), strip(b[2])) and (a[0] == "exit 0"), "running the output of --verify differs from running the settings, %s: %s / %s" % (json.dumps(p)[:200], a[:2], b[:2]),
                  lambda: dict(settings=t, verify=d[1], files=[sorted(a[2]), sorted(b[2])]))
    ck.sample(cases[3]); ck.sample(cases[-1])
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(seen), bounds="%d settings documents, %d run pairs" % (len(cases), len(pairs)))
