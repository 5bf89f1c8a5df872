import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from smodel import *

# every documented key x an alphabet of wrong types and out-of-domain values, alone and next to every other valid key, in
# either user layer: --verify and the run both stop with an error and no output. Valid boundary values are accepted.
ck = Check("C16")
T = TIER == "thorough"
exe = build_program()
UD = ".home/.config/feellgood/default.yml"
SEQ, MAP = [1, 2], {"a": 1}
BADNUM = ["abc", "1.5x", "1 2", "", "1,5", "true", "--1", SEQ, MAP, []]
BADINT = ["abc", "1.5", "1e2", "", SEQ, MAP, "3x"]
BADBOOL = ["maybe", "1", "0", "", SEQ, MAP, "tru"]
BADVEC = [5, "abc", [1, 2], [1, 2, 3, 4], [1, 2, "a"], [], {"x": 1, "y": 0, "z": 0}, [[1, 0, 0], 0, 0]]
bad = []


def add(k, *vs):
    for v in vs:
        bad.append((k, at(k, v)))


for k, v in KEYS.items():
    t = v[0]
    if k.startswith("outputs/metadata") or k.endswith(("/v2", "/s2")):
        continue
    if isinstance(t, bool):
        add(k, *BADBOOL)
    elif isinstance(t, float):
        add(k, *[Raw('"%s"' % x) if isinstance(x, str) and x == "" else (Raw(x) if isinstance(x, str) else x) for x in BADNUM])
    elif isinstance(t, int):
        add(k, *[Raw(x) if isinstance(x, str) and x else x for x in BADINT])
    elif isinstance(t, list) and len(t) == 3 and not isinstance(t[0], str):
        add(k, *BADVEC)
        if not k.endswith("/s"):
            add(k, [0, 0, 0], [0., -0., 0.], [Raw(".nan"), 0, 0], [1e-200, 0, 0])
add("outputs/directory", SEQ, MAP); add("outputs/file_basename", SEQ, MAP); add("mesh/filename", SEQ, MAP)
add("outputs/evol_columns", "t", MAP, [], [["t"]], ["t", MAP], 3)
add("outputs/mag_config_every", Raw("true"), "often", SEQ)
add("outputs/metadata", "x", SEQ, {"a": SEQ}, {"a": MAP})
add("mesh/volume_regions", "v1", SEQ, 3); add("mesh/surface_regions", "s1", SEQ, 3)
add("mesh/volume_regions/v1", "x", SEQ, 3); add("mesh/surface_regions/s1", "x", SEQ, 3)
add("mesh/length_unit", 0, 0., -1e-9, -1, Raw(".nan")); add("outputs/evol_time_step", 0, 0., -1e-12, Raw(".nan"))
add("time_integration/min(dt)", 0, -1e-16, Raw(".nan")); add("time_integration/max(dt)", 0, -1e-12, Raw(".nan"))
add("recentering/direction", "W", "XY", "x", "", SEQ, MAP, 1, "-X")
add("initial_magnetization", [1, 0], [], [1, 0, 0, 0], {"x": 1}, "function(x,y,z) { return [1, 0 ; }", ["1", "0", "(("])
add("Bext", [1, 0], [], [1, 0, 0, 0], {"x": 1}, 5, "abc", "function(t) { return [1, 0 ; }", {"space": "function(x,y,z) { return [1,0,0]; }"},
    {"time": "function(t) { return 1; }"}, {"space": SEQ, "time": SEQ}, {"space": "function(x,y,z) { return [1,0,0]; }", "time": MAP},
    {"space": "function(x,y,z) { return [1,0,0] ", "time": "function(t) { return 1; }"}, ["0", "0", ")"], {})
for s in ("outputs", "mesh", "recentering", "spin_accumulation", "demagnetizing_field_solver", "finite_element_solver", "time_integration"):
    add(s, 5, "text", SEQ)
for a in (0, 1e5, -1., 1. / (4e-7 * math.pi)):
    for b in (0., 1., -2):
        bad.append(("mesh/volume_regions/v1/Ms", at("mesh/volume_regions/v1", {"Ms": a, "Js": b})))
        bad.append(("mesh/volume_regions/v1/Ms", at("mesh/volume_regions/v1", {"Js": b, "Ae": 1e-11, "Ms": a})))
for a in (0., 1., -1e-3):
    for b in (0., 1e9, -1):
        bad.append(("mesh/surface_regions/s1/V", at("mesh/surface_regions/s1", {"V": a, "jn": b})))
        bad.append(("mesh/surface_regions/s1/V", at("mesh/surface_regions/s1", {"jn": b, "uP": [1, 0, 0], "V": a})))
DOCS = ["a: [", "a: {b", "\tx: 1", "a: b: c", "a: \"x", "a: 'x", "- a\n- b\n", "just text", "5", "outputs:\n  directory: x\n bad: 1\n", "a: *nope", "outputs: {directory: x", "mesh:\n\tfilename: x", "{", "]"]
OKAY = [("outputs/mag_config_every", 0), ("outputs/mag_config_every", Raw("false")), ("outputs/final_time", 0), ("outputs/final_time", 0.), ("mesh/length_unit", 1e-30), ("mesh/length_unit", 3),
        ("time_integration/min(dt)", 1e-300), ("time_integration/max(dt)", 1), ("outputs/evol_time_step", 1), ("mesh/volume_regions/v1/Ms", 0), ("mesh/volume_regions/v1/Ms", -1),
        ("mesh/volume_regions/v1/uk", [0, 0, 1e-3]), ("mesh/volume_regions/v1/uk", [1e9, 0, 0]), ("mesh/surface_regions/s1/s", [0, 0, 0]), ("mesh/surface_regions/s1/jn", 0), ("mesh/surface_regions/s1/V", 0),
        ("mesh/surface_regions/s1", None), ("mesh/volume_regions/v1", None), ("outputs", None), ("mesh", None), ("recentering", None), ("outputs/metadata", None), ("initial_time", 0), ("initial_time", None),
        ("Bext", None), ("initial_magnetization", None), ("outputs/evol_columns", None)]
OKAY += [("recentering/direction", d) for d in "XYZ"] + [("spin_accumulation/enable", Raw(b)) for b in ("true", "false", "yes", "no", "on", "off", "True", "FALSE")]
OKAY += [("mesh/volume_regions/v1/K", Raw(x)) for x in ("1", "1.", ".5", "1e5", "1E5", "+1", "-1", "1e+5")] + [("finite_element_solver/max(iter)", Raw(x)) for x in ("1", "700")]
m = single_tet(8., "v1")
RUN = {"mesh": {"filename": "m.msh", "volume_regions": {"v1": {}}}, "outputs": {"final_time": 1e-13, "evol_time_step": 1e-13, "evol_columns": ["t"], "directory": "out"}}
seen = set()


def go(c):
    what, text, how, verify = c
    f = {"m.msh": m.msh(), "in.sol": "x"}
    if how == "user":
        f[UD] = text
        f["s.yml"] = yaml_dump(RUN)
    elif how == "layers":
        f[UD], f["s.yml"] = text
    else:
        f["s.yml"] = text
    r = pool.run(f, args=(("--verify",) if verify else ()) + (("-",) if how == "stdin" else ("s.yml",)), stdin="s.yml" if how == "stdin" else "/dev/null", seed=False,
                 post=lambda r: (r.status, r.err, r.out[-400:], [x for x in r.files() if x not in ("m.msh", "in.sol", "s.yml", "WRONG")], os.path.isdir(r.path("out"))))
    return c, r


def check(c, r, good=False):
    what, text, how, verify = c
    ck.count(states=1, transitions=1, traces=1)
    tag = "[%s, %s] %s: " % ("--verify" if verify else "run", how, what)
    rep = lambda: dict(settings=text, how=how, status=r[0], stderr=r[1], stdout=r[2], files=r[3])
    seen.add((r[0], r[1]))
    if good:
        ck.expect(r[0] == "exit 0", tag + "valid setting refused: %s %s" % (r[0], r[1].strip()[:120]), rep)
        return
    ck.expect(r[0] != "exit 0" and r[0] not in ("signal 11", "signal 7", "signal 8", "timeout"), tag + "accepted or crashed (%s)" % r[0], rep)
    ck.expect(r[1].strip() != "", tag + "no message on stderr", rep)
    ck.expect(not r[3] and not r[4], tag + "wrote %s" % r[3], rep)


def under(base, d):
    """d overrides base (values replaced, not merged, at the path of d)"""
    o = dict(base)
    for k, v in d.items():
        o[k] = under(o[k], v) if isinstance(v, dict) and isinstance(o.get(k), dict) and v else v
    return o


cases = []
for k, d in bad:
    w = "%s in %s" % (k, yflow(d)[:160])
    t = yaml_dump(under(RUN, d))
    for verify in (True, False):
        for how in ("file", "user", "stdin"):
            cases.append((w, t if how != "user" else yaml_dump(d), how, verify))
# values that conflict across the two layers
for r1, r2 in (("s1", "s1"),):
    for x, y in (({"jn": 1e11}, {"V": .5}), ({"V": .5}, {"jn": 1e11}), ({"jn": 0.}, {"V": 0.}), ({"V": 0., "Ks": 1e-3}, {"jn": -1e10, "uP": [0, 0, 1]}), ({"jn": 1e11}, {"jn": 2e11, "V": 0.}), ({"V": 1.}, {"V": 2., "jn": 0.})):
        for verify in (True, False):
            cases.append(("surface %s in default.yml then %s in the settings" % (x, y), (yaml_dump({"mesh": {"surface_regions": {r1: x}}}), yaml_dump(under(RUN, {"mesh": {"surface_regions": {r2: y}}}))), "layers", verify))
for t in DOCS:
    for verify in (True, False):
        for how in ("file", "user", "stdin"):
            cases.append(("malformed document %r" % t, t, how, verify))
for t in ("", "# only a comment\n", "---\n", "~\n"):
    for how in ("file", "stdin"):
        for verify in (True, False):
            cases.append(("empty document %r" % t, t, how, verify))
    for verify in (True, False):
        cases.append(("empty document %r, settings in default.yml" % t, (yaml_dump(RUN), t), "layers", verify))
# next to every other key, before and after
step = 1 if T else 5
n = 0
for k, d in bad:
    for k2, v2 in KEYS.items():
        if k2.split("/")[0] == k.split("/")[0] and (len(k.split("/")) < 3 or k2.startswith(k)) or k == k2 or "/v2" in k2 or "/s2" in k2 or "__default__" in k2:
            continue
        n += 1
        if n % step:
            continue
        o = at(k2, v2[0])
        cases.append(("%s in %s, with %s" % (k, yflow(d)[:160], k2), yaml_dump(merge(o, d) if n % 2 else merge(d, o)), "file", True))
okc = []
for k, v in OKAY:
    okc.append(("%s: %s" % (k, yflow(v)), yaml_dump(merge({"recentering": {"enable": False}} if k != "recentering" else {"outputs": {}}, at(k, v))), "file", True))
with Pool(exe) as pool:
    for c, r in pool.imap(go, cases):
        check(c, r)
    for c, r in pool.imap(go, okc):
        check(c, r, True)
    # the run uses the same reader: the base settings are accepted
    c, r = go(("base", yaml_dump(RUN), "file", False))
    check(c, r, True)
    ck.sample(cases[7]); ck.sample(cases[-1])
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(seen), bounds="%d invalid (key, value) settings x {verify, run} x {file, user defaults, stdin}; %s valid companions" % (len(bad), "every" if T else "every 5th pair of"))
