import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from smodel import *

# every documented key, and every pair of keys, defined or not in each of the two user layers, in both
# orders, read from a file or from standard input; the effective settings are those of the merge model.
ck = Check("C14")
T = TIER == "thorough"
exe = build_program()
UD = ".home/.config/feellgood/default.yml"
BASE = {"outputs": {}}
seen = set()
NOEFFECT = {"recentering/enable", "time_integration/min(dt)"}   # in the runs of the last part


def case(c):
    l1, l2, how = c
    files, args, stdin, env = {}, ("--verify", "s.yml"), "/dev/null", {}
    t1 = yaml_dump(l1) if l1 else None
    t2 = yaml_dump(merge(l2, BASE) if how != "first" else merge(BASE, l2))
    if how == "stdin":
        files["in"] = t2; args = ("--verify", "-"); stdin = "in"
    else:
        files["s.yml"] = t2
    if t1:
        if how == "xdg":
            files["cfg/feellgood/default.yml"] = t1
            files[UD] = yaml_dump({"outputs": {"directory": "WRONG", "file_basename": "WRONG"}})
            env["XDG_CONFIG_HOME"] = "cfg"
        else:
            files[UD] = t1
    r = pool.run(files, args=args, stdin=stdin, env=env, seed=False, post=lambda r: (r.status, r.out, r.err, r.files()))
    return c, r, (t1, t2)


def check(c, r, t):
    l1, l2, how = c
    ck.count(states=1, transitions=2, traces=1)
    rep = lambda: dict(user_defaults=t[0], settings=t[1], how=how, status=r[0], stdout=r[1], stderr=r[2])
    tag = "[%s] default.yml %s, settings %s: " % (how, json.dumps(l1), json.dumps(l2))
    if not ck.expect(r[0] == "exit 0", tag + "--verify ends with %s: %s" % (r[0], r[2].strip()[:120]), rep):
        return
    seen.add(r[1])
    for x in diff(r[1], Model([l for l in (l1, merge(BASE, l2)) if l])):
        ck.violation(tag + x, rep())


def same(a, b):
    """the same status, files and lines; numbers up to rounding (sums are not always taken in the same order)"""
    if a[0] != b[0] or set(a[1]) != set(b[1]): return False
    for f in a[1]:
        x, y = a[1][f].split(), b[1][f].split()
        if len(x) != len(y): return False
        for u, v in zip(x, y):
            if u == v: continue
            try:
                if abs(float(u) - float(v)) > 1e-5 * max(abs(float(u)), abs(float(v))) + 1e-7 * (abs(float(u)) > 1e-12): return False
            except ValueError:
                return False
    return True


def conflicts(keys):
    return any(c <= set(keys) for c in CONFLICT)


cases = []
ks = list(KEYS)
for k in ks:                                             # one key, every value or nothing in each layer
    vs = KEYS[k]
    for i in [None] + list(range(len(vs))):
        for j in [None] + list(range(len(vs))):
            for how in ("file", "stdin", "xdg"):
                if how == "xdg" and i is None:
                    continue
                cases.append((at(k, vs[i]) if i is not None else {}, at(k, vs[j]) if j is not None else {}, how))
        cases.append((at(k, vs[i]) if i is not None else {}, at(k, None), "file")) if "regions/v2" not in k and "metadata" not in k else None
n1 = len(cases)
for a in range(len(ks)):                                 # two keys
    for b in range(a + 1, len(ks)):
        p, q = ks[a], ks[b]
        va, vb = KEYS[p], KEYS[q]
        cf = conflicts([p, q])
        # placement of each key: absent, layer 1, layer 2, both (v0 then v1)
        for x in range(4):
            for y in range(4):
                if not T and not (x and y):
                    continue
                l1, l2 = {}, {}
                if x & 1: l1 = merge(l1, at(p, va[0]))
                if x & 2: l2 = merge(l2, at(p, va[1]))
                if y & 1: l1 = merge(l1, at(q, vb[0]))
                if y & 2: l2 = merge(l2, at(q, vb[1]))
                if cf and (("jn" in p and x and y) or (x & 1 and y & 1) or (x & 2 and y & 2)):
                    continue
                cases.append((l1, l2, "file"))
                if x & 2 and y & 2 and (T or (a + b) % 2 == 0):   # other key order
                    cases.append((l1, merge(at(q, vb[1]), at(p, va[1])), "first"))
                if T and x & 2 and y & 2:
                    cases.append((l1, l2, "stdin"))
# all keys at once, in both layers, and all but one
full0 = [k for k in ks if not k.endswith(("/Js", "/V"))]
cases.append((merge(*[at(k, KEYS[k][0]) for k in full0]), merge(*[at(k, KEYS[k][1]) for k in full0]), "file"))
for d in full0:
    cases.append((merge(*[at(k, KEYS[k][0]) for k in full0]), merge(*[at(k, KEYS[k][1]) for k in full0 if k != d]), "file"))
    cases.append((merge(*[at(k, KEYS[k][0]) for k in full0 if k != d]), merge(*[at(k, KEYS[k][1]) for k in reversed(full0)]), "file"))
# many metadata entries: each one can be replaced, or kept
MD = {"k%02d" % i: "v%d" % i for i in range(24)}
for i in range(24):
    cases.append(({"outputs": {"metadata": MD}}, {"outputs": {"metadata": {"k%02d" % i: "other"}}}, "file"))
    cases.append(({"outputs": {"metadata": {"k%02d" % i: "other"}}}, {"outputs": {"metadata": MD}}, "file"))
# many regions likewise
RG = {"r%02d" % i: {"Ms": 1e5 + i, "K": 10. * i} for i in range(20)}
SR = {"s%02d" % i: {"Ks": 1e-4 * (i + 1)} for i in range(20)}
for i in range(20):
    cases.append(({"mesh": {"volume_regions": RG, "surface_regions": SR}}, {"mesh": {"volume_regions": {"r%02d" % i: {"K": -7.}}, "surface_regions": {"s%02d" % i: {"Ks": -7.}}}}, "file"))
    cases.append(({"mesh": {"volume_regions": {"r%02d" % i: {"Ae": 3e-12}}, "surface_regions": {"s%02d" % i: {"suppress_charges": True}}}}, {"mesh": {"volume_regions": RG, "surface_regions": SR}}, "file"))
with Pool(exe) as pool:
    for c, r, t in pool.imap(case, cases):
        check(c, r, t)
    # the effective settings are those of the run, not only of the dump
    m = single_tet(8.)
    run = {"mesh": {"filename": "m.msh", "volume_regions": {"vol": {}}}, "outputs": {"final_time": 2e-12, "evol_time_step": 1e-12, "mag_config_every": 1, "evol_columns": ["t", "<Mx>", "Hz", "E_aniso"]},
           "initial_magnetization": [1, 0, 0]}
    alt = {"Bext": ["0", "0", "0.5"], "initial_magnetization": [0, 1, 0], "outputs": {"final_time": 3e-12, "file_basename": "alt"},
           "mesh": {"volume_regions": {"vol": {"K": 1e5, "uk": [1, 1, 0]}}}, "recentering": {"threshold": .5}, "initial_time": 1e-12}

    def sim(l1, l2, stdin=False):
        f = {"m.msh": m.msh()}
        if l1: f[UD] = yaml_dump(l1)
        f["s.yml"] = yaml_dump(l2)
        return pool.run(f, args=("-",) if stdin else ("s.yml",), stdin="s.yml" if stdin else "/dev/null",
                        post=lambda r: (r.status, {x: "\n".join(l for l in r.read(x).splitlines() if not l.startswith("#") or l.startswith(("## time:", "## columns:")))
                                                   for x in r.files() if x.endswith((".evol", ".sol"))}))

    for parts in range(1 << len(alt)):
        sel = {k: alt[k] for i, k in enumerate(alt) if parts >> i & 1}
        one = sim(None, merge(run, sel))
        for what, got in (("the same keys in default.yml, overridden", sim(merge(run, {k: (v if k not in sel else {"Bext": [1, 1, 1], "initial_magnetization": "none.sol", "initial_time": 5e-12}.get(k, v)) for k, v in alt.items() if k in sel}), merge(run, sel))),
                          ("settings from standard input", sim(None, merge(run, sel), True)),
                          ("everything in default.yml", sim(merge(run, sel), {"recentering": {"enable": False}}))):
            ck.count(states=1, transitions=2, traces=2)
            ck.expect(same(got, one), "[run %s] %s: outputs differ (%s vs %s)" % (sorted(sel), what, got[0], one[0]), dict(settings=merge(run, sel), files=[sorted(got[1]), sorted(one[1])]))
    # the same for each key alone: every ordered pair of values (or nothing, or null) in the two layers gives the run of the later one
    m = grid(1, 1, 2, (5., 6., 4.), region=lambda i, j, k: "v1")
    m.tris = [("s1", l[0][1]) for k, l in sorted(m.outer_faces().items()) if len(l) == 1]
    sol = "## time: 4e-13\n" + "".join("%d\t0.6\t0\t0.8\t0\n" % i for i in range(len(m.nodes)))
    base = {"mesh": {"filename": "m.msh", "volume_regions": {"v1": {}}, "surface_regions": {"s1": {}}},
            "outputs": {"final_time": 2e-12, "evol_time_step": 1e-12, "mag_config_every": 1, "file_basename": "o", "evol_columns": ["t", "<Mx>", "<My>", "<Mz>", "Hz", "E_ex", "E_aniso", "E_zeeman", "E_tot"]},
            "initial_magnetization": [1, "0.1+x*1e8", .2], "Bext": [0, .3, 1], "demagnetizing_field_solver": {"nb_threads": 1}}
    F1, F2 = "function(x,y,z) { return [z*1e8, 1, x*1e8]; }", "function(x,y,z,r) { return r.includes('v1') ? [0, 1, 3] : [1, 0, 0]; }"
    RUNK = {"initial_magnetization": [[1, 0, .5], ["x*1e9+1", 2, "z*1e9"], F1, F2, "in.sol"],
            "Bext": [[0, 1, .5], ["t*1e12", 0, 1], "function(t) { return [0.5, cos(t*1e12), 0]; }", {"space": "function(x,y,z) { return [z*1e8, 0, 1]; }", "time": "function(t) { return t*1e12; }"}],
            "initial_time": [1e-12, 0., -5e-13], "outputs/final_time": [1e-12, 3e-12, 0.], "outputs/evol_time_step": [5e-13, 2e-12], "outputs/mag_config_every": [2, False, 1],
            "outputs/evol_columns": [["t"], ["E_tot", "dt", "v1:<Mx>"]], "outputs/file_basename": ["p", "q.r"], "outputs/directory": ["d", "."], "mesh/length_unit": [1e-9, 2e-9],
            "recentering/enable": [True, False], "finite_element_solver/tolerance": [1e-3, 1e-9], "time_integration/max(du)": [.01, .3], "time_integration/max(dt)": [1e-13, 7e-13], "time_integration/min(dt)": [1e-16, 5e-14]}
    for k, v in dict(Ae=[2e-11, 0.], Ms=[3e5, 1e6], Js=[1.5, .4], K=[3e5, -2e5], uk=[[1, 0, 0], [3, 0, 4]], K3=[1e5, -2e5], alpha_LLG=[.01, 1.]).items(): RUNK["mesh/volume_regions/v1/" + k] = v
    for k, v in dict(suppress_charges=[True, False], Ks=[1e-3, -2e-3], uk=[[0, 1, 0], [1, 2, 2]]).items(): RUNK["mesh/surface_regions/s1/" + k] = v
    base["mesh"]["volume_regions"]["v1"].update({"K": 1e5, "uk": [0, 1, 1]})
    base["mesh"]["surface_regions"]["s1"].update({"Ks": 5e-4, "uk": [1, 0, 1]})

    def drop(d, path):
        d = json.loads(json.dumps(d))
        q = d
        w = path.split("/")
        for x in w[:-1]: q = q.get(x, {})
        q.pop(w[-1], None)
        return d

    def sim2(l1, l2):
        f = {"m.msh": m.msh(), "in.sol": sol, "s.yml": yaml_dump(l2)}
        if l1: f[UD] = yaml_dump(l1)
        return pool.run(f, post=lambda r: (r.status, {x: "\n".join(l for l in r.read(x).splitlines() if not l.startswith("#") or l.startswith(("## time:", "## columns:")))
                                                     for x in r.files() if x.endswith((".evol", ".sol")) and x != "in.sol"}))

    ALONE = {}
    todo = []
    for k, vs in RUNK.items():
        b = drop(base, k)
        for j in range(len(vs)): todo.append((k, None, j))
        for i in range(len(vs)):
            todo += [(k, i, j) for j in range(len(vs)) if j != i] + [(k, i, None)]

    def layered(job):
        k, i, j = job
        b, vs = drop(base, k), RUNK[k]
        return job, sim2(at(k, vs[i]) if i is not None else None, merge(b, at(k, vs[j])) if j is not None else b)
    for (k, i, j), r in pool.imap(layered, todo):
        ck.count(states=1, transitions=2, traces=1)
        if i is None: ALONE[k, j] = r; continue
        w = ALONE[k, i if j is None else j]
        ck.expect(same(r, w), "[run] %s: %s in default.yml, %s in the settings: the run differs from that of the latter alone (%s vs %s)" % (k, json.dumps(RUNK[k][i]), "nothing" if j is None else json.dumps(RUNK[k][j]), r[0], w[0]), dict(key=k, first=RUNK[k][i], base=base))
    for k, vs in RUNK.items():   # and the key matters
        ck.expect(len({json.dumps(ALONE[k, j], sort_keys=True) for j in range(len(vs))}) == len(vs) or k in NOEFFECT, "[run] %s: two of the values %s give the same run" % (k, json.dumps(vs)), dict(key=k, base=base))
    ck.sample(dict(default_yml=cases[n1 + 5][0], settings=cases[n1 + 5][1]))
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(seen), bounds="%d keys; every value pair of each key in the two layers; every placement of every pair of keys (%d cases)" % (len(ks), len(cases)))
