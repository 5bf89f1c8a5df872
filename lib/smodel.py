"""Reference model of the layered settings: documented defaults, merge rule, and reading of --verify output."""
from vlib import *
import yaml

MU0 = 1.25663706127e-6
CPU = os.cpu_count()
VOL = dict(Ae=1e-11, Ms=795774.7, K=0., uk=[0, 0, 1], K3=0., ex=[1, 0, 0], ey=[0, 1, 0], ez=[0, 0, 1], alpha_LLG=.5,
           sigma=0., dens_state=0., P=0., l_sd=0., l_sf=0.)
SURF = dict(suppress_charges=False, Ks=0., uk=[0, 0, 1], jn=None, V=None, uP=None, s=None)
DEF = {"outputs.directory": ".", "outputs.file_basename": "", "outputs.evol_time_step": 5e-13, "outputs.final_time": 1e-10,
       "outputs.evol_columns": ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_demag", "E_zeeman", "E_tot"],
       "outputs.mag_config_every": 100, "mesh.filename": "", "mesh.length_unit": 1e-9,
       "initial_magnetization": ["0", "0", "1"], "initial_time": None,
       "recentering.enable": False, "recentering.direction": "Z", "recentering.threshold": .1, "Bext": ["0", "0", "0"],
       "spin_accumulation.enable": False, "spin_accumulation.V_file": False,
       "demagnetizing_field_solver.nb_threads": CPU, "finite_element_solver.max(iter)": 700, "finite_element_solver.tolerance": 1e-6,
       "time_integration.max(du)": .02, "time_integration.min(dt)": 1e-16, "time_integration.max(dt)": 5e-13}


def norm(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


class Model:
    """effective settings after reading the given layers in order; layers are dicts of plain YAML values"""

    def __init__(self, layers):
        e = dict(DEF)
        meta, vols, surfs = {}, {"__default__": dict(VOL)}, {"__default__": dict(SURF)}
        for L in layers:
            for sec, val in L.items():
                if val is None:
                    continue
                if sec in ("initial_magnetization", "Bext", "initial_time"):
                    e[sec] = [str(x) for x in val] if isinstance(val, list) else val
                    continue
                for k, v in val.items():
                    if v is None:
                        continue
                    if (sec, k) == ("outputs", "metadata"):
                        for a, b in v.items():
                            meta[a] = b
                    elif (sec, k) == ("mesh", "volume_regions"):
                        for r, q in v.items():
                            p = vols.setdefault(r, dict(vols["__default__"]))
                            for a, b in (q or {}).items():
                                if b is None:
                                    continue
                                if a == "Js":
                                    p["Ms"] = b / MU0
                                else:
                                    p[a] = norm(b) if a in ("uk", "ex", "ey", "ez") else b
                    elif (sec, k) == ("mesh", "surface_regions"):
                        for r, q in v.items():
                            if r not in surfs:
                                surfs[r] = dict(surfs["__default__"])
                                for a in ("jn", "V", "uP", "s"):
                                    surfs[r][a] = None
                            p = surfs[r]
                            for a, b in (q or {}).items():
                                if b is None:
                                    if a in ("jn", "V", "uP", "s"):
                                        p[a] = None
                                    continue
                                p[a] = norm(b) if a in ("uk", "uP") else b
                    else:
                        e[sec + "." + k] = v
        d = e["outputs.directory"]
        e["outputs.directory"] = "." if d == "" else (d[:-1] if len(d) > 1 and d.endswith("/") else d)
        c = e["outputs.mag_config_every"]
        e["outputs.mag_config_every"] = 0 if c is False else max(0, c)
        n = e["demagnetizing_field_solver.nb_threads"]
        e["demagnetizing_field_solver.nb_threads"] = CPU if n <= 0 else n
        if e["outputs.file_basename"] == "" and e["mesh.filename"]:
            b = e["mesh.filename"].split("/")[-1]
            e["outputs.file_basename"] = b.rsplit(".", 1)[0] if "." in b else b
        for x in (vols, surfs):
            del x["__default__"]
        self.e, self.meta, self.vols, self.surfs = e, meta, vols, surfs


def num(a, b, tol=0.):
    try:
        a = float(a)
    except (TypeError, ValueError):
        return False
    return a == b or abs(a - b) <= tol * abs(b)


def vec(a, b, tol=1e-12):
    return isinstance(a, list) and len(a) == 3 and all(abs(float(x) - y) <= tol for x, y in zip(a, b))


class Once(getattr(yaml, "CBaseLoader", yaml.BaseLoader)):
    """YAML requires unique keys"""
    def construct_mapping(self, node, deep=False):
        ks = [k.value for k, _ in node.value if isinstance(k, yaml.ScalarNode) and k.value != "Warning"]     # (messages printed before the settings)
        if len(set(ks)) != len(ks):
            raise yaml.YAMLError("duplicate key in a mapping: %s" % ks)
        return super().construct_mapping(node, deep)


def diff(text, m, tol=1e-14):
    """differences between the --verify output and the model, as a list of strings"""
    try:
        y = yaml.load(text, Loader=Once)     # every scalar stays a string
    except yaml.YAMLError as ex:
        return ["--verify output is not YAML: %s" % str(ex)[:200]]
    if not isinstance(y, dict):
        return ["--verify output is not a map"]
    out = []

    def bad(k, got, want):
        out.append("%s: effective value %r, expected %r" % (k, got, want))

    def sec(s):
        v = y.get(s)
        return v if isinstance(v, dict) else {}

    for k, want in m.e.items():
        if "." in k and k not in ("initial_magnetization",):
            s, key = k.split(".", 1)
            if s == "recentering" and key != "enable" and not m.e["recentering.enable"] and key not in sec(s):
                continue
            if s == "spin_accumulation" and key != "enable" and not m.e["spin_accumulation.enable"] and key not in sec(s):
                continue
            got = sec(s).get(key)
        else:
            got = y.get(k)
        if isinstance(want, bool):
            if got not in (("true", "True") if want else ("false", "False")):
                bad(k, got, want)
        elif want is None:
            if got not in (None, "", "~", "null"):
                bad(k, got, want)
        elif isinstance(want, (int, float)):
            if not num(got, want, tol):
                bad(k, got, want)
        elif k == "Bext" and isinstance(want, dict):
            if got != want:
                bad(k, got, want)
        elif got != want and not (want == "" and got is None):
            bad(k, got, want)
    got = sec("outputs").get("metadata") or {}
    if not isinstance(got, dict) or got != m.meta:
        bad("outputs.metadata", got, m.meta)
    for name, want, spin in (("volume_regions", m.vols, True), ("surface_regions", m.surfs, m.e["spin_accumulation.enable"])):
        got = sec("mesh").get(name) or {}
        if not isinstance(got, dict) or set(got) != set(want):
            bad("mesh." + name, sorted(got), sorted(want))
            continue
        for r, p in want.items():
            g = got[r] if isinstance(got[r], dict) else {}
            for a, w in p.items():
                v = g.get(a)
                if a == "uk" and not p.get("K", p.get("Ks")) and v is None:
                    continue
                if a in ("ex", "ey", "ez") and not p["K3"] and v is None:
                    continue
                if a in ("uP", "s") and not spin and v is None:
                    continue
                ok = (v in (None, "", "~", "null")) if w is None else (
                    v in (("true", "True") if w else ("false", "False"))) if isinstance(w, bool) else \
                    vec(v, w) if isinstance(w, list) else num(v, w, 1e-12 if a == "Ms" else tol)
                if not ok:
                    bad("%s.%s.%s" % (name, r, a), v, w)
    return out


def merge(*ds):
    """deep merge of nested dicts (one layer), later ones appended after earlier ones"""
    o = {}
    for d in ds:
        for k, v in d.items():
            if isinstance(v, dict) and isinstance(o.get(k), dict):
                o[k] = merge(o[k], v)
            else:
                o[k] = v
    return o


def at(path, v):
    """nested dict holding v at the dotted path (region names may not contain dots)"""
    for k in reversed(path.split("/")):
        v = {k: v}
    return v


FN = "function(x,y,z) { return [x, 1e-9, z]; }"
FNL = "function(x,y,z) {\n  return [1,\n    2, 3];\n}\n"
FB = "function(t) { return [0, t*1e9, 0.1]; }"
# every documented key with values (v0, v1[, more])
KEYS = {
    "outputs/directory": ["out", "x/y/", "", "."],
    "outputs/file_basename": ["foo", "b-2.3", ""],
    "outputs/evol_time_step": [1e-12, 1.2345678901234567e-13],
    "outputs/final_time": [3e-12, 0., -1e-12],
    "outputs/evol_columns": [["t"], ["<Mx>", "dt", "t"]],
    "outputs/mag_config_every": [7, False, 0, -3, -1],
    "outputs/metadata/Author": ["me", "someone: else"],
    "outputs/metadata/Note": ["a\nb\n", "", "# x"],
    "mesh/filename": ["m.msh", "d.e/n.mesh.msh", "noext"],
    "mesh/length_unit": [1., 1e-6],
    "initial_magnetization": [["1", "x*1e9", "0"], "in.sol", FN, FNL, [1, 0.5, -2]],
    "initial_time": [1e-12, 0., -2.5e-13],
    "recentering/enable": [True, False],
    "recentering/direction": ["X", "Y", "Z"],
    "recentering/threshold": [.25, 0.],
    "Bext": [["0", "t", "1"], FB, {"space": FN, "time": "function(t) { return t; }"}, [0, 0.125, 1]],
    "spin_accumulation/enable": [True, False],
    "spin_accumulation/V_file": [True, False],
    "demagnetizing_field_solver/nb_threads": [3, 0],
    "finite_element_solver/max(iter)": [10, 500],
    "finite_element_solver/tolerance": [1e-9, 3.3e-5],
    "time_integration/max(du)": [.1, .333333333333333],
    "time_integration/min(dt)": [1e-15, 2e-16],
    "time_integration/max(dt)": [1e-12, 2e-13],
}
for _k, _v in dict(Ae=[2e-11, 0.], Ms=[8e5, 0.], Js=[1.5, 0.], K=[1e5, -2e4], uk=[[1, 0, 0], [3, 0, 4]], K3=[1e4, 0.], ex=[[0, 1, 0], [1, 1, 0]],
                   ey=[[1, 0, 0], [1, -1, 0]], ez=[[0, 0, -1], [0, 0, 2]], alpha_LLG=[.01, 1.], sigma=[1e6, 0.], dens_state=[1e47, 0.],
                   P=[.3, .7], l_sd=[1e-9, 2e-9], l_sf=[5e-9, 6e-9]).items():
    KEYS["mesh/volume_regions/v1/" + _k] = _v
for _k, _v in dict(suppress_charges=[True, False], Ks=[1e-3, -1e-4], uk=[[0, 1, 0], [1, 2, 2]], jn=[1e11, 0.], V=[.5, 0.],
                   uP=[[0, 3, 4], [1, 0, 0]], s=[[1, 2, 3], [0, 0, 0]]).items():
    KEYS["mesh/surface_regions/s1/" + _k] = _v
KEYS["mesh/volume_regions/v2"] = [{"Ms": 0}, None, {"Ae": 1e-12, "K": 5.}]
KEYS["mesh/surface_regions/s2"] = [None, {"Ks": 2.}]
KEYS["mesh/volume_regions/__default__/Ms"] = [5e5, 0.]
KEYS["mesh/surface_regions/__default__/suppress_charges"] = [True, False]
CONFLICT = [{"mesh/volume_regions/v1/Ms", "mesh/volume_regions/v1/Js"}, {"mesh/surface_regions/s1/jn", "mesh/surface_regions/s1/V"}]
