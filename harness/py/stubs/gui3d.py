"""Exhaustive exploration of the sequences of user actions on the viewer (fg-3D): one forked process per action, so that every
sequence up to the depth is executed on the real program; after every action, what the 3D window shows is compared to a model."""
import os, sys, json, signal, traceback
import numpy as np
import pyvistaqt
from PyQt5 import QtWidgets as W


def find(l, *words):
    r = [x for x in l if all(w in x.text().lower().replace("&", "") for w in words)]
    return r[0] if r else None


def key(tri): return tuple(sorted(tuple(round(float(x), 9) for x in v) for v in tri))


def rows(a): return sorted(tuple(round(float(x), 9) for x in r) for r in a)


class Model:
    """what the user has done: the mesh and the .sol file opened last"""
    mesh = sol = None

    def mags(self): return CASE["meshes"][self.mesh]["sols"][self.sol] if self.mesh and self.sol else None


def displayed(md):
    """compare the window to the model; a list of differences"""
    e = []
    s = [a for w in pyvistaqt.current for a in w.actors_ if a[0] == "surface"]
    g = [a for w in pyvistaqt.current for a in w.actors_ if a[0] == "arrows"]
    vec, chg, smooth = (find(W.checks, w).isChecked() for w in ("vector", "charge", "smooth"))
    if md.mesh is None:
        if s or g: e.append("something is shown though no mesh is open")
        return e
    m = CASE["meshes"][md.mesh]
    P = np.array(m["points"])
    if len(s) != 1: return e + ["%d surfaces are shown, expected one" % len(s)]
    t = P[np.array(m["tris"])]
    where = {key(x): i for i, x in enumerate(t)}
    perm = [where.get(key(x), -1) for x in s[0][1]]
    if sorted(perm) != list(range(len(t))): return e + ["the surface shown is not that of mesh %s" % md.mesh]
    if s[0][3] != smooth: e.append("smooth shading is %s, the box says %s" % (s[0][3], smooth))
    q = s[0][2]
    M = md.mags()
    if chg and M is not None:
        a = np.array(M)[np.array(m["tris"])].mean(1)
        a /= np.linalg.norm(a, axis=1)[:, None]
        n = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]); n /= np.linalg.norm(n, axis=1)[:, None]
        x = -(a * n).sum(1)[perm]
        if q is None: e.append("no surface charges are shown though the box is checked and %s is open" % md.sol)
        elif len(q) != len(x) or not np.allclose(q, x, atol=1e-9): e.append("surface charges %s, those of %s are %s" % ([round(float(v), 4) for v in q], md.sol, [round(float(v), 4) for v in x]))
    elif q is not None: e.append("surface charges are shown, %s" % ("no .sol file is open for this mesh" if chg else "the box is not checked"))
    if vec and M is not None:
        sc = W.spins[0].value()
        ns = sorted({i for f in m["tris"] for i in f})
        want = rows(np.hstack([P[ns], np.array(M)[ns]]))
        if len(g) != 1: e.append("%d sets of arrows are shown, expected one" % len(g))
        else:
            _, p, d, l = g[0]
            got = rows(np.hstack([p + .5 * sc * d, d]))
            if len(got) != len(want) or not np.allclose(got, want, atol=1e-7): e.append("arrows %s, those of %s are %s" % (got[:3], md.sol, want[:3]))
            if not np.allclose(l, sc): e.append("arrows of length %s, the scale is %s" % (sorted(set(l))[:3], sc))
    elif g: e.append("arrows are shown, %s" % ("no .sol file is open for this mesh" if vec else "the box is not checked"))
    return e


def apply(ev, md):
    """one user action; a list of problems"""
    k, a = ev
    W.dialog["path"] = ""
    e = []
    if k == "mesh":
        W.dialog["path"] = {"missing": CASE["dir"] + "/none.msh", "cancel": ""}.get(a) if a in ("missing", "cancel") else CASE["meshes"][a]["path"]
        find(W.actions, "open", ".msh").trigger()
        if a not in ("missing", "cancel"):
            md.mesh, md.sol = a, None
    elif k == "sol":
        n = (md.mesh or "A") + a if a != "cancel" else None
        W.dialog["path"] = CASE["dir"] + "/" + n + ".sol" if n else ""
        find(W.actions, "open", ".sol").trigger()
        if n and md.mesh: md.sol = n
    elif k == "box": find(W.checks, a).click()
    elif k == "scale":
        s = W.spins[0]
        s.setValue(2. if s.value() == 5. else 5.); s.editingFinished.emit()
    elif k == "help": find(W.actions, "help").trigger()
    elif k == "export":
        for f in os.listdir(CASE["dir"]):
            if f.endswith(".vtu"): os.remove(os.path.join(CASE["dir"], f))
        find(W.actions, "export").trigger()
        fs = [f for f in os.listdir(CASE["dir"]) if f.endswith(".vtu")]
        if md.mesh and md.sol:
            if fs != [md.sol + ".vtu"]: e.append("export: %s written, expected %s.vtu" % (fs, md.sol))
            else:
                x = json.load(open(CASE["dir"] + "/" + fs[0]))
                m = CASE["meshes"][md.mesh]
                c = {}
                for t, l in x["cells"]: c.setdefault(t, []).extend(l)
                if x["points"] != m["points"]: e.append("export: points %s" % x["points"][:3])
                if sorted(c.get("triangle", [])) != sorted(m["tris"]): e.append("export: triangles %s" % c.get("triangle", [])[:3])
                if sorted(c.get("tetra", [])) != sorted(m["tets"]): e.append("export: tetrahedra %s" % c.get("tetra", [])[:3])
                if list(x["point_data"].values()) != [md.mags()]: e.append("export: magnetization %s, that of %s is %s" % (str(x["point_data"])[:120], md.sol, md.mags()[:3]))
        elif fs: e.append("export: %s written though no .sol file is open for this mesh" % fs)
    return e


EVENTS = [("mesh", "A"), ("mesh", "B"), ("mesh", "missing"), ("sol", "1"), ("sol", "2"), ("box", "vector"), ("box", "charge"), ("box", "smooth"), ("scale", ""), ("export", ""), ("mesh", "cancel"), ("sol", "cancel")]


def walk(hist, md, depth, out, only=None):
    """all the continuations of length depth; (number of executions, problems)"""
    n, bad = 0, []
    for ev in only or EVENTS:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            h = hist + [ev]
            signal.alarm(60)
            try:
                e = apply(ev, md)
                e += displayed(md)
            except BaseException:
                e = ["unhandled error: " + traceback.format_exc().strip().splitlines()[-1]]
            signal.alarm(0)
            res = (1, [[h, x] for x in e])
            if not e and depth > 1:
                a, b = walk(h, md, depth - 1, out)
                res = (1 + a, b)
            os.write(w, json.dumps(res).encode()); os._exit(0)
        os.close(w)
        buf = b""
        while True:
            x = os.read(r, 65536)
            if not x: break
            buf += x
        os.close(r); os.waitpid(pid, 0)
        a, b = json.loads(buf) if buf else (1, [[hist + [ev], "the program ended or does not answer"]])
        n += a; bad = (bad + b)[:5]
        if len(bad) >= 5: break
    return n, bad


def explore():
    global CASE
    CASE = json.load(open(os.environ["FGV_CASE"]))
    md = Model()
    md.mesh = CASE["start"]
    e = [[[], x] for x in displayed(md)]
    only = [tuple(x) for x in CASE["only"]]
    sys.stdout.flush(); sys.stderr.flush()
    n, bad = walk([], md, CASE["depth"], None, only) if not e else (0, [])
    json.dump(dict(n=n, bad=(e + bad)[:5]), open(CASE["out"], "w"))
    sys.stdout.flush()
    os._exit(0)
