import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from spin import *
import itertools

ck = Check("C23")
T = TIER == "thorough"
pool = Pool(build_program())
H = 2e-13   # output interval
COLS = ["t", "<Mx>", "<My>", "<Mz>", "E_tot"]
MAG = ["1+x*1e8", "0.4-z*5e7", "y*1e8-0.3"]
worst = {}
A, B, N = dict(Ae=1.3e-11, Ms=8e5, alpha_LLG=.1), dict(Ae=9e-12, Ms=4e5, alpha_LLG=.3, K=3e5, uk=[1, 1, 0]), dict(Ms=0.)


def case(name):
    """mesh, regions, surfaces, spin?"""
    if name == "tet":
        return Mesh([(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)], [("v0", (0, 1, 2, 3))]), {"v0": A}, None, False
    if name == "spin":
        return sides(1, 1, 2, (6., 5., 4.), (1., -2., 0.), lambda i, j, k: "v%d" % k, ("z0", "z1")), {"v0": CU, "v1": CO}, \
            {"z1": dict(jn=1e6, uP=[0, 1, 0]), "z0": dict(V=1e-6, s=[0, 0, 0])}, True
    ms = [dict(a=A, b=B, n=N)[c] for c in name.split("-")[0]]
    if name.endswith("-y"):   # regions along y: the node order of the file is not the solver's
        m = grid(1, len(ms), 1, (6., 5., 4.), origin=(1., -2., 0.), region=lambda i, j, k: "v%d" % j)
    elif name.endswith("-r"):
        m = grid(1, 1, len(ms), (6., 5., 4.), origin=(1., -2., 0.), region=lambda i, j, k: "v%d" % k)
        P = list(range(len(m.nodes)))[::-1]
        m = Mesh([m.nodes[i] for i in P], [(r, tuple(P.index(x) for x in t)) for r, t in m.tets])
    else:
        m = grid(1, 1, len(ms), (6., 5., 4.), origin=(1., -2., 0.), region=lambda i, j, k: "v%d" % k)
    return m, {"v%d" % i: x for i, x in enumerate(ms)}, None, False


class SOut(Out):
    def __init__(self, res):
        super().__init__(res)
        self.text = {f: res.read(f) for f in res.files() if f.endswith(".sol")}
        try:
            self.at_exit = Sol(self.text["o_at_exit.sol"]) if "o_at_exit.sol" in self.text else None
        except Exception as e:
            self.bad, self.at_exit = "unreadable output: %r" % e, None


def go(name, mag=MAG, n=3, step=H, t0=None, files=None, env=None, save=1, extra=None):
    m, mats, surfs, sp = case(name)
    S = settings(mats, surfs, (.1, .2, .3), mag=mag, cols=COLS, step=step, n=n, save=save, t0=t0, dtmin=1e-17, dtmax=step / 8, du=.02, extra=extra)
    if t0 is None and isinstance(mag, str): S["outputs"]["final_time"] = extra["final"]; S.pop("final", None)
    if sp: S["spin_accumulation"] = {"enable": True}
    f = {"m.msh": m.msh(), "s.yml": yaml_dump(S)}
    f.update(files or {})
    rep = dict(settings=f["s.yml"], msh=f["m.msh"], files=files)
    return pool.run(f, env=dict({"VERIF_SCRIPT": ""}, **(env or {})), post=SOut), rep, S


def same_state(a, b, name, rep, what):
    ok = ck.expect(len(a.u) == len(b.u), "%s: %s: %d nodes instead of %d" % (name, what, len(b.u), len(a.u)), rep)
    if not ok: return
    x, y = np.array(a.u), np.array(b.u)
    ck.expect(bool((np.isnan(x) == np.isnan(y)).all()), "%s: %s: undefined magnetizations differ" % (name, what), rep)
    d = np.nanmax(np.abs(x - y))
    worst["state"] = max(worst.get("state", 0), d / 2.1e-7)
    ck.expect(d < 2.1e-7, "%s: %s: magnetization differs by %g" % (name, what, d), rep)


def restart(job):
    name, k, mode, t0 = job
    full, rep0, S0 = FULL[name, t0]
    if mode == "exit":   # stopped by a signal before attempt k
        stopped, rep, _ = go(name, n=3, t0=t0, env={"VERIF_SIGNAL": "solve:%d:15" % k})
        if not ck.expect(stopped.at_exit is not None and not stopped.bad, "%s/%s: no _at_exit.sol: %s" % (name, k, stopped.status), rep): return
        sol, text = stopped.at_exit, stopped.text["o_at_exit.sol"]
    else:
        if not ck.expect(k in full.sol, "%s: no snapshot %d" % (name, k), rep0): return
        sol, text = full.sol[k], full.text["o_iter%d.sol" % k]
    if not ck.expect(sol.time is not None, "%s/%s%s: saved file has no time tag" % (name, mode, k), rep0): return
    tk = sol.time
    rel = 0 if mode == "exit" else 3 - k
    start = dict(init=tk + 5e-12, zero=0., neg=-3e-13).get(mode)
    n = max(rel, 1)
    o, rep, S = go(name, mag="back.sol", n=n, t0=start, files={"back.sol": text}, extra={"final": (start if start is not None else tk) + n * H})
    ck.count(states=1, transitions=len(o.evol.rows) if o.evol else 1, traces=1)
    nm = "%s restarted from %s%s" % (name, mode, k)
    if not ck.expect(o.ok and len(o.evol.rows) == n + 1 and 0 in o.sol, "%s: %s %s %s" % (nm, o.status, o.err[-300:], o.bad), rep): return
    same_state(sol, o.sol[0], nm, rep, "first state")
    exp = start if start is not None else tk
    ck.expect(close(o.evol.rows[0][0], exp, 1e-12, 1e-30) and close(o.sol[0].time, exp, 2e-6, 1e-30), "%s: starts at t=%r instead of %r" % (nm, o.evol.rows[0][0], exp), rep)
    if mode == "snap":
        ck.expect(close(exp, (t0 or 0) + k * H, 1e-6, 1e-30), "%s: saved time %r, snapshot taken at %r" % (nm, exp, (t0 or 0) + k * H), rep)
        for j in range(rel + 1):   # the continued run agrees with the uninterrupted one
            a, b = np.array(full.evol.rows[k + j]), np.array(o.evol.rows[j])
            move = np.abs(np.array(full.evol.rows[-1])[1:4] - np.array(full.evol.rows[0])[1:4]).max()
            d = np.abs(a - b)
            q = 1e-3   # the integrator restarts without the previous velocity
            tol = np.array([2e-6 * max(a[0], H)] + [max(3e-6, q * move)] * 3 + [5e-3 * max(abs(r[4]) for r in full.evol.rows)])
            worst["cont"] = max(worst.get("cont", 0), (d / tol).max())
            ck.expect(bool((d <= tol).all()), "%s: row %d %r, uninterrupted run %r" % (nm, j, b.tolist(), a.tolist()), rep)
            if name == "spin" and j:
                p, q = spin_cols(full.text["o_iter%d.sol" % (k + j)]), spin_cols(o.text["o_iter%d.sol" % j])
                dd = np.abs(p - q).max() / np.abs(p).max()
                worst["spin"] = max(worst.get("spin", 0), dd)
                ck.expect(dd < 1e-3, "%s: row %d spin accumulation differs by %g" % (nm, j, dd), rep)


def judge(lines, full_lines, magn):
    """(verdict, rows) for a .sol text: 'ok' has to be accepted, 'bad' has to be refused, '?' either way"""
    text = lines
    if not text.endswith("\n") and text != "": cut = True
    else: cut = False
    L = text.split("\n")
    if L and L[-1] == "": L.pop()
    head = [l for l in L if l.startswith("#")]
    rows = [l for l in L if l.strip() and not l.startswith("#")]
    tt = [l for l in head if l.startswith("## time:")]
    if not tt: return "bad", None
    try:
        t = float(tt[-1][8:])
        if not math.isfinite(t): return "bad", None
    except ValueError:
        return "bad", None
    if len(rows) != len(magn): return "bad", None
    u = []
    loose = cut or any(not l.strip() for l in L)
    for i, l in enumerate(rows):
        w = l.split()
        try:
            if int(w[0]) != i: return "bad", None
            v = [float(x) for x in w[1:4]]
            if len(v) < 3: return "bad", None
        except (ValueError, IndexError):
            return "bad", None
        if magn[i]:
            nn = math.sqrt(sum(x * x for x in v))
            if not (nn > 0 and math.isfinite(nn)): return "bad", None
            if abs(nn - 1) > 1e-5: loose = True
        if len(w) < 5: loose = True
        else:
            try: float(w[4])
            except ValueError: loose = True
        if len(w) not in (5, 8): loose = True
        u.append(v)
    if cut and rows and full_lines:   # a cut inside the magnetization of the last row that still parses
        ref = [l for l in full_lines.split("\n") if l and not l.startswith("#")][len(rows) - 1].split()
        if rows[-1].split()[1:4] != ref[1:4]: return "bad", None
    return ("?" if loose else "ok"), (t, u)


def corrupt(job):
    name, what, text = job
    full, _, S0 = FULL[name, None]
    src = full.text["o_iter1.sol"]
    verdict, val = judge(text, src if what.startswith("cut") else None, MAGN[name])
    o, rep, S = go(name, mag="back.sol", n=0, files={"back.sol": text}, extra={"final": 0})
    ck.count(states=1, transitions=1, traces=1)
    tally[verdict] = tally.get(verdict, 0) + 1
    rep["what"] = what
    nm = "%s with %s" % (name, what)
    if not ck.expect(not o.sig and not o.timeout, "%s: %s" % (nm, o.status), rep): return
    if verdict == "bad":
        ck.expect(o.rc != 0, "%s: accepted" % nm, rep)
        ck.expect(o.evol is None, "%s: refused after output was produced" % nm, rep)
        ck.expect(o.err.strip() != "", "%s: refused without a message" % nm, rep)
    elif verdict == "ok":
        t, u = val
        S["outputs"]["final_time"] = t
        rep["settings"] = yaml_dump(S)
        o = pool.run({"m.msh": rep["msh"], "s.yml": rep["settings"], "back.sol": text}, env={"VERIF_SCRIPT": ""}, post=SOut)
        if not ck.expect(o.ok and 0 in o.sol, "%s: refused (%s): %s" % (nm, o.status, o.err[-300:]), rep): return
        x = np.array([v if g else (math.nan,) * 3 for v, g in zip(u, MAGN[name])])
        y = np.array(o.sol[0].u)
        ck.expect(bool((np.isnan(x) == np.isnan(y)).all()) and np.nanmax(np.abs(x - y)) < 2e-5, "%s: state not restored" % nm, rep)
        ck.expect(close(o.evol.rows[0][0], t, 1e-12, 0), "%s: t=%r instead of %r" % (nm, o.evol.rows[0][0], t), rep)


def scaled(job):
    """vectors that are not exactly of unit length (rounded, averaged): refused, or read as directions"""
    name, f, nophi = job
    L = FULL[name, None][0].text["o_iter1.sol"].rstrip("\n").split("\n")
    u, i = [], 0
    for q, l in enumerate(L):
        if l.startswith("#"): continue
        w = l.split("\t")
        v = np.array([float(x) for x in w[1:4]])
        u.append(v / np.linalg.norm(v) if MAGN[name][i] else np.full(3, math.nan))
        L[q] = "\t".join([w[0]] + ["%.12g" % (x * (1 + f * ((i + 1) % 3) / 2)) for x in v] + (["0"] if nophi else w[4:5]) + w[5:])
        i += 1
    t = FULL[name, None][0].sol[1].time
    o, rep, S = go(name, mag="back.sol", n=0, files={"back.sol": "\n".join(L) + "\n"}, extra={"final": t})
    ck.count(states=1, transitions=1, traces=1)
    nm = "%s, lengths off by up to %g%s" % (name, f, ", no potential" if nophi else "")
    if abs(f) > 1e-5 and o.rc != 0 and o.evol is None and o.err.strip(): return
    if not ck.expect(o.ok and 0 in o.sol, "%s: refused (%s): %s" % (nm, o.status, o.err[-300:]), rep): return
    x, y = np.array(u), np.array(o.sol[0].u)
    ck.expect(bool((np.isnan(x) == np.isnan(y)).all()) and np.nanmax(np.abs(x - y)) < 3e-6, "%s: the state read is not made of the unit vectors of the file" % nm, rep)


def missing(job):
    what, mag, files = job
    o, rep, S = go("tet", mag=mag, n=0, files=files, extra={"final": 0})
    ck.count(states=1, transitions=1, traces=1)
    ck.expect(o.rc not in (0, None) and o.evol is None and o.err.strip() != "", "initial configuration %s: %s, %r" % (what, o.status, o.err[-200:]), rep)


tally = {}
NAMES = ["tet", "a", "ab", "an", "na", "aba-y", "anb", "ana-r", "nan-y", "spin"] + (["abn-y", "bnna", "ab-y", "an-y", "anan-r"] if T else [])
FULL, MAGN = {}, {}


def prep(j):
    FULL[j] = go(j[0], n=3, t0=j[1])


LATE = [(n, t0) for n in ("tet", "an") for t0 in (1.2345678e-9, 9.8765432e-7, 1.2345678e-3)]    # long simulations
pool.map(prep, [(n, t0) for n in NAMES for t0 in (None, 1.5e-12)] + LATE + [("a" * 16, None)])
for (n, t0), (o, rep, S) in FULL.items():
    ck.expect(o.ok and len(o.sol) == 4, "%s: uninterrupted run: %s %s" % (n, o.status, o.err[-300:]), rep)
    m, mats, _, _ = case(n)
    g = [False] * len(m.nodes)
    for r, t in m.tets:
        if mats[r]["Ms"] > 0:
            for i in t: g[i] = True
    MAGN[n] = g
if not ck.viol:
    jobs = [(n, k, mode, t0) for n in NAMES for t0 in (None, 1.5e-12) for mode, ks in (("snap", range(4)), ("init", (0, 2)), ("zero", (1,)), ("neg", (2,)), ("exit", range(0, 12 if T else 4, 1 if T else 2))) for k in ks]
    jobs += [(n, k, mode, t0) for n, t0 in LATE for mode, k in (("snap", 0), ("snap", 2), ("zero", 1))]
    jobs += [("a" * 16, k, mode, None) for mode, k in (("snap", 0), ("snap", 2), ("exit", 2))]
    pool.map(restart, jobs)
    pool.map(scaled, [(n, f, z) for n in NAMES + ["a" * 16] for f in (1e-8, -1e-8, 1e-6, 3e-5, -3e-4, 9e-4, -5e-3, .07, 9., -.999) for z in (0, 1)])
    jobs = []
    for n in ["tet", "an"] + (["spin", "ab", "nan-y"] if T else []):
        src = FULL[n, None][0].text["o_iter1.sol"]
        h = src.index("## time:")
        jobs += [(n, "cut at byte %d" % i, src[:i]) for i in range(0 if T else h, len(src))]
        L = src.rstrip("\n").split("\n")
        J = lambda x: "\n".join(x) + "\n"
        d0 = [i for i, l in enumerate(L) if not l.startswith("#")][0]
        for i in range(len(L)):
            jobs.append((n, "line %d removed" % i, J(L[:i] + L[i + 1:])))
            if i >= d0: jobs.append((n, "line %d repeated" % i, J(L[:i + 1] + L[i:])))
            for j in range(i + 1, len(L)):
                if i >= d0: jobs.append((n, "lines %d and %d exchanged" % (i, j), J(L[:i] + [L[j]] + L[i + 1:j] + [L[i]] + L[j + 1:])))
        for i in range(d0, len(L)):
            w = L[i].split("\t")
            for c in range(len(w)):
                for v in ("", "x", "nan", "inf", "-1", "0", "1e400", w[c] + "z", w[c] + "\t0"):
                    jobs.append((n, "row %d column %d = %r" % (i - d0, c, v), J(L[:i] + ["\t".join(w[:c] + [v] + w[c + 1:])] + L[i + 1:])))
        tl = [i for i, l in enumerate(L) if l.startswith("## time:")][0]
        for v in ("## time:", "## time: abc", "## time: nan", "## time: inf", "# time: 1e-12", "## Time: 1e-12", "##time: 1e-12", "time: 1e-12", "## time: -1e-12", "## time:2e-12", "## time: 0",
                  "## note: ## time: 3e-12", "## time: noon\n" + L[tl], "## my ## time: x\n" + L[tl], "## when:\n##  time: 5\n" + L[tl], "\n" + L[tl]):
            jobs.append((n, "time tag %r" % v, J(L[:tl] + [v] + L[tl + 1:])))
        for hd in (["## k%d: v" % i for i in range(200)], ["## k: " + "x" * 20000], ["#"] * 500, ["## a:"] + ["##  line %d" % i for i in range(100)]):
            jobs.append((n, "a header %d lines longer before the time tag" % len(hd), J(L[:tl] + hd + L[tl:])))
            jobs.append((n, "a header %d lines longer after the time tag" % len(hd), J(L[:tl + 1] + hd + L[tl + 1:])))
        extra = L[-1].split("\t")
        for k in (1, 2):
            jobs.append((n, "%d more rows" % k, J(L + ["\t".join([str(len(MAGN[n]) + q)] + extra[1:]) for q in range(k)])))
            jobs.append((n, "%d more rows after a blank line" % k, J(L + [""] + ["\t".join([str(len(MAGN[n]) + q)] + extra[1:]) for q in range(k)])))
            jobs.append((n, "text after %d blank lines" % k, J(L + [""] * k + ["end"])))
            jobs.append((n, "%d blank lines among the rows" % k, J(L[:d0 + 2] + [""] * k + L[d0 + 2:])))
        jobs.append((n, "the whole table twice, a blank line between", J(L + [""] + L[d0:])))
        jobs.append((n, "no trailing newline", src.rstrip("\n")))
        jobs.append((n, "trailing blank line", src + "\n"))
        for w in (60, 300):   # wide rows: more digits, more columns
            q = lambda l: "\t".join(x + ("0" * w if "." in x and "e" not in x else "") for x in l.split("\t"))
            jobs.append((n, "%d more digits" % w, J(L[:d0] + [q(l) for l in L[d0:]])))
            jobs.append((n, "%d more columns" % w, J(L[:d0] + [l + "\t0" * w for l in L[d0:]])))
        for o in NAMES:   # files of other meshes
            if len(MAGN[o]) != len(MAGN[n]): jobs.append((n, "the file of mesh " + o, FULL[o, None][0].text["o_iter1.sol"]))
    pool.map(corrupt, jobs)
    pool.map(missing, [("missing", "none.sol", {}), ("empty", "e.sol", {"e.sol": ""}), ("in a missing directory", "d/e.sol", {}),
                       ("of the mesh file", "m.msh", {}), ("of the settings file", "s.yml", {})])
for k, v in sorted(worst.items()): ck.sample("worst %s / tolerance %.2g" % (k, v), 99)
pool.close()
ck.finish(exhaustive=True, verdicts=tally)
