import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from phys import *
import itertools

ck = Check("C17")
T = TIER == "thorough"
pool = Pool(build_program())
PS = 1e-12
TET = Mesh([(0, 0, 0), (9, 1, -2), (2, 7, 1), (-3, 2, 10)], [("v0", (0, 1, 2, 3))])
MAT = {"v0": dict(Ae=1e-11, Ms=1e3, alpha_LLG=.5)}

# ---------------------------------------------------------------- expressions and their meaning
sgn = lambda x: (x > 0) - (x < 0)
UN = {  # JavaScript text, Python meaning (of the reduced variable T = t in ps)
    "T": lambda v: v, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "abs": abs,
    "atan": math.atan, "asin": math.asin, "acos": math.acos, "floor": lambda v: math.copysign(math.floor(v), v), "ceil": lambda v: math.copysign(math.ceil(v), v),
    "round": lambda v: math.copysign(math.floor(v + .5), v),
    "sign": sgn, "cbrt": lambda v: math.copysign(abs(v) ** (1 / 3), v), "log2": math.log2, "log10": math.log10,
    "expm1": math.expm1, "log1p": math.log1p, "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh, "acosh": math.acosh,
    "asinh": math.asinh, "atanh": math.atanh}
ATOM = {"0": 0., "1": 1., "-2.5": -2.5, "1e-3": 1e-3, "PI": math.pi, "E": math.e, "LN2": math.log(2), "SQRT1_2": math.sqrt(.5)}
BIN = {"({a}) + ({b})": lambda a, b: a + b, "({a}) - ({b})": lambda a, b: a - b, "({a}) * ({b})": lambda a, b: a * b,
       "({a}) / ({b})": lambda a, b: a / b, "pow({a}, {b})": lambda a, b: math.pow(a, b), "max({a}, {b})": max, "min({a}, {b})": min,
       "atan2({a}, {b})": math.atan2, "hypot({a}, {b})": math.hypot, "({a}) < ({b}) ? 1 : 2": lambda a, b: 1. if a < b else 2.}


def unary(n, arg="T"):
    return ((arg if n == "T" else "%s(%s)" % (n, arg)), UN[n])


def ev(f, v):
    try:
        x = f(v)
    except (ValueError, OverflowError, ZeroDivisionError):
        return None
    return float(x) if isinstance(x, (int, float)) and math.isfinite(x) else None


def field_run(bext, times, extra=None, mag=(1, 0, 0)):
    S = settings(MAT, None, (0, 0, 0), mag=mag, cols=["t", "Hx", "Hy", "Hz"], step=(times[1] - times[0]) * PS, n=len(times) - 1, save=False,
                 t0=times[0] * PS, dtmin=(times[1] - times[0]) * PS / 1e6, dtmax=1e-9, du=.5, tol=1e-6, extra=extra)
    S["Bext"] = bext
    return S


SC = 1e-4  # results are scaled so that the fields stay moderate


def check_exprs(job):
    """three component expressions (text, meaning) in the equivalent forms"""
    comps, times, forms = job
    txt = ["%g*(%s)" % (SC, re.sub(r"\bT\b", "(t*1e12)", c[0])) for c in comps]
    fn = "function(t) { return [%s]; }" % ", ".join(txt)
    V = {"vector": list(txt), "function": fn,
         "param": "function(time) { var t = time; return [%s]; }" % ", ".join(txt),
         "lines": Raw("|\n  function (t) {\n    // components\n    var a = %s;\n    var b = %s;\n    var c = %s;\n    return [a, b, c];\n  }" % tuple(txt)),
         "if": "function(t) { if (t < %.17g) { return [%s]; } else return [].concat([%s]); }" % (times[1] * PS, ", ".join(txt), ", ".join(txt)),
         "object": "function(t) { return {0: %s, 1: %s, 2: %s}; }" % tuple(txt),
         "Math": "function(t) { with_M = Math; return [%s]; }" % ", ".join(re.sub(r"\b(sin|cos|exp|sqrt|floor|PI|E)\b", r"Math.\1", x) for x in txt)}
    for form in forms:
        S = field_run(V[form], times)
        o = simulate(pool, TET, S, None)
        rep = dict(settings=yaml_dump(S), err=o.err, form=form)
        name = "%s [%s]" % (form, "; ".join(c[0] for c in comps))
        if not ck.expect(o.ok and len(o.evol.rows) == len(times), "Bext %s: run failed: %s %s" % (name, o.status, o.err[-200:]), rep): return
        for row in o.evol.rows:
            for k in range(3):
                want = ev(comps[k][1], row[0] * 1e12)
                if want is None: continue
                want *= SC / MU0
                ck.count(transitions=1)
                if not ck.expect(abs(row[1 + k] - want) <= (1e-9 if times[-1] < .1 else 1e-7) * abs(want) + (1e-6 if times[0] > 20 else 1e-11) * SC / MU0, "Bext %s: component %d at t=%.6g ps is %.10g A/m instead of %.10g" % (name, k, row[0] * 1e12, row[1 + k], want), rep): return
        ck.count(1, 0, 1)


def ok_at(f, times):
    """finite and moderate over the whole duration, and not on a discontinuity at the row times"""
    a, b = times[0], times[-1]
    if not all(ev(f, t) is not None and abs(ev(f, t)) < 1e3 for t in [a + (b - a) * k / 500 for k in range(501)]): return False
    return all(all(ev(f, t * (1 + d)) is not None and abs(ev(f, t * (1 + d)) - ev(f, t)) < 1e-6 for d in (-1e-11, 1e-11)) for t in times)


GRIDS = [(.125, .375, .625, .875), (1.25, 1.75, 2.25, 2.75), (-1.45, -.7, 0.05, .8), (21.25, 23.125, 25.), (110.25, 160.75, 211.25)]
SMALLT = [(1e-6, 2e-6, 3e-6), (.9e-8, 1.8e-8, 2.7e-8), (.8e-5, 1.6e-5, 2.4e-5), (.7e-4, 1.4e-4, 2.1e-4), (.9e-3, 1.8e-3, 2.7e-3), (.9e-2, 1.8e-2, 2.7e-2)]
exprs = []
for n in UN:
    exprs.append(unary(n))
for a in ATOM:
    exprs.append((a, lambda v, a=a: ATOM[a]))
names = list(UN)
for op, g in BIN.items():
    for a, b in itertools.product(names, names if T else names[:4]):
        (ta, fa), (tb, fb) = unary(a), unary(b, "2*T-1" if a == b else "T")
        fb2 = (lambda v, fb=fb: fb(2 * v - 1)) if a == b and b != "T" else ((lambda v: 2 * v - 1) if a == b else fb)
        exprs.append((op.format(a=ta, b=tb), lambda v, g=g, fa=fa, fb2=fb2: g(fa(v), fb2(v))))
for f, g in itertools.product(names[1:], names[1:] if T else names[1:5]):  # compositions
    exprs.append(("%s(%s)" % (f, unary(g)[0]), lambda v, f=f, g=g: UN[f](UN[g](v))))
jobs = []
for times in GRIDS:
    es = [e for e in exprs if ok_at(e[1], times)]
    if not T and times is not GRIDS[0]:
        es = es[:60]
    for i in range(0, len(es), 3):
        c = es[i:i + 3]
        c += es[:3 - len(c)]
        k = (i // 3) % 3
        jobs.append((c[k:] + c[:k], times, ["vector", ["function", "param", "lines", "if", "object"][i // 3 % 5]] if not T else ["vector", "function", "param", "lines", "if", "object"]))
for times in SMALLT:
    es = [unary(n) for n in UN if ok_at(UN[n], times)]
    for i in range(0, len(es) - 2, 2):
        jobs.append((es[i:i + 3], times, ["vector", "function"]))
pool.map(check_exprs, jobs)


# every function of one and two arguments over all magnitudes; each value is divided by its expected one
def check_point(job):
    comps, form = job
    txt = ["%g*((%s)/(%r))" % (SC, t, w) for t, w in comps]
    fn = "function(t) { return [%s]; }" % ", ".join(txt)
    S = field_run(txt if form else fn, (0., 1.))
    S["outputs"]["final_time"] = 0.
    o = simulate(pool, TET, S, None)
    rep = dict(settings=yaml_dump(S), err=o.err)
    ck.count(1, 3, 1)
    if not ck.expect(o.ok and len(o.evol.rows) == 1, "Bext %s: run failed: %s %s" % (txt, o.status, o.err[-200:]), rep): return
    for k in range(3):
        x = o.evol.rows[0][1 + k] * MU0 / SC
        ck.expect(abs(x - 1) < 1e-6, "%s gives %.10g instead of %.10g" % (comps[k][0], x * comps[k][1], comps[k][1]), rep)


MAG = [1e-300, 1e-20, 1e-9, 1.9e-8, 2.1e-8, 1e-7, 3e-6, .99e-5, 1.01e-5, 2e-5, 1e-3, .1, .5, .99, 1., 1.5, 3., 10., 19.9, 20.1, 50., 300., 1e5, .99e8, 1.01e8, 1e12, 1e100, 1e300]
if T: MAG = sorted(MAG + [10. ** k * c for k in range(-12, 13) for c in (1.3, 2.7, 7.1)])
pts = []
for n in UN:
    for a in [0.] + MAG + [-m for m in MAG]:
        if n in ("sin", "cos", "tan") and abs(a) > 1e5: continue
        if n in ("sign", "floor", "ceil", "round") and abs(a) > 1e12: continue
        w = ev(UN[n], a)
        if w is None or w == 0 or not 1e-300 <= abs(w) <= 1e300: continue
        pts.append(("%s(%r)" % ("" if n == "T" else n, a), w))
for op in ("pow({a}, {b})", "atan2({a}, {b})", "hypot({a}, {b})", "max({a}, {b})", "min({a}, {b})"):
    for a, b in itertools.product([0., .5, 3., 1e-200, 1e200, -2., -1e-3, -1e150], repeat=2):
        w = ev(lambda v: BIN[op](a, b), 0.)
        if w is None or w == 0 or not 1e-300 <= abs(w) <= 1e300: continue
        pts.append((op.format(a=repr(a), b=repr(b)), w))
pts += pts[:-len(pts) % 3]
pool.map(check_point, [(pts[i:i + 3], form) for i in range(0, len(pts) - 2, 3) for form in (True, False)])


# constants: YAML numbers, strings, and functions; every assignment of a small value alphabet to the three components
def const_case(v):
    for form, b in (("numbers", list(v)), ("strings", [repr(x) for x in v]), ("function", "function(t) { return [%r, %r, %r]; }" % v)):
        S = field_run(b, (0, 1))
        o = simulate(pool, TET, S, None)
        rep = dict(settings=yaml_dump(S), err=o.err)
        if ck.expect(o.ok and len(o.evol.rows) == 2, "constant Bext %s %r: run failed %s" % (form, v, o.status), rep):
            for r in o.evol.rows:
                ck.expect(all(close(r[1 + k], v[k] / MU0, 1e-9, 1e-9) for k in range(3)), "constant Bext %s %r gives H = %r" % (form, v, r[1:]), rep)
        ck.count(1, 1, 1)


pool.map(const_case, list(itertools.product((0, .25, -1e-3, 2e-9), repeat=3)))


# ---------------------------------------------------------------- magnetization: positions and regions
def mag_mesh():
    m = grid(3, 1, 1, (4., 5., 6.), origin=(-2., 3., 1.), region=lambda i, j, k: "abc"[i])
    return m


MM = mag_mesh()
MATS = {g: dict(Ae=1e-11, Ms=1e3 * (1 + "abc".index(g)), alpha_LLG=.5) for g in "abc"}
P = {"x": 0, "y": 1, "z": 2}
MEX = [("1e9*x", lambda p: 1e9 * p[0]), ("1e9*y", lambda p: 1e9 * p[1]), ("1e9*z", lambda p: 1e9 * p[2]), ("1", lambda p: 1.), ("-.5", lambda p: -.5), ("0", lambda p: 0.),
       ("sin(3e8*x+1e8*z)", lambda p: math.sin(3e8 * p[0] + 1e8 * p[2])), ("y>4e-9 ? -2 : 1", lambda p: -2. if p[1] > 4e-9 else 1.),
       ("exp(1e8*(x-z))", lambda p: math.exp(1e8 * (p[0] - p[2])))]
reg_of = [sorted({g for g, t in MM.tets if i in t}) for i in range(len(MM.nodes))]


def mag_run(mag, mats=None, want=None, name="", mesh=None):
    mesh = mesh or MM
    S = settings(mats or MATS, None, (0, 0, 0), mag="x", cols=["t"], n=0)
    S["initial_magnetization"] = mag
    o = simulate(pool, mesh, S, None)
    rep = dict(settings=yaml_dump(S), err=o.err)
    ck.count(1, 1, 1)
    if not ck.expect(o.ok and 0 in o.sol, "magnetization %s: run failed: %s %s" % (name, o.status, o.err[-200:]), rep): return
    for i, w in enumerate(want):
        if w is None: continue
        w = np.array(w) / np.linalg.norm(w)
        g = np.array(o.sol[0].u[i])
        if not ck.expect(np.abs(w - g).max() < 2e-7, "magnetization %s: node %d at %s has %s instead of %s" % (name, i, mesh.nodes[i], g, w), rep): return


def mag_case(c):
    e = [MEX[k] for k in c]
    pos = [[NM * q for q in p] for p in MM.nodes]
    want = [[f(p) for _, f in e] for p in pos]
    if any(np.linalg.norm(w) < 1e-6 for w in want): return
    tx = [t for t, _ in e]
    mag_run(tx, None, want, "expressions %s" % tx)
    mag_run("function(x,y,z) { return [%s]; }" % ", ".join(tx), None, want, "function(x,y,z) %s" % tx)
    mag_run("function(x,y,z,regions) { return [%s]; }" % ", ".join(tx), None, want, "function(x,y,z,r) %s" % tx)
    # other parameter names: binding is positional
    mag_run("function(p,q,r) { var x=p, y=q, z=r; return [%s]; }" % ", ".join(tx), None, want, "function(p,q,r) %s" % tx)


pool.map(mag_case, list(itertools.product(range(len(MEX)), repeat=3)) if T else [c for c in itertools.product(range(len(MEX)), repeat=3) if len(set(c)) == 3 and sum(c) % 3 == 0 or c in ((0, 1, 2), (2, 1, 0), (1, 2, 0), (3, 4, 5))])


def region_case(job):
    mags, names, form = job
    mats = {names["abc".index(g)]: dict(MATS[g], Ms=MATS[g]["Ms"] if mags["abc".index(g)] else 0.) for g in "abc"}
    mesh = Mesh(MM.nodes, [(names["abc".index(g)], t) for g, t in MM.tets])
    js = {"includes": "r.includes(%s)", "indexOf": "r.indexOf(%s) >= 0"}[form]
    body = "function(x,y,z,r) { return [%s ? 1 : -1, %s ? 2 : -2, (%s ? 3 : -3) + 10*r.length]; }" % tuple(js % json.dumps(n) for n in names)
    want = []
    for i in range(len(mesh.nodes)):
        rs = reg_of[i]
        if not any(mags["abc".index(g)] for g in rs):
            want.append(None); continue
        want.append([1 if "a" in rs else -1, 2 if "b" in rs else -2, (3 if "c" in rs else -3) + 10 * len(rs)])
    mag_run(body, mats, want, "regions %s, magnetic %s, %s" % (names, mags, form), mesh)


pool.map(region_case, [(m, n, f) for m in itertools.product((True, False), repeat=3) if any(m)
                       for n in (("a", "b", "c"), ("z", "a b", "m"), ("c", "b", "a"), ("v10", "v9", "v1")) for f in ("includes", "indexOf")])

# nodes shared by up to eight regions: each is told exactly its own
QM = {4: grid(2, 2, 1, (4., 5., 6.), region=lambda i, j, k: "r%d" % (2 * i + j)), 8: grid(2, 2, 2, (4., 5., 6.), region=lambda i, j, k: "r%d" % (4 * i + 2 * j + k)),
      12: grid(12, 1, 1, (4., 5., 6.), region=lambda i, j, k: "r%d" % i)}


def many_case(job):
    n, mag, bit = job
    mesh = QM[n]
    regs = sorted({g for g, _ in mesh.tets})
    mats = {g: dict(Ae=1e-11, Ms=1e3 if mag(int(g[1:])) else 0., alpha_LLG=.5) for g in regs}
    code = lambda i: 1 << i
    body = "function(x,y,z,r) { var s = 0; for (var i = 0; i < %d; ++i) { if (r.indexOf('r' + i) >= 0) s += 1 << i; } return [s & 7, (s >> 3) & 7, ((s >> 6) & 63) + 0.25 * r.length]; }" % n
    want = []
    for i in range(len(mesh.nodes)):
        rs = {int(g[1:]) for g, t in mesh.tets if i in t}
        if not any(mag(q) for q in rs): want.append(None); continue
        s = sum(1 << q for q in rs)
        want.append([s & 7, s >> 3 & 7, (s >> 6 & 63) + .25 * len(rs)])
    mag_run(body, mats, want, "%d regions, %s" % (n, bit), mesh)


pool.map(many_case, [(n, f, b) for n in QM for b, f in (("all magnetic", lambda q: True), ("even ones magnetic", lambda q: q % 2 == 0), ("last one magnetic", lambda q, n=n: q == n - 1), ("first one not", lambda q: q > 0))])

# ---------------------------------------------------------------- scripts that fail
BAD = [("syntax", "function(ARGS) { return [1, 2; }"), ("unbalanced", "function(ARGS) { return [1, 2, 3]"), ("reference", "function(ARGS) { return [nope, 0, 1]; }"),
       ("throw", "function(ARGS) { throw new Error('x'); }"), ("throw string", "function(ARGS) { throw 'x'; }"), ("throw null", "function(ARGS) { throw null; }"), ("undefined", "function(ARGS) { }"),
       ("null", "function(ARGS) { return null; }"), ("number", "function(ARGS) { return 1; }"), ("string", "function(ARGS) { return 'abc'; }"), ("digits", "function(ARGS) { return '123'; }"),
       ("empty", "function(ARGS) { return []; }"), ("two", "function(ARGS) { return [1, 2]; }"), ("undefined component", "function(ARGS) { return [1, undefined, 2]; }"),
       ("null component", "function(ARGS) { return [1, 0, null]; }"), ("string component", "function(ARGS) { return ['a', 0, 1]; }"), ("numeric string", "function(ARGS) { return [1, '2', 3]; }"),
       ("bool component", "function(ARGS) { return [true, 0, 1]; }"), ("nested", "function(ARGS) { return [[1], 0, 1]; }"), ("nested all", "function(ARGS) { return [[1, 0, 1]]; }"), ("function", "function(ARGS) { return function() {}; }"),
       ("no function", "{ return [1, 0, 0]; } // function"), ("recursion", "function f(ARGS) { return [1 + f(ARGS)[0], 0, 0]; }"), ("call undefined", "function(ARGS) { return sin.foo(); }"),
       ("array of functions", "function(ARGS) { return [sin, cos, tan]; }"), ("object", "function(ARGS) { return {x: 1, y: 0, z: 0}; }")]
GOODV = "[1, 0.5, 0.25]"


def refused(name, o, rep, rows=None):
    ck.count(1, 1, 1)
    if not ck.expect(not o.timeout and not o.sig and o.rc not in (0, None), "%s: the program did not stop with an error (%s)" % (name, o.status), rep): return
    ck.expect(o.err.strip() != "", "%s: no message" % name, rep)
    if rows is not None:
        n = len(o.evol.rows) if o.evol else 0
        ck.expect(n <= rows, "%s: %d rows were written, the script fails at row %d" % (name, n, rows), rep)


def late(body, cond):
    """a function that works until cond, then behaves like body"""
    return "function(ARGS) { if (%s) return (%s)(ARGS); return %s; }" % (cond, body, GOODV)


def bad_case(job):
    where, name, body, when, rows = job
    args = {"Bext": "t", "time": "t", "space": "x,y,z", "mag": "x,y,z", "magr": "x,y,z,regions"}[where]
    if when is not None:
        if name in ("syntax", "unbalanced", "no function", "recursion"): return
        body = late(body, when)
    if where == "time": body = body.replace(GOODV, ".5")
    body = body.replace("ARGS", args)
    extra, mag = None, (1., 0., 0.)
    S = settings(MAT, None, (0, 0, 0), mag=mag, cols=["t", "Hx"], step=.5 * PS, n=4, dtmin=1e-19, dtmax=1e-9, du=.5, tol=1e-6)
    if where == "Bext": S["Bext"] = body
    elif where == "time": S["Bext"] = {"space": "function(x,y,z) { return [0, 0, 1]; }", "time": body}
    elif where == "space": S["Bext"] = {"space": body, "time": "function(t) { return 0.1; }"}
    else: S["initial_magnetization"] = body
    o = simulate(pool, TET, S, None)
    refused("failing script (%s) in %s%s" % (name, where, "" if when is None else " once %s" % when), o, dict(settings=yaml_dump(S), err=o.err, out=o.out), rows)


bj = []
for where in ("Bext", "time", "space", "mag", "magr"):
    for name, body in BAD:
        if where == "time":
            if name in ("number",): continue
        if where in ("mag", "magr") and ("function" not in body.split("//")[0] or "{" not in body): continue
        bj.append((where, name, body, None, 0))
        if where in ("Bext", "time"):
            for k in range(1, 5):
                bj.append((where, name, body, "t > %.4g" % ((k - .3) * .5 * PS), k))
        else:
            for w in ("x > 3e-9", "y > 3e-9", "z > 4e-9", "x < -1e-9" if where != "space" else "x < 1e-9"):
                bj.append((where, name, body, w, 0))
for v in ("true", "'1'", "null", "undefined", "[0.1]", "nope", "1, 2", "{}", "t +"):  # scalar results that are not numbers
    for k in (None, 1, 2, 3, 4):
        b = "function(ARGS) { return %s; }" % v
        if v in ("t +", "1, 2"):
            b = "function(ARGS) { return %s; }" % ("t +" if v == "t +" else "t.x.y")
        if k is not None and v == "t +": continue
        bj.append(("time", "returns " + v, b, None if k is None else "t > %.4g" % ((k - .3) * .5 * PS), k or 0))
pool.map(bad_case, bj)


def bad_expr(job):
    where, comp, e = job
    v = ["1", "0.5", "0.25"]
    v[comp] = e
    S = settings(MAT, None, (0, 0, 0), mag=(1., 0., 0.), cols=["t", "Hx"], step=.5 * PS, n=1)
    S[where] = v
    o = simulate(pool, TET, S, None)
    refused("bad expression %r in component %d of %s" % (e, comp, where), o, dict(settings=yaml_dump(S), err=o.err))


pool.map(bad_expr, [(w, c, e) for w in ("Bext", "initial_magnetization") for c in range(3)
                    for e in ("nope", "1 +", "(1", "'a'", "true", "null", "undefined", "[1]", "foo(1)", "1;", "return 1", "t.x.y", "sin", "x y", "{}", "1 // c", "", "var a", "w*2")])
# variables are bound only where they have a meaning
pool.map(bad_expr, [("Bext", c, e) for c in range(3) for e in ("x", "y", "z", "regions")] + [("initial_magnetization", c, e) for c in range(3) for e in ("t", "regions[0]")])
pool.close()
print(len(jobs), "expression jobs", len(bj), "failing scripts")
ck.sample(dict(expression=jobs[0][0][0][0])); ck.sample(dict(bad=bj[0][:3]))
ck.finish(exhaustive=True, expressions=len(exprs), failing_scripts=len(bj))
