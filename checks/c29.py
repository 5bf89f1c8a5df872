import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hist import *

# 1. every bounded sample sequence through LogStats; 2. the end-of-run summary of every bounded history.
ck = Check("C29")
T = TIER == "thorough"
h1 = build_harness("stats_mc", ["stats_mc.cpp"], libs=["-fopenmp"])
run_sharded(ck, h1)
exe = build_program()
COL = ["iter", "t", "max_angle", "<Mx>"]
NUM = r"([0-9.eE+-]+|nan|inf|-nan)"
RS = re.compile(r"successful\s+" + NUM + r"(?:\s+" + NUM + r"\s*±\s*" + NUM + r"\s+" + NUM + r"\s*±\s*" + NUM + r")?\s*$", re.M)
RF = re.compile(r"failed\s+" + NUM + r"(?:\s+" + NUM + r"\s*±\s*" + NUM + r")?\s*$", re.M)
RA = re.compile(r"Maximum magnetization angle:\s*" + NUM)
OUT = set()


def stat(v):
    l = [math.log(x) for x in v]
    m = sum(l) / len(l)
    return math.exp(m), math.sqrt(sum((x - m) ** 2 for x in l) / len(l))


def near(txt, x, unit):
    """txt is x printed with the given absolute rounding unit"""
    return txt is not None and abs(float(txt) - x) <= 0.51 * unit + 1e-9 * abs(x)


def e2(x):
    return 10. ** (math.floor(math.log10(x) + 1e-12) - 2) * 1.001


def check(h):
    tag = "[%s %s] " % (h.cfg.name, h.script or "-")
    rep = lambda: dict(h.replay(), stdout=h.out[-900:])
    if not ck.expect(h.rc in (0, 1) and h.sig == 0 and not h.timeout, tag + "bad outcome " + h.status, rep): return
    s, f, a = RS.search(h.out), RF.search(h.out), RA.search(h.out)
    if not ck.expect(s and f and a, tag + "no readable step summary at the end of the run", rep): return
    bad = [x for x in h.att if x[1] != 0]
    good = [x for x in h.att if x[1] == 0]
    OUT.add((len(good), len(bad), h.rc))
    ck.expect(float(s.group(1)) == len(good), tag + "summary says %s successful steps, the solver succeeded %d times" % (s.group(1), len(good)), rep)
    ck.expect(float(f.group(1)) == len(bad), tag + "summary says %s failed steps, the solver failed %d times" % (f.group(1), len(bad)), rep)
    ck.expect((f.group(2) is not None) == bool(bad) and (s.group(2) is not None) == bool(good), tag + "statistics of an empty set, or missing statistics", rep)
    if bad and f.group(2):
        m, d = stat([x[3] for x in bad])
        ck.expect(near(f.group(2), m, e2(m)) and near(f.group(3), d, .01), tag + "failed steps: summary says dt %s ± %s, attempts say %.4e ± %.4f" % (f.group(2), f.group(3), m, d), rep)
    if good and s.group(2):
        m, d = stat([x[3] for x in good])
        ck.expect(near(s.group(2), m, e2(m)) and near(s.group(3), d, .01), tag + "successful steps: summary says dt %s ± %s, attempts say %.4e ± %.4f" % (s.group(2), s.group(3), m, d), rep)
        if all(x[4] > 0 for x in good):
            m, d = stat([x[4] for x in good])
            ck.expect(near(s.group(4), m, e2(m)) and near(s.group(5), d, .01), tag + "summary says dumax %s ± %s, attempts say %.4e ± %.4f" % (s.group(4), s.group(5), m, d), rep)
    kept = sum(h.retained(i) for i in range(len(h.att)))
    if h.rc == 0 and kept == len(h.evol.rows) - 1:
        x = max(r[2] for r in h.evol.rows)
        x = x * 180 / math.pi
        ck.expect(near(a.group(1), x, e2(x)), tag + "maximum angle %s, rows say %.5g" % (a.group(1), x), rep)
        OUT.add("angle")


# 3. the maximum angle is that of all the steps, visible or not: a pulse within one visible step
def hidden(pool):
    from phys import settings, simulate
    n = 0
    for K, al, du, B in ([(k, a, d, b) for k in (1e3, 2e3) for a in (1., .7) for d in (.1, .05) for b in (.1, .2)] if T else [(1e3, 1., .1, .1), (2e3, .7, .1, .2)]):
        # a field pulse moves a soft material away from a hard one; both are back on their easy axis at the end
        m = grid(2, 1, 1, (8., 8., 8.), region=lambda i, j, k: "v%d" % i)
        mats = {r: dict(Ms=1e5, Ae=1e-15, alpha_LLG=al, K=k, uk=[1., 0., 0.]) for r, k in (("v0", K), ("v1", 2e4))}
        Bt = ("0", "0", "%g * exp(-pow((t - 5e-10)/2e-10, 2))" % B)
        period = 3e-9
        S = lambda step, cnt: settings(mats, {}, Bt, mag=(1, 0, .01), cols=["t", "max_angle"], step=step, n=cnt, dtmin=1e-15, dtmax=period / 100, du=du)
        o = simulate(pool, m, S(period / 100, 200))
        if not ck.expect(o.ok and len(o.evol.rows) == 201, "hidden maximum, K=%g alpha=%g: run failed %s" % (K, al, o.err[-200:]), None): continue
        a = [r[1] for r in o.evol.rows]
        top = max(range(200), key=lambda k: a[k])
        low = min(range(top, 201), key=lambda k: a[k])
        if not ck.expect(a[low] < .8 * a[top] and low > top, "harness: no hidden maximum for K=%g alpha=%g (%g then %g)" % (K, al, a[top], a[low]), None): continue
        o2 = simulate(pool, m, S(o.evol.rows[low][0], 1))
        g = RA.search(o2.out)
        x = a[top] * 180 / math.pi
        ck.expect(o2.ok and g and abs(float(g.group(1)) / x - 1) < .03, "K=%g alpha=%g: the angle goes up to %.4g degrees between two output rows (%.4g then), the summary says %s" % (
            K, al, x, a[low] * 180 / math.pi, g and g.group(1)), lambda: dict(first=o.err, out=o2.out[-600:]))
        ck.count(states=202, transitions=202, traces=2)
        n += 1
    return n


cfgs = [Cfg("tet", tf=2., dtmin=.02, dtmax=1., du=.4, cols=COL, save=0, mag=("1", "y*1e9/10", "0.2")),
        Cfg("each-step-visible", tf=2., step=.5, dtmin=.02, dtmax=40., du=.9, cols=COL, save=0, mag=("1", "y*1e9/10", "x*1e9/7")),
        Cfg("mixed", mesh="mixed", tf=1., dtmin=.05, dtmax=.5, du=.4, cols=COL, save=0)]
with Pool(exe) as pool:
    plan = []
    for c in cfgs:
        n0 = pool.runs
        b, hz = (4, 8) if T else (3, 5)
        for h in explore(pool, c, "RFGL", b, hz):
            ck.count(states=len(h.att) + 1, transitions=len(h.att), traces=1)
            check(h)
            if pool.runs - n0 == 60:
                ck.sample(dict(config=c.name, script=h.script, stdout=h.out[-500:]))
        plan.append("%s: <=%d imposed outcomes among the first %d attempts, %d runs" % (c.name, b, hz, pool.runs - n0))
    plan.append("%d problems whose maximum angle is reached between two output rows" % hidden(pool))
    ck.expect("angle" in OUT, "harness: maximum angle never comparable", None)
    ck.finish(exhaustive=True, executions=pool.runs, distinct_outcomes=len(OUT), bounds=plan)
