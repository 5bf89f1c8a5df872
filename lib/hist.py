"""Exhaustive exploration of solver-outcome histories of the time loop (real program, hook script)."""
from vlib import *

PS = 1e-12


class Cfg:
    """One time-integration configuration on a small mesh. Times in ps."""

    def __init__(self, name, t0=None, tf=3., step=1., dtmin=.1, dtmax=1.2, save=1, du=0.5, mesh="tet", cols=None,
                 field=(0.05, 0.02, 0.1), mag=("1", "0.3", "0.2"), extra=None, sol_t=None, tol=1e-11):
        self.name, self.t0, self.tf, self.step, self.dtmin, self.dtmax = name, t0, tf, step, dtmin, dtmax
        self.save, self.du, self.mesh, self.sol_t = save, du, mesh, sol_t
        self.cols = cols or ["iter", "t", "dt", "max_dm", "<Mx>", "<My>", "<Mz>", "E_ex", "E_demag", "E_zeeman", "E_tot"]
        vols = {"vol": {"alpha_LLG": 0.3}}
        if mesh == "tet":
            self.m = single_tet(8.)
        elif mesh == "block":
            self.m = grid(2, 1, 1, (6., 6., 6.))
        else:
            self.m = grid(2, 1, 1, (6., 6., 6.), region=lambda i, j, k: ("vol", "air")[i])
            vols["air"] = {"Ms": 0}
        S = {"outputs": {"evol_time_step": step * PS, "final_time": tf * PS,
                         "mag_config_every": save if save else False, "evol_columns": self.cols, "file_basename": "o"},
             "mesh": {"filename": "m.msh", "volume_regions": vols},
             "initial_magnetization": list(mag), "Bext": list(field),
             "finite_element_solver": {"tolerance": tol},
             "time_integration": {"max(du)": du, "min(dt)": dtmin * PS, "max(dt)": dtmax * PS}}
        if t0 is not None:
            S["initial_time"] = t0 * PS
        self.files = {"m.msh": self.m.msh()}
        if sol_t is not None:
            S["initial_magnetization"] = "in.sol"
            n = len(self.m.nodes)
            self.files["in.sol"] = "## time: %.17g\n## columns: idx\tmx\tmy\tmz\tphi\n" % (sol_t * PS) + "".join(
                "%d\t0.6\t0.0\t0.8\t0\n" % i for i in range(n))
        if extra:
            for k, v in extra.items():
                if isinstance(v, dict):
                    S.setdefault(k, {}).update(v)
                else:
                    S[k] = v
        self.S = S
        self.files["s.yml"] = yaml_dump(S)
        self.start = (t0 if t0 is not None else (sol_t or 0.)) * PS
        self.n = int(round((tf * PS - self.start) / (step * PS)))

    def target(self, k):
        return self.start + k * self.step * PS

    def run(self, pool, script, env=None, post=None, args=("s.yml",), timeout=30):
        e = {"VERIF_SCRIPT": script, "VERIF_DUMAX": repr(self.du)}
        if env:
            e.update(env)
        return pool.run(self.files, args=args, env=e, post=post, timeout=timeout)


class Hist:
    """Everything observable of one run."""

    def __init__(self, cfg, script, res):
        self.cfg, self.script = cfg, script
        self.rc, self.sig, self.timeout, self.out, self.err = res.rc, res.sig, res.timeout, res.out, res.err
        self.status = res.status
        self.att = res.attempts()
        self.trace = res.trace
        t = res.read("o.evol")
        self.evol = None
        self.bad = None
        try:
            self.evol = Evol(t) if t is not None else None
        except ValueError as e:
            self.bad = "unreadable .evol: %s" % e
        self.sols = {}
        for f in res.files():
            if f.endswith(".sol") and f != "in.sol":
                try:
                    self.sols[f] = Sol(res.read(f))
                except (ValueError, IndexError) as e:
                    self.bad = "unreadable %s: %s" % (f, e)
        self.aborted = "**ABORTED**" in res.out

    def retained(self, i):
        """Whether attempt i was retained, judged from the solver's own outcome."""
        c, st, t, dt, du = self.att[i]
        return st == 0 and du <= self.cfg.du

    def replay(self):
        return dict(config=self.cfg.name, settings=self.cfg.S, script=self.script, status=self.status,
                    attempts=self.att[-8:], rows=self.evol.rows[-3:] if self.evol else None, files=sorted(self.sols))


def explore(pool, cfg, letters, bound, horizon, env=None, limit=10 ** 9):
    """Yield Hist of every script with at most `bound` non-default letters among the first `horizon`
    attempts (deviation-bounded, exhaustive).  Breadth first in the number of deviations."""
    run = lambda s: cfg.run(pool, s, env=env, post=lambda r: Hist(cfg, s, r))
    level = [""]
    total = 0
    for b in range(bound + 1):
        nxt = []
        for h in pool.imap(run, level):
            total += 1
            yield h
            if b < bound:
                n = min(len(h.att), horizon)
                for i in range(len(h.script), n):
                    for l in letters:
                        nxt.append(h.script + "A" * (i - len(h.script)) + l)
        level = nxt
        if total + len(level) > limit:
            raise SystemExit("HARNESS-ERROR: exploration larger than its declared limit")


def full_scripts(letters, depth):
    """all scripts of exactly `depth` letters"""
    out = [""]
    for _ in range(depth):
        out = [s + l for s in out for l in letters]
    return out
