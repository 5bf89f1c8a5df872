"""Runs of the real program on small meshes with chosen nodal magnetizations, compared with lib/ref.py."""
from vlib import *
import numpy as np
import ref as R

MU0 = 1.25663706127e-6          # CODATA 2022, T m/A
GAMMA0 = 1.76085962784e11 * MU0  # gamma_e * mu0
R.MU0 = MU0
NM = 1e-9


def in_sol(u, t=0., phi=None):
    return "## time: %.17g\n## columns: idx\tmx\tmy\tmz\tphi\n" % t + "".join(
        "%d\t%.17g\t%.17g\t%.17g\t%.17g\n" % (i, v[0], v[1], v[2], 0 if phi is None else phi[i]) for i, v in enumerate(u))


def settings(mats, surfs=None, B=(0, 0, 0), mag="in.sol", cols=None, step=1e-17, n=0, save=1, t0=None, dtmin=None, dtmax=None,
             du=0.5, tol=1e-12, extra=None):
    S = {"outputs": {"evol_time_step": step, "final_time": (t0 or 0.) + n * step, "mag_config_every": save,
                     "file_basename": "o", "evol_columns": cols or ["t", "<Mx>"]},
         "mesh": {"filename": "m.msh", "volume_regions": {k: {a: (list(b) if isinstance(b, (tuple, np.ndarray)) else b) for a, b in v.items()}
                                                         for k, v in mats.items()}},
         "initial_magnetization": mag if isinstance(mag, str) else list(mag),
         "finite_element_solver": {"tolerance": tol},
         "time_integration": {"max(du)": du, "min(dt)": dtmin or step / 10, "max(dt)": dtmax or step * 100}}
    if isinstance(B, dict):
        S.update(B)
    else:
        S["Bext"] = [x if isinstance(x, (str, int, float)) else float(x) for x in B]
    if surfs:
        S["mesh"]["surface_regions"] = {k: {a: (list(b) if isinstance(b, (tuple, np.ndarray)) else b) for a, b in v.items()}
                                        for k, v in surfs.items()}
    if t0 is not None:
        S["initial_time"] = t0
    for k, v in (extra or {}).items():
        if isinstance(v, dict) and k in S:
            S[k].update(v)
        else:
            S[k] = v
    return S


class Out:
    """what one run left: exit status, evol, list of Sol"""

    def __init__(self, res):
        self.rc, self.sig, self.timeout, self.status = res.rc, res.sig, res.timeout, res.status
        self.err, self.out = res.err[-2000:], res.out[-2000:]
        self.bad = None
        self.attempts = res.attempts()
        t = res.read("o.evol")
        self.evol = None
        self.sol = {}
        try:
            self.evol = Evol(t) if t is not None else None
            for f in res.files():
                m = re.fullmatch(r"o_iter(\d+)\.sol", f)
                if m:
                    self.sol[int(m.group(1))] = Sol(res.read(f))
        except Exception as e:  # unparsable output
            self.bad = "unreadable output: %r" % e

    @property
    def ok(self):
        return self.rc == 0 and not self.timeout and self.evol is not None and self.bad is None

    def row(self, k=-1):
        return dict(zip(self.evol.columns, self.evol.rows[k]))


def simulate(pool, mesh, S, u0=None, files=None, env=None, t0=0., args=("s.yml",), timeout=60):
    f = {"m.msh": mesh.msh(), "s.yml": yaml_dump(S)}
    if u0 is not None:
        f["in.sol"] = in_sol(u0, t0)
    f.update(files or {})
    return pool.run(f, args=args, env=env or {"VERIF_SCRIPT": ""}, post=Out, timeout=timeout)


def unitv(*v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


# a small alphabet of unit vectors: axes, a face diagonal, a generic direction
ALPHA = [unitv(1, 0, 0), unitv(0, 1, 0), unitv(0, 0, 1), unitv(-1, 0, 0), unitv(0, -1, 0), unitv(0, 0, -1),
         unitv(1, 1, 0), unitv(1, -2, 3)]
SMALL = [unitv(1, 0, 0), unitv(0, 0, 1), unitv(1, -2, 3), unitv(-.3, .9, .1)]
