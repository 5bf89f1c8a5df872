"""Independent reference (numpy, dense) of the stationary conduction and spin diffusion problems on P1 elements."""
from phys import *

MUB_E = 9.2740100657e-24 / 1.602176634e-19   # m^2/s per (A m / ...) : Bohr magneton over elementary charge
QE = 1.602176634e-19
GAMMA = GAMMA0


class Transport:
    """mats: region -> sigma, P, dens_state, l_sd, l_sf, Ms; surfs: name -> jn, uP, V, s"""

    def __init__(self, mesh, mats, surfs, scale=1e-9):
        self.mesh, self.mats, self.surfs = mesh, mats, surfs
        self.p = np.array(mesh.nodes) * scale
        self.N = len(self.p)
        self.T = np.array([t for _, t in mesh.tets])
        J = np.stack([self.p[self.T[:, k]] - self.p[self.T[:, 0]] for k in (1, 2, 3)], axis=2)
        self.vol = np.abs(np.linalg.det(J)) / 6
        self.da = np.einsum("ij,tjk->tik", np.array([[-1, -1, -1], [1, 0, 0], [0, 1, 0], [0, 0, 1.]]), np.linalg.inv(J))
        self.reg = [r for r, _ in mesh.tets]

    def par(self, k, default=0.):
        return np.array([self.mats[r].get(k, default) for r in self.reg], float)

    def potential(self):
        N = self.N
        K = np.zeros((N, N))
        sig = self.par("sigma")
        for e, t in enumerate(self.T):
            K[np.ix_(t, t)] += sig[e] * self.vol[e] * self.da[e] @ self.da[e].T
        b = np.zeros(N)
        V = np.full(N, np.nan)
        for name, f in self.mesh.tris:
            q = self.surfs.get(name, {})
            a, c, d = self.p[list(f)]
            S = np.linalg.norm(np.cross(c - a, d - a)) / 2
            if q.get("jn") is not None: b[list(f)] -= q["jn"] * S / 3
            if q.get("V") is not None: V[list(f)] = q["V"]
        self.K, self.b = K, b
        D = ~np.isnan(V)
        F = ~D
        self.D = D
        x = V.copy()
        x[F] = np.linalg.solve(K[np.ix_(F, F)], b[F] - K[np.ix_(F, D)] @ V[D])
        return x

    def spin(self, u, V, solve=True):
        """nodal spin accumulation for nodal magnetization u and potential V; nodes imposed by surfaces are fixed"""
        N = self.N
        A = np.zeros((N, 3, N, 3))
        b = np.zeros((N, 3))
        sig, P, N0, lsd, lsf, Ms = (self.par(k) for k in ("sigma", "P", "dens_state", "l_sd", "l_sf", "Ms"))
        D0 = 2 * sig / (QE ** 2 * N0)
        self.D0 = D0
        for e, t in enumerate(self.T):
            k = D0[e] * self.vol[e] * self.da[e] @ self.da[e].T
            for i in range(4):
                for j in range(4):
                    for c in range(3):
                        A[t[i], c, t[j], c] += k[i, j]
                m = self.vol[e] / 4
                for c in range(3):
                    A[t[i], c, t[i], c] += D0[e] / lsf[e] ** 2 * m
                if Ms[e] > 0:
                    mx, my, mz = u[t[i]] * (D0[e] / lsd[e] ** 2 * m)     # + (s x m)/tau_sd
                    B = A[t[i], :, t[i], :]
                    B += np.array([[0, mz, -my], [-mz, 0, mx], [my, -mx, 0]])
            if Ms[e] > 0:
                g = V[t] @ self.da[e]
                for i in range(4):
                    b[t[i]] += MUB_E * P[e] * sig[e] * self.vol[e] * (g @ self.da[e][i]) * u[t[i]]
        s = np.full((N, 3), np.nan)
        for name, f in self.mesh.tris:
            q = self.surfs.get(name, {})
            if q.get("s") is not None: s[list(f)] = q["s"]
            elif q.get("jn") is not None: s[list(f)] = -q["jn"] * MUB_E * unitv(*q["uP"])
        A = A.reshape(3 * N, 3 * N); b = b.ravel(); s = s.ravel()
        D = ~np.isnan(s); F = ~D
        self.A, self.rhs, self.F, self.imposed = A, b, F, s.copy()
        if solve and F.any():
            s[F] = np.linalg.solve(A[np.ix_(F, F)], b[F] - A[np.ix_(F, D)] @ s[D])
        return s.reshape(N, 3)

    def residual(self, u, V, s):
        """(norm-wise backward error of s on the free unknowns, deviation from the imposed values relative to the largest)"""
        self.spin(u, V, solve=False)
        F, D, x = self.F, ~self.F, s.ravel()
        A, b = self.A[F], self.rhs[F]
        r = A @ x - b
        be = np.linalg.norm(r) / (np.linalg.norm(A[:, F], 2) * np.linalg.norm(x[F]) + np.linalg.norm(b - A[:, D] @ self.imposed[D]))
        return be, np.abs(x[D] - self.imposed[D]).max() / np.abs(self.imposed[D]).max()

    def field(self, s, a):
        """effective field of the spin torque at the quadrature points of each element (a: 4 x NPI shape values)"""
        lsd, Ms = self.par("l_sd"), self.par("Ms")
        pre = np.where(Ms > 0, self.D0 / np.where(lsd > 0, lsd, 1) ** 2 / GAMMA / np.where(Ms > 0, Ms, 1), 0)
        return np.einsum("t,tic,in->tnc", pre, s[self.T], a)


CO = dict(Ae=1e-11, Ms=8e5, alpha_LLG=.05, P=.7, sigma=1.7e7, dens_state=1.34e47, l_sd=10e-9, l_sf=12.5e-9)
CU = dict(Ae=0., Ms=0., P=.2, sigma=5.8e7, dens_state=1.34e47, l_sf=50e-9)
PY = dict(Ae=1.3e-11, Ms=6e5, alpha_LLG=.1, P=.4, sigma=4e6, dens_state=9e46, l_sd=4e-9, l_sf=6e-9)
SIDES = ("x0", "x1", "y0", "y1", "z0", "z1")


def sides(nx, ny, nz, d, origin=(0., 0., 0.), region=None, which=SIDES):
    hi = [origin[k] + n * d[k] for k, n in enumerate((nx, ny, nz))]

    def surf(pts, tets):
        if len(tets) > 1: return None
        for k in range(3):
            for b, v in ((0, origin[k]), (1, hi[k])):
                n = "xyz"[k] + str(b)
                if n in which and all(abs(p[k] - v) < 1e-9 for p in pts): return n
        return None
    return grid(nx, ny, nz, d, origin, region, surf)


def spin_settings(mats, surfs, **kw):
    S = settings(mats, surfs, **kw)
    S["spin_accumulation"] = {"enable": True, "V_file": True}
    return S


def spin_cols(text):
    return np.array([[float(x) for x in l.split("\t")[5:8]] for l in text.splitlines() if l and l[0] != "#"])
