"""Independent reference model (numpy) of the discretised micromagnetic energies, potentials and LLG equation.
Written from the physics: P1 elements, quadrature exact for the polynomials involved (5/4-point rules) or the
one-point rules; magnetic charges on volumes and faces; Neel surface anisotropy; nodal (lumped) LLG."""
import math
import numpy as np

MU0 = 4e-7 * math.pi
GAMMA0 = 2.211e5  # overwritten from config.h by vlib users (see constants())


def constants(repo):
    import re
    t = open(repo + "/src/config.h.in").read()
    m = re.search(r"\bgamma0\s*=\s*([0-9.eE+-]+)", t)
    return float(m.group(1)) if m else None


TETQ = {0: (np.array([1/4, 1/6, 1/6, 1/6, 1/2]), np.array([1/4, 1/6, 1/6, 1/2, 1/6]), np.array([1/4, 1/6, 1/2, 1/6, 1/6]),
            np.array([-2/15, 3/40, 3/40, 3/40, 3/40])),
        1: (np.array([.25]), np.array([.25]), np.array([.25]), np.array([1/6]))}
TRIQ = {0: (np.array([1/3, 1/5, 3/5, 1/5]), np.array([1/3, 1/5, 1/5, 3/5]), np.array([-27/96, 25/96, 25/96, 25/96])),
        1: (np.array([1/3]), np.array([1/3]), np.array([.5]))}

DEFMAT = dict(Ae=1e-11, Ms=795774.7, K=0., uk=(0, 0, 1), K3=0., ex=(1, 0, 0), ey=(0, 1, 0), ez=(0, 0, 1), alpha_LLG=.5)
DEFSURF = dict(suppress_charges=False, Ks=0., uk=(0, 0, 1))


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


class Ref:
    def __init__(self, mesh, mats=None, surfs=None, scale=1e-9, one_gauss=0):
        mats = mats or {}
        surfs = surfs or {}
        self.p = np.array(mesh.nodes) * scale
        self.regions = [r for r, _ in mesh.tets]
        self.mat = {r: dict(DEFMAT, **mats.get(r, {})) for r in set(self.regions)}
        N = len(self.p)
        T = np.array([t for _, t in mesh.tets])
        p = self.p
        J = np.stack([p[T[:, k]] - p[T[:, 0]] for k in (1, 2, 3)], axis=2)  # columns are edges
        det = np.linalg.det(J)
        dadu = np.array([[-1, -1, -1], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
        self.da = np.einsum("ij,tjk->tik", dadu, np.linalg.inv(J))
        u, v, w, pds = TETQ[one_gauss]
        self.a = np.stack([1 - u - v - w, u, v, w])           # 4 x NPI
        self.w = np.abs(det)[:, None] * pds[None]             # t x NPI
        self.vol = np.abs(det) / 6
        self.T = T
        g = lambda k: np.array([self.mat[r][k] for r in self.regions], float)
        self.Ms, self.A, self.K, self.K3, self.al = g("Ms"), g("Ae"), g("K"), g("K3"), g("alpha_LLG")
        gu = lambda k: np.array([unit(self.mat[r][k]) for r in self.regions])
        self.uk, self.ex, self.ey, self.ez = gu("uk"), gu("ex"), gu("ey"), gu("ez")
        self.magT = self.Ms > 0
        self.magN = np.zeros(N, bool)
        self.magN[T[self.magT].ravel()] = True
        # faces
        faces = mesh.outer_faces()
        named = {tuple(sorted(t)): r for r, t in mesh.tris}
        F, Mn, sup, Ks, kuk, nrm, dM, fname = [], [], [], [], [], [], [], []
        for key, l in faces.items():
            if not (len(l) == 1 or key in named or self.regions[l[0][0]] != self.regions[l[1][0]]):
                continue
            f = l[0][1]
            n = np.cross(p[f[1]] - p[f[0]], p[f[2]] - p[f[0]])
            n /= np.linalg.norm(n)
            d = max(self.Ms[l[0][0]], 0) * 1.0
            d = self.Ms[l[0][0]] - (self.Ms[l[1][0]] if len(l) == 2 else 0)
            s = dict(DEFSURF, **surfs.get(named.get(key), {}))
            F.append(f); nrm.append(n); dM.append(d); sup.append(s["suppress_charges"]); Ks.append(s["Ks"]); kuk.append(unit(s["uk"]))
            fname.append(named.get(key))
        self.F = np.array(F); self.n = np.array(nrm); self.dM = np.array(dM); self.sup = np.array(sup)
        self.Ks = np.array(Ks); self.kuk = np.array(kuk); self.fname = fname
        self.anisF = self.magN[self.F].all(axis=1)            # may carry surface anisotropy
        self.magF = self.anisF & ~self.sup                    # may carry charges
        e1, e2 = p[self.F[:, 1]] - p[self.F[:, 0]], p[self.F[:, 2]] - p[self.F[:, 0]]
        self.S = 0.5 * np.linalg.norm(np.cross(e1, e2), axis=1)
        u, v, pds = TRIQ[one_gauss]
        self.fa = np.stack([1 - u - v, u, v])
        self.fw = 2 * self.S[:, None] * pds[None]
        self.edges = {tuple(sorted((t[i], t[j]))) for t in T for i in range(4) for j in range(i)}
        self.N = N
        self.magvol = self.vol[self.magT].sum()
        # LLG: nodal masses
        m = np.zeros(N); am = np.zeros(N)
        for t in np.where(self.magT)[0]:
            aw = self.a @ self.w[t]
            m[T[t]] += aw
            am[T[t]] += aw * self.al[t]
        self.m, self.am = m, am

    # -- helpers
    def gauss(self):
        return np.einsum("tid,ij->tjd", self.p[self.T], self.a)

    def fgauss(self):
        return np.einsum("fid,ij->fjd", self.p[self.F], self.fa)

    def gradU(self, u):
        """t,component,direction"""
        return np.einsum("tic,tid->tcd", u[self.T], self.da)

    # -- demag
    def phi(self, u):
        """potential at the magnetic nodes (0 elsewhere)"""
        mt, mf = self.magT, self.magF
        G = self.gradU(u)
        div = np.einsum("tcc->t", G)
        q = (-self.Ms[mt, None] * self.w[mt] * div[mt, None])
        gp = self.gauss()[mt]
        un = np.einsum("fid,fd->fi", u[self.F], self.n)[mf]       # nodal u.n
        qf = self.dM[mf, None] * self.fw[mf] * (un @ self.fa)
        gf = self.fgauss()[mf]
        src = np.concatenate([gp.reshape(-1, 3), gf.reshape(-1, 3)])
        Q = np.concatenate([q.ravel(), qf.ravel()])
        out = np.zeros(self.N)
        idx = np.where(self.magN)[0]
        d = np.linalg.norm(self.p[idx][:, None] - src[None], axis=2)
        out[idx] = (Q[None] / d).sum(axis=1)
        F = self.F[mf]
        for k in range(len(F)):
            for i in range(3):
                nod = F[k][i]
                out[nod] -= (qf[k] / np.linalg.norm(self.p[nod] - gf[k], axis=1)).sum()
                out[nod] += self.dM[mf][k] * self._corner(F[k], i, un[k], self.S[mf][k])
        return out / (4 * math.pi)

    def _corner(self, f, i, s, S):
        """integral over a triangle of a linear density s, divided by the distance to its corner i."""
        p1, p2, p3 = (self.p[f[(i + k) % 3]] for k in range(3))
        s1, s2, s3 = (s[(i + k) % 3] for k in range(3))
        # polar coordinates around p1:  int_0^th r dr/r ... = int over the opposite edge
        # point on the opposite edge x(t)=p2+t(p3-p2); triangle = {p1+r(x-p1)}, dS = 2S r dr dt
        # density at (r,t) = s1(1-r)+r((1-t)s2+t s3) ; distance = r|x-p1|
        # => int_0^1 dt 2S/|x-p1| * (s1/2 + ((1-t)s2+t s3)/2)
        e = p3 - p2; o = p2 - p1
        A = e @ e; B = o @ e; C = o @ o
        # I0 = int dt / sqrt(A t^2+2Bt+C) ; I1 = int t dt / sqrt(...)
        sa = math.sqrt(A)
        R = lambda t: math.sqrt(max(A * t * t + 2 * B * t + C, 0))
        I0 = (math.log((A + B) / sa + R(1)) - math.log(B / sa + R(0))) / sa if B / sa + R(0) > 1e-12 * R(0) else \
            (-math.log(-(A + B) / sa + R(1)) + math.log(-B / sa + R(0))) / sa
        I1 = (R(1) - R(0)) / A - B / A * I0
        return S * (s1 * I0 + s2 * (I0 - I1) + s3 * I1)

    # -- energies
    def energies(self, u, phi, H):
        """H: (3,) or array t x NPI x 3.  Returns dict ex, aniso, demag, zeeman, tot"""
        mt = self.magT
        uT = np.where(self.magN[:, None], u, 0)
        G = self.gradU(uT)
        U = np.einsum("tic,ij->tjc", uT[self.T], self.a)
        ph = np.einsum("ti,ij->tj", phi[self.T], self.a)
        w = self.w
        ex = (self.A * w.sum(1) * (G ** 2).sum((1, 2)))[mt].sum()
        ku = np.einsum("tjc,tc->tj", U, self.uk)
        an = (-self.K[:, None] * w * ku ** 2)[mt].sum()
        c = [np.einsum("tjc,tc->tj", U, e) for e in (self.ex, self.ey, self.ez)]
        an += (self.K3[:, None] * w * ((c[0] * c[1]) ** 2 + (c[1] * c[2]) ** 2 + (c[2] * c[0]) ** 2))[mt].sum()
        div = np.einsum("tcc->t", G)
        dm = (-.5 * MU0 * self.Ms[:, None] * w * div[:, None] * ph)[mt].sum()
        Hq = np.broadcast_to(np.asarray(H, float), U.shape)
        ze = (-MU0 * self.Ms[:, None] * w * (U * Hq).sum(2))[mt].sum()
        mf = self.magF
        uf = np.einsum("fic,ij->fjc", uT[self.F], self.fa)
        pf = np.einsum("fi,ij->fj", phi[self.F], self.fa)
        an += (-self.Ks[:, None] * self.fw * np.einsum("fjc,fc->fj", uf, self.kuk) ** 2)[self.anisF].sum()
        dm += (.5 * MU0 * self.dM[:, None] * self.fw * np.einsum("fjc,fc->fj", uf, self.n) * pf)[mf].sum()
        return dict(E_ex=ex, E_aniso=an, E_demag=dm, E_zeeman=ze, E_tot=ex + an + dm + ze)

    def esc(self, u, phi, H):
        """scale of each energy term, for tolerances"""
        mt = self.magT
        uT = np.where(self.magN[:, None], u, 0)
        V = self.magvol
        Hm = np.abs(np.asarray(H, float)).max() if np.size(H) else 0
        m = self.Ms.max()
        ph = np.abs(phi).max()
        G = self.gradU(uT)
        dv = np.abs(G).sum((1, 2))
        Sf = self.S.sum()
        return dict(E_ex=(self.A * self.vol * (G ** 2).sum((1, 2)))[mt].sum(),
                    E_aniso=(np.abs(self.K) + np.abs(self.K3)).max() * V + np.abs(self.Ks).max() * Sf if len(self.Ks) else 0,
                    E_demag=MU0 * m * (ph * (self.vol * dv)[mt].sum() + ph * Sf), E_zeeman=MU0 * m * Hm * V)

    def avg(self, u, region=None):
        sel = self.magT if region is None else self.magT & (np.array(self.regions) == region)
        uT = np.where(self.magN[:, None], u, 0)
        U = np.einsum("tic,ij->tjc", uT[self.T], self.a)
        tot = (self.w[..., None] * U)[sel].sum((0, 1))
        vol = self.magvol if region is None else self.vol[np.array(self.regions) == region].sum()
        return tot / vol

    def thiele(self, u, region=None):
        sel = self.magT if region is None else self.magT & (np.array(self.regions) == region)
        uT = np.where(self.magN[:, None], u, 0)
        G = self.gradU(uT)
        s = ((G[:, :, 2] ** 2).sum(1) * self.w.sum(1))[sel].sum()
        vol = self.magvol if region is None else self.vol[np.array(self.regions) == region].sum()
        L = np.ptp(self.p[:, 2])
        return 2 * vol / L / s if s else math.inf

    def max_angle(self, u):
        e = [(i, j) for i, j in self.edges if self.magN[i] and self.magN[j]]
        if not e:
            return 0.
        i, j = np.array(e).T
        c = (u[i] * u[j]).sum(1).min()
        return math.acos(max(-1., min(1., min(c, 1.))))

    # -- LLG
    def force(self, u, phi, H, parts=False):
        """nodal right-hand side: integral of a_i * (effective field), per node"""
        mt = self.magT
        uT = np.where(self.magN[:, None], u, 0)
        G = self.gradU(uT)
        U = np.einsum("tic,ij->tjc", uT[self.T], self.a)
        Ms = np.where(mt, self.Ms, 1)
        B = np.zeros((self.N, 3))
        # exchange
        fx = -(2 * self.A / (MU0 * Ms))[:, None, None] * self.w.sum(1)[:, None, None] * np.einsum("tid,tcd->tic", self.da, G)
        Hf = np.broadcast_to(np.asarray(H, float), U.shape).copy()
        Hf -= np.einsum("ti,tid->td", phi[self.T], self.da)[:, None, :]
        Hf += (2 * self.K / (MU0 * Ms))[:, None, None] * np.einsum("tjc,tc->tj", U, self.uk)[..., None] * self.uk[:, None, :]
        for e in (self.ex, self.ey, self.ez):
            c = np.einsum("tjc,tc->tj", U, e)
            Hf += -(2 * self.K3 / (MU0 * Ms))[:, None, None] * (c * (1 - c * c))[..., None] * e[:, None, :]
        fx = fx + np.einsum("tj,ij,tjc->tic", self.w, self.a, Hf)
        np.add.at(B, self.T[mt], fx[mt])
        # surface anisotropy
        for k in np.where(self.anisF & (self.Ks != 0))[0]:
            uf = np.einsum("ic,ij->jc", uT[self.F[k]], self.fa)
            h = 2 * self.Ks[k] / (MU0 * abs(self.dM[k])) * (uf @ self.kuk[k])[:, None] * self.kuk[k][None]
            B[self.F[k]] += np.einsum("j,ij,jc->ic", self.fw[k], self.fa, h)
        return B

    def velocity(self, u, phi, H, gamma0):
        """du/dt of the LLG equation, alpha v + u x v = gamma0 H_perp, lumped at the nodes"""
        B = self.force(u, phi, H)
        b = B - u * (u * B).sum(1)[:, None]
        # a v + m u x v = b, v perp u  ->  v = (a b - m u x b)/(a^2+m^2)
        a, m = np.where(self.magN, self.am, 1.)[:, None], np.where(self.magN, self.m, 1.)[:, None]
        return np.where(self.magN[:, None], (a * b - m * np.cross(u, b)) / (a * a + m * m) * gamma0, 0.)
