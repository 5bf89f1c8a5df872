// Every non-degenerate tetrahedron and triangle on a small lattice, in every vertex order, through the
// element classes; the oracle is exact integration of products of affine functions.
#include <vector>
#include <cmath>
#include <array>
#include <sstream>
#include "tetra.h"
#include "mc.h"
using V3 = Eigen::Vector3d;
static bool bad(double a, double b, double s, double tol = 1e-10) { return !(std::fabs(a - b) <= tol * s); }
struct Aff { double c; V3 g; double operator()(const V3 &p) const { return c + g.dot(p); } };
struct Frame { const char *name; V3 s, o; };
static const Frame FR[] = {{"unit lattice", V3(1, 1, 1), V3(0, 0, 0)}, {"nm lattice", V3(1e-9, 1e-9, 1e-9), V3(0, 0, 0)},
    {"stretched, shifted", V3(1, 16, 0.25), V3(-5, 3, -7)}, {"nm, shifted", V3(2e-9, 3e-9, 1e-9), V3(-4e-8, -1e-8, 2e-8)}};
static std::string desc(const Frame &f, const std::vector<V3> &q, const int *o, int n)
    {
    std::ostringstream s; s << f.name << ", vertices";
    for (int i = 0; i < n; i++) s << " (" << q[o[i]].transpose() << ")";
    return s.str();
    }
static double det(const V3 &a, const V3 &b, const V3 &c) { return a.dot(b.cross(c)); }
// exact integral of f g h over a simplex of measure V with nv vertices
static double exact(double V, int nv, const double *f, const double *g, const double *h, int deg)
    {
    double sf = 0, sg = 0, sh = 0, fg = 0, fh = 0, gh = 0, fgh = 0;
    for (int i = 0; i < nv; i++) { sf += f[i]; sg += g[i]; sh += h[i]; fg += f[i]*g[i]; fh += f[i]*h[i]; gh += g[i]*h[i]; fgh += f[i]*g[i]*h[i]; }
    int d = nv - 1;
    if (deg == 1) return V * sf / nv;
    if (deg == 2) return V * (sf * sg + fg) / ((d + 1) * (d + 2));
    return V * (sf * sg * sh + fg * sh + fh * sg + gh * sf + 2 * fgh) / ((d + 1) * (d + 2) * (d + 3));
    }
template <class E, int NV, int NPI>
static void quad(const E &e, const Frame &fr, const std::vector<V3> &pt, double meas, const char *kind, const std::string &(*)(void), const std::function<std::string()> &D)
    {
    auto G = e.getPtGauss();
    double w = 0; for (int j = 0; j < NPI; j++) w += e.weight[j];
    if (bad(w, meas, meas)) mc::viol("%s %s: weights sum to %.17g, measure is %.17g", kind, D().c_str(), w, meas);
    V3 o = fr.o + fr.s;                       // centre the monomials, in units of the frame
    const int maxdeg = NPI == 1 ? 1 : 3;
    double val[3][NV];
    for (int i = 0; i < NV; i++) for (int k = 0; k < 3; k++) val[k][i] = (pt[i][k] - o[k]) / fr.s[k];
    auto at = [&](int k, int j) { return (G(k, j) - o[k]) / fr.s[k]; };
    for (int a = 0; a < 3; a++)
        {
        double q = 0; for (int j = 0; j < NPI; j++) q += e.weight[j] * at(a, j);
        double ex = exact(meas, NV, val[a], val[a], val[a], 1);
        if (bad(q, ex, meas)) mc::viol("%s %s: integral of coordinate %d is %.17g, exact %.17g", kind, D().c_str(), a, q, ex);
        if (maxdeg >= 2) for (int b = a; b < 3; b++)
            {
            q = 0; for (int j = 0; j < NPI; j++) q += e.weight[j] * at(a, j) * at(b, j);
            ex = exact(meas, NV, val[a], val[b], val[b], 2);
            if (bad(q, ex, meas)) mc::viol("%s %s: integral of coordinates %d*%d is %.17g, exact %.17g", kind, D().c_str(), a, b, q, ex);
            for (int c = b; c < 3; c++)
                {
                q = 0; for (int j = 0; j < NPI; j++) q += e.weight[j] * at(a, j) * at(b, j) * at(c, j);
                ex = exact(meas, NV, val[a], val[b], val[c], 3);
                if (bad(q, ex, meas)) mc::viol("%s %s: integral of coordinates %d*%d*%d is %.17g, exact %.17g", kind, D().c_str(), a, b, c, q, ex);
                }
            }
        }
    mc::transitions += maxdeg >= 3 ? 19 : 3;
    }
static void tetra(const Frame &fr, const std::vector<V3> &q, const int *o)
    {
    using namespace Tetra;
    std::vector<Nodes::Node> nd(4);
    std::vector<V3> pt(4);
    for (int i = 0; i < 4; i++) nd[i].p = pt[i] = fr.o + fr.s.cwiseProduct(q[o[i]]);
    const double U[4][3] = {{.3, -.2, .9}, {-.5, .7, .1}, {.2, .2, -.8}, {.9, -.4, .05}};
    for (int i = 0; i < 4; i++)
        {
        for (int s = 0; s < 2; s++) { nd[i].d[s].u = nd[i].d[s].v = V3(0, 0, 0); nd[i].d[s].phi = nd[i].d[s].phiv = 0; }
        nd[i].d[Nodes::CURRENT].u = nd[i].d[Nodes::NEXT].u = V3(U[i][0], U[i][1], U[i][2]);
        }
    auto D = [&]() { return desc(fr, q, o, 4); };
    const double vol = std::fabs(det(q[o[1]] - q[o[0]], q[o[2]] - q[o[0]], q[o[3]] - q[o[0]])) / 6 * fr.s.prod();
    Tet t(nd, 0, {1, 2, 3, 4});
    mc::states++;
    std::array<int, 4> s = t.ind; std::sort(s.begin(), s.end());
    if (s != std::array<int, 4>{0, 1, 2, 3}) mc::viol("tetrahedron %s: vertex list is no longer a permutation", D().c_str());
    const V3 &p0 = nd[t.ind[0]].p;
    if (!(det(nd[t.ind[1]].p - p0, nd[t.ind[2]].p - p0, nd[t.ind[3]].p - p0) > 0)) mc::viol("tetrahedron %s: not oriented positively after construction", D().c_str());
    if (bad(t.calc_vol(), vol, vol)) mc::viol("tetrahedron %s: volume %.17g, exact %.17g", D().c_str(), t.calc_vol(), vol);
    quad<Tet, 4, NPI>(t, fr, pt, vol, "tetrahedron", nullptr, D);
    auto G = t.getPtGauss();
    const double h = fr.s.maxCoeff(), m = fr.s.minCoeff();
    // affine functions with every gradient direction: interpolation and derivatives are exact
    static const double GR[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {.7, 1, -2, 3}};
    Aff f[5];
    for (int k = 0; k < 5; k++) { f[k].c = GR[k][0]; f[k].g = V3(GR[k][1] / fr.s[0], GR[k][2] / fr.s[1], GR[k][3] / fr.s[2]); }
    const double SC = 60, GS = 60 / m;
    for (int k = 0; k < 5; k++)
        {
        Eigen::Matrix<double, NPI, 1> r;
        const std::function<double(Nodes::Node)> get = [&](Nodes::Node n) { return f[k](n.p); };
        t.interpolation(get, r);
        Eigen::Matrix<double, 3, NPI> X;
        t.interpolation_field(get, X);
        std::vector<double> pv(4);
        for (int i = 0; i < 4; i++) pv[i] = f[k](nd[i].p);
        Eigen::Matrix<double, 3, NPI> gv = calc_gradV(t, pv);
        for (int j = 0; j < NPI; j++)
            {
            if (bad(r[j], f[k](G.col(j)), SC)) mc::viol("tetrahedron %s: affine function %d interpolates to %.17g at integration point %d, exact %.17g", D().c_str(), k, r[j], j, f[k](G.col(j)));
            for (int c = 0; c < 3; c++)
                {
                if (bad(X(c, j), -f[k].g[c], GS)) mc::viol("tetrahedron %s: minus gradient of affine function %d is %.17g along %d, exact %.17g", D().c_str(), k, X(c, j), c, -f[k].g[c]);
                if (bad(gv(c, j), f[k].g[c], GS)) mc::viol("tetrahedron %s: gradient (calc_gradV) of affine function %d is %.17g along %d, exact %.17g", D().c_str(), k, gv(c, j), c, f[k].g[c]);
                }
            }
        const std::function<double(Nodes::Node, Nodes::index)> geti = [&](Nodes::Node n, Nodes::index i) { return f[(k + int(i)) % 5](n.p); };
        for (int i = 0; i < 3; i++)
            {
            t.interpolation(geti, (Nodes::index)i, r);
            for (int j = 0; j < NPI; j++) if (bad(r[j], f[(k + i) % 5](G.col(j)), SC)) mc::viol("tetrahedron %s: component %d interpolates wrongly", D().c_str(), i);
            }
        mc::transitions += 5;
        }
    Eigen::Matrix<double, 3, NPI> r, Tx, Ty, Tz;
    const std::function<V3(Nodes::Node)> getv = [&](Nodes::Node n) { return V3(f[4](n.p), f[1](n.p) - f[3](n.p), f[2](n.p) * 2 - f[0](n.p)); };
    t.interpolation(getv, r, Tx, Ty, Tz);
    for (int j = 0; j < NPI; j++)
        {
        V3 p = G.col(j);
        V3 e(f[4](p), f[1](p) - f[3](p), f[2](p) * 2 - f[0](p));
        V3 g[3] = {f[4].g, f[1].g - f[3].g, f[2].g * 2 - f[0].g};
        for (int c = 0; c < 3; c++)
            if (bad(r(c, j), e[c], SC) || bad(Tx(c, j), g[c][0], GS) || bad(Ty(c, j), g[c][1], GS) || bad(Tz(c, j), g[c][2], GS))
                mc::viol("tetrahedron %s: vector interpolation or its derivatives wrong for component %d", D().c_str(), c);
        }
    // lumped masses and stiffness
    Eigen::Matrix<double, NPI, 1> a1; a1.setConstant(0.75);
    Eigen::Matrix<double, 12, 12> AE; AE.setZero();
    t.lumping(a1, 0., AE);
    for (int b = 0; b < 3; b++)
        {
        double d = 0, off = 0;
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) (i == j ? d : off) += AE(4 * b + i, 4 * b + j);
        if (bad(d, .75 * vol, vol) || bad(off, 0, vol)) mc::viol("tetrahedron %s: lumped damping masses sum to %.17g (+ %.17g off diagonal), expected 0.75*volume=%.17g", D().c_str(), d, off, .75 * vol);
        for (int i = 0; i < 4; i++) if (bad(AE(4 * b + i, 4 * b + i), .75 * vol / 4, vol)) mc::viol("tetrahedron %s: lumped mass of vertex %d is not a quarter of the volume", D().c_str(), i);
        }
    // cross product part: row block a, column block b holds -eps_abc u_c V/4 on the diagonal
    for (int i = 0; i < 4; i++)
        {
        V3 u = nd[t.ind[i]].d[Nodes::CURRENT].u;
        double E[3][3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}};
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b)
            for (int j = 0; j < 4; j++)
                if (bad(AE(4 * a + i, 4 * b + j), i == j ? E[a][b] * vol / 4 : 0, vol)) mc::viol("tetrahedron %s: lumped precession block (%d,%d) vertex %d is %.17g, expected %.17g", D().c_str(), a, b, i, AE(4 * a + i, 4 * b + j), E[a][b] * vol / 4);
        }
    Eigen::Matrix<double, 12, 12> BE; BE.setZero();
    t.lumping(a1, 2.5, BE);
    BE -= AE;
    for (int k = 0; k < 5; k++) for (int l = 0; l < 5; l++)
        {
        double qf = 0;
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) qf += f[k](nd[t.ind[i]].p) * BE(i, j) * f[l](nd[t.ind[j]].p);
        double ex = 2.5 * vol * f[k].g.dot(f[l].g);
        if (bad(qf, ex, vol * 3e4 / (m * m))) mc::viol("tetrahedron %s: stiffness of affine functions %d,%d is %.17g, exact %.17g", D().c_str(), k, l, qf, ex);
        }
    mc::transitions += 40;
    mc::traces++;
    (void)h;
    }
static void triangle(const Frame &fr, const std::vector<V3> &q, const int *o)
    {
    using namespace Triangle;
    std::vector<Nodes::Node> nd(3);
    std::vector<V3> pt(3);
    for (int i = 0; i < 3; i++) nd[i].p = pt[i] = fr.o + fr.s.cwiseProduct(q[o[i]]);
    auto D = [&]() { return desc(fr, q, o, 3); };
    V3 cr = (fr.s.cwiseProduct(q[o[1]] - q[o[0]])).cross(fr.s.cwiseProduct(q[o[2]] - q[o[0]]));
    double area = cr.norm() / 2;
    Tri t(nd, 0, {1, 2, 3});
    mc::states++;
    if (t.ind != std::array<int, 3>{0, 1, 2}) mc::viol("triangle %s: vertex order changed", D().c_str());
    if (bad(t.surf, area, area) || bad(t.calc_surf(), area, area)) mc::viol("triangle %s: area %.17g / %.17g, exact %.17g", D().c_str(), t.surf, t.calc_surf(), area);
    V3 n = cr / cr.norm();
    if (!((t.n - n).norm() < 1e-10) || !((t.calc_norm() - n).norm() < 1e-10)) mc::viol("triangle %s: wrong unit normal", D().c_str());
    quad<Tri, 3, NPI>(t, fr, pt, area, "triangle", nullptr, D);
    auto G = t.getPtGauss();
    Aff f[3] = {{1, V3(0, 0, 0)}, {.5, V3(1 / fr.s[0], -2 / fr.s[1], 3 / fr.s[2])}, {0, V3(0, 1 / fr.s[1], 1 / fr.s[2])}};
    Eigen::Matrix<double, NPI, 1> r;
    for (auto &g : f)
        {
        t.interpolation(std::function<double(Nodes::Node)>([&](Nodes::Node x) { return g(x.p); }), r);
        for (int j = 0; j < NPI; j++) if (bad(r[j], g(G.col(j)), 60)) mc::viol("triangle %s: affine function interpolates to %.17g at integration point %d, exact %.17g", D().c_str(), r[j], j, g(G.col(j)));
        }
    Eigen::Matrix<double, 3, NPI> rv;
    t.interpolation(std::function<V3(Nodes::Node)>([&](Nodes::Node x) { return V3(f[0](x.p), f[1](x.p), f[2](x.p)); }), rv);
    for (int j = 0; j < NPI; j++) for (int c = 0; c < 3; c++) if (bad(rv(c, j), f[c](G.col(j)), 60)) mc::viol("triangle %s: vector interpolation wrong", D().c_str());
    mc::transitions += 10; mc::traces++;
    }
int main(int argc, char **argv)
    {
    mc::init(argc, argv);
    std::vector<V3> q;
    const int L = 3;
    for (int i = 0; i < L; i++) for (int j = 0; j < L; j++) for (int k = 0; k < L; k++) q.push_back(V3(i, j, k));
    const int n = q.size(), nf = mc::thorough ? 4 : 4;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < n; c++)
        {
        if ((q[b] - q[a]).cross(q[c] - q[a]).norm() < .5) continue;
        bool m = mc::mine();
        if (m) for (int f = 0; f < 4; f++) { int o[3] = {a, b, c}; do triangle(FR[f], q, o); while (std::next_permutation(o, o + 3)); }
        for (int d = c + 1; d < n; d++)
            {
            if (std::fabs(det(q[b] - q[a], q[c] - q[a], q[d] - q[a])) < .5) continue;
            if (!mc::mine()) continue;
            for (int f = 0; f < nf; f++)
                {
                if (!mc::thorough && f && (a + b + c + d) % 4 != f) continue;      // quick: one further frame per shape
                int o[4] = {a, b, c, d};
                do tetra(FR[f], q, o); while (std::next_permutation(o, o + 4));
                }
            }
        }
    return mc::done();
    }
