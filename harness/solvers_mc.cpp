// Exhaustive enumeration of small linear systems through the repository's iterative solvers.
#include <vector>
#include <cmath>
#include <limits>
#include <sstream>
#include "algebra/algebra.h"
#include "algebra/cg.h"
#include "algebra/bicg.h"
#include "mc.h"
using namespace algebra;
typedef std::vector<double> V;
typedef std::vector<V> M;
static double worst = 0;

static SparseMatrix *build(const M &a)
    {
    int n = a.size();
    MatrixShape sh(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j || a[i][j] != 0) sh[i].insert(j);
    SparseMatrix *s = new SparseMatrix(sh);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (a[i][j] != 0) s->add(i, j, a[i][j]);
    return s;
    }
static std::string str(const V &v) { std::ostringstream o; o << '['; for (double x : v) o << x << ' '; o << ']'; return o.str(); }
static std::string str(const M &m) { std::string s; for (auto &r : m) s += str(r); return s; }
enum { CG, BICG, CG_DIR, BICG_DIR, BICG_MASK };
static const char *NAME[] = {"cg", "bicg", "cg_dir", "bicg_dir (imposed values)", "bicg_dir (mask)"};

// one solve; must = the system has to be solved
static bool one(int kind, const M &a, const V &rhs, const V &x0, const std::vector<int> &ld, const V &xd, double tol, int maxit, bool must,
                iteration<double> *reuse = nullptr)
    {
    int n = a.size();
    SparseMatrix *A = build(a);
    V x(x0);
    bool dir = kind >= CG_DIR, rhsnz = false;   // the criterion is relative: out of reach for a null right-hand side
    for (double v : rhs) rhsnz = rhsnz || v != 0;
    std::vector<char> fixed(n, 0);
    if (dir) for (int i : ld) { fixed[i] = 1; x[i] = 0; }
    iteration<double> own("mc", tol, false, maxit);
    iteration<double> &it = reuse ? *reuse : own;
    double ret = -1;
    alarm(20);
    switch (kind)
        {
        case CG: cg(it, *A, x, rhs); break;
        case BICG: bicg(it, *A, x, rhs); break;
        case CG_DIR: cg_dir(it, *A, x, rhs, xd, ld); break;
        case BICG_DIR: bicg_dir(it, *A, x, rhs, xd, ld); break;
        case BICG_MASK: ret = bicg_dir(it, *A, x, rhs, ld); break;
        }
    alarm(0);
    delete A;
    mc::states++; mc::transitions += it.get_iteration() + 1;
    auto desc = [&]() { std::ostringstream o; o << NAME[kind] << " A=" << str(a) << " b=" << str(rhs) << " x0=" << str(x0);
        if (dir) { o << " imposed:"; for (int i : ld) o << ' ' << i << '=' << (kind == BICG_MASK ? 0. : xd[i]); } o << " tol=" << tol << " maxiter=" << maxit
        << ": status " << it.status << " after " << it.get_iteration() << ", x=" << str(x); return o.str(); };
    if (it.get_iteration() > maxit) { mc::viol("%s: more iterations than allowed", desc().c_str()); return false; }
    if (it.status != CONVERGED && it.status != ITER_OVERFLOW && it.status != CANNOT_CONVERGE) { mc::viol("%s: no verdict", desc().c_str()); return false; }
    if (dir && kind != BICG_MASK && it.status == CONVERGED)
        for (int i : ld) if (!(x[i] == xd[i])) { mc::viol("%s: component %d does not hold the imposed value", desc().c_str(), i); return false; }
    if (dir && kind == BICG_MASK && it.status == CONVERGED)
        for (int i : ld) if (!(x[i] == 0)) { mc::viol("%s: masked component %d moved", desc().c_str(), i); return false; }
    if (it.status == CONVERGED)
        {
        // reference right-hand side and residual on the free unknowns, in long double
        long double b2 = 0, r2 = 0, sc = 0;
        for (int i = 0; i < n; i++) if (!fixed[i])
            {
            long double bi = rhs[i], ri = rhs[i], s = fabsl(rhs[i]);
            for (int j = 0; j < n; j++)
                {
                if (fixed[j] && kind != BICG_MASK) bi -= (long double)a[i][j] * xd[j];
                ri -= (long double)a[i][j] * x[j];
                s += fabsl((long double)a[i][j] * x[j]);
                }
            b2 += bi * bi; r2 += ri * ri; if (s > sc) sc = s;
            }
        if (b2 == 0) { for (int i = 0; i < n; i++) if (!fixed[i]) { long double ri = 0; for (int j = 0; j < n; j++) if (!fixed[j]) ri += (long double)a[i][j] * x0[j]; b2 += ri * ri; } }
        double lim = std::max(10 * tol, 1e-10) * sqrtl(b2) * (1 + 1e-6) + 1e-13 * (double)sc;
        double r = sqrtl(r2);
        if (r / lim > worst) worst = r / lim;
        if (!(r <= lim)) { mc::viol("%s: reported as converged, true residual %g, tolerated %g", desc().c_str(), r, tol * (double)sqrtl(b2)); return false; }
        if (kind == BICG_MASK && rhsnz && it.get_rhsnorm() > 0 && !(ret <= tol * (1 + 1e-9))) { mc::viol("%s: returned residue %g", desc().c_str(), ret); return false; }
        }
    else if (must && rhsnz) { mc::viol("%s: a well-conditioned system is not solved", desc().c_str()); return false; }
    return true;
    }

static bool dominant(const M &a, const std::vector<int> &ld)
    {
    int n = a.size();
    for (int i = 0; i < n; i++)
        {
        double s = 0;
        for (int j = 0; j < n; j++) if (j != i) s += fabs(a[i][j]);
        if (a[i][i] < 1.5 * s) return false;
        }
    return true;
    }
static bool spd(const M &a)
    {
    int n = a.size();
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (a[i][j] != a[j][i]) return false;
    M l = a;
    for (int k = 0; k < n; k++)
        {
        if (l[k][k] < 0.05) return false;   // well away from singular
        for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) l[i][j] -= l[i][k] * l[k][j] / l[k][k];
        }
    return true;
    }

static void explore(const M &a, const std::vector<V> &bs, const std::vector<V> &x0s, const std::vector<V> &xds, const std::vector<double> &tols,
                    const std::vector<int> &maxits)
    {
    int n = a.size();
    bool isspd = spd(a);
    for (int mask = 0; mask < (1 << n); mask++)
        {
        std::vector<int> ld;
        for (int i = n - 1; i >= 0; i--) if (mask >> i & 1) ld.push_back(i);
        bool dom = isspd && dominant(a, ld);   // bicgstab may break down, honestly, on the others
        for (auto &b : bs) for (auto &x0 : x0s) for (double tol : tols) for (int mi : maxits)
            {
            bool room = mi >= 100;
            if (mask == 0)
                {
                one(CG, a, b, x0, ld, b, tol, mi, room && isspd);
                one(BICG, a, b, x0, ld, b, tol, mi, room && dom);
                }
            one(BICG_MASK, a, b, x0, ld, b, tol, mi, room && dom);
            for (auto &xv : xds)
                {
                V xd(n, 0.);
                for (int i : ld) xd[i] = xv[i];
                one(CG_DIR, a, b, x0, ld, xd, tol, mi, room && isspd);
                one(BICG_DIR, a, b, x0, ld, xd, tol, mi, room && dom);
                if (mask == 0) break;
                }
            }
        }
    mc::traces++;
    }

static void vectors(const V &alpha, int n, std::vector<V> &out)
    {
    long t = 1; for (int i = 0; i < n; i++) t *= alpha.size();
    for (long k = 0; k < t; k++) { V v(n); long q = k; for (int i = 0; i < n; i++) { v[i] = alpha[q % alpha.size()]; q /= alpha.size(); } out.push_back(v); }
    }

static void matrices(int n, const V &diag, const V &off, const std::vector<V> &bs, const std::vector<V> &x0s, const std::vector<V> &xds, const std::vector<double> &tols,
                     const std::vector<int> &mi)
    {
    int no = n * n - n;
    long long td = 1, to = 1;
    for (int i = 0; i < n; i++) td *= diag.size();
    for (int i = 0; i < no; i++) to *= off.size();
    for (long long d = 0; d < td; d++) for (long long o = 0; o < to; o++)
        {
        if (!mc::mine()) continue;
        M a(n, V(n));
        long long q = o, e = d;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
            if (i == j) { a[i][j] = diag[e % diag.size()]; e /= diag.size(); }
            else { a[i][j] = off[q % off.size()]; q /= off.size(); }
        explore(a, bs, x0s, xds, tols, mi);
        }
    }

int main(int argc, char **argv)
    {
    mc::init(argc, argv);
    bool T = mc::thorough;
    {
    std::vector<V> bs, x0s, xds;
    vectors({0, 1, -2}, 2, bs); x0s = {{0, 0}, {1, -1}}; xds = {{0, 0}, {2, -3}};
    matrices(2, {-3, .5, 1, 2}, {-2, -1, 0, .5, 3}, bs, x0s, xds, {1e-6, 1e-10}, {1, 2, 3, 100});
    }
    {
    std::vector<V> bs = {{1, 0, 0}, {1, -2, .5}, {0, 0, 0}, {1, 1, 1}}, x0s = {{0, 0, 0}}, xds = {{1, -1, 2}};
    if (T) { x0s.push_back({1, 2, -1}); bs.push_back({0, 1, -1}); }
    matrices(3, T ? V{1, -2, 4} : V{1, 4}, {-1, 0, 1.5}, bs, x0s, xds, {1e-8}, {1, 4, 100});
    }
    {   // larger systems: every choice of couplings along a chain, a ring or a full graph, with every constant diagonal
    for (int n = 4; n <= (T ? 6 : 5); n++)
        {
        std::vector<V> bs, x0s = {V(n, 0.)}, xds;
        V b(n), c(n, 1.), x(n);
        for (int i = 0; i < n; i++) { b[i] = 1 + i * (i % 2 ? -1. : 1.); x[i] = i - 1.5; }
        bs = {b, c}; xds = {x};
        for (int topo = 0; topo < 3; topo++) for (double d : {2., 2.5, 3., 10.})
            {
            std::vector<std::pair<int, int>> e;
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
                if (topo == 2 || j == i + 1 || (topo == 1 && i == 0 && j == n - 1)) e.push_back({i, j});
            int k = e.size();
            if (k > 8) k = 8;
            long t = 1; for (int i = 0; i < k; i++) t *= 3;
            for (long q = 0; q < t; q++)
                {
                if (!mc::mine()) continue;
                M a(n, V(n, 0.)), s;
                for (int i = 0; i < n; i++) a[i][i] = d;
                s = a;
                long w = q;
                for (int i = 0; i < k; i++) { double v = (double)(w % 3) - 1; w /= 3; a[e[i].first][e[i].second] = a[e[i].second][e[i].first] = v; s[e[i].first][e[i].second] = v; s[e[i].second][e[i].first] = -v; }
                explore(a, bs, x0s, xds, {1e-7}, {2, 100});
                explore(s, bs, x0s, xds, {1e-7}, {2, 100});
                }
            }
        }
    }
    {   // long chains, rings and grids: size, stiffness, scales of matrix and right-hand side, initial guesses, imposed sets (any order), limits
    for (int n : T ? std::vector<int>{7, 10, 16, 17, 25, 40, 64} : std::vector<int>{8, 17, 36})
        for (int topo = 0; topo < 4; topo++) for (double d : {2.05, 2.5, 4.5, 40.}) for (double sa : {1e-15, 1., 1e12}) for (double sb : {1e-20, 1e-3, 1., 1e15})
            {
            if (!mc::mine()) continue;
            M a(n, V(n, 0.));
            int w = (int)lround(sqrt((double)n));
            auto link = [&](int i, int j, double u, double v) { if (i >= 0 && j < n && i != j) { a[i][j] = u * sa; a[j][i] = v * sa; } };
            for (int i = 0; i < n; i++)
                {
                a[i][i] = d * sa * (topo == 3 ? 1 + i % 5 : 1);
                link(i, i + 1, -1, topo == 2 ? .5 : -1);
                if (topo == 1 && i == 0) link(0, n - 1, -1, -1);
                if (topo == 3 && d > 4) link(i, i + w, -1, -1);
                }
            bool sym = topo != 2, dom = d > 2.4 && (topo != 3 || d > 4);
            V b(n), x0(n), z(n, 0.), xv(n);
            for (int i = 0; i < n; i++) { b[i] = sb * sa * (i % 3 - 1 + .1 * i); x0[i] = sb * (i % 2 ? 2. : -3.); xv[i] = sb * (5 - i); }
            std::vector<std::vector<int>> lds = {{}, {0}, {n - 1}, {n / 2, 0, n - 1}, {n - 1, n / 2, n / 2 - 1}};
            { std::vector<int> ev; for (int i = 0; i < n; i += 2) ev.push_back(i); lds.push_back(ev); std::reverse(ev.begin(), ev.end()); lds.push_back(ev); }
            for (auto &ld : lds) for (auto &x : {z, x0}) for (double tol : {1e-3, 1e-6, 1e-10}) for (int mi : {1, 3, 7, n, 1000})
                {
                bool room = mi >= 1000 && tol > 1e-9;
                if (ld.empty()) { if (sym) one(CG, a, b, x, ld, b, tol, mi, room); one(BICG, a, b, x, ld, b, tol, mi, room && dom); }
                one(BICG_MASK, a, b, x, ld, b, tol, mi, room && dom);
                V xd(n, 0.);
                for (int i : ld) xd[i] = xv[i];
                if (sym) one(CG_DIR, a, b, x, ld, xd, tol, mi, room);
                one(BICG_DIR, a, b, x, ld, xd, tol, mi, room && dom);
                }
            mc::traces++;
            }
    }
    {   // histories: one iteration object reused, with reset, over every ordered pair of systems of a family
    std::vector<M> fam = {{{2, 1}, {1, 2}}, {{1, 2}, {-2, 1}}, {{1, 1}, {1, 1}}, {{3, 0}, {0, .5}}, {{1, -2}, {2, -3}}, {{1, 1e8}, {0, 1}}};
    for (auto &a : fam) for (auto &b : fam) for (int k1 = 0; k1 < 5; k1++) for (int k2 = 0; k2 < 5; k2++) for (int mi : {1, 2, 50})
        {
        if (!mc::mine()) continue;
        iteration<double> it("mc", 1e-8, false, mi), fresh("mc", 1e-8, false, mi);
        V rhs = {1, 2}, z = {0, 0}, xd = {0, 3};
        std::vector<int> ld = {1};
        one(k1, a, rhs, z, ld, xd, 1e-8, mi, false, &it);
        it.reset();
        if (it.status != UNDEFINED || it.get_iteration() != 0) mc::viol("iteration::reset leaves status %d, iteration %d", it.status, it.get_iteration());
        one(k2, b, rhs, z, ld, xd, 1e-8, mi, false, &it);
        one(k2, b, rhs, z, ld, xd, 1e-8, mi, false, &fresh);
        if (it.status != fresh.status || it.get_iteration() != fresh.get_iteration() || !(it.get_res() == fresh.get_res() || std::isnan(fresh.get_res())))
            mc::viol("solving %s with a reused monitor gives status %d after %d iterations, a fresh one %d after %d", str(b).c_str(), it.status, it.get_iteration(), fresh.status, fresh.get_iteration());
        mc::traces++;
        }
    }
    fprintf(stderr, "worst %g\n", worst);
    return mc::done();
    }
