// Every operation sequence up to a depth on SparseMatrix, for every sparsity shape, against a dense matrix.
#undef NDEBUG
#include <vector>
#include <csetjmp>
#include <cmath>
#include <sstream>
#include "algebra/algebra.h"
#include "mc.h"
using namespace algebra;
static sigjmp_buf jb;
static void on_abort(int) { siglongjmp(jb, 1); }
struct Op { int k, i, j; double v; };   // 0 add, 1 set, 2 clear, 3 print
static std::vector<std::vector<double>> PROBES;

static bool check(SparseMatrix &m, const std::vector<double> &d, int n, const std::vector<Op> &path, unsigned shape)
    {
    auto desc = [&]() { std::ostringstream o; o << "shape " << shape << " of size " << n << ", operations"; for (auto &q : path)
        { if (q.k == 2) o << " clear"; else o << (q.k ? " set(" : " add(") << q.i << ',' << q.j << ',' << q.v << ')'; } return o.str(); };
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        { double x = m(i, j); if (x != d[i * n + j]) { mc::viol("%s: entry (%d,%d) reads %g instead of %g", desc().c_str(), i, j, x, d[i * n + j]); return false; } }
    for (auto &p : PROBES)
        {
        if ((int)p.size() != n) continue;
        std::vector<double> y(n, 99.);
        m.mult(p, y);
        for (int i = 0; i < n; i++)
            {
            double e = 0, s = 0; for (int j = 0; j < n; j++) { e += d[i * n + j] * p[j]; s += fabs(d[i * n + j] * p[j]); }
            if (!(fabs(y[i] - e) <= 1e-14 * s)) { mc::viol("%s: component %d of the product with a vector is %g instead of %g", desc().c_str(), i, y[i], e); return false; }
            }
        }
    bool reg = true;
    for (int i = 0; i < n; i++) reg = reg && d[i * n + i] != 0;
    if (reg)
        {
        std::vector<double> g(n, 77.);
        m.build_diag_precond(g);
        for (int i = 0; i < n; i++) if (fabs(g[i] * d[i * n + i] - 1) > 1e-15) { mc::viol("%s: diagonal preconditioner %d is %g for the entry %g", desc().c_str(), i, g[i], d[i * n + i]); return false; }
        }
    mc::states++;
    return true;
    }

static void dfs(int n, unsigned shape, const MatrixShape &sh, const std::vector<Op> &ops, std::vector<Op> &path, int depth)
    {
    // stateless: replay the path on a fresh object
    SparseMatrix m(sh);
    std::vector<double> d(n * n, 0.);
    for (auto &o : path)
        {
        if (o.k == 0) { m.add(o.i, o.j, o.v); d[o.i * n + o.j] += o.v; }
        else if (o.k == 1) { m.set(o.i, o.j, o.v); d[o.i * n + o.j] = o.v; }
        else { m.clear(); std::fill(d.begin(), d.end(), 0.); }
        mc::transitions++;
        }
    if (!check(m, d, n, path, shape)) return;
    mc::traces++;
    if ((int)path.size() == depth) return;
    for (auto &o : ops) { path.push_back(o); dfs(n, shape, sh, ops, path, depth); path.pop_back(); }
    }

int main(int argc, char **argv)
    {
    mc::init(argc, argv);
    bool T = mc::thorough;
    PROBES = {{1}, {-2.5}, {1, 0}, {0, 1}, {3, -7}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, -5, 11}, {1, 0, 0, 0}, {0, 0, 0, 1}, {2, -5, 11, 3}};
    for (int n = 0; n <= 4; n++)
        {
        unsigned long ns = 1ul << (n * n);
        int depth = n <= 1 ? 6 : n == 2 ? (T ? 5 : 4) : n == 3 ? (T ? 3 : 2) : 1;
        for (unsigned long s = 0; s < ns; s++)
            {
            if (!mc::mine()) continue;
            MatrixShape sh(n);
            std::vector<Op> ops;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (s >> (i * n + j) & 1)
                { sh[i].insert(j); ops.push_back({0, i, j, 2}); ops.push_back({0, i, j, -.75}); ops.push_back({1, i, j, 5}); }
            ops.push_back({2, 0, 0, 0});
            std::vector<Op> path;
            dfs(n, s, sh, ops, path, depth);
            // a matrix filled in one of several orders, then cleared and filled again
            if (n == 4 || n == 3)
                {
                std::vector<std::pair<int, int>> e;
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (s >> (i * n + j) & 1) e.push_back({i, j});
                int k = e.size();
                for (int ord = 0; ord < 2; ord++)
                    {
                    SparseMatrix m(sh);
                    std::vector<double> d(n * n, 0.);
                    std::vector<Op> p;
                    for (int rep = 0; rep < 3; rep++)
                        {
                        for (int q = 0; q < k; q++)
                            {
                            auto x = e[ord ? k - 1 - q : (q * 7 + rep) % k];
                            if (!ord && k % 7 == 0) x = e[q];
                            double v = 1 + q + 10 * rep;
                            m.add(x.first, x.second, v); d[x.first * n + x.second] += v; p.push_back({0, x.first, x.second, v});
                            }
                        if (!check(m, d, n, p, s)) break;
                        if (rep == 1) { m.clear(); std::fill(d.begin(), d.end(), 0.); p.push_back({2, 0, 0, 0}); if (!check(m, d, n, p, s)) break; }
                        }
                    mc::traces++;
                    }
                }
            // an entry outside the shape must be caught (assertion), or at least not land on another entry
            if (n >= 1 && n <= 3)
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < 2; k++) if (!(s >> (i * n + j) & 1))
                    {
                    SparseMatrix *m = new SparseMatrix(sh);   // leaked upon abort
                    std::vector<double> d(n * n, 0.);
                    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (s >> (a * n + b) & 1) { m->add(a, b, 1 + a + 3 * b); d[a * n + b] = 1 + a + 3 * b; }
                    signal(SIGABRT, on_abort);
                    int fd = dup(2); freopen("/dev/null", "w", stderr);
                    bool caught = true;
                    if (sigsetjmp(jb, 1) == 0) { if (k) m->set(i, j, 1000); else m->add(i, j, 1000); caught = false; }
                    fflush(stderr); dup2(fd, 2); close(fd);
                    signal(SIGABRT, SIG_DFL);
                    mc::transitions++;
                    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++)
                        if ((a != i || b != j) && (*m)(a, b) != d[a * n + b])
                            mc::viol("shape %lu of size %d: %s(%d,%d) outside the shape changed the entry (%d,%d)", s, n, k ? "set" : "add", i, j, a, b);
                    if (!caught && (*m)(i, j) == 0) mc::viol("shape %lu of size %d: %s(%d,%d) outside the shape is silently lost", s, n, k ? "set" : "add", i, j);
                    }
            }
        }
    // large matrices: every band width, arrows, full and scattered shapes; every single entry; extreme magnitudes; cancellations
    for (int n : T ? std::vector<int>{5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80} : std::vector<int>{5, 8, 9, 16, 17, 32, 33, 48, 65})
        for (int kind = 0; kind < 6; kind++) for (int w : {0, 1, 2, 3, 5, 7, 8, 11, 15, 16, 17, 31, 33})
            {
            if (w >= n || (kind > 2 && w > 3)) continue;
            if (!mc::mine()) continue;
            auto in = [&](int i, int j) {
                switch (kind)
                    {
                    case 0: return abs(i - j) <= w;
                    case 1: return (j - i + n) % n <= w;
                    case 2: return i == j || (i * 7 + j * 3) % (w + 2) == 0;
                    case 3: return i == j || i == w || j == w;
                    case 4: return i == j || i == n - 1 - w || j == n - 1 - w;
                    default: return i > w;
                    } };
            MatrixShape sh(n);
            std::vector<std::pair<int, int>> e;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in(i, j)) { sh[i].insert(j); e.push_back({i, j}); }
            PROBES.clear();
            { std::vector<double> a(n, 0.), b(n), c(n); a[n - 1] = 1; for (int i = 0; i < n; i++) { b[i] = 1 + i; c[i] = (i % 2 ? -1e-20 : 1e12) * (1 + i); } PROBES = {a, b, c}; }
            std::vector<Op> none;
            SparseMatrix m(sh);
            std::vector<double> d(n * n, 0.);
            unsigned id = kind * 1000 + w;
            for (int rep = 0; rep < 4; rep++)
                {
                for (size_t q = 0; q < e.size(); q++)
                    {
                    auto x = e[rep % 2 ? e.size() - 1 - q : q];
                    double v = rep == 0 ? 1 + q : rep == 1 ? (q % 2 ? -1e-25 : 1e25) * (1 + q) : rep == 2 ? -d[x.first * n + x.second] : (q % 3 - 1.) * 1e-300 * (1 + q);
                    if (rep == 1 && q % 5 == 0) { m.set(x.first, x.second, v); d[x.first * n + x.second] = v; }
                    else { m.add(x.first, x.second, v); d[x.first * n + x.second] += v; }
                    mc::transitions++;
                    }
                if (!check(m, d, n, none, id)) break;
                if (rep == 1) { SparseMatrix f(sh); std::vector<double> g(n * n, 0.); if (!check(f, g, n, none, id)) break; }
                }
            m.clear(); std::fill(d.begin(), d.end(), 0.);
            if (!check(m, d, n, none, id)) continue;
            // every entry alone: only that entry changes
            for (auto &x : e)
                {
                m.add(x.first, x.second, 3); m.add(x.first, x.second, -1e-3);
                double now = 3 + -1e-3;
                for (auto &y : e) if (m(y.first, y.second) != (y == x ? now : 0.)) { mc::viol("size %d shape %u: after add(%d,%d) the entry (%d,%d) reads %g", n, id, x.first, x.second, y.first, y.second, m(y.first, y.second)); break; }
                m.set(x.first, x.second, 0);
                mc::transitions += 3; mc::states++;
                }
            mc::traces++;
            }
    // long rows and many rows
    for (int n : T ? std::vector<int>{130, 257, 300, 513, 1025, 2050} : std::vector<int>{130, 257, 300, 600, 1025})
        for (int kind = 0; kind < 5; kind++)
            {
            if (!mc::mine()) continue;
            auto in = [&](int i, int j) {
                switch (kind)
                    {
                    case 0: return true;                                  // full
                    case 1: return i == j || i == n - 1 || j == 0;        // one full row, one full column
                    case 2: return abs(i - j) <= n / 4;
                    case 3: return i == j;
                    default: return (i + j) % 3 == 0;
                    } };
            MatrixShape sh(n);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in(i, j)) sh[i].insert(j);
            SparseMatrix m(sh);
            std::vector<double> d((size_t) n * n, 0.), x(n), y(n);
            for (int i = 0; i < n; i++) x[i] = (i % 7) - 3;
            for (int rep = 0; rep < 3; rep++)
                {
                if (rep == 2) { m.clear(); std::fill(d.begin(), d.end(), 0.); }
                for (int i = 0; i < n; i++) for (int j = n - 1; j >= 0; j--) if (in(i, j))
                    {
                    double v = (i * 31 + j * 17 + rep) % 101 - 50;
                    if (rep == 1 && (i + j) % 4 == 0) { m.set(i, j, v); d[(size_t) i * n + j] = v; }
                    else { m.add(i, j, v); d[(size_t) i * n + j] += v; }
                    mc::transitions++;
                    }
                bool ok = true;
                for (int i = 0; i < n && ok; i++) for (int j = 0; j < n && ok; j++)
                    if (in(i, j) && m(i, j) != d[(size_t) i * n + j])
                        { mc::viol("size %d, long rows, shape %d: entry (%d,%d) reads %g instead of %g", n, kind, i, j, m(i, j), d[(size_t) i * n + j]); ok = false; }
                m.mult(x, y);
                for (int i = 0; i < n && ok; i++)
                    {
                    double s = 0;
                    for (int j = 0; j < n; j++) s += d[(size_t) i * n + j] * x[j];
                    if (y[i] != s) { mc::viol("size %d, long rows, shape %d: component %d of the product is %g instead of %g", n, kind, i, y[i], s); ok = false; }
                    }
                mc::states++;
                }
            mc::traces++;
            }
    return mc::done();
    }
