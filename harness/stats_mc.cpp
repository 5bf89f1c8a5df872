// Every bounded sequence of samples through LogStats, against the definitions in long double.
#include <vector>
#include <cmath>
#include <sstream>
#include "log-stats.h"
#include "mc.h"
static const double AL[] = {1., 2.5e-14, 3e-14, 1e-3, 0.7, 4e5, 1e-300, 1e300};
static void dfs(std::vector<int> &p, int depth, const LogStats &st)
    {
    size_t n = p.size();
    mc::states++;
    if (st.count() != (long)n) mc::viol("count() is %ld after %zu samples", st.count(), n);
    if (n)
        {
        long double m = 0, s = 0, sc = 1;
        for (int i : p) m += logl(AL[i]);
        m /= n;
        for (int i : p) { long double d = logl(AL[i]) - m; s += d * d; sc = std::max(sc, fabsl(logl(AL[i]))); }
        long double sd = sqrtl(s / n);
        auto d = [&]() { std::ostringstream o; for (int i : p) o << AL[i] << ' '; return o.str(); };
        if (!(fabsl(logl(st.mean()) - m) <= 1e-13 * sc)) mc::viol("samples %s: mean() = %.17g, geometric mean %.17g", d().c_str(), st.mean(), (double)expl(m));
        if (!(fabsl(st.stddev() - sd) <= 1e-6 * sc * (sd < 1e-6 * sc ? 1 : 1e-5))) mc::viol("samples %s: stddev() = %.17g, definition %.17g", d().c_str(), st.stddev(), (double)sd);
        }
    if ((int)n == depth) { mc::traces++; return; }
    for (int i = 0; i < (int)(sizeof AL / sizeof *AL); i++)
        {
        if (n == 1 && !mc::mine()) continue;
        LogStats t(st);
        t.add(AL[i]);
        mc::transitions++;
        p.push_back(i); dfs(p, depth, t); p.pop_back();
        }
    }
int main(int argc, char **argv)
    {
    mc::init(argc, argv);
    std::vector<int> p;
    dfs(p, mc::thorough ? 8 : 6, LogStats());
    // long runs: every pair of values alternated, every block length
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int len : {1, 3, 100})
        {
        if (!mc::mine()) continue;
        LogStats st; long double m = 0, s = 0; std::vector<int> v;
        for (int k = 0; k < 20000; k++) { int i = (k / len) % 2 ? a : b; v.push_back(i); st.add(AL[i]); m += logl(AL[i]); mc::transitions++; }
        m /= v.size(); for (int i : v) { long double d = logl(AL[i]) - m; s += d * d; }
        double sc = 1 + fabsl(logl(AL[a])) + fabsl(logl(AL[b]));
        if (st.count() != 20000 || !(fabsl(logl(st.mean()) - m) <= 1e-11 * sc) || !(fabsl(st.stddev() - sqrtl(s / v.size())) <= 1e-7 * sc))
            mc::viol("20000 samples alternating %g and %g by blocks of %d: mean() = %.17g (%.17g), stddev() = %.17g (%.17g)", AL[a], AL[b], len, st.mean(), (double)expl(m), st.stddev(), (double)sqrtl(s / v.size()));
        mc::traces++; mc::states++;
        }
    // very long runs (beyond 16-bit counters and single-precision integers): one value for the first half, another one for the second
    for (long N : {70000L, 1000000L, mc::thorough ? 100000000L : 17000000L}) for (int a = 1; a < 6; a++)
        {
        if (!mc::mine()) continue;
        LogStats st;
        for (long k = 0; k < N; k++) st.add(AL[k < N / 2 ? 0 : a]);
        mc::transitions += N; mc::traces++; mc::states++;
        double m = std::log(AL[a]) / 2, sd = std::fabs(m);
        if (st.count() != N || !(std::fabs(std::log(st.mean()) - m) <= 1e-6 * (1 + sd)) || !(std::fabs(st.stddev() - sd) <= 1e-6 * (1 + sd)))
            mc::viol("%ld samples, half 1 and half %g: count() = %ld, mean() = %.17g, stddev() = %.17g (%.17g)", N, AL[a], st.count(), st.mean(), st.stddev(), sd);
        }
    return mc::done();
    }
