// Verification side of the FEELLGOOD_VERIF hook: records every LLG solve attempt and steers its
// outcome according to a script (environment variable VERIF_SCRIPT, one letter per attempt).
//   A  natural outcome                      Z  natural, with zero velocity
//   F  iteration overflow, solution = NaN   G  breakdown, solution = garbage
//   R  converged, max(du) = 1.9 * limit     B  converged, max(du) = 1.0001 * limit
//   L  converged, max(du) = 0.999 * limit
#ifndef FEELLGOOD_VERIF_H
#define FEELLGOOD_VERIF_H
#include <cmath>
#include <algorithm>
#include <vector>
#include "algebra/iter.h"

namespace feellgood_verif
{
char next_choice();               // next letter of the script ('A' once it is exhausted)
double du_limit();                // configured max(du)
int peak();                       // with R, B, L: the unknown that gets the whole velocity (-1: scale the natural one)
void record(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void event(const char *kind);     // a point where a scripted signal may be delivered

template <class Iter>
void solved(Iter &iter, std::vector<double> &X, const double t, const double dt)
    {
    const char c = next_choice();
    double m2 = 0;
    for (size_t i = 0; i + 1 < X.size(); i += 2)
        { m2 = std::fmax(m2, X[i] * X[i] + X[i + 1] * X[i + 1]); }
    const double vmax = gamma0 * std::sqrt(m2);
    double scale = 1;
    switch (c)
        {
        case 'F':
            iter.status = algebra::ITER_OVERFLOW;
            for (double &x : X) x = NAN;
            break;
        case 'G':
            iter.status = algebra::CANNOT_CONVERGE;
            for (size_t i = 0; i < X.size(); i++) X[i] = (i % 3 ? 1e5 : -3e4);
            break;
        case 'R': scale = 1.9 * du_limit() / (dt * vmax); break;
        case 'B': scale = 1.0001 * du_limit() / (dt * vmax); break;
        case 'L': scale = 0.999 * du_limit() / (dt * vmax); break;
        case 'Z': scale = 0; break;
        default: break;
        }
    if (peak() >= 0 && (c == 'R' || c == 'B' || c == 'L'))
        {
        std::fill(X.begin(), X.end(), 0.0);
        // two unknowns per node, peak() / 4 is the node and peak() % 4 the direction in its tangent plane
        const double v = scale * vmax / gamma0, q[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {.6, -.8}};
        const size_t i = 2 * (peak() / 4);
        if (i + 1 < X.size()) { X[i] = v * q[peak() % 4][0]; X[i + 1] = v * q[peak() % 4][1]; }
        }
    else if (scale != 1)
        for (double &x : X) x *= scale;
    record("S %c %d %.17g %.17g %.17g\n", c, (int) iter.status, t, dt, vmax * scale * dt);
    event("solve");
    }
}
#endif
