#ifndef EXTRAP_REF
#define EXTRAP_REF
#include "common.hpp"
// modified midpoint rule with n substeps (Gragg, with the smoothing step), derivative at the start supplied
template<class F>
vec midpoint_ref(F f, const vec &x, const vec &d0, double t, double dt, int n)
{
    const std::size_t m = x.size();
    double h = dt / n;
    vec a(x), b(m), d(d0);
    for (std::size_t i = 0; i < m; ++i) b[i] = x[i] + h * d0[i];
    f(b, d, t + h);
    for (int k = 2; k <= n; ++k) {
        vec c(m);
        for (std::size_t i = 0; i < m; ++i) c[i] = a[i] + 2 * h * d[i];
        a = b; b = c;
        f(b, d, t + k * h);
    }
    vec r(m);
    for (std::size_t i = 0; i < m; ++i) r[i] = 0.5 * (a[i] + b[i] + h * d[i]);
    return r;
}
// value at h -> 0 of the polynomial in h^2 through the midpoint results with 2(k+1) substeps, k = lo..hi
inline vec lagrange0(const std::vector<vec> &T, int lo, int hi)
{
    vec r(T[lo].size(), 0.0);
    for (int i = lo; i <= hi; ++i) {
        double w = 1, ni = 2 * (i + 1);
        for (int j = lo; j <= hi; ++j) { double nj = 2 * (j + 1); if (j != i) w *= ni * ni / (ni * ni - nj * nj); }
        for (std::size_t c = 0; c < r.size(); ++c) r[c] += w * T[i][c];
    }
    return r;
}
#endif
