#ifndef ROS_REF
#define ROS_REF
#include "common.hpp"
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
typedef boost::numeric::ublas::vector<double> uvec;
typedef boost::numeric::ublas::matrix<double> umat;
static uvec usym(std::size_t n) { uvec x(n); for (std::size_t i = 0; i < n; ++i) x[i] = vp_real(-BX, BX); return x; }

// small dense solve (Cramer), independent of the library's LU
static void solve2(std::size_t n, const double *m, const double *b, double *x)
{
    if (n == 1) { x[0] = b[0] / m[0]; return; }
    double det = m[0] * m[3] - m[1] * m[2];
    x[0] = (b[0] * m[3] - m[1] * b[1]) / det;
    x[1] = (m[0] * b[1] - b[0] * m[2]) / det;
}
struct RF { template<class X, class D> void operator()(const X &x, D &d, double t) const { vp_sys(0, &x[0], x.size(), t, &d[0], x.size(), BK); } };
// Jacobian: symbolic function of (x,t) for one dimension, one of several matrices otherwise; time derivative arbitrary
struct Jac {
    const double *m;
    explicit Jac(const double *a = 0) : m(a) {}
    template<class X> void operator()(const X &x, umat &j, double t, X &dfdt) const
    {
        (*this)(x, j, t);
        vp_sys(2, &x[0], x.size(), t, &dfdt[0], x.size(), BK);
    }
    template<class X> void operator()(const X &x, umat &j, double t) const
    {
        if (m) for (std::size_t a = 0; a < x.size(); ++a) for (std::size_t b = 0; b < x.size(); ++b) j(a, b) = m[a * x.size() + b];
        else { double v; vp_sys(1, &x[0], x.size(), t, &v, 1, 2); j(0, 0) = v; }
    }
};
static const double mats[4][4] = {{-1, 0.5, 0.25, -2}, {0, 1, -1, 0}, {3.75, -6, 8, 0.5}, {-8, 2, 1, -0.5}};
// published coefficients: RODAS, Hairer & Wanner, Solving ODEs II, IV.7
struct Ros {
    double g, d[4], c[4], A[5][4], C[6][5], D2[5], D3[5];
};
static const Ros R = {0.25, {0.25, -0.1043, 0.1035, -0.0362}, {0, 0.386, 0.21, 0.63},
    {{0}, {1.544}, {0.9466785280815826, 0.2557011698983284}, {3.314825187068521, 2.896124015972201, 0.9986419139977817},
     {1.221224509226641, 6.019134481288629, 12.53708332932087, -0.6878860361058950}},
    {{0}, {-5.6688}, {-2.430093356833875, -0.2063599157091915}, {-0.1073529058151375, -9.594562251023355, -20.47028614809616},
     {7.496443313967647, -10.24680431464352, -33.99990352819905, 11.70890893206160},
     {8.083246795921522, -7.981132988064893, -31.52159432874371, 16.31930543123136, -6.058818238834054}},
    {10.12623508344586, -7.487995877610167, -34.80091861555747, -7.992771707568823, 1.025137723295662},
    {-0.6762803392801253, 6.087714651680015, 16.43084320892478, 24.76722511418386, -6.594389125716872}};
template<class Sys>
static void ros_ref(const uvec &x, double t, double dt, const Jac &jac, uvec &out, uvec &err, uvec &c3, uvec &c4, Sys f)
{
    const std::size_t n = x.size();
    umat J(n, n);
    uvec fx(n), ft(n), y(x), k(n);
    f(x, fx, t);
    jac(x, J, t, ft);
    double W[4], g[6][2], b[2];
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) W[i * n + j] = (i == j ? 1 / R.g / dt : 0) - J(i, j);
    for (int s = 0; s < 6; ++s) {
        if (s == 0) k = fx;
        else {
            for (std::size_t i = 0; i < n; ++i) {
                double a = 0;
                if (s < 5) { for (int l = 0; l < s; ++l) a += R.A[s][l] * g[l][i]; y[i] = x[i] + a; }
                else y[i] += g[4][i];
            }
            f(y, k, s < 4 ? t + R.c[s] * dt : t + dt);
        }
        for (std::size_t i = 0; i < n; ++i) {
            double a = 0;
            for (int l = 0; l < s; ++l) a += R.C[s][l] * g[l][i];
            b[i] = k[i] + a / dt + (s < 4 ? dt * R.d[s] * ft[i] : 0);
        }
        solve2(n, W, b, g[s]);
    }
    for (std::size_t i = 0; i < n; ++i) {
        err[i] = g[5][i]; out[i] = y[i] + g[5][i];
        c3[i] = c4[i] = 0;
        for (int l = 0; l < 5; ++l) { c3[i] += R.D2[l] * g[l][i]; c4[i] += R.D3[l] * g[l][i]; }
    }
}
static void ros_ref(const uvec &x, double t, double dt, const Jac &jac, uvec &out, uvec &err, uvec &c3, uvec &c4) { ros_ref(x, t, dt, jac, out, err, c3, c4, RF()); }
// linear system with the matrix of the Jacobian
struct LinF { const double *m; template<class X, class D> void operator()(const X &x, D &d, double t) const
{ std::size_t n = x.size(); for (std::size_t i = 0; i < n; ++i) { d[i] = 0; for (std::size_t j = 0; j < n; ++j) d[i] += m[i * n + j] * x[j]; } } };
#endif
