// C08: implicit Euler and Rosenbrock-4
#include "ros_ref.hpp"
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
using namespace boost::numeric::odeint;
typedef RF F;
static void rosenbrock(std::size_t n, int mat = 0, int turn = 0)
{
    rosenbrock4<double> st;
    double t = vp_real(-2, 2);
    static const double dts[] = {1, -0.5, 0.125};
    const unsigned first = n == 1 ? 0 : vp_choose(3);
    for (unsigned k = 0; k < 2; ++k) {
        Jac jac(n == 1 ? 0 : mats[(mat + k * turn) % 4]);
        double dt = n == 1 ? (vp_choose(2) ? vp_real(0.125, 1) : -vp_real(0.125, 1)) : dts[(first + k) % 3];
        uvec x = usym(n), in(x), o(n), e(n), ro(n), re(n), c3(n), c4(n);
        ros_ref(x, t, dt, jac, ro, re, c3, c4);
        st.do_step(std::make_pair(F(), jac), in, t, o, dt, e);
        near_all(o, ro, "Rosenbrock step = published method");
        near_all(e, re, "Rosenbrock error estimate = published method");
        near_all(in, x, "input untouched");
        // dense output of that step
        st.prepare_dense_output();
        double s = vp_real(0, 1);
        uvec z(n);
        st.calc_state(t + s * dt, z, x, t, o, t + dt);
        for (std::size_t i = 0; i < n; ++i)
            vp_near(z[i], x[i] * (1 - s) + s * (ro[i] + (1 - s) * (c3[i] + s * c4[i])), TOL, "Rosenbrock interpolant = published method");
        // the other forms
        { rosenbrock4<double> q; uvec y(x), f(n); q.do_step(std::make_pair(F(), jac), y, t, dt, f); near_all(y, ro, "in place with error"); near_all(f, re, "error in place"); }
        { rosenbrock4<double> q; uvec y(x); q.do_step(std::make_pair(F(), jac), y, t, dt); near_all(y, ro, "in place"); }
        { rosenbrock4<double> q; uvec y(n); F f; Jac jj(jac); q.do_step(std::make_pair(boost::ref(f), boost::ref(jj)), x, t, y, dt); near_all(y, ro, "out of place, functions by reference"); }
        t += dt;
    }
}
VP_ENTRY(ros1) { rosenbrock(1); }
VP_ENTRY(ros2a) { rosenbrock(2, 0); }
// (the second step with another Jacobian)
VP_ENTRY(ros2b) { rosenbrock(2, 1, 1); }
VP_ENTRY(ros2c) { rosenbrock(2, 2, 1); }
VP_ENTRY(ros2d) { rosenbrock(2, 3, 1); }
// order conditions: for x' = p(t), p a polynomial of degree 3 or less with any coefficients, a fourth-order step is exact
struct PF { const double *c; template<class X, class D> void operator()(const X &, D &d, double t) const { d[0] = c[0] + c[1] * t + c[2] * t * t + c[3] * t * t * t; } };
struct PJ { const double *c; template<class X> void operator()(const X &, umat &j, double t, X &f) const { j(0, 0) = 0; f[0] = c[1] + 2 * c[2] * t + 3 * c[3] * t * t; } };
VP_ENTRY(ros_quadrature)
{
    double c[4];
    for (int i = 0; i < 4; ++i) c[i] = vp_real(-2, 2);
    double t = vp_real(-2, 2), dt = vp_choose(2) ? vp_real(0.125, 1) : -vp_real(0.125, 1);
    uvec x = usym(1), x0(x);
    PF f = {c}; PJ j = {c};
    rosenbrock4<double> st;
    st.do_step(std::make_pair(f, j), x, t, dt);
    double T = t + dt;
    vp_near(x[0], x0[0] + c[0] * dt + c[1] / 2 * (T * T - t * t) + c[2] / 3 * (T * T * T - t * t * t) + c[3] / 4 * (T * T * T * T - t * t * t * t), TOL,
            "a fourth-order step integrates cubic polynomials of time exactly");
    vp_assert(st.order() == 4, "order");
}
// implicit Euler on affine systems x' = A x + c(t): the step solves its equation
static int aff_calls_ = 0;
struct AffF { const double *m; template<class X, class D> void operator()(const X &x, D &d, double t) const
{ if (++aff_calls_ > 5) { vp_assert(false, "the Newton iteration of an affine system ends after the first correction"); vp_stop(); } std::size_t n = x.size(); double z = 0; vp_sys(3, &z, 1, t, &d[0], n, BK); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) d[i] += m[i * n + j] * x[j]; } };
static void ie_affine(std::size_t n)
{
    static const double dts[] = {0.5, -0.25, 0.0625};
    double dt, t = vp_real(-2, 2);
    implicit_euler<double> st;
    for (int k = 0; k < 2; ++k) {       // the second step with another matrix: nothing of the first factorisation is left
        const double *m = mats[vp_choose(4)];
        AffF f = {m};
        Jac jac(m);
        dt = dts[vp_choose(3)];
        uvec x = usym(n), x0(x), fx(n);
        aff_calls_ = 0;
        st.do_step(std::make_pair(f, jac), x, t, dt);
        f(x, fx, t + dt);
        for (std::size_t i = 0; i < n; ++i) vp_near(x[i], x0[i] + dt * fx[i], 1e-5, "the implicit Euler equation holds");
        t += dt;
    }
}
VP_ENTRY(ie_affine1) { ie_affine(1); }
VP_ENTRY(ie_affine2) { ie_affine(2); }
// ... and on arbitrary systems it is the Newton iteration with the Jacobian of the starting point
struct LogF { std::vector<uvec> *at; template<class X, class D> void operator()(const X &x, D &d, double t) const { at->push_back(x); if (at->size() > 4) vp_cut("Newton iterations"); vp_sys(0, &x[0], x.size(), t, &d[0], x.size(), BK); } };
VP_ENTRY(ie_newton)
{
    static const double dts[] = {0.5, -0.25};
    const double *m = mats[vp_choose(4)];
    double dt = dts[vp_choose(2)], t = vp_real(-2, 2);
    uvec x = usym(2), x0(x);
    std::vector<uvec> at;
    LogF f = {&at};
    implicit_euler<double> st(1e-3);
    st.do_step(std::make_pair(f, Jac(m)), x, t, dt);
    double W[4];
    for (int i = 0; i < 4; ++i) W[i] = dt * m[i] - (i % 3 == 0);
    uvec y(x0), d(2);
    F g;
    for (std::size_t k = 0; k < at.size(); ++k) {
        near_all(at[k], y, "the system is evaluated at the Newton iterates");
        g(y, d, t + dt);
        double r[2], b[2];
        for (int i = 0; i < 2; ++i) r[i] = x0[i] - y[i] + dt * d[i];
        solve2(2, W, r, b);
        y[0] -= b[0]; y[1] -= b[1];
        double nb = std::sqrt(b[0] * b[0] + b[1] * b[1]);
        if (k + 1 < at.size()) vp_assert(nb >= 0.999e-3, "the iteration goes on while the correction exceeds the tolerance");
        else vp_assert(nb <= 1.001e-3, "the iteration stops when the correction is within the tolerance");
    }
    near_all(x, y, "the result is the last Newton iterate");
}
