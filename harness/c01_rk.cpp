// C01: every explicit Runge-Kutta stepper performs the step its published tableau prescribes.
#include "rk_common.hpp"
#define RK(NAME, TYPE, TAB) \
VP_ENTRY(NAME##_vec) { TYPE<vec> s; tableau<TYPE<vec>, vec>(tabs::TAB, s, 1 + vp_choose(3)); } \
VP_ENTRY(NAME##_arr) { TYPE<arr2> s; tableau<TYPE<arr2>, arr2>(tabs::TAB, s, 2); }
RK(euler, euler, euler)
RK(rk4, runge_kutta4, rk4)
RK(rk4c, runge_kutta4_classic, rk4)
RK(ck54, runge_kutta_cash_karp54, ck)
RK(ck54c, runge_kutta_cash_karp54_classic, ck)
RK(dopri5, runge_kutta_dopri5, dp5)
RK(f78, runge_kutta_fehlberg78, f78)

// user-defined tableau: all coefficients symbolic
VP_ENTRY(generic_rk3)
{
    typedef explicit_generic_rk<3, 3, vec> St;
    double A[9] = {0}, B[3], C[3];
    for (int i = 1; i < 3; ++i) for (int j = 0; j < i; ++j) A[3 * i + j] = vp_real(-2, 2);
    for (int i = 0; i < 3; ++i) { B[i] = vp_real(-2, 2); C[i] = i ? vp_real(-2, 2) : 0.0; }
    boost::array<double, 1> a1 = {{A[3]}};
    boost::array<double, 2> a2 = {{A[6], A[7]}};
    boost::array<double, 3> b = {{B[0], B[1], B[2]}}, c = {{C[0], C[1], C[2]}};
    St s(boost::fusion::make_vector(a1, a2), b, c);
    Tab T = {3, A, B, 0, C};
    tableau<St, vec>(T, s, 1);
}
VP_ENTRY(generic_err_rk3)
{
    typedef explicit_error_generic_rk<3, 3, 3, 2, vec> St;
    double A[9] = {0}, B[3], C[3], D[3];
    for (int i = 1; i < 3; ++i) for (int j = 0; j < i; ++j) A[3 * i + j] = vp_real(-2, 2);
    for (int i = 0; i < 3; ++i) { B[i] = vp_real(-2, 2); D[i] = vp_real(-2, 2); C[i] = i ? vp_real(-2, 2) : 0.0; }
    boost::array<double, 1> a1 = {{A[3]}};
    boost::array<double, 2> a2 = {{A[6], A[7]}};
    boost::array<double, 3> b = {{B[0], B[1], B[2]}}, c = {{C[0], C[1], C[2]}}, d = {{D[0], D[1], D[2]}};
    St s(boost::fusion::make_vector(a1, a2), b, d, c);
    Tab T = {3, A, B, D, C};
    etableau<St, vec>(T, s, 2);
}
// modified midpoint (Gragg) with any number of internal steps
VP_ENTRY(midpoint)
{
    unsigned steps = 2 + vp_choose(5);
    modified_midpoint<vec> s(steps);
    vp_assert(s.steps() == steps, "midpoint step count");
    vec x = symvec(2), x0 = x;
    double t = vp_real(-2, 2), dt = vp_real(-1, 1), h = dt / steps;
    Rhs<> f;
    vec k(2), z0 = x0, z1(2);
    f(z0, k, t);
    for (int j = 0; j < 2; ++j) z1[j] = z0[j] + h * k[j];
    for (unsigned m = 1; m < steps; ++m) {
        f(z1, k, t + m * h);
        for (int j = 0; j < 2; ++j) { double z2 = z0[j] + 2 * h * k[j]; z0[j] = z1[j]; z1[j] = z2; }
    }
    f(z1, k, t + steps * h);
    s.do_step(f, x, t, dt);
    for (int j = 0; j < 2; ++j) vp_near(x[j], 0.5 * (z1[j] + z0[j] + h * k[j]), TOL, "midpoint step = Gragg's scheme");
}
