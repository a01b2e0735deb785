// C09: extrapolation stepper and Bulirsch-Stoer
#include "extrap_ref.hpp"
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;

template<int Order>
void extrap(std::size_t n, int steps)
{
    extrapolation_stepper<Order, vec> st;
    const int K = (Order - 2) / 2;
    Rhs<> f;
    double t = vp_real(-2, 2);
    for (int s = 0; s < steps; ++s) {
        double dt = vp_real(-1, 1);
        vec x = symvec(n), d(n);
        f(x, d, t);
        std::vector<vec> T;
        for (int k = 0; k <= K; ++k) T.push_back(midpoint_ref(f, x, d, t, dt, 2 * (k + 1)));
        vec full = lagrange0(T, 0, K), low = lagrange0(T, 1, K);
        vec y(x), e(n), o(n);
        const vec in(x);
        if (s == 0) {
            st.do_step(f, in, t, o, dt, e);
            near_all(o, full, "step = extrapolated midpoint results");
            near_all(in, x, "input untouched");
            for (std::size_t i = 0; i < n; ++i) vp_near(e[i], full[i] - low[i], TOL, "error estimate = difference of the last two columns");
        }
        else {
            st.do_step(f, y, t, dt, e);
            near_all(y, full, "step in place = extrapolated midpoint results");
            for (std::size_t i = 0; i < n; ++i) vp_near(e[i], full[i] - low[i], TOL, "error estimate in place = difference of the last two columns");
        }
        { vec z(x); st.do_step(f, z, t, dt); near_all(z, full, "step without error in place"); }
        { vec z(n); st.do_step(f, x, t, z, dt); near_all(z, full, "step without error out of place"); }
        t += dt;
    }
    vp_assert(st.stepper_order() == Order && st.error_order() == Order - 2, "orders");
}
VP_ENTRY(ex4) { extrap<4>(1, 2); }
VP_ENTRY(ex4_2d) { extrap<4>(2, 2); }
VP_ENTRY(ex6) { extrap<6>(1, 2); }
VP_ENTRY(ex8) { extrap<8>(1, 1); }
VP_ENTRY(ex10) { extrap<10>(1, 1); }

// Bulirsch-Stoer: the column reached is known from the number of system calls
struct SwitchRhs {
    int *n;
    int mode;                // 0: arbitrary; 1: zero (step accepted early); 2: a kink (step rejected)
    void operator()(const vec &x, vec &d, double t) const
    {
        ++*n;
        if (mode == 0) vp_sys(0, &x[0], x.size(), t, &d[0], x.size(), BK);
        else d[0] = mode == 1 ? 0.0 : t > 0.3 ? 1e4 : t > 0.1 ? -2e4 : 0.0;
    }
};
static void bs_attempt(bulirsch_stoer<vec> &st, vec &x, double &t, double &dt, double eps_abs, double eps_rel, bool outofplace, int mode, int expect = -1)
{
    const vec x0(x);
    const double t0 = t, dt0 = dt;
    int calls = 0, dummy = 0;
    SwitchRhs c = {&calls, mode}, f = {&dummy, mode};
    vec o(1, 99.0);
    controlled_step_result r = outofplace ? st.try_step(c, x, t, o, dt) : st.try_step(c, x, t, dt);
    if (expect >= 0) vp_assert((r == success) == (expect == 1), "first attempt as intended");
    int k = -1, left = calls - 1;
    while (left > 0) left -= 2 * (++k + 1);
    vp_assert(left == 0 && k >= 1, "whole columns are computed");
    vec d(1);
    f(x0, d, t0);
    std::vector<vec> T;
    for (int i = 0; i <= k; ++i) T.push_back(midpoint_ref(f, x0, d, t0, dt0, 2 * (i + 1)));
    vec full = lagrange0(T, 0, k), low = lagrange0(T, 1, k);
    double w = eps_abs + eps_rel * (std::abs(x0[0]) + std::abs(dt0) * std::abs(d[0]));
    if (r == success) {
        near_all(outofplace ? o : x, full, "an accepted step = extrapolated midpoint results");
        vp_near(t, t0 + dt0, TOL, "time advanced by the step");
        vp_assert(std::abs(full[0] - low[0]) <= 1.000001 * w, "accepted only if the error is within tolerance");
        if (outofplace) { near_all(x, x0, "input untouched"); x = o; }
    }
    else {
        near_all(x, x0, "a rejected step leaves the state");
        vp_assert(t == t0, "a rejected step leaves the time");
        vp_assert(std::abs(full[0] - low[0]) >= 0.999999 * w, "rejected only if the error is too large");
        vp_assert(std::abs(dt) < std::abs(dt0) && dt * dt0 > 0, "a rejected step proposes a smaller step of the same sign");
    }
}
static void bs_first(double dt, bool outofplace)
{
    bulirsch_stoer<vec> st(0.01, 0.0, 1.0, 1.0);
    vec x = symvec(1);
    double t = vp_real(-2, 2);
    bs_attempt(st, x, t, dt, 0.01, 0.0, outofplace, 0);
}
VP_ENTRY(bs_first) { bs_first(0.5, false); }
VP_ENTRY(bs_first_back) { bs_first(-0.5, false); }
// after an accepted (or rejected) step, with or without a change of the step size from outside
static void bs_second(double dt, int mode, bool change, bool outofplace)
{
    bulirsch_stoer<vec> st(0.01, 0.0, 1.0, 1.0);
    vec x(1, 0.0);
    double t = 0;
    bs_attempt(st, x, t, dt, 0.01, 0.0, outofplace, mode, mode == 1);
    if (change) dt = 0.25;
    x = symvec(1);
    bs_attempt(st, x, t, dt, 0.01, 0.0, outofplace, 0);
}
VP_ENTRY(bs_after_success) { bs_second(0.1, 1, false, false); }
VP_ENTRY(bs_after_reject) { bs_second(0.5, 2, false, false); }
VP_ENTRY(bs_after_success_out) { bs_second(0.1, 1, false, true); }
VP_ENTRY(thorough_bs_after_success_changed) { bs_second(0.1, 1, true, false); }
VP_ENTRY(thorough_bs_after_reject_changed) { bs_second(0.5, 2, true, true); }
VP_ENTRY(thorough_bs_rel)
{
    bulirsch_stoer<vec> st(0.01, 0.01, 1.0, 1.0);
    vec x = symvec(1);
    double t = vp_real(-2, 2), dt = 0.5;
    bs_attempt(st, x, t, dt, 0.01, 0.01, false, 0);
}
