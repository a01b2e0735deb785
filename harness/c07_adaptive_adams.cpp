// C07: variable-coefficient Adams-Bashforth-Moulton on non-uniform grids
#include "rk_common.hpp"
#include "adams_ref.hpp"
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
typedef AdamsRef Ref;
static double ratio(int k) { const double r[] = {1, 0.5, 2, 1.25}; return r[vp_choose(k)]; }
template<int N>
static void grid(int steps, int ratios, std::size_t dim, bool negative = false)
{
    adaptive_adams_bashforth_moulton<N, vec> st;
    Ref m(N);
    vec x = symvec(dim), r(x);
    double t0 = vp_real(-2, 2), h = negative ? -vp_real(0.0625, 1) : vp_real(0.0625, 1), pos = 0;
    for (int k = 0; k < steps; ++k) {
        double q = ratio(ratios);
        r = m.step(r, t0, h, pos, q);
        vec o(dim), e(dim);
        st.do_step(m.rhs, x, t0 + h * pos, o, h * q, e);
        near_all(o, r, "step = predictor/corrector on the actual grid");
        for (std::size_t j = 0; j < dim; ++j) vp_near(e[j], m.corr[j] - m.pred[j], TOL, "error estimate = corrector - predictor");
        x = o;
        pos += q;
    }
    // a reset makes it a fresh stepper
    st.reset();
    m.reset();
    for (int k = 0; k < 2; ++k) {
        r = m.step(r, t0, h, pos, 0.5);
        st.do_step(m.rhs, x, t0 + h * pos, h * 0.5);
        near_all(x, r, "after a reset the stepper starts afresh");
        pos += 0.5;
    }
}
VP_ENTRY(order1) { grid<1>(3, 3, 1); }
VP_ENTRY(order2) { grid<2>(4, 2, 1); }
VP_ENTRY(order3) { grid<3>(5, 2, 1); }
VP_ENTRY(order4) { grid<4>(5, 2, 1); }
VP_ENTRY(order2_dim2) { grid<2>(3, 2, 2); }
VP_ENTRY(order3_backward) { grid<3>(4, 2, 1, true); }
VP_ENTRY(order5_uniform) { grid<5>(7, 1, 1); }
VP_ENTRY(thorough_order3) { grid<3>(6, 3, 1); }
VP_ENTRY(thorough_order5) { grid<5>(7, 2, 1); }
VP_ENTRY(thorough_order8) { grid<8>(10, 1, 1); }
// initialisations
template<int N>
static void inits()
{
    Rhs<> f;
    vec x0 = symvec(1);
    double t0 = vp_real(-2, 2), h = vp_real(0.0625, 1);
    {   // by its own lower orders: N sub-steps of dt/N, then a step of another size
        adaptive_adams_bashforth_moulton<N, vec> st;
        Ref m(N);
        vec x(x0), r(x0);
        double t = t0;
        st.initialize(f, x, t, h * N);
        for (int k = 0; k < N; ++k) r = m.step(r, t0, h, k, 1);
        near_all(x, r, "self-initialisation makes order-many sub-steps");
        vp_near(t, t0 + h * N, TOL, "self-initialisation advances the time by dt");
        r = m.step(r, t0, h, N, 0.5);
        st.do_step(f, x, t, h * 0.5);
        near_all(x, r, "step after self-initialisation");
    }
    {   // by another stepper
        adaptive_adams_bashforth_moulton<N, vec> st;
        Ref m(N);
        vec x(x0), r(x0), d(1);
        double t = t0;
        st.initialize(runge_kutta4<vec>(), f, x, t, h * N);
        runge_kutta4<vec> rk;
        f(r, d, t0); m.push(0, d);
        for (int k = 0; k < N; ++k) { rk.do_step(f, r, t0 + k * h, h); f(r, d, t0 + (k + 1) * h); m.push(k + 1, d); }
        m.eo = N;
        near_all(x, r, "initialisation by another stepper makes its steps");
        vp_near(t, t0 + h * N, TOL, "initialisation by another stepper advances the time by dt");
        for (int k = 0; k < 2; ++k) {
            double q = k ? 1 : 0.5;
            r = m.step(r, t0, h, N + k * 0.5, q);
            st.do_step(f, x, t0 + h * (N + k * 0.5), h * q);
            near_all(x, r, "steps after initialisation by another stepper have full order");
        }
    }
}
VP_ENTRY(init2) { inits<2>(); }
VP_ENTRY(init3) { inits<3>(); }
VP_ENTRY(init4) { inits<4>(); }
// by a controlled stepper, through the controller: accepted steps of varying size
static double plan_ratio[8];
static int plan_pos, plan_fail;
struct CtlStarter {
    template<class Sys>
    controlled_step_result try_step(Sys sys, vec &x, double &t, double &dt)
    {
        if (plan_fail-- > 0) { dt *= 0.5; return fail; }
        vec d(x.size());
        sys(x, d, t);
        for (std::size_t i = 0; i < x.size(); ++i) x[i] += dt * d[i];
        t += dt;
        dt *= plan_ratio[plan_pos++];
        return success;
    }
};
struct KeepAdj {
    double adjust_stepsize(std::size_t, double dt, vec &, const vec &, const vec &) { return dt; }
    static double threshold() { return 0.9; }
};
struct KeepOrder { template<class E> std::size_t adjust_order(std::size_t o, std::size_t, E &) { return o; } };
template<int N>
static void init_controlled()
{
    Rhs<> f;
    controlled_adams_bashforth_moulton<adaptive_adams_bashforth_moulton<N, vec>, KeepAdj, KeepOrder> c;
    Ref m(N);
    vec x = symvec(1), r(x), d(1);
    double t0 = vp_real(-2, 2), h = vp_real(0.0625, 1), t = t0, dt = h, pos = 0, q = 1;
    for (int k = 0; k < N; ++k) plan_ratio[k] = ratio(3);
    plan_pos = 0;
    plan_fail = vp_choose(2);
    if (plan_fail) q = 0.5;
    f(r, d, t0); m.push(0, d);
    c.initialize_controlled(CtlStarter(), f, x, t, dt);
    for (int k = 0; k < N; ++k) {
        f(r, d, t0 + pos * h);
        r[0] += h * q * d[0];
        pos += q;
        q *= plan_ratio[k];
        f(r, d, t0 + pos * h);
        m.push(pos, d);
    }
    m.eo = N;
    near_all(x, r, "initialisation by a controlled stepper makes its steps");
    vp_near(t, t0 + pos * h, TOL, "initialisation by a controlled stepper advances the time");
    vp_near(dt, h * q, TOL, "initialisation by a controlled stepper leaves its proposal");
    dt = 0.5 * h;
    for (int k = 0; k < 2; ++k) {
        r = m.step(r, t0, h, pos, 0.5);
        pos += 0.5;
        c.try_step(f, x, t, dt);
        near_all(x, r, "steps after initialisation by a controlled stepper use the grid it made");
    }
}
VP_ENTRY(init_controlled2) { init_controlled<2>(); }
VP_ENTRY(init_controlled3) { init_controlled<3>(); }
