// C06: Adams-Bashforth, Adams-Moulton and Adams-Bashforth-Moulton over the true history
#include "rk_common.hpp"
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <deque>
// coefficients from the generating recursions (Hairer, Norsett, Wanner, III.1)
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
static void adams(int n, bool moulton, double *c)
{
    double g[9];
    for (int j = 0; j < n; ++j) {
        double s = moulton ? (j == 0 ? 1.0 : 0.0) : 1.0;
        for (int i = 0; i < j; ++i) s -= g[i] / (j + 1 - i);
        g[j] = s;
    }
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = i; j < n; ++j) s += g[j] * binom(j, i);
        c[i] = i % 2 ? -s : s;
    }
}
template<int N, class Init>
struct Model {
    std::deque<vec> h;          // derivatives, newest first
    double ab[8], am[8];
    Rhs<> f;
    Model() { adams(N, false, ab); adams(N, true, am); }
    bool ready() const { return (int)h.size() >= N - 1; }
    void push(const vec &x, double t) { vec d(x.size()); f(x, d, t); h.push_front(d); if ((int)h.size() > N) h.pop_back(); }
    template<class St> void start(St &s, vec &x, double t, double dt) { vec o(x.size()); s.do_step(f, x, t, o, dt); x = o; }
    void step(vec &x, double t, double dt, bool corrected)
    {
        bool r = ready();
        push(x, t);
        if (!r) { Init s; start(s, x, t, dt); return; }
        vec p(x);
        for (std::size_t j = 0; j < x.size(); ++j) { double s = 0; for (int i = 0; i < N; ++i) s += ab[i] * h[i][j]; p[j] = x[j] + dt * s; }
        if (!corrected) { x = p; return; }
        vec d(x.size());
        f(p, d, t + dt);
        for (std::size_t j = 0; j < x.size(); ++j) { double s = am[0] * d[j]; for (int i = 1; i < N; ++i) s += am[i] * h[i - 1][j]; x[j] += dt * s; }
    }
    template<class St> void init(St s, vec &x, double &t, double dt)
    {
        h.clear();
        for (int i = 0; i + 1 < N; ++i) { push(x, t); start(s, x, t, dt); t += dt; }
    }
};
template<int N, class St, bool Corr>
static void straight(int extra)
{
    typedef typename St::initializing_stepper_type I0;
    St st;
    Model<N, I0> m;
    vec x = symvec(1), r(x);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    for (int k = 0; k < N + extra; ++k) {
        m.step(r, t, dt, Corr);
        st.do_step(m.f, x, t, dt);
        near_all(x, r, k < N - 1 ? "start-up step = step of the starting stepper" : "step = Adams formula over the history");
        t += dt;
    }
}
template<class St> struct InitOf { };
template<int N> void ab() { typedef adams_bashforth<N, vec> S; straight<N, S, false>(2); }
template<int N> void abm() { typedef adams_bashforth_moulton<N, vec> S; straight<N, S, true>(2); }
#define ALLN(M) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8)
#define AB(N) VP_ENTRY(ab##N) { ab<N>(); }
#define ABM(N) VP_ENTRY(abm##N) { abm<N>(); }
ALLN(AB)
ALLN(ABM)
// the corrector alone, for an arbitrary prediction and arbitrary history
template<int N>
static void moulton()
{
    adams_moulton<N, vec> st;
    detail::rotating_buffer<state_wrapper<vec>, N> buf;
    double c[8];
    adams(N, true, c);
    unsigned rot = vp_choose(N);
    for (unsigned i = 0; i < rot; ++i) buf.rotate();
    vec x = symvec(2), p = symvec(2), d(2), r(x);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    for (int i = 0; i < N; ++i) { buf[i].m_v = symvec(2, BK); }
    Rhs<> f;
    f(p, d, t);
    for (int j = 0; j < 2; ++j) { double s = c[0] * d[j]; for (int i = 1; i < N; ++i) s += c[i] * buf[i - 1].m_v[j]; r[j] += dt * s; }
    vec o(2), in(x);
    st.do_step(f, x, p, t, o, dt, buf);
    near_all(o, r, "corrector = Adams-Moulton formula");
    near_all(x, in, "corrector leaves its input");
    st.do_step(f, x, p, t, dt, buf);
    near_all(x, r, "corrector in place = Adams-Moulton formula");
}
#define AM(N) VP_ENTRY(am##N) { moulton<N>(); }
ALLN(AM)
// histories with resets and initialisations
template<int N, class St, bool Corr>
static void history(int len)
{
    typedef typename St::initializing_stepper_type I0;
    St st;
    Model<N, I0> m;
    vec x = symvec(1), r(x);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    for (int k = 0; k < len; ++k) {
        unsigned op = vp_choose(5);
        if (op == 0) { m.step(r, t, dt, Corr); st.do_step(m.f, x, t, dt); t += dt; }
        else if (op == 1) { vec o(1); m.step(r, t, dt, Corr); st.do_step(m.f, x, t, o, dt); x = o; t += dt; }
        else if (op == 2) { st.reset(); m.h.clear(); }
        else if (op == 3) { double t1 = t, t2 = t; I0 i0; m.init(i0, r, t1, dt); st.initialize(m.f, x, t2, dt); vp_near(t2, t1, TOL, "initialize advances the time by its steps"); t = t1; }
        else { double t1 = t, t2 = t; euler<vec> e1; m.init(euler<vec>(), r, t1, dt); st.initialize(e1, m.f, x, t2, dt); vp_near(t2, t1, TOL, "initialize with a stepper advances the time by its steps"); t = t1; }
        near_all(x, r, "state after any sequence of steps, resets and initialisations");
    }
    m.step(r, t, dt, Corr); st.do_step(m.f, x, t, dt);
    near_all(x, r, "last step uses the history collected");
}
typedef runge_kutta4<vec> rk4_t;
typedef adams_bashforth<2, vec, double, vec, double, range_algebra, default_operations, initially_resizer, rk4_t> ab2_t;
typedef adams_bashforth<3, vec, double, vec, double, range_algebra, default_operations, initially_resizer, rk4_t> ab3_t;
typedef adams_bashforth_moulton<2, vec> abm2_t;
typedef adams_bashforth_moulton<3, vec> abm3_t;
VP_ENTRY(hist_ab2) { history<2, ab2_t, false>(3); }
VP_ENTRY(hist_ab3) { history<3, ab3_t, false>(4); }
VP_ENTRY(hist_abm2) { history<2, abm2_t, true>(3); }
VP_ENTRY(hist_abm3) { history<3, abm3_t, true>(4); }
VP_ENTRY(hist_abm1) { history<1, adams_bashforth_moulton<1, vec>, true>(3); }
VP_ENTRY(thorough_hist_ab3) { history<3, ab3_t, false>(5); }
VP_ENTRY(thorough_hist_abm4) { history<4, adams_bashforth_moulton<4, vec>, true>(5); }
// an initialising stepper that replaces the derivative it is given (FSAL)
VP_ENTRY(init_fsal)
{
    Model<3, rk4_t> m;
    ab3_t st;
    vec x = symvec(1), r(x);
    double t1 = vp_real(-2, 2), t2 = t1, dt = vp_real(-1, 1);
    runge_kutta_dopri5<vec> d;
    m.init(runge_kutta_dopri5<vec>(), r, t1, dt);
    st.initialize(d, m.f, x, t2, dt);
    near_all(x, r, "initialised with an FSAL stepper: state");
    m.step(r, t1, dt, false); st.do_step(m.f, x, t1, dt);
    near_all(x, r, "initialised with an FSAL stepper: the history holds the derivatives at the past states");
}
VP_ENTRY(flags)
{
    adams_bashforth<3, vec> s;
    vec x = symvec(1);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    Rhs<> f;
    vp_assert(!s.is_initialized(), "fresh stepper is not initialised");
    s.do_step(f, x, t, dt);
    vp_assert(!s.is_initialized(), "one start-up step is not enough for three steps");
    s.do_step(f, x, t + dt, dt);
    vp_assert(s.is_initialized(), "two start-up steps are");
    s.reset();
    vp_assert(!s.is_initialized(), "reset forgets the history");
    s.initialize(f, x, t, dt);
    vp_assert(s.is_initialized(), "initialised explicitly");
    adams_bashforth_moulton<4, vec> c;
    vp_assert(s.order() == 3 && c.order() == 4, "orders");
}
