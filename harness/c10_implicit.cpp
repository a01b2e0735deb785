// C10: Rosenbrock, Bulirsch-Stoer and multistep controllers
#include "ros_ref.hpp"
#include "extrap_ref.hpp"
#include "adams_ref.hpp"
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;

static const double one_mat[4] = {-1, 0, 0, 0};
template<class Sys>
static void ros(Sys f, std::size_t n, double dt, bool out, int attempts, double rtol, bool between)
{
    const double atol = n == 1 ? 0.05 : 0.002;
    rosenbrock4_controller<rosenbrock4<double> > c(atol, rtol);
    uvec x = usym(n);
    double t = vp_real(-2, 2);
    Jac jac(n == 1 ? one_mat : mats[0]);
    bool rejected = false;
    for (int a = 0; a < attempts; ++a) {
        const uvec x0(x);
        const double t0 = t, dt0 = dt;
        uvec ro(n), re(n), c3(n), c4(n), o(n);
        ros_ref(x0, t0, dt0, jac, ro, re, c3, c4, f);
        controlled_step_result r = out ? c.try_step(std::make_pair(f, jac), x0, t, o, dt) : c.try_step(std::make_pair(f, jac), x, t, dt);
        double e = 0;
        for (std::size_t i = 0; i < n; ++i) {
            double q = std::abs(x0[i]) < std::abs(ro[i]) ? std::abs(ro[i]) : std::abs(x0[i]), sk = atol + rtol * q;
            e += re[i] * re[i] / sk / sk;
        }
        e = std::sqrt(e / double(n));
        if (r == success) {
            if (out) x = o;
            near_all(x, ro, "Rosenbrock: an accepted attempt delivers the stepper's step");
            vp_near(t, t0 + dt0, TOL, "Rosenbrock: an accepted attempt advances the time by the step size given");
            vp_assert(e <= 1 + 1e-9, "Rosenbrock: accepted only if the error is at most one");
            vp_assert(dt * dt0 > 0, "Rosenbrock: the step keeps its sign");
            vp_assert(std::abs(dt) <= 6.0001 * std::abs(dt0), "Rosenbrock: growth at most sixfold");
            if (rejected) vp_assert(std::abs(dt) <= std::abs(dt0) * (1 + 1e-12), "Rosenbrock: no growth right after a rejection");
            rejected = false;
            if (between) dt = dt0;
        }
        else {
            near_all(x, x0, "Rosenbrock: a rejected attempt leaves the state");
            vp_assert(t == t0, "Rosenbrock: a rejected attempt leaves the time");
            vp_assert(e >= 1 - 1e-9, "Rosenbrock: rejected only if the error exceeds one");
            vp_assert(dt * dt0 > 0 && std::abs(dt) <= 0.95 * std::abs(dt0), "Rosenbrock: a rejected attempt proposes a strictly smaller step of the same sign");
            vp_assert(std::abs(dt) >= 0.1999 * std::abs(dt0), "Rosenbrock: ... but not less than a fifth");
            rejected = true;
            if (between) dt = 0.5 * dt0;
        }
    }
}
VP_ENTRY(ros_one) { ros(RF(), 1, 0.5, false, 1, 0, false); }
VP_ENTRY(ros_one_back) { ros(RF(), 1, -0.5, true, 1, 0, false); }
VP_ENTRY(ros_rel) { ros(RF(), 1, 0.5, true, 1, 0.05, false); }
VP_ENTRY(ros_two) { ros(RF(), 1, 0.5, false, 2, 0, true); }
VP_ENTRY(ros_two_back) { ros(RF(), 1, -0.5, true, 2, 0, true); }
VP_ENTRY(thorough_ros_2d) { LinF f = {mats[0]}; ros(f, 2, 0.5, false, 1, 0, false); }
VP_ENTRY(ros_limit)
{
    double sgn = vp_choose(2) ? -1 : 1, mx = 0.25 * sgn;
    rosenbrock4_controller<rosenbrock4<double> > c(0.05, 0.0, mx);
    uvec x = usym(1), x0(x);
    double t = vp_real(-2, 2), t0 = t, dt = sgn * (vp_choose(2) ? vp_real(0.2501, 2) : 0.125);
    const double dt0 = dt;
    Jac jac(one_mat);
    controlled_step_result r = c.try_step(std::make_pair(RF(), jac), x, t, dt);
    if (sgn * (dt0 - mx) > 1e-9) {
        vp_assert(r == fail && dt == mx, "Rosenbrock: a step beyond the maximum is refused and cut to it");
        near_all(x, x0, "Rosenbrock: ... leaving the state");
        vp_assert(t == t0, "Rosenbrock: ... and the time");
    }
    vp_assert(std::abs(dt) <= 0.25 + 1e-12 && dt * dt0 > 0, "Rosenbrock: no step beyond the maximum is proposed");
}
// Bulirsch-Stoer: the maximum
template<class C>
void bs_limit(C &c, double sgn, double mx, bool proposal)
{
    int calls = 0;
    CountRhs<> f(calls);
    vec x = symvec(1), x0(x), o(1);
    double t = vp_real(-2, 2), t0 = t, dt = sgn * vp_real(0.2501, 2), dt0 = dt;
    controlled_step_result r = c.try_step(f, x, t, dt);
    vp_assert(r == fail && dt == mx, "Bulirsch-Stoer: a step beyond the maximum is refused and cut to it");
    near_all(x, x0, "Bulirsch-Stoer: ... leaving the state");
    vp_assert(t == t0, "Bulirsch-Stoer: ... and the time");
    if (!proposal) return;
    dt = 0.01 * sgn;
    struct Zero { void operator()(const vec &, vec &d, double) const { d[0] = 0; } };
    r = c.try_step(Zero(), x, t, dt);
    vp_assert(r == success && std::abs(dt) <= 0.25 + 1e-12 && dt * sgn > 0, "Bulirsch-Stoer: no step beyond the maximum is proposed");
}
VP_ENTRY(bs_limit) { double s = vp_choose(2) ? -1 : 1; bulirsch_stoer<vec> c(0.01, 0.0, 1.0, 1.0, 0.25 * s); bs_limit(c, s, 0.25 * s, true); }

// ---- multistep controller ---------------------------------------------------------------------
typedef adaptive_adams_bashforth_moulton<3, vec> abm3;
typedef controlled_adams_bashforth_moulton<abm3> cabm3;
typedef detail::pid_step_adjuster<vec, double, vec, double, range_algebra, default_operations, detail::H211PI> pid;
// first attempt, checked against the order-one predictor/corrector
static void abm_first(double sgn, bool out)
{
    cabm3 c(pid(0.05, 0.0, 10.0 * sgn));
    Rhs<> f;
    vec x = symvec(1);
    const vec x0(x);
    double t = vp_real(-2, 2), h = vp_real(0.125, 1), dt = sgn * h;
    const double t0 = t, dt0 = dt;
    AdamsRef m(3);
    vec ro = m.step(x0, t0, dt0, 0, 1), o(1, 5.0);
    controlled_step_result r = out ? c.try_step(f, x0, t, o, dt) : c.try_step(f, x, t, dt);
    double e = std::abs(m.corr[0] - m.pred[0]) / 0.05;
    vp_assert(dt * dt0 > 0, "multistep: the step keeps its sign");
    if (r == success) {
        if (out) x = o;
        near_all(x, ro, "multistep: an accepted attempt delivers the stepper's step");
        vp_near(t, t0 + dt0, TOL, "multistep: an accepted attempt advances the time by the step size given");
        vp_assert(e <= 1.4, "multistep: accepted only if the error is within tolerance");
        vp_assert(std::abs(dt) <= 2.571 * h, "multistep: bounded growth");
    }
    else {
        near_all(x, x0, "multistep: a rejected attempt leaves the state");
        vp_assert(t == t0, "multistep: a rejected attempt leaves the time");
        vp_assert(e >= 1.0, "multistep: rejected only if the error is too large");
        vp_assert(std::abs(dt) <= 0.9 * h + 1e-9, "multistep: a rejected attempt proposes a strictly smaller step");
    }
}
VP_ENTRY(abm_first) { abm_first(1, false); }
VP_ENTRY(abm_first_out) { abm_first(1, true); }
VP_ENTRY(abm_first_back) { abm_first(-1, false); }
// after a warm-up on a constant right-hand side: a rejected attempt in between does not change the next step
static void abm_again(double sgn, int warm)
{
    cabm3 c(pid(0.05, 0.0, 10.0 * sgn));
    SwitchSys g;
    vec x(1, 0.5);
    double t = 0, dt = 0.25 * sgn;
    for (int k = 0; k < warm; ++k) { g.mode = 1; double d = 0.25 * sgn; c.try_step(g, x, t, d); }
    g.mode = 0;
    cabm3 c2(c);
    x = symvec(1);
    const vec x0(x);
    const double t0 = t;
    controlled_step_result r = c.try_step(g, x, t, dt);
    vp_assert(r == success || std::abs(dt) < 0.25, "multistep: a rejected attempt proposes a strictly smaller step");
    if (r == success) return;
    near_all(x, x0, "multistep: a rejected attempt leaves the state");
    vp_assert(t == t0, "multistep: a rejected attempt leaves the time");
    // another attempt, with and without the rejected one before it
    vec y(x0), z(x0);
    double ta = t0, tb = t0, da = 0.125 * sgn, db = 0.125 * sgn;
    controlled_step_result ra = c.try_step(g, y, ta, da), rb = c2.try_step(g, z, tb, db);
    if (ra == success && rb == success) { near_all(y, z, "multistep: a rejected attempt does not influence the next step"); vp_assert(ta == tb, "multistep: same time"); }
}
VP_ENTRY(abm_again) { abm_again(1, 3); }
VP_ENTRY(abm_again_early) { abm_again(1, 1); }
VP_ENTRY(abm_again_back) { abm_again(-1, 2); }
VP_ENTRY(abm_limit)
{
    double sgn = vp_choose(2) ? -1 : 1, mx = 0.25 * sgn;
    cabm3 c(pid(0.05, 0.0, mx));
    Rhs<> f;
    vec x = symvec(1), x0(x);
    double t = vp_real(-2, 2), t0 = t, dt = sgn * (vp_choose(2) ? vp_real(0.375, 2) : 0.125), dt0 = dt;
    controlled_step_result r = c.try_step(f, x, t, dt);
    if (sgn * (dt0 - mx) > 0) {
        vp_assert(r == fail, "multistep: a step well beyond the maximum is refused");
        near_all(x, x0, "multistep: ... leaving the state");
        vp_assert(t == t0, "multistep: ... and the time");
    }
    vp_assert(std::abs(dt) <= 0.25 + 1e-12 && dt * dt0 > 0, "multistep: no step beyond the maximum is proposed");
}

// Bulirsch-Stoer (plain and dense output): whatever happened before, a rejected attempt proposes a strictly smaller step
struct KinkSys { double c; void operator()(const vec &, vec &d, double t) const { double s = t < 0 ? -t : t; d[0] = s > 0.3 ? c : s > 0.1 ? -2 * c : 0.0; } };
struct BsTry { bulirsch_stoer<vec> st; explicit BsTry() : st(0.01, 0.0, 1.0, 1.0) {}
    controlled_step_result go(const KinkSys &f, vec &x, double &t, double &dt) { return st.try_step(f, x, t, dt); } };
struct BsdTry { bulirsch_stoer_dense_out<vec> st; explicit BsdTry() : st(0.01, 0.0, 1.0, 1.0) { vec x(1, 0.0); st.initialize(x, 0.0, 0.5); }
    controlled_step_result go(const KinkSys &f, vec &x, double &t, double &dt)
    { vec d(1), o(1), e(1); f(x, d, t); controlled_step_result r = st.try_step(f, x, d, t, o, e, dt); if (r == success) x = o; return r; } };
template<class B>
void bs_rejections(double dt0)
{
    B b;
    vec x = symvec(1);
    const vec x0(x);
    double t = 0, dt = dt0;
    KinkSys f = {1e4};
    vp_assert(b.go(f, x, t, dt) == fail, "Bulirsch-Stoer: kink rejected");
    for (int i = 0; i < 1; ++i) {
        dt = 1.2 * dt0;                       // still across the kink
        f.c = vp_real(1e3, 2e3);
        const double d = dt;
        controlled_step_result r = b.go(f, x, t, dt);
        if (r == success) { vp_near(t, d, TOL, "Bulirsch-Stoer: accepted step advances the time"); return; }
        near_all(x, x0, "Bulirsch-Stoer: a rejected attempt leaves the state");
        vp_assert(t == 0, "Bulirsch-Stoer: a rejected attempt leaves the time");
        vp_assert(dt * d > 0 && std::abs(dt) < std::abs(d), "Bulirsch-Stoer: a rejected attempt proposes a strictly smaller step, after rejections as well");
    }
}
VP_ENTRY(bs_rejections) { bs_rejections<BsTry>(0.5); }
VP_ENTRY(bs_rejections_back) { bs_rejections<BsTry>(-0.5); }
VP_ENTRY(bsd_rejections) { bs_rejections<BsdTry>(0.5); }
VP_ENTRY(bsd_rejections_back) { bs_rejections<BsdTry>(-0.5); }
