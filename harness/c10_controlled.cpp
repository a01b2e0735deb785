// C10: a controlled step advances exactly one accepted step or changes nothing
#include "rk_common.hpp"
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
using namespace boost::numeric::odeint;

struct Tol { double ea, er, ax, ad; };
// weighted error of a step, computed as documented
static double werr(const Tol &q, const vec &x, const vec &d, const vec &e, double dt)
{
    double m = 0;
    for (std::size_t i = 0; i < x.size(); ++i) {
        double r = std::abs(e[i]) / (q.ea + q.er * (q.ax * std::abs(x[i]) + q.ad * std::abs(dt) * std::abs(d[i])));
        m = r > m ? r : m;
    }
    return m;
}
static void verdict(const Tol &q, controlled_step_result r, const RkRef &ref, const vec &x0, double t0, double dt0, const vec &x, double t, double dt)
{
    double w = werr(q, x0, ref.k1, ref.err, dt0);
    if (r == success) {
        near_all(x, ref.out, "an accepted attempt delivers the underlying stepper's step");
        vp_near(t, t0 + dt0, TOL, "an accepted attempt advances the time by exactly the step size given");
        vp_assert(w <= 1.0 + 1e-9, "accepted only if the weighted error is at most one");
        vp_assert(dt * dt0 > 0, "the proposed step keeps its sign");
    }
    else {
        near_all(x, x0, "a rejected attempt leaves the state");
        vp_assert(t == t0, "a rejected attempt leaves the time");
        vp_assert(w >= 1.0 - 1e-9, "rejected only if the weighted error exceeds one");
        vp_assert(dt * dt0 > 0, "the proposed smaller step keeps its sign");
        vp_assert(std::abs(dt) <= 0.95 * std::abs(dt0), "a rejected attempt proposes a strictly smaller step");
    }
}
static double symdt() { return vp_choose(2) ? -vp_real(0.125, 1) : vp_real(0.125, 1); }
// every form of one attempt: 0 in place, 1 with derivative in place, 2 out of place, 3 with derivative out of place
template<class C>
controlled_step_result attempt(C &c, boost::false_type /*fsal*/, int form, vec &x, double &t, double &dt, int *calls)
{
    CountRhs<> f(*calls);
    vec o(x.size(), 77.0), d(x.size());
    controlled_step_result r;
    const vec in(x);
    if (form == 0) return c.try_step(f, x, t, dt);
    if (form == 2) { r = c.try_step(f, in, t, o, dt); }
    else {
        f(in, d, t);
        const vec dd(d);
        if (form == 1) { r = c.try_step(f, x, d, t, dt); near_all(d, dd, "supplied derivative untouched"); return r; }
        r = c.try_step(f, in, dd, t, o, dt);
    }
    if (r == success) x = o;
    return r;
}
template<class C>
controlled_step_result attempt(C &c, boost::true_type, int form, vec &x, double &t, double &dt, int *calls)
{
    CountRhs<> f(*calls);
    vec o(x.size(), 77.0), d(x.size()), e(x.size());
    controlled_step_result r;
    const vec in(x);
    if (form == 0) return c.try_step(f, x, t, dt);
    if (form == 2) r = c.try_step(f, in, t, o, dt);
    else {
        f(in, d, t);
        const vec dd(d);
        if (form == 1) {
            r = c.try_step(f, x, d, t, dt);
            if (r == success) f(x, e, t); else e = dd;
            near_all(d, e, "carried derivative: of the new state when accepted, unchanged when rejected");
            return r;
        }
        r = c.try_step(f, in, dd, t, o, e, dt);
        if (r == success) { f(o, d, t); near_all(e, d, "derivative handed on"); }
    }
    if (r == success) x = o;
    return r;
}
template<class St, class Fsal>
void controlled(const Tab &T, const Tol &q, std::size_t n, unsigned form, int attempts, double fixdt)
{
    typedef controlled_runge_kutta<St> C;
    C c(typename C::error_checker_type(q.ea, q.er, q.ax, q.ad));
    vec x = symvec(n);
    double t = vp_real(-2, 2), dt = fixdt != 0 ? fixdt : symdt();
    int calls = 0;
    for (int a = 0; a < attempts; ++a) {
        const vec x0(x);
        const double t0 = t, dt0 = dt;
        RkRef ref = rk_ref(T, Rhs<>(), x0, t0, dt0);
        controlled_step_result r = attempt(c, Fsal(), form, x, t, dt, &calls);
        verdict(q, r, ref, x0, t0, dt0, x, t, dt);
        if (a + 1 < attempts && r == success && fixdt != 0) dt = 0.5 * fixdt;
    }
}
static const Tol plain = {0.03, 0, 1, 1}, rel = {0.03, 0.05, 0.5, 2};
#define CTRL(N, T, F, ...) \
    VP_ENTRY(N##_one) { controlled<__VA_ARGS__, F>(T, rel, 1, 0, 1, 0); } \
    VP_ENTRY(N##_two) { controlled<__VA_ARGS__, F>(T, plain, 1, 0, 2, -0.5); } \
    VP_ENTRY(N##_out) { controlled<__VA_ARGS__, F>(T, plain, 1, 2, 2, 0.5); } \
    VP_ENTRY(N##_dxdt) { controlled<__VA_ARGS__, F>(T, plain, 1, 1, 2, 0.5); } \
    VP_ENTRY(N##_dxdt_out) { controlled<__VA_ARGS__, F>(T, plain, 1, 3, 2, -0.5); } \
    VP_ENTRY(N##_2d) { controlled<__VA_ARGS__, F>(T, plain, 2, 0, 1, 0); }
CTRL(ck, tabs::ck, boost::false_type, runge_kutta_cash_karp54<vec>)
CTRL(dp5, tabs::dp5, boost::true_type, runge_kutta_dopri5<vec>)
CTRL(f78, tabs::f78, boost::false_type, runge_kutta_fehlberg78<vec>)
VP_ENTRY(thorough_dp5_three) { controlled<runge_kutta_dopri5<vec>, boost::true_type>(tabs::dp5, plain, 1, 0, 3, 0.5); }
VP_ENTRY(thorough_ck_three) { controlled<runge_kutta_cash_karp54<vec>, boost::false_type>(tabs::ck, plain, 1, 0, 3, -0.5); }
VP_ENTRY(thorough_dp5_rel2) { controlled<runge_kutta_dopri5<vec>, boost::true_type>(tabs::dp5, rel, 2, 0, 1, 0); }

// a step beyond the configured maximum is refused and cut to it, nothing else changes
template<class St, class Fsal>
void limited(const Tab &T, unsigned form)
{
    typedef controlled_runge_kutta<St> C;
    double sgn = vp_choose(2) ? -1 : 1, mx = sgn * vp_real(0.125, 1);
    C c(typename C::error_checker_type(0.03, 0, 1, 1), typename C::step_adjuster_type(mx));
    vec x = symvec(1);
    double t = vp_real(-2, 2), dt = sgn * vp_real(0.125, 2);
    const vec x0(x);
    const double t0 = t, dt0 = dt;
    RkRef ref = rk_ref(T, Rhs<>(), x0, t0, dt0);
    int calls = 0;
    controlled_step_result r = attempt(c, Fsal(), form, x, t, dt, &calls);
    if (sgn * (dt0 - mx) > 1e-9) {
        vp_assert(r == fail, "a step beyond the maximum is refused");
        vp_assert(dt == mx, "... and cut to the maximum");
        near_all(x, x0, "... leaving the state");
        vp_assert(t == t0, "... and the time");
        const double dt1 = dt;
        RkRef ref2 = rk_ref(T, Rhs<>(), x0, t0, dt1);
        r = attempt(c, Fsal(), form, x, t, dt, &calls);
        if (r == success) { near_all(x, ref2.out, "the next attempt is made with the maximum"); vp_near(t, t0 + dt1, TOL, "time after it"); }
        else vp_assert(std::abs(dt) < std::abs(dt1), "the next attempt may fail");
    }
    else if (sgn * (dt0 - mx) < 0) {
        Tol q = {0.03, 0, 1, 1};
        verdict(q, r, ref, x0, t0, dt0, x, t, dt);
    }
    vp_assert(std::abs(dt) <= std::abs(mx) + 1e-12, "no step beyond the maximum is proposed");
}
VP_ENTRY(ck_limit) { limited<runge_kutta_cash_karp54<vec>, boost::false_type>(tabs::ck, 0); }
VP_ENTRY(ck_limit_out) { limited<runge_kutta_cash_karp54<vec>, boost::false_type>(tabs::ck, 2); }
VP_ENTRY(dp5_limit) { limited<runge_kutta_dopri5<vec>, boost::true_type>(tabs::dp5, 0); }
VP_ENTRY(dp5_limit_out) { limited<runge_kutta_dopri5<vec>, boost::true_type>(tabs::dp5, 2); }
