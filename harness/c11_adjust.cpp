// C11: step-size adjustment and error weighting
#include "rk_common.hpp"
#include "adams_ref.hpp"
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
using namespace boost::numeric::odeint;
typedef default_step_adjuster<double, double> adj;
static double mag(double a) { return a < 0 ? -a : a; }
struct In { double sgn, dt, mx; bool limited; };
static In input()
{
    In i;
    i.sgn = vp_choose(2) ? -1 : 1;
    i.dt = i.sgn * vp_real(0.0009765625, 4);
    i.limited = vp_choose(2);
    i.mx = i.limited ? i.sgn * vp_real(0.0009765625, 4) : 0.0;
    return i;
}
static void decrease(int order)
{
    In i = input();
    double err = vp_real(1, 1000000);
    vp_assume(err > 1.0);
    adj a(i.mx);
    double r = a.decrease_step(i.dt, err, order);
    double f = 0.9 * std::pow(err, -1.0 / (order - 1));
    if (f < 0.2) f = 0.2;
    double w = i.dt * f;
    if (i.limited && mag(w) > mag(i.mx)) w = i.mx;
    vp_near(r, w, TOL, "a rejected step shrinks to 9/10 err^(-1/(order-1)), at least a fifth, at most the maximum");
    vp_assert(r * i.sgn > 0, "a rejected step keeps its sign");
    vp_assert(mag(r) <= 0.9001 * mag(i.dt), "a rejected step shrinks");
    vp_assert(mag(r) >= 0.1999 * mag(i.dt) || (i.limited && mag(r) >= 0.9999 * mag(i.mx)), "a rejected step shrinks at most to a fifth");
    if (i.limited) vp_assert(mag(r) <= mag(i.mx), "a shrunk step is within the maximum");
}
VP_ENTRY(decrease2) { decrease(2); }
VP_ENTRY(decrease3) { decrease(3); }
VP_ENTRY(decrease4) { decrease(4); }
VP_ENTRY(decrease5) { decrease(5); }
VP_ENTRY(decrease8) { decrease(8); }
static void increase(int order)
{
    In i = input();
    double err = vp_real(0, 1);
    adj a(i.mx);
    double r = a.increase_step(i.dt, err, order);
    double w = i.dt;
    if (err < 0.5) {
        double lo = std::pow(5.0, -double(order)), e = lo < err ? err : lo;
        w = i.dt * (0.9 * std::pow(e, -1.0 / order));
        if (i.limited && mag(w) > mag(i.mx)) w = i.mx;
    }
    vp_near(r, w, TOL, "an accepted step grows to 9/10 err^(-1/order) when the error is below one half, at most to the maximum");
    vp_assert(r * i.sgn > 0, "an accepted step keeps its sign");
    vp_assert(mag(r) <= 5.0 * mag(i.dt), "an accepted step grows at most fivefold");
    if (err >= 0.5) vp_assert(r == i.dt, "an accepted step with an error of at least one half keeps its size");
    if (i.limited && mag(i.dt) <= mag(i.mx)) vp_assert(mag(r) <= mag(i.mx), "a grown step is within the maximum");
}
VP_ENTRY(increase1) { increase(1); }
VP_ENTRY(increase2) { increase(2); }
VP_ENTRY(increase4) { increase(4); }
VP_ENTRY(increase5) { increase(5); }
VP_ENTRY(increase8) { increase(8); }
// adjusters of different order and maximum, used by turns
static double grown(double dt, double err, int order) { double lo = std::pow(5.0, -double(order)), e = lo < err ? err : lo; return dt * (0.9 * std::pow(e, -1.0 / order)); }
static double shrunk(double dt, double err, int order) { double f = 0.9 * std::pow(err, -1.0 / (order - 1)); return dt * (f < 0.2 ? 0.2 : f); }
static void turns(int o1, int o2)
{
    double s1 = vp_choose(2) ? -1 : 1, s2 = vp_choose(2) ? -1 : 1;
    double d1 = s1 * vp_real(0.0009765625, 4), d2 = s2 * vp_real(0.0009765625, 4), mx = s2 * 64;
    adj a, b(mx);
    if (vp_choose(2)) {
        double e1 = vp_real(0, 0.4375), e2 = vp_real(0, 0.4375);
        vp_near(a.increase_step(d1, e1, o1), grown(d1, e1, o1), TOL, "growth of the first order");
        vp_near(b.increase_step(d2, e2, o2), grown(d2, e2, o2), TOL, "growth of another order after the first");
        vp_near(a.increase_step(d2, e2, o1), grown(d2, e2, o1), TOL, "growth of the first order after another");
    } else {
        double e1 = vp_real(1.125, 1000000), e2 = vp_real(1.125, 1000000);
        vp_near(a.decrease_step(d1, e1, o1), shrunk(d1, e1, o1), TOL, "decrease of the first order");
        vp_near(b.decrease_step(d2, e2, o2), shrunk(d2, e2, o2), TOL, "decrease of another order after the first");
        vp_near(a.decrease_step(d2, e2, o1), shrunk(d2, e2, o1), TOL, "decrease of the first order after another");
    }
}
VP_ENTRY(turns2_5) { turns(2, 5); }
VP_ENTRY(turns5_4) { turns(5, 4); }
VP_ENTRY(turns8_5) { turns(8, 5); }
VP_ENTRY(limit)
{
    In i = input();
    adj a(i.mx);
    bool ok = a.check_step_size_limit(i.dt);
    if (!i.limited) vp_assert(ok, "zero means no maximum");
    else {
        if (mag(i.dt) <= mag(i.mx)) vp_assert(ok, "steps up to the maximum are allowed");
        if (mag(i.dt) > mag(i.mx) + 1e-9) vp_assert(!ok, "longer steps are not");
    }
    vp_assert(a.get_max_dt() == i.mx, "the maximum is reported");
    adj d;
    vp_assert(d.check_step_size_limit(i.dt) && d.get_max_dt() == 0, "default: no maximum");
}
// error weighting
template<class S, class Alg>
void checker(std::size_t n)
{
    typedef default_error_checker<double, Alg, default_operations> EC;
    bool c2 = n > 1;    // concrete parameters beyond one component
    double ea = c2 ? 0.125 : vp_real(0.0009765625, 1), er = c2 ? 0.25 : vp_real(0, 1), ax = c2 ? 1.5 : vp_real(0, 4), ad = c2 ? 0.5 : vp_real(0, 4);
    double dt = c2 ? 2.0 : vp_real(0.125, 4);
    if (vp_choose(2)) dt = -dt;
    vec x(n), d(n), e = symvec(n, 8);
    for (std::size_t i = 0; i < n; ++i) { x[i] = c2 ? 0.5 - 2.0 * i : vp_real(-2, 2); d[i] = c2 ? 1.0 - 3.0 * i : vp_real(-4, 4); }
    EC c(ea, er, ax, ad);
    S sx = Mk<S>::make(x), sd = Mk<S>::make(d), se = Mk<S>::make(e);
    Alg alg;
    double r = c.error(alg, sx, sd, se, dt);
    double m = 0;
    for (std::size_t i = 0; i < n; ++i) {
        double q = std::abs(e[i]) / (ea + er * (ax * std::abs(x[i]) + ad * std::abs(dt) * std::abs(d[i])));
        m = std::max(m, q);
    }
    vp_near(r, m, 1e-6, "error = max |err| / (eps_abs + eps_rel (a_x |x| + a_dxdt |dt| |dxdt|))");
    S se2 = Mk<S>::make(e);
    vp_near(c.error(sx, sd, se2, dt), m, 1e-6, "error without an algebra argument");
}
VP_ENTRY(checker1) { checker<vec, range_algebra>(1); }
VP_ENTRY(checker2) { checker<vec, range_algebra>(2); }
VP_ENTRY(checker_array) { checker<arr2, array_algebra>(2); }
VP_ENTRY(checker_defaults)
{
    typedef default_error_checker<double, range_algebra, default_operations> EC;
    vec x = symvec(1), d = symvec(1, BK), e = symvec(1, 0.0001);
    EC c;
    vec f(e);
    double r = c.error(x, d, f, -0.25);
    vp_near(r, mag(e[0]) / (1e-6 + 1e-6 * (mag(x[0]) + 0.25 * mag(d[0]))), 1e-6, "default tolerances 1e-6, factors one");
}
// Rosenbrock: root mean square over components, weights from the larger of old and new state
static void roserr(std::size_t n, double at, double rt)
{
    typedef boost::numeric::ublas::vector<double> uv;
    rosenbrock4_controller<rosenbrock4<double> > c(at, rt);
    uv x(n), o(n), e(n);
    double s = 0;
    for (std::size_t i = 0; i < n; ++i) {
        // magnitudes differ; every combination of signs and of which one is larger
        int c = n < 3 || i == 0 ? vp_choose(8) : (n == 3 && i == 1 ? 3 : 6);
        double small = vp_real(0, 1), w = small + vp_real(0.0078125, 1), sk = at + rt * w;
        x[i] = (c & 1 ? w : small) * (c & 2 ? -1 : 1); o[i] = (c & 1 ? small : w) * (c & 4 ? -1 : 1); e[i] = vp_real(-1, 1);
        s += e[i] * e[i] / sk / sk;
    }
    vp_near(c.error(x, o, e), std::sqrt(s / double(n)), 1e-6, "Rosenbrock error norm");
}
VP_ENTRY(roserr1) { roserr(1, 0.125, 0.25); }
VP_ENTRY(roserr2) { roserr(2, 0.125, 0.25); }
VP_ENTRY(roserr2_abs) { roserr(2, 0.125, 0); }
VP_ENTRY(roserr3) { roserr(3, 0.25, 0.125); }
// PID adjuster of the multistep controller
static void pidtest(int first)
{
    typedef detail::pid_step_adjuster<vec, double, vec, double, range_algebra, default_operations, detail::H211PI> pid;
    double sgn = vp_choose(2) ? -1 : 1, mx = sgn * (vp_choose(2) ? 0.25 : 4.0);
    pid p(0.125, 0.0, mx);
    vec x(1, 1.0), d(1, 1.0);
    std::size_t steps = 1 + vp_choose(3);
    for (int k = 0; k < first; ++k) { vec e(1, 0.1 - 0.02 * k); p.adjust_stepsize(steps, 0.125 * sgn, e, x, d); }
    double dt = sgn * vp_real(0.0625, 1);
    vec e(1);
    e[0] = vp_real(0.0001, 4);
    double r = p.adjust_stepsize(steps, dt, e, x, d);
    vp_assert(r * dt > 0, "the multistep adjuster keeps the sign");
    vp_assert(mag(r) <= 2.571 * mag(dt), "the multistep adjuster grows at most by 1 + pi/2");
    vp_assert(mag(r) >= 0.2145 * mag(dt) || mag(r) >= 0.9999 * mag(mx), "the multistep adjuster shrinks at most by 1 - pi/4");
    vp_assert(mag(r) <= mag(mx) * (1 + 1e-12), "the multistep adjuster respects the maximum");
}
VP_ENTRY(pid_first) { pidtest(0); }
VP_ENTRY(pid_later) { pidtest(3); }
// the multistep adjuster after any history: a filter of the last errors, limited by 1 + atan( r - 1 ) and the maximum
static void pidfilter(std::size_t steps, unsigned last)
{
    typedef detail::pid_step_adjuster<vec, double, vec, double, range_algebra, default_operations, detail::H211PI> pid;
    double sgn = vp_choose(2) ? -1 : 1;
    const double mx = sgn * 16.0, tol = 0.125;
    pid p(tol, 0.0, mx);
    const detail::pid_step_adjuster_coefficients<detail::H211PI> c;
    vec x(1, 1.0), d(1, 1.0), old;              // old: weighted errors since the last step that shrank much, latest last
    double dt = 0.125 * sgn;
    unsigned n = vp_choose(4);
    for (unsigned k = 0; k <= n; ++k) {
        vec e(1);
        if (k < n) e[0] = vp_choose(2) ? 0.0625 * (k + 1) : 2.0 + k;
        else e[0] = last ? vp_real(0.25, 4) : vp_real(0.0009765625, 0.125);
        const double w = e[0] / tol, m = old.size();
        double f;
        if (old.size() >= 2) f = std::pow(w, c[0] / (steps + 1)) * std::pow(old[m - 1], c[1] / (steps + 1)) * (c[2] == 0 ? 1.0 : std::pow(old[m - 2], c[2] / (steps + 1)));
        else f = std::pow(w, 0.7 / (steps + 1));
        double r = 1.0 + std::atan(1 / f - 1);
        if (r * 0.125 >= 16.0) r = 128.0;
        double q = p.adjust_stepsize(steps, dt, e, x, d);
        vp_near(q, dt * r, 1e-7, "the multistep adjuster filters the last errors");
        if (r >= 0.9) old.push_back(w);
        else old.clear();
    }
}
VP_ENTRY(pid_filter1_small) { pidfilter(1, 0); }
VP_ENTRY(pid_filter1_large) { pidfilter(1, 1); }
VP_ENTRY(pid_filter3_small) { pidfilter(3, 0); }
VP_ENTRY(pid_filter3_large) { pidfilter(3, 1); }
// a smaller error never leads to a smaller next step (first step of the PID adjuster, and the default adjuster)
VP_ENTRY(monotone)
{
    adj a;
    double dt = 0.25, e1 = vp_real(1, 1000), e2 = vp_real(1, 1000);
    vp_assume(e1 > 1.0); vp_assume(e1 <= e2);
    vp_assert(a.decrease_step(dt, e1, 4) >= a.decrease_step(dt, e2, 4), "a larger error does not shrink less");
    double f1 = vp_real(0, 0.5), f2 = vp_real(0, 1);
    vp_assume(f1 < 0.5); vp_assume(f1 <= f2);
    vp_assert(a.increase_step(dt, f1, 5) >= a.increase_step(dt, f2, 5) - 1e-9, "a larger error does not grow more");
}
