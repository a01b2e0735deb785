// C13: constant-step integration
#include "integ_common.hpp"
#ifdef VP_ITER  // C34: the integrate functions made of iterators, which return the number of intervals observed
#define VP_STEPS(made, seen) (seen)
#include <boost/numeric/odeint/iterator/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/iterator/integrate/null_observer.hpp>
#else
#define VP_STEPS(made, seen) (made)
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/null_observer.hpp>
#endif

// the observer saw t0 + k dt for k = 0..n and nothing else
static void grid(const Log &l, const Span &s)
{
    vp_assert(l.t.size() == s.n + 1, "observed at t0, t0+dt, ... up to the end time, once each");
    for (std::size_t k = 0; k < l.t.size() && k <= s.n; ++k) vp_near(l.t[k], s.t0 + k * s.dt, 1e-9, "observed times are t0 + n dt");
}
template<class St, class Sys>
std::size_t call(int form, St st, Sys sys, vec &x, const Span &s, Log &l)
{
    Obs o(l);
    if (form == 0) return integrate_const(st, sys, x, s.t0, s.end, s.dt, o);
    if (form == 1) return integrate_const(boost::ref(st), boost::ref(sys), x, s.t0, s.end, s.dt, boost::ref(o));
    return integrate_const(st, sys, x, s.t0, s.end, s.dt);
}
// real Euler steps of an arbitrary system
static void plain(int form, std::size_t nmax)
{
    Span s = span(nmax);
    vec x = symvec(1), x0(x);
    Rhs<> f;
    Log l;
    std::size_t r = call(form, euler<vec>(), f, x, s, l);
    vp_assert(r == s.n, "returns the number of steps");
    if (form < 2) grid(l, s);
    vec y(x0), d(1);
    for (std::size_t k = 0; k <= s.n; ++k) {
        if (form < 2) near_all(l.x[k], y, "observed states are the stepper's states");
        if (k == s.n) break;
        f(y, d, s.t0 + k * s.dt);
        y[0] += s.dt * d[0];
    }
    near_all(x, y, "the state ends as the last one");
}
VP_ENTRY(plain) { plain(0, 4); }
VP_ENTRY(plain_ref) { plain(1, 2); }
#ifndef VP_ITER  // (those integrate to the end time when nobody observes)
VP_ENTRY(plain_noobs) { plain(2, 2); }
#endif
VP_ENTRY(thorough_plain) { plain(0, 12); }
static void stub(int kind, int form, std::size_t nmax, std::size_t lim, bool reject)
{
    Span s = span(nmax);
    Sched q(s.sgn, lim, 2, reject);
    vec x = start2(), x0(x);
    Log l;
    int calls = 0;
    OneSys f(calls);
    std::size_t r;
    if (kind == 0) r = call(form, PlainStub(q), f, x, s, l);
    else if (kind == 1) r = call(form, CtlStub(q), f, x, s, l);
    else r = call(form, DenseStub(q), f, x, s, l);
    std::size_t acc = 0;
    for (std::size_t i = 0; i < q.tries.size(); ++i) acc += q.tries[i].ok;
    vp_assert(r == VP_STEPS(acc, s.n), "returns the number of steps made");
    if (form < 2) grid(l, s);
    for (std::size_t k = 0; form < 2 && k < l.t.size(); ++k) vp_near(l.x[k][0], x0[0] + k * s.dt, 1e-9, "observed states belong to the observed times");
    vp_near(x[0], x0[0] + s.n * s.dt, 1e-9, "the state ends at the last grid point");
    if (form < 2) near_all(x, l.x.back(), "the state ends as the last observed one");
    if (kind == 0) for (std::size_t k = 0; k < q.tries.size(); ++k) { vp_near(q.tries[k].dt, s.dt, 1e-9, "plain steps have the given size"); vp_near(q.tries[k].t, s.t0 + k * s.dt, 1e-9, "plain steps start at the grid points"); }
    if (kind == 1) {
        for (std::size_t k = 0; k < q.tries.size(); ++k) {
            vp_assert(q.tries[k].dt * s.sgn > 0, "tried steps go forward");
            vp_assert((q.tries[k].t + q.tries[k].dt - s.t0 - s.n * s.dt) * s.sgn <= 1e-9, "tried steps stay inside the interval");
        }
        // each grid point is hit by a step
        std::size_t hit = 0;
        for (std::size_t k = 0; k < q.tries.size(); ++k)
            if (q.tries[k].ok) { double e = q.tries[k].t + q.tries[k].dt - s.t0 - (hit + 1) * s.dt; vp_assert(e * s.sgn <= 1e-9, "no step crosses a grid point"); if (e * s.sgn >= -1e-9) ++hit; }
        vp_assert(hit == s.n, "every interval is covered exactly");
    }
}
VP_ENTRY(plain_stub) { stub(0, 0, 4, 6, false); }
VP_ENTRY(ctl) { stub(1, 0, 3, 6, false); }
VP_ENTRY(ctl_reject) { stub(1, 0, 2, 5, true); }
VP_ENTRY(ctl_ref) { stub(1, 1, 2, 4, false); }
VP_ENTRY(dense) { stub(2, 0, 3, 5, false); }
VP_ENTRY(dense_reject) { stub(2, 0, 2, 5, true); }
VP_ENTRY(dense_ref) { stub(2, 1, 2, 4, false); }
VP_ENTRY(thorough_ctl) { stub(1, 0, 3, 7, true); }
VP_ENTRY(thorough_dense) { stub(2, 0, 4, 7, true); }
// the real steppers on a system they solve exactly
template<class St>
void real(St st, std::size_t nmax, double lo, double hi, double dir = 0)
{
    const double tol = 1e-7;
    Span s = span(nmax, lo, hi, dir);
    vec x = symvec(1);
    double x0 = x[0];
    PolySys f = {vp_real(-1, 1)};
    Log l;
    call(0, st, f, x, s, l);
    grid(l, s);
    for (std::size_t k = 0; k < l.t.size(); ++k) vp_near(l.x[k][0], f.sol(x0, s.t0, s.t0 + k * s.dt), tol, "observed states are the solution at the observed times");
    near_all(x, l.x.back(), "the state ends as the last observed one");
}
VP_ENTRY(real_rk4) { real(runge_kutta4<vec>(), 4, .25, 1); }
VP_ENTRY(real_ctl) { real(make_controlled(0.1, 0.1, runge_kutta_dopri5<vec>()), 4, .25, 1); }
VP_ENTRY(real_ctl_ck) { real(make_controlled(0.1, 0.1, runge_kutta_cash_karp54<vec>()), 3, .25, 1); }
VP_ENTRY(real_dense) { real(make_dense_output(0.1, 0.1, runge_kutta_dopri5<vec>()), 6, .5, .5); }
VP_ENTRY(real_dense_small) { double d = vp_choose(2) ? 1 : -1; real(make_dense_output(0.1, 0.1, d * 0.125, runge_kutta_dopri5<vec>()), 2, .5, .5, d); }
// an end time that lies behind the start: nothing to integrate
static void behind(int kind)
{
    Span s;
    s.sgn = vp_choose(2) ? -1 : 1;
    s.t0 = vp_real(-2, 2);
    s.dt = s.sgn * vp_real(0.25, 2);
    s.end = s.t0 - s.sgn * vp_real(0.0078125, 4);
    s.n = 0;
    Sched q(s.sgn, 3, 2, false);
    vec x = start2(), x0(x);
    Log l;
    int calls = 0, form = vp_choose(2);
    OneSys f(calls);
    std::size_t r = kind == 0 ? call(form, PlainStub(q), f, x, s, l) : kind == 1 ? call(form, CtlStub(q), f, x, s, l) : call(form, DenseStub(q), f, x, s, l);
    vp_assert(r == 0, "no step is counted");
    vp_assert(q.tries.empty(), "no step is made when the end lies behind the start");
    near_all(x, x0, "the state stays as it is");
    vp_assert(l.t.size() <= 1, "at most the start is observed");
    for (std::size_t k = 0; k < l.t.size(); ++k) { vp_near(l.t[k], s.t0, 1e-9, "at most the start is observed"); near_all(l.x[k], x0, "the start is observed as it is"); }
}
VP_ENTRY(behind_plain) { behind(0); }
VP_ENTRY(behind_ctl) { behind(1); }
VP_ENTRY(behind_dense) { behind(2); }
