// C14: adaptive integration
#include "integ_common.hpp"
#ifdef VP_ITER  // the integrate functions made of iterators (C34)
#include <boost/numeric/odeint/iterator/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate.hpp>
#else
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate.hpp>
#endif

template<class St, class Sys>
std::size_t call(int form, St st, Sys sys, vec &x, const Span &s, Log &l)
{
    Obs o(l);
    if (form == 0) return integrate_adaptive(st, sys, x, s.t0, s.end, s.dt, o);
    if (form == 1) return integrate_adaptive(boost::ref(st), boost::ref(sys), x, s.t0, s.end, s.dt, boost::ref(o));
    return integrate_adaptive(st, sys, x, s.t0, s.end, s.dt);
}
static void times(const Log &l, const Span &s, std::size_t steps)
{
    vp_assert(l.t.size() == steps + 1, "observed before the first step and after every step");
    vp_near(l.t[0], s.t0, 1e-9, "first observed at the start time");
    vp_near(l.t.back(), s.end, 1e-9, "last observed at the end time");
    for (std::size_t k = 1; k < l.t.size(); ++k) vp_assert((l.t[k] - l.t[k - 1]) * s.sgn > 0, "observed times are strictly monotone");
}
static void plain(int form, std::size_t nmax)
{
    Span s = span(nmax);
    vec x = symvec(1), y(x), d(1);
    Rhs<> f;
    Log l;
    std::size_t r = call(form, euler<vec>(), f, x, s, l), m = s.n + (s.exact ? 0 : 1);
    vp_assert(r == m, "whole steps and one shortened last step");
    if (form < 2) times(l, s, m);
    double t = s.t0;
    for (std::size_t k = 0; k <= m; ++k) {
        if (form < 2) { vp_near(l.t[k], t, 1e-9, "observed after every step"); near_all(l.x[k], y, "observed states are the stepper's states"); }
        if (k == m) break;
        double h = k < s.n ? s.dt : s.end - t;
        f(y, d, t);
        y[0] += h * d[0];
        t = k < s.n ? s.t0 + (k + 1) * s.dt : s.end;
    }
    near_all(x, y, "the state ends as the last one");
}
VP_ENTRY(plain) { plain(0, 4); }
VP_ENTRY(plain_ref) { plain(1, 2); }
VP_ENTRY(plain_noobs) { plain(2, 2); }
VP_ENTRY(thorough_plain) { plain(0, 12); }
static void stub(int kind, int form, std::size_t lim, bool reject)
{
    Span s;
    s.sgn = vp_choose(2) ? -1 : 1;
    s.t0 = vp_real(-2, 2);
    s.dt = s.sgn * vp_real(0.25, 2);
    s.end = s.t0 + s.sgn * (vp_choose(4) ? vp_real(0.0078125, 2) : 0.0);
    Sched q(s.sgn, lim, 2, reject);
    vec x = start2(), x0(x);
    Log l;
    int calls = 0;
    OneSys f(calls);
    std::size_t r = kind == 1 ? call(form, CtlStub(q), f, x, s, l) : call(form, DenseStub(q), f, x, s, l);
    std::size_t acc = 0;
    for (std::size_t i = 0; i < q.tries.size(); ++i) {
        acc += q.tries[i].ok;
        vp_assert(q.tries[i].dt * s.sgn > 0, "tried steps go forward");
        vp_assert((q.tries[i].t + q.tries[i].dt - s.end) * s.sgn <= 1e-9, "no step is tried beyond the end time");
    }
    vp_assert(r == acc, "returns the number of accepted steps");
    if (form < 2) {
        times(l, s, acc);
        for (std::size_t k = 0; k < l.t.size(); ++k) {
            vp_near(l.x[k][0], x0[0] + (l.t[k] - s.t0), 1e-9, "observed states belong to the observed times");
            vp_near(l.x[k][1], double(k), 1e-9, "observed after every accepted step");
        }
    }
    vp_near(x[0], x0[0] + (s.end - s.t0), 1e-9, "the state ends at the end time");
    vp_near(x[1], double(acc), 1e-9, "the state ends as the last one");
}
VP_ENTRY(ctl) { stub(1, 0, 6, false); }
VP_ENTRY(ctl_reject) { stub(1, 0, 5, true); }
VP_ENTRY(ctl_ref) { stub(1, 1, 4, false); }
VP_ENTRY(ctl_noobs) { stub(1, 2, 4, true); }
VP_ENTRY(dense) { stub(2, 0, 6, false); }
VP_ENTRY(dense_reject) { stub(2, 0, 5, true); }
VP_ENTRY(dense_ref) { stub(2, 1, 4, false); }
VP_ENTRY(dense_noobs) { stub(2, 2, 4, true); }
VP_ENTRY(thorough_ctl) { stub(1, 0, 8, true); }
VP_ENTRY(thorough_dense) { stub(2, 0, 8, true); }
struct RunSt { template<class St> static std::size_t run(St st, PolySys f, vec &x, const Span &s, Obs o) { return integrate_adaptive(st, f, x, s.t0, s.end, s.dt, o); } };
template<class St>
void real(int form, St st, double len)
{
    Span s;
    s.sgn = vp_choose(2) ? -1 : 1;
    s.t0 = vp_real(-2, 2);
    static const double ds[] = {0.25, 0.75}, ls[] = {0.125, 0.75, 1, 1.75, 0.25};
    s.dt = s.sgn * (len < 0 ? vp_real(0.25, 1) : ds[vp_choose(2)]);
    s.end = s.t0 + s.sgn * (len < 0 ? vp_real(0.0078125, -len) : ls[vp_choose(5)]);
    vec x = symvec(1);
    double x0 = x[0];
    PolySys f = {vp_real(-1, 1)};
    Log l;
    Obs o(l);
    std::size_t r;
    if (form == 0) r = integrate_adaptive(st, f, x, s.t0, s.end, s.dt, o);
    else if (form == 1) r = integrate(f, x, s.t0, s.end, s.dt, o);
#ifndef VP_ITER
    else if (form == 2) r = integrate<double>(f, x, s.t0, s.end, s.dt, o);
    else if (form == 4) r = integrate<double>(f, x, s.t0, s.end, s.dt);
#endif
    else r = integrate(f, x, s.t0, s.end, s.dt);
    if (form < 3) {
        times(l, s, r);
        for (std::size_t k = 0; k < l.t.size(); ++k) vp_near(l.x[k][0], f.sol(x0, s.t0, l.t[k]), 1e-7, "observed states are the solution at the observed times");
    }
    vp_near(x[0], f.sol(x0, s.t0, s.end), 1e-7, "the state ends as the solution at the end time");
}
VP_ENTRY(real_rk4) { real(0, runge_kutta4<vec>(), -1); }
VP_ENTRY(real_ctl) { real(0, make_controlled(0.1, 0.1, runge_kutta_dopri5<vec>()), -2); }
VP_ENTRY(real_ctl_ck) { real(0, make_controlled(0.1, 0.1, runge_kutta_cash_karp54<vec>()), 2); }
VP_ENTRY(real_dense) { real(0, make_dense_output(0.1, 0.1, runge_kutta_dopri5<vec>()), 2); }
#ifdef VP_ITER
VP_ENTRY(real_integrate) { real(1 + 2 * vp_choose(2), runge_kutta4<vec>(), -2); }
#else
VP_ENTRY(real_integrate) { real(1 + vp_choose(4), runge_kutta4<vec>(), -2); }
#endif
// an end time that lies behind the start: nothing to integrate
static void behind(int kind)
{
    Span s;
    s.sgn = vp_choose(2) ? -1 : 1;
    s.t0 = vp_real(-2, 2);
    s.dt = s.sgn * vp_real(0.25, 2);
    s.end = s.t0 - s.sgn * vp_real(0.0078125, 4);
    s.n = 0;
    Sched q(s.sgn, 3, 2, false);
    vec x = start2(), x0(x);
    Log l;
    int calls = 0, form = vp_choose(2);
    OneSys f(calls);
    std::size_t r = kind == 0 ? call(form, PlainStub(q), f, x, s, l) : kind == 1 ? call(form, CtlStub(q), f, x, s, l) : call(form, DenseStub(q), f, x, s, l);
    vp_assert(r == 0, "no step is counted");
    vp_assert(q.tries.empty(), "no step is made when the end lies behind the start");
    near_all(x, x0, "the state stays as it is");
    vp_assert(l.t.size() <= 1, "at most the start is observed");
    for (std::size_t k = 0; k < l.t.size(); ++k) { vp_near(l.t[k], s.t0, 1e-9, "at most the start is observed"); near_all(l.x[k], x0, "the start is observed as it is"); }
}
VP_ENTRY(behind_plain) { behind(0); }
VP_ENTRY(behind_ctl) { behind(1); }
VP_ENTRY(behind_dense) { behind(2); }
