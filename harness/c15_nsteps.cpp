// C15: integrate_n_steps
#include "integ_common.hpp"
#ifdef VP_ITER  // the integrate functions made of iterators (C34), which may look beyond the end time as the iterators do
#define VP_BEYOND(kind) ((kind) == 2)
#include <boost/numeric/odeint/iterator/integrate/integrate_n_steps.hpp>
#else
#define VP_BEYOND(kind) false
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#endif

template<class St, class Sys>
double call(int form, St st, Sys sys, vec &x, const Span &s, Log &l)
{
    Obs o(l);
    if (form == 0) return integrate_n_steps(st, sys, x, s.t0, s.dt, s.n, o);
    if (form == 1) return integrate_n_steps(boost::ref(st), boost::ref(sys), x, s.t0, s.dt, s.n, boost::ref(o));
    return integrate_n_steps(st, sys, x, s.t0, s.dt, s.n);
}
static Span input(std::size_t nmax, double lo = 0.25, double hi = 1)
{
    Span s;
    s.sgn = vp_choose(2) ? -1 : 1;
    s.n = vp_choose(nmax + 1);
    s.t0 = vp_real(-2, 2);
    s.dt = s.sgn * (lo == hi ? lo : vp_real(lo, hi));
    s.end = s.t0 + s.n * s.dt;
    return s;
}
static void grid(const Log &l, const Span &s)
{
    vp_assert(l.t.size() == s.n + 1, "observed n+1 times");
    for (std::size_t k = 0; k < l.t.size() && k <= s.n; ++k) vp_near(l.t[k], s.t0 + k * s.dt, 1e-9, "observed times are t0 + k dt");
}
static void plain(int form, std::size_t nmax)
{
    Span s = input(nmax);
    vec x = symvec(1), y(x), d(1);
    Rhs<> f;
    Log l;
    vp_near(call(form, euler<vec>(), f, x, s, l), s.end, 1e-9, "returns start + n dt");
    if (form < 2) grid(l, s);
    for (std::size_t k = 0; k <= s.n; ++k) {
        if (form < 2) near_all(l.x[k], y, "observed states are the stepper's states");
        if (k == s.n) break;
        f(y, d, s.t0 + k * s.dt);
        y[0] += s.dt * d[0];
    }
    near_all(x, y, "the state ends as the last one");
}
VP_ENTRY(plain) { plain(0, 4); }
VP_ENTRY(plain_ref) { plain(1, 2); }
VP_ENTRY(plain_noobs) { plain(2, 2); }
VP_ENTRY(thorough_plain) { plain(0, 12); }
static void stub(int kind, int form, std::size_t nmax, std::size_t lim, bool reject)
{
    Span s = input(nmax);
    Sched q(s.sgn, lim, 2, reject);
    vec x = start2(), x0(x);
    Log l;
    int calls = 0;
    OneSys f(calls);
    double r = kind == 0 ? call(form, PlainStub(q), f, x, s, l) : kind == 1 ? call(form, CtlStub(q), f, x, s, l) : call(form, DenseStub(q), f, x, s, l);
    vp_near(r, s.end, 1e-9, "returns start + n dt");
    if (form < 2) {
        grid(l, s);
        for (std::size_t k = 0; k < l.t.size(); ++k) vp_near(l.x[k][0], x0[0] + k * s.dt, 1e-9, "observed states belong to the observed times");
    }
    vp_near(x[0], x0[0] + s.n * s.dt, 1e-9, "the state ends as the state at the end time");
    for (std::size_t i = 0; i < q.tries.size(); ++i) {
        vp_assert(q.tries[i].dt * s.sgn > 0, "tried steps go forward");
        if (!VP_BEYOND(kind)) vp_assert((q.tries[i].t + q.tries[i].dt - s.end) * s.sgn <= 1e-9, "no step is tried beyond the end time");
        if (kind == 0) { vp_near(q.tries[i].dt, s.dt, 1e-9, "plain steps have the given size"); vp_near(q.tries[i].t, s.t0 + i * s.dt, 1e-9, "plain steps start at the grid points"); }
    }
    if (kind == 0) vp_assert(q.tries.size() == s.n, "n steps are made");
}
VP_ENTRY(plain_stub) { stub(0, 0, 4, 6, false); }
VP_ENTRY(ctl) { stub(1, 0, 3, 6, false); }
VP_ENTRY(ctl_reject) { stub(1, 0, 2, 5, true); }
VP_ENTRY(ctl_ref) { stub(1, 1, 2, 4, false); }
VP_ENTRY(ctl_noobs) { stub(1, 2, 2, 4, false); }
VP_ENTRY(dense) { stub(2, 0, 3, 6, false); }
VP_ENTRY(dense_reject) { stub(2, 0, 2, 5, true); }
VP_ENTRY(dense_ref) { stub(2, 1, 2, 4, false); }
VP_ENTRY(dense_noobs) { stub(2, 2, 2, 4, false); }
VP_ENTRY(thorough_ctl) { stub(1, 0, 3, 8, true); }
VP_ENTRY(thorough_dense) { stub(2, 0, 4, 8, true); }
template<class St>
void real(St st, std::size_t nmax, double lo, double hi)
{
    Span s = input(nmax, lo, hi);
    vec x = symvec(1);
    double x0 = x[0];
    PolySys f = {vp_real(-1, 1)};
    Log l;
    vp_near(call(0, st, f, x, s, l), s.end, 1e-9, "returns start + n dt");
    grid(l, s);
    for (std::size_t k = 0; k < l.t.size(); ++k) vp_near(l.x[k][0], f.sol(x0, s.t0, s.t0 + k * s.dt), 1e-7, "observed states are the solution at the observed times");
    near_all(x, l.x.back(), "the state ends as the last observed one");
}
VP_ENTRY(real_rk4) { real(runge_kutta4<vec>(), 4, .25, 1); }
VP_ENTRY(real_ctl) { real(make_controlled(0.1, 0.1, runge_kutta_dopri5<vec>()), 3, .25, 1); }
VP_ENTRY(real_dense) { real(make_dense_output(0.1, 0.1, runge_kutta_dopri5<vec>()), 5, .5, .5); }
VP_ENTRY(real_dense_small) { real(make_dense_output(0.1, 0.1, 0.0, runge_kutta_dopri5<vec>()), 2, .125, .125); }
