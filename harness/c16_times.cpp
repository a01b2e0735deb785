// C16: integrate_times
#include "integ_common.hpp"
#ifdef VP_ITER  // the integrate functions made of iterators (C34), which return the number of intervals observed
#define VP_STEPS(made, seen) (seen ? seen - 1 : 0)
#include <boost/numeric/odeint/iterator/integrate/integrate_times.hpp>
#else
#define VP_STEPS(made, seen) (made)
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#endif

struct Times { double sgn, dt; std::vector<double> t; };
// up to nmax monotone times, repetitions included
static const double dist[] = {0, 0.25, 0.5, 1.75};
static Times input(std::size_t nmin, std::size_t nmax, double dt = 0)
{
    Times s;
    s.sgn = vp_choose(2) ? -1 : 1;
    s.dt = s.sgn * (dt > 0 ? dt : vp_real(0.25, 2));
    std::size_t n = nmin + vp_choose(nmax - nmin + 1);
    double t = vp_real(-2, 2);
    for (std::size_t i = 0; i < n; ++i) {
        if (i && dt > 0) t += s.sgn * dist[vp_choose(4)];
        else if (i) t += vp_choose(2) ? s.sgn * vp_real(0.03125, 1) : 0.0;
        s.t.push_back(t);
    }
    return s;
}
template<class St, class Sys>
std::size_t call(int form, St st, Sys sys, vec &x, const Times &s, Log &l)
{
    Obs o(l);
    if (form == 0) return integrate_times(st, sys, x, s.t.begin(), s.t.end(), s.dt, o);
    if (form == 1) return integrate_times(boost::ref(st), boost::ref(sys), x, s.t, s.dt, boost::ref(o));
    return integrate_times(st, sys, x, s.t, s.dt, o);
}
static void seen(const Log &l, const Times &s)
{
    vp_assert(l.t.size() == s.t.size(), "observed once per requested time");
    for (std::size_t k = 0; k < l.t.size() && k < s.t.size(); ++k) vp_near(l.t[k], s.t[k], 1e-12, "observed at exactly the requested times");
}
static void plain(int form, std::size_t nmax)
{
    Times s = input(0, nmax);
    vec x = symvec(1), y(x), d(1);
    Rhs<> f;
    Log l;
    std::size_t r = call(form, euler<vec>(), f, x, s, l), m = 0;
    seen(l, s);
    for (std::size_t k = 0; k < s.t.size(); ++k) {
        near_all(l.x[k], y, "observed states are the solution continued to exactly that time");
        if (k + 1 == s.t.size()) break;
        double t = s.t[k];
        for (;;) {
            double rem = (s.t[k + 1] - t) * s.sgn;
            vp_assume(rem <= 0 || rem >= 1e-6);     // not within rounding of a grid point
            if (rem <= 0) break;
#ifdef VP_ITER
            vp_assume(rem - s.dt * s.sgn >= 1e-6 || s.dt * s.sgn - rem >= 1e-6);    // times are summed up there: the arguments of f are equal up to rounding only
#endif
            double h = (s.t[k + 1] - t) * s.sgn < s.dt * s.sgn ? s.t[k + 1] - t : s.dt;
            f(y, d, t);
            y[0] += h * d[0];
            t += h;
            ++m;
        }
    }
    vp_assert(r == VP_STEPS(m, s.t.size()), "returns the number of steps");
    near_all(x, y, "the state ends as the last one");
}
VP_ENTRY(plain) { plain(0, 3); }
VP_ENTRY(plain_ref) { plain(1, 2); }
VP_ENTRY(plain_range) { plain(2, 2); }
VP_ENTRY(thorough_plain) { plain(0, 5); }
static void stub(int kind, int form, std::size_t nmin, std::size_t nmax, std::size_t lim, bool reject)
{
    Times s = input(nmin, nmax);
    Sched q(s.sgn, lim, 2, reject);
    vec x = start2(), x0(x);
    Log l;
    q.log = &l;
    int calls = 0;
    OneSys f(calls);
    std::size_t r = kind == 0 ? call(form, PlainStub(q), f, x, s, l) : kind == 1 ? call(form, CtlStub(q), f, x, s, l) : call(form, DenseStub(q), f, x, s, l);
    seen(l, s);
    for (std::size_t k = 0; k < l.t.size(); ++k) {
        vp_near(l.x[k][0], x0[0] + (s.t[k] - s.t[0]), 1e-9, "observed states belong to the observed times");
        if (k && kind < 2 && s.t[k] == s.t[k - 1]) vp_near(l.x[k][1], l.x[k - 1][1], 1e-9, "a repeated time does not advance the state");
    }
    std::size_t acc = 0;
    double least = s.dt * s.sgn;        // the size the integration has got, at least
    for (std::size_t i = 0; i < q.tries.size(); ++i) {
        acc += q.tries[i].ok;
        if (kind == 1 && q.tries[i].seen < s.t.size()) {
            double h = q.tries[i].dt * s.sgn, d = (s.t[q.tries[i].seen] - q.tries[i].t) * s.sgn;
            vp_assert(h >= (least < d ? least : d) - 1e-9, "a step shortened to meet a requested time does not shorten the ones after it");
            if (!q.tries[i].ok) least = h * 0.5;
            else if (h >= least) least = q.next[i] * s.sgn;
        }
        vp_assert(q.tries[i].dt * s.sgn > 0, "tried steps go forward");
        vp_assert((q.tries[i].t + q.tries[i].dt - s.t.back()) * s.sgn <= 1e-9, "no step is tried beyond the last time");
        if (kind == 2) continue;
        vp_assert(q.tries[i].seen < s.t.size(), "steps are made only while times are left");
        vp_assert((q.tries[i].t + q.tries[i].dt - s.t[q.tries[i].seen]) * s.sgn <= 1e-9, "no step is tried beyond the next requested time");
    }
    vp_assert(r == VP_STEPS(acc, s.t.size()), "returns the number of steps made");
    if (s.t.size()) near_all(x, l.x.back(), "the state ends as the last observed one");
    else near_all(x, x0, "nothing happens without times");
}
VP_ENTRY(plain_stub) { stub(0, 0, 0, 3, 6, false); }
VP_ENTRY(ctl2) { stub(1, 0, 0, 2, 5, false); }
VP_ENTRY(ctl3) { stub(1, 0, 3, 3, 3, false); }
VP_ENTRY(ctl_reject) { stub(1, 0, 2, 2, 4, true); }
VP_ENTRY(ctl_reject3) { stub(1, 0, 3, 3, 3, true); }
VP_ENTRY(ctl_ref) { stub(1, 1, 0, 2, 4, false); }
VP_ENTRY(dense) { stub(2, 0, 0, 4, 4, false); }
VP_ENTRY(dense_reject) { stub(2, 0, 2, 3, 5, true); }
VP_ENTRY(dense_ref) { stub(2, 1, 0, 2, 4, false); }
VP_ENTRY(thorough_ctl) { stub(1, 0, 0, 4, 7, true); }
VP_ENTRY(thorough_dense) { stub(2, 0, 0, 5, 7, true); }
template<class St>
void real(St st, std::size_t nmin, std::size_t nmax, double dt)
{
    Times s = input(nmin, nmax, dt);
    vec x = symvec(1);
    double x0 = x[0];
    PolySys f = {vp_real(-1, 1)};
    Log l;
    call(0, st, f, x, s, l);
    seen(l, s);
    for (std::size_t k = 0; k < l.t.size(); ++k) vp_near(l.x[k][0], f.sol(x0, s.t[0], s.t[k]), 1e-7, "observed states are the solution at the observed times");
}
VP_ENTRY(real_rk4) { real(runge_kutta4<vec>(), 1, 3, 0.5); }
VP_ENTRY(real_ctl) { real(make_controlled(0.1, 0.1, runge_kutta_dopri5<vec>()), 1, 3, 0.5); }
VP_ENTRY(real_dense) { real(make_dense_output(0.1, 0.1, runge_kutta_dopri5<vec>()), 1, 3, 0.5); }
