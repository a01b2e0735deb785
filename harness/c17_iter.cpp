// C17: iterators yield what the integrate functions observe
#include "integ_common.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/range/algorithm/for_each.hpp>

const std::size_t CAP = 16;
struct Seen { std::vector<vec> x; std::vector<double> t; };
// walk with ++, dereferencing several ways
template<class It>
void walk(It b, It e, Seen &s)
{
    vp_assert(e == e, "the end equals itself");
    for (; b != e; ++b) {
        vec x(*b);
        near_all(x, *b, "dereferencing does not advance");
        s.x.push_back(x);
        if (s.x.size() > CAP) vp_cut("more elements than the bound");
    }
    vp_assert(b == e, "the walk ends at the end");
}
template<class It>
void walk_time(It b, It e, Seen &s)
{
    while (!(b == e)) {
        double t = b->second;
        vec x((*b).first);
        near_all(x, b->first, "dereferencing does not advance");
        vp_assert(t == (*b).second, "dereferencing does not advance the time");
        s.x.push_back(x);
        s.t.push_back(t);
        if (s.x.size() > CAP) vp_cut("more elements than the bound");
        b++;
    }
}
struct Add { Seen *s; void operator()(const vec &x) const { s->x.push_back(x); } };
struct AddT { Seen *s; template<class P> void operator()(const P &p) const { s->x.push_back(p.first); s->t.push_back(p.second); } };

static void compare(const Log &l, const Seen &s, std::size_t comps, bool timed, double tol)
{
    vp_assert(s.x.size() == l.x.size(), "as many elements as observations");
    if (timed) vp_assert(s.t.size() == l.t.size(), "as many times as observations");
    for (std::size_t k = 0; k < l.x.size() && k < s.x.size(); ++k) {
        for (std::size_t j = 0; j < comps; ++j) vp_near(s.x[k][j], l.x[k][j], tol, "the iterator visits the observed states in order");
        if (timed) vp_near(s.t[k], l.t[k], 1e-9, "the iterator visits the observed times in order");
    }
}
// form: 0 state iterators from factories, 1 time iterators from factories, 2 state range, 3 time range, 4 classes directly (state), 5 classes directly (time)
template<class St, class Sys>
void iter_const(int form, St st, Sys f, vec &x, const Span &s, Seen &o)
{
    if (form == 0) walk(make_const_step_iterator_begin(st, f, x, s.t0, s.end, s.dt), make_const_step_iterator_end(st, f, x), o);
    if (form == 1) walk_time(make_const_step_time_iterator_begin(st, f, x, s.t0, s.end, s.dt), make_const_step_time_iterator_end(st, f, x), o);
    if (form == 2) { Add a = {&o}; boost::for_each(make_const_step_range(st, f, x, s.t0, s.end, s.dt), a); }
    if (form == 3) { AddT a = {&o}; boost::for_each(make_const_step_time_range(st, f, x, s.t0, s.end, s.dt), a); }
    if (form == 4) { typedef const_step_iterator<boost::reference_wrapper<St>, Sys, vec> I; walk(I(boost::ref(st), f, x, s.t0, s.end, s.dt), I(boost::ref(st), f, x), o); }
    if (form == 5) { typedef const_step_time_iterator<St, Sys, vec> I; walk_time(I(st, f, x, s.t0, s.end, s.dt), I(st, f, x), o); }
}
template<class St, class Sys>
void iter_adaptive(int form, St st, Sys f, vec &x, const Span &s, Seen &o)
{
    if (form == 0) walk(make_adaptive_iterator_begin(st, f, x, s.t0, s.end, s.dt), make_adaptive_iterator_end(st, f, x), o);
    if (form == 1) walk_time(make_adaptive_time_iterator_begin(st, f, x, s.t0, s.end, s.dt), make_adaptive_time_iterator_end(st, f, x), o);
    if (form == 2) { Add a = {&o}; boost::for_each(make_adaptive_range(st, f, x, s.t0, s.end, s.dt), a); }
    if (form == 3) { AddT a = {&o}; boost::for_each(make_adaptive_time_range(st, f, x, s.t0, s.end, s.dt), a); }
    if (form == 4) { typedef adaptive_iterator<boost::reference_wrapper<St>, Sys, vec> I; walk(I(boost::ref(st), f, x, s.t0, s.end, s.dt), I(boost::ref(st), f, x), o); }
    if (form == 5) { typedef adaptive_time_iterator<St, Sys, vec> I; walk_time(I(st, f, x, s.t0, s.end, s.dt), I(st, f, x), o); }
}
template<class St, class Sys>
void iter_n(int form, St st, Sys f, vec &x, const Span &s, Seen &o)
{
    if (form == 0) walk(make_n_step_iterator_begin(st, f, x, s.t0, s.dt, s.n), make_n_step_iterator_end(st, f, x), o);
    if (form == 1) walk_time(make_n_step_time_iterator_begin(st, f, x, s.t0, s.dt, s.n), make_n_step_time_iterator_end(st, f, x), o);
    if (form == 2) { Add a = {&o}; boost::for_each(make_n_step_range(st, f, x, s.t0, s.dt, s.n), a); }
    if (form == 3) { AddT a = {&o}; boost::for_each(make_n_step_time_range(st, f, x, s.t0, s.dt, s.n), a); }
    if (form == 4) { typedef n_step_iterator<boost::reference_wrapper<St>, Sys, vec> I; walk(I(boost::ref(st), f, x, s.t0, s.dt, s.n), I(boost::ref(st), f, x), o); }
    if (form == 5) { typedef n_step_time_iterator<St, Sys, vec> I; walk_time(I(st, f, x, s.t0, s.dt, s.n), I(st, f, x), o); }
}
typedef std::vector<double>::const_iterator TI;
template<class St, class Sys>
void iter_times(int form, St st, Sys f, vec &x, TI b, TI e, double dt, Seen &o)
{
    if (form == 0) walk(make_times_iterator_begin(st, f, x, b, e, dt), make_times_iterator_end<TI>(st, f, x), o);
    if (form == 1) walk_time(make_times_time_iterator_begin(st, f, x, b, e, dt), make_times_time_iterator_end<TI>(st, f, x), o);
    if (form == 2) { Add a = {&o}; boost::for_each(make_times_range(st, f, x, b, e, dt), a); }
    if (form == 3) { AddT a = {&o}; boost::for_each(make_times_time_range(st, f, x, b, e, dt), a); }
    if (form == 4) { typedef times_iterator<boost::reference_wrapper<St>, Sys, vec, TI> I; walk(I(boost::ref(st), f, x, b, e, dt), I(boost::ref(st), f, x), o); }
    if (form == 5) { typedef times_time_iterator<St, Sys, vec, TI> I; walk_time(I(st, f, x, b, e, dt), I(st, f, x), o); }
}
// integrate with the stepper, rewind its decisions, iterate with it
template<class St>
void both_const(int form, std::size_t nmax, std::size_t lim, bool reject, std::size_t comps)
{
    Span s = span(nmax);
    Sched q(s.sgn, lim, 2, reject);
    vec x = start2(), y(x);
    Log l;
    Seen o;
    int c = 0;
    OneSys f(c);
    integrate_const(St(q), f, x, s.t0, s.end, s.dt, Obs(l));
    q.rewind();
    iter_const(form, St(q), f, y, s, o);
    compare(l, o, comps, form & 1, 1e-9);
}
template<class St>
void both_adaptive(int form, std::size_t lim, bool reject)
{
    Span s;
    s.sgn = vp_choose(2) ? -1 : 1;
    s.t0 = vp_real(-2, 2);
    s.dt = s.sgn * vp_real(0.25, 2);
    s.end = s.t0 + s.sgn * (vp_choose(4) ? vp_real(0.0078125, 2) : 0.0);
    Sched q(s.sgn, lim, 2, reject);
    vec x = start2(), y(x);
    Log l;
    Seen o;
    int c = 0;
    OneSys f(c);
    integrate_adaptive(St(q), f, x, s.t0, s.end, s.dt, Obs(l));
    q.rewind();
    iter_adaptive(form, St(q), f, y, s, o);
    compare(l, o, 2, form & 1, 1e-9);
}
template<class St>
void both_n(int form, std::size_t nmax, std::size_t lim, bool reject, std::size_t comps)
{
    Span s = span(nmax);
    Sched q(s.sgn, lim, 2, reject);
    vec x = start2(), y(x);
    Log l;
    Seen o;
    int c = 0;
    OneSys f(c);
    integrate_n_steps(St(q), f, x, s.t0, s.dt, s.n, Obs(l));
    q.rewind();
    iter_n(form, St(q), f, y, s, o);
    compare(l, o, comps, form & 1, 1e-9);
}
template<class St>
void both_times(int form, std::size_t nmin, std::size_t nmax, std::size_t lim, bool reject, std::size_t comps, bool repeat = true)
{
    double sgn = vp_choose(2) ? -1 : 1, dt = sgn * vp_real(0.25, 2), t = vp_real(-2, 2);
    std::size_t n = nmin + vp_choose(nmax - nmin + 1);
    std::vector<double> ts;
    for (std::size_t i = 0; i < n; ++i) { if (i) t += !repeat || vp_choose(2) ? sgn * vp_real(0.03125, 1) : 0.0; ts.push_back(t); }
    Sched q(sgn, lim, 2, reject);
    vec x = start2(), y(x);
    Log l;
    Seen o;
    int c = 0;
    OneSys f(c);
    integrate_times(St(q), f, x, ts.begin(), ts.end(), dt, Obs(l));
    q.rewind();
    iter_times(form, St(q), f, y, ts.begin(), ts.end(), dt, o);
    compare(l, o, comps, form & 1, 1e-9);
}
VP_ENTRY(const_plain) { both_const<PlainStub>(vp_choose(6), 3, 6, false, 2); }
VP_ENTRY(const_dense) { both_const<DenseStub>(vp_choose(6), 2, 4, false, 1); }
VP_ENTRY(const_dense_reject) { both_const<DenseStub>(1, 2, 5, true, 1); }
VP_ENTRY(adaptive_ctl) { both_adaptive<CtlStub>(vp_choose(6), 4, false); }
VP_ENTRY(adaptive_ctl_reject) { both_adaptive<CtlStub>(1, 5, true); }
VP_ENTRY(adaptive_dense) { both_adaptive<DenseStub>(vp_choose(6), 4, false); }
VP_ENTRY(adaptive_dense_reject) { both_adaptive<DenseStub>(1, 5, true); }
VP_ENTRY(n_plain) { both_n<PlainStub>(vp_choose(6), 3, 6, false, 2); }
VP_ENTRY(n_dense) { both_n<DenseStub>(vp_choose(6), 2, 4, false, 1); }
VP_ENTRY(n_dense_reject) { both_n<DenseStub>(1, 2, 5, true, 1); }
VP_ENTRY(times_plain) { both_times<PlainStub>(vp_choose(6), 0, 2, 6, false, 2); }
// records how the time is divided into steps in a way that steps of the size of the rounding error do not change
struct MomentStub : PlainStub {
    explicit MomentStub(Sched &q) : PlainStub(q) {}
    template<class Sys> void do_step(Sys sys, vec &x, double t, double dt) { double m = x[1] + t * dt; PlainStub::do_step(sys, x, t, dt); x[1] = m; }
};
VP_ENTRY(times_plain3) { both_times<MomentStub>(vp_choose(2) ? 1 : 4, 3, 3, 6, false, 2, false); }
VP_ENTRY(thorough_times_ctl3) { both_times<CtlStub>(1, 3, 3, 4, false, 1, false); }
VP_ENTRY(times_ctl) { both_times<CtlStub>(vp_choose(6), 0, 2, 4, false, 1); }
VP_ENTRY(times_ctl_reject) { both_times<CtlStub>(1, 2, 2, 4, true, 1); }
VP_ENTRY(times_dense) { both_times<DenseStub>(vp_choose(6), 0, 3, 3, false, 1); }
VP_ENTRY(times_dense_reject) { both_times<DenseStub>(1, 2, 3, 4, true, 1); }
VP_ENTRY(thorough_const_dense) { both_const<DenseStub>(vp_choose(6), 3, 6, true, 1); }
VP_ENTRY(thorough_adaptive_ctl) { both_adaptive<CtlStub>(vp_choose(6), 7, true); }
VP_ENTRY(thorough_adaptive_dense) { both_adaptive<DenseStub>(vp_choose(6), 7, true); }
VP_ENTRY(thorough_times_ctl) { both_times<CtlStub>(vp_choose(6), 0, 3, 5, true, 1); }
VP_ENTRY(thorough_times_dense) { both_times<DenseStub>(vp_choose(6), 0, 4, 5, true, 1); }
// the real steppers
template<class St>
void real(int which, St st, Span s)
{
    vec x = symvec(1), y(x);
    double x0 = x[0];
    PolySys f = {vp_real(-1, 1)};
    Log l;
    Seen o;
    if (which == 0) { integrate_adaptive(st, f, x, s.t0, s.end, s.dt, Obs(l)); iter_adaptive(1, st, f, y, s, o); }
    compare(l, o, 1, true, 1e-7);
    for (std::size_t k = 0; k < o.x.size(); ++k) vp_near(o.x[k][0], f.sol(x0, s.t0, o.t[k]), 1e-7, "visited states are the solution at the visited times");
}
template<class St>
void real_const(St st, Span s)
{
    vec x = symvec(1), y(x);
    double x0 = x[0];
    PolySys f = {vp_real(-1, 1)};
    Log l;
    Seen o;
    if (vp_choose(2)) { integrate_const(st, f, x, s.t0, s.end, s.dt, Obs(l)); iter_const(1, st, f, y, s, o); }
    else { integrate_n_steps(st, f, x, s.t0, s.dt, s.n, Obs(l)); iter_n(1, st, f, y, s, o); }
    compare(l, o, 1, true, 1e-7);
    for (std::size_t k = 0; k < o.x.size(); ++k) vp_near(o.x[k][0], f.sol(x0, s.t0, o.t[k]), 1e-7, "visited states are the solution at the visited times");
    near_all(y, o.x.back(), "the state argument is the current state of the iteration");
}
VP_ENTRY(real_ctl) { real(0, make_controlled(0.1, 0.1, runge_kutta_cash_karp54<vec>()), span(2, .5, .5)); }
VP_ENTRY(real_ctl_fsal) { real(0, make_controlled(0.1, 0.1, runge_kutta_dopri5<vec>()), span(2, .5, .5)); }
VP_ENTRY(real_dense) { real(0, make_dense_output(0.1, 0.1, runge_kutta_dopri5<vec>()), span(2, .5, .5)); }
VP_ENTRY(real_const) { real_const(runge_kutta4<vec>(), span(2, .5, .5)); }
VP_ENTRY(real_const_dense) { real_const(make_dense_output(0.1, 0.1, runge_kutta_dopri5<vec>()), span(2, .5, .5)); }
