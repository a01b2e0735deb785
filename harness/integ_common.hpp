// Stub steppers of the three categories whose accept/reject decisions and step proposals are symbolic,
// an observer that records, and a system with a known solution.
#ifndef INTEG_COMMON
#define INTEG_COMMON
#include "rk_common.hpp"
#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
using namespace boost::numeric::odeint;

const double EPS = 1e-12;               // slack for comparisons of times

struct Log {
    std::vector<double> t;
    std::vector<vec> x;
    void add(const vec &y, double s) { t.push_back(s); x.push_back(y); }
};
struct Obs {
    Log *l;
    explicit Obs(Log &g) : l(&g) {}
    void operator()(const vec &x, double t) const { l->add(x, t); }
};
struct Try { double t, dt; bool ok; std::size_t seen; };      // seen: observations made before
// what the steppers decide: filled on demand, the same on every use (rewind to replay)
struct Sched {
    double sgn;                         // direction of time
    std::size_t pos, limit, fails, maxfails;
    bool reject;                        // may reject
    std::vector<char> ok;
    std::vector<double> next;           // proposed step after an accepted one
    std::vector<Try> tries;
    double lo, hi;
    const Log *log;
    std::size_t seen() const { return log ? log->t.size() : 0; }
    explicit Sched(double s, std::size_t lim = 6, std::size_t mf = 2, bool r = true) : sgn(s), pos(0), limit(lim), fails(0), maxfails(mf), reject(r), lo(0.25), hi(2), log(0) {}
    void rewind() { pos = 0; fails = 0; tries.clear(); }
    // decision for attempt number pos
    bool accept()
    {
        if (pos >= limit) vp_cut("more attempts than the bound");
        if (ok.size() <= pos) {
            bool f = reject && fails < maxfails && vp_choose(2);
            ok.push_back(!f);
            next.push_back(f ? 0.0 : sgn * vp_real(lo, hi));
        }
        bool a = ok[pos];
        fails = a ? 0 : fails + 1;
        ++pos;
        return a;
    }
    double proposal() const { return next[pos - 1]; }
};
struct stub_types {
    typedef vec state_type; typedef vec deriv_type; typedef double value_type; typedef double time_type; typedef unsigned short order_type;
};
// state: x[0] advances with time, x[1] counts steps
struct PlainStub : stub_types {
    typedef stepper_tag stepper_category;
    Sched *s;
    explicit PlainStub(Sched &q) : s(&q) {}
    template<class Sys> void do_step(Sys sys, vec &x, double t, double dt)
    {
        typename boost::unwrap_reference<Sys>::type &f = sys;
        vec d(2);
        f(x, d, t);
        Try q = {t, dt, true, s->seen()};
        s->tries.push_back(q);
        if (s->tries.size() > s->limit) vp_cut("more steps than the bound");
        x[0] += dt * d[0];
        x[1] += 1;
    }
};
struct CtlStub : stub_types {
    typedef controlled_stepper_tag stepper_category;
    Sched *s;
    explicit CtlStub(Sched &q) : s(&q) {}
    template<class Sys> controlled_step_result try_step(Sys sys, vec &x, double &t, double &dt)
    {
        typename boost::unwrap_reference<Sys>::type &f = sys;
        vec d(2);
        f(x, d, t);
        bool a = s->accept();
        Try q = {t, dt, a, s->seen()};
        s->tries.push_back(q);
        if (!a) { dt *= 0.5; return fail; }
        x[0] += dt * d[0];
        x[1] += 1;
        t += dt;
        dt = s->proposal();
        return success;
    }
};
struct DenseStub : stub_types {
    typedef dense_output_stepper_tag stepper_category;
    Sched *s;
    vec cur, prev;
    double tc, tp, dt;
    int steps;
    explicit DenseStub(Sched &q) : s(&q), tc(0), tp(0), dt(0), steps(0) {}
    void initialize(const vec &x, double t, double d) { cur = x; prev = x; tc = t; tp = t; dt = d; steps = 0; }
    template<class Sys> std::pair<double, double> do_step(Sys sys)
    {
        typename boost::unwrap_reference<Sys>::type &f = sys;
        vec d(2);
        f(cur, d, tc);
        double h = dt;
        while (!s->accept()) { Try q = {tc, h, false, s->seen()}; s->tries.push_back(q); h *= 0.5; }
        Try q = {tc, h, true, s->seen()};
        s->tries.push_back(q);
        prev = cur; tp = tc;
        cur[0] += h * d[0];
        cur[1] += 1;
        tc += h;
        dt = s->proposal();
        ++steps;
        return std::make_pair(tp, tc);
    }
    void calc_state(double t, vec &x) const
    {
        vp_assert(steps > 0, "interpolation only after a step");
        vp_assert((t - tp) * s->sgn >= -EPS && (tc - t) * s->sgn >= -EPS, "interpolation only inside the last step");
        x = prev;
        x[0] = prev[0] + (t - tp);
    }
    const vec &current_state() const { return cur; }
    const vec &previous_state() const { return prev; }
    double current_time() const { return tc; }
    double previous_time() const { return tp; }
    double current_time_step() const { return dt; }
};
// counts calls; derivative one
struct OneSys {
    int *n;
    explicit OneSys(int &c) : n(&c) {}
    void operator()(const vec &, vec &d, double) const { ++*n; d[0] = 1; d[1] = 0; }
};
// x' = 1 + a t: every method here integrates it exactly, with zero error estimates
struct PolySys {
    double a;
    void operator()(const vec &, vec &d, double t) const { d[0] = 1 + a * t; }
    double sol(double x0, double t0, double t) const { return x0 + (t - t0) + 0.5 * a * (t * t - t0 * t0); }
};
struct Span { double sgn, t0, dt, end; std::size_t n; bool exact; };
// interval of n whole steps of size dt plus a rest (or none)
inline Span span(std::size_t nmax, double lo = 0.25, double hi = 1, double dir = 0)
{
    Span s;
    s.sgn = dir ? dir : vp_choose(2) ? -1 : 1;
    s.n = vp_choose(nmax + 1);
    s.exact = vp_choose(2);
    s.t0 = vp_real(-2, 2);
    double d = lo == hi ? lo : vp_real(lo, hi), rest = 0;
    if (!s.exact) { rest = vp_real(0.0078125, hi); vp_assume(rest <= d - 0.0078125); }
    s.dt = s.sgn * d;
    s.end = s.t0 + s.n * s.dt + s.sgn * rest;
    return s;
}
inline vec start2() { vec x(2); x[0] = vp_real(-2, 2); x[1] = 0; return x; }
#endif
