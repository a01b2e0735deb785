// C18: step checkers and the built-in limits on rejected attempts
#include "integ_common.hpp"
#include "ros_ref.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
using namespace boost::numeric::odeint;

enum { CONST, NSTEPS, TIMES };
struct Job {
    int what;
    double t0, end, dt;
    std::size_t n;
    vec times;
};
static Job job(int what, double sgn, std::size_t n)
{
    Job j;
    j.what = what;
    j.t0 = vp_real(-2, 2);
    j.n = n;
    j.dt = sgn * vp_real(0.5, 1);
    j.end = j.t0 + double(n) * j.dt + 0.25 * sgn;          // not on the grid
    double t = j.t0;
    j.times.push_back(t);
    for (std::size_t i = 0; i < n; ++i) { t = t + sgn * vp_real(0.25, 2); j.times.push_back(t); }
    return j;
}
// result: count or final time
template<class St>
double run(const Job &j, St st, OneSys f, vec &x, Obs o)
{
    if (j.what == CONST) return double(integrate_const(st, f, x, j.t0, j.end, j.dt, o));
    if (j.what == NSTEPS) return integrate_n_steps(st, f, x, j.t0, j.dt, j.n, o);
    return double(integrate_times(st, f, x, j.times.begin(), j.times.end(), j.dt, o));
}
template<class St, class Chk>
double run(const Job &j, St st, OneSys f, vec &x, Obs o, Chk c)
{
    if (j.what == CONST) return double(integrate_const(st, f, x, j.t0, j.end, j.dt, o, c));
    if (j.what == NSTEPS) return integrate_n_steps(st, f, x, j.t0, j.dt, j.n, o, c);
    return vp_choose(2) ? double(integrate_times(st, f, x, j.times, j.dt, o, c)) : double(integrate_times(st, f, x, j.times.begin(), j.times.end(), j.dt, o, c));
}
template<class Stub, class C>
void guarded(int what, double sgn, std::size_t n, std::size_t lim, unsigned maxlimit, bool byref)
{
    Job j = job(what, sgn, n);
    Sched s(sgn, lim, 1);
    Log free_log, log;
    int calls = 0;
    OneSys f(calls);
    const vec x0 = start2();
    vec a(x0), b(x0);
    s.log = &free_log;
    double r1 = run(j, Stub(s), f, a, Obs(free_log));
    const std::vector<Try> tries(s.tries);
    unsigned limit = vp_choose(maxlimit + 1);
    // longest run of steps without an observation in between
    unsigned worst = 0, cnt = 0;
    std::size_t at = 0, group = 0;
    for (std::size_t i = 0; i < tries.size(); ++i) {
        if (tries[i].seen != group) { group = tries[i].seen; cnt = 0; }
        if (tries[i].ok && ++cnt > limit && worst <= limit) { worst = cnt; at = group; }
    }
    s.rewind();
    s.log = &log;
    C c((int)limit);
    double r2 = 0;
    bool thrown = false, other = false;
    try { r2 = byref ? run(j, Stub(s), f, b, Obs(log), boost::ref(c)) : run(j, Stub(s), f, b, Obs(log), c); }
    catch (no_progress_error &) { thrown = true; }
    catch (...) { other = true; }
    vp_assert(!other, "no other exception");
    vp_assert(thrown == (worst > limit), "stopped exactly if more steps than the limit are made without an observation");
    vp_assert(log.t.size() == (thrown ? at : free_log.t.size()), "observations up to that point");
    for (std::size_t i = 0; i < log.t.size(); ++i) {
        vp_near(log.t[i], free_log.t[i], 1e-12, "a checker does not change the observed times");
        near_all(log.x[i], free_log.x[i], "a checker does not change the observed states");
    }
    if (thrown) {
        std::size_t done = 0;
        for (std::size_t i = 0; i < s.tries.size(); ++i) if (s.tries[i].ok && s.tries[i].seen == at) ++done;
        vp_assert(done == limit || done == limit + 1, "stopped at the first step too many");
    }
    else {
        vp_near(r1, r2, 1e-12, "a checker does not change the result");
        near_all(a, b, "a checker does not change the final state");
    }
}
#define GN(N, STUB, WHAT, LIM, ML, K) \
    VP_ENTRY(N) { guarded<STUB, max_step_checker>(WHAT, 1, K, LIM, ML, false); } \
    VP_ENTRY(N##_back) { guarded<STUB, max_step_checker>(WHAT, -1, K, LIM, ML, vp_choose(2)); }
#define G(N, STUB, WHAT, LIM, ML) GN(N, STUB, WHAT, LIM, ML, 2)
G(plain_const, PlainStub, CONST, 6, 1)
G(plain_nsteps, PlainStub, NSTEPS, 6, 1)
G(plain_times, PlainStub, TIMES, 9, 3)
G(ctl_const, CtlStub, CONST, 5, 3)
G(ctl_nsteps, CtlStub, NSTEPS, 5, 3)
GN(ctl_times, CtlStub, TIMES, 4, 3, 1)
GN(ctl_times2, CtlStub, TIMES, 3, 1, 2)
G(thorough_ctl_times, CtlStub, TIMES, 4, 3)
G(dense_const, DenseStub, CONST, 5, 3)
G(dense_nsteps, DenseStub, NSTEPS, 5, 3)
G(dense_times, DenseStub, TIMES, 5, 3)

// ---- limits on rejected attempts ----------------------------------------------------------------
struct FailPlan { int fails, left, attempts; };
static FailPlan fp;
struct FailCtl : stub_types {
    typedef controlled_stepper_tag stepper_category;
    template<class Sys> controlled_step_result try_step(Sys, vec &x, double &t, double &dt)
    {
        ++fp.attempts;
        if (fp.left-- > 0) return fail;
        fp.left = fp.fails;
        x[0] += dt;
        t += dt;
        return success;
    }
};
struct FailChecker {
    template<class Alg, class X, class D, class E, class T>
    double error(Alg &, const X &, const D &, E &, T) const { ++fp.attempts; if (fp.left-- > 0) return 4.0; fp.left = fp.fails; return 0.5; }
};
struct Keep {
    double decrease_step(double dt, double, int) const { return dt; }
    double increase_step(double dt, double, int) const { return dt; }
    bool check_step_size_limit(double) { return true; }
    double get_max_dt() { return 0; }
};
struct ZeroSys { template<class X> void operator()(const X &, X &d, double) const { d[0] = 0; } };
struct Never { double operator()(double) const { return 0; } };
static int fails_of(unsigned i, int limit) { return i == 0 ? 0 : i == 1 ? limit / 2 + 50 : i == 2 ? limit - 2 : i == 3 ? limit + 1 : 3 * limit; }
template<class F>
void limits(F go, int limit)
{
    int n = fails_of(vp_choose(5), limit);
    fp.fails = fp.left = n;
    fp.attempts = 0;
    bool thrown = false, other = false;
    std::size_t steps = 0;
    try { steps = go(); }
    catch (step_adjustment_error &) { thrown = true; }
    catch (std::overflow_error &) { thrown = true; }
    catch (...) { other = true; }
    vp_assert(!other, "only the documented exceptions");
    if (n < limit) {
        vp_assert(!thrown, "a step found within the limit of attempts is taken, however many attempts other steps needed");
        vp_assert(steps == 3, "all steps made");
        vp_assert(fp.attempts == 3 * (n + 1), "no attempt after an accepted one");
    }
    else {
        vp_assert(thrown, "a step that cannot be found is given up");
        vp_assert(fp.attempts <= limit + 2, "... at the limit");
    }
}
static vec one() { vec x(1); x[0] = vp_real(-2, 2); return x; }
static double T0() { return 0.5; }
struct GoAdaptive { std::size_t operator()() const { vec x = one(); return integrate_adaptive(FailCtl(), ZeroSys(), x, T0(), T0() + 1.5, 0.5); } };
struct GoConst { std::size_t operator()() const { vec x = one(); return integrate_const(FailCtl(), ZeroSys(), x, T0(), T0() + 1.5, 0.5, null_observer()); } };
struct GoTimes { std::size_t operator()() const { vec x = one(); vec t; for (int i = 0; i < 4; ++i) t.push_back(T0() + 0.5 * i); return integrate_times(FailCtl(), ZeroSys(), x, t, 0.5, null_observer()); } };
struct GoSteps { std::size_t operator()() const { vec x = one(); double e = integrate_n_steps(FailCtl(), ZeroSys(), x, T0(), 0.5, 3, null_observer()); vp_near(e, T0() + 1.5, 1e-12, "end"); return 3; } };
struct GoBack { std::size_t operator()() const { vec x = one(); return integrate_adaptive(FailCtl(), ZeroSys(), x, T0(), T0() - 1.5, -0.5); } };
VP_ENTRY(limit_adaptive) { limits(GoAdaptive(), 500); }
VP_ENTRY(limit_adaptive_back) { limits(GoBack(), 500); }
VP_ENTRY(limit_const) { limits(GoConst(), 500); }
VP_ENTRY(limit_times) { limits(GoTimes(), 500); }
VP_ENTRY(limit_nsteps) { limits(GoSteps(), 500); }
struct GoDense {
    std::size_t operator()() const
    {
        typedef controlled_runge_kutta<runge_kutta_dopri5<vec>, FailChecker, Keep> C;
        dense_output_runge_kutta<C> d;
        d.initialize(one(), T0(), 0.5);
        for (int i = 0; i < 3; ++i) d.do_step(ZeroSys());
        vp_near(d.current_time(), T0() + 1.5, 1e-12, "time reached");
        return 3;
    }
};
VP_ENTRY(limit_dense) { limits(GoDense(), 500); }
struct FailRos {
    typedef rosenbrock4<double> stepper_type;
    typedef stepper_type::state_type state_type; typedef stepper_type::value_type value_type; typedef stepper_type::time_type time_type;
    typedef stepper_type::deriv_type deriv_type; typedef stepper_type::resizer_type resizer_type; typedef controlled_stepper_tag stepper_category;
    stepper_type st;
    template<class Sys> controlled_step_result try_step(Sys, const uvec &x, double &t, uvec &o, double &dt)
    {
        ++fp.attempts;
        if (fp.left-- > 0) return fail;
        fp.left = fp.fails;
        o = x;
        t += dt;
        return success;
    }
    stepper_type &stepper() { return st; }
    const stepper_type &stepper() const { return st; }
};
struct GoRos {
    std::size_t operator()() const
    {
        rosenbrock4_dense_output<FailRos> d;
        uvec x(1);
        x[0] = 1;
        d.initialize(x, T0(), 0.5);
        for (int i = 0; i < 3; ++i) d.do_step(ZeroSys());
        vp_near(d.current_time(), T0() + 1.5, 1e-12, "time reached");
        return 3;
    }
};
VP_ENTRY(limit_rosenbrock) { limits(GoRos(), 500); }
template<class It>
std::size_t walk(It a, It b) { std::size_t n = 0; while (a != b) { ++a; ++n; if (n > 9) break; } return n; }
struct GoIter { std::size_t operator()() const { vec x = one(); return walk(make_adaptive_iterator_begin(FailCtl(), ZeroSys(), x, T0(), T0() + 1.5, 0.5), make_adaptive_iterator_end(FailCtl(), ZeroSys(), x)) - 1; } };
struct GoIterTimes { std::size_t operator()() const { vec x = one(); vec t; for (int i = 0; i < 4; ++i) t.push_back(T0() + 0.5 * i);
    return walk(make_times_iterator_begin(FailCtl(), ZeroSys(), x, t.begin(), t.end(), 0.5), make_times_iterator_end<vec::iterator>(FailCtl(), ZeroSys(), x)) - 1; } };
VP_ENTRY(limit_iterator) { limits(GoIter(), 1000); }
VP_ENTRY(limit_iterator_times) { limits(GoIterTimes(), 1000); }
// the checkers themselves
template<class C, class E>
void checker()
{
    unsigned m = vp_choose(5);
    C c((int)m);
    unsigned since = 0;
    for (int i = 0; i < 6; ++i) {
        if (vp_choose(2)) { c.reset(); since = 0; continue; }
        bool thrown = false;
        try { c(); } catch (E &) { thrown = true; }
        ++since;
        vp_assert(thrown == (since > m), "a checker throws at every call beyond its limit since the last reset, and at no other");
    }
}
VP_ENTRY(max_step_checker) { checker<max_step_checker, no_progress_error>(); }
VP_ENTRY(failed_step_checker) { checker<failed_step_checker, step_adjustment_error>(); }
