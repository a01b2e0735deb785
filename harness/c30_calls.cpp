// C30: the ways of calling an integrate function: steppers, systems, observers, checkers and states by value and by reference
#include "integ_common.hpp"
#include <functional>
#include <boost/function.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/integrate/integrate.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/observer_collection.hpp>
#include <boost/numeric/odeint/integrate/null_observer.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
struct Easy {
    template<class Alg, class X, class D, class E, class T> double error(Alg &, const X &, const D &, E &, T) const { return 0.75; }
};
typedef runge_kutta4<vec> Rk4;
typedef adams_bashforth<2, vec> Ab;
typedef controlled_runge_kutta<runge_kutta_cash_karp54<vec>, Easy> Ck;
typedef controlled_runge_kutta<runge_kutta_dopri5<vec>, Easy> Dp;
typedef dense_output_runge_kutta<Dp> DDp;
typedef dense_output_runge_kutta<euler<vec> > DEu;
enum { CONST, ADAPTIVE, NSTEPS, TIMES, RANGE, HOWS };
struct Prob {
    int how; vec x0; double t, dt; std::vector<double> times;
    double end() const { return t + 2.5 * dt; }
};
static Prob prob(int hows = HOWS)
{
    Prob p;
    p.how = vp_choose(hows);
    p.x0 = symvec(1);
    p.t = vp_real(-2, 2);
    p.dt = (vp_choose(2) ? 1 : -1) * vp_real(0.125, 1);
    static const double at[] = {0, 0.5, 0.5, 2, 2.25};
    for (int i = 0; i < 5; ++i) p.times.push_back(p.t + at[i] * p.dt);
    return p;
}
// the result as a number: steps or time
template<class St, class Sys, class X, class O> double go(const Prob &p, St st, Sys sys, X &x, O o)
{
    switch (p.how) {
    case CONST: return integrate_const(st, sys, x, p.t, p.end(), p.dt, o);
    case ADAPTIVE: return integrate_adaptive(st, sys, x, p.t, p.end(), p.dt, o);
    case NSTEPS: return integrate_n_steps(st, sys, x, p.t, p.dt, 3, o);
    case TIMES: return integrate_times(st, sys, x, p.times.begin(), p.times.end(), p.dt, o);
    }
    return integrate_times(st, sys, x, p.times, p.dt, o);
}
template<class St, class Sys, class X> double go(const Prob &p, St st, Sys sys, X &x)
{
    switch (p.how) {
    case CONST: return integrate_const(st, sys, x, p.t, p.end(), p.dt);
    case ADAPTIVE: return integrate_adaptive(st, sys, x, p.t, p.end(), p.dt);
    }
    return integrate_n_steps(st, sys, x, p.t, p.dt, 3);
}
template<class St, class Sys, class X, class O, class C> double goc(const Prob &p, St st, Sys sys, X &x, O o, C c)
{
    switch (p.how) {
    case CONST: return integrate_const(st, sys, x, p.t, p.end(), p.dt, o, c);
    case NSTEPS: return integrate_n_steps(st, sys, x, p.t, p.dt, 3, o, c);
    case TIMES: return integrate_times(st, sys, x, p.times.begin(), p.times.end(), p.dt, o, c);
    }
    return integrate_times(st, sys, x, p.times, p.dt, o, c);
}
static void same(const Log &a, const Log &b)
{
    vp_assert(a.t.size() == b.t.size(), "the observer is called as often");
    for (std::size_t i = 0; i < a.t.size() && i < b.t.size(); ++i) {
        vp_near(a.t[i], b.t[i], 1e-12, "the observer is called at the same times");
        near_all(a.x[i], b.x[i], "the observer sees the same states", 1e-9);
    }
}
struct Base { vec x; Log l; double r; };
template<class St> static Base base(const Prob &p)
{
    Base b;
    b.x = p.x0;
    St st;
    b.r = go(p, st, Rhs<>(), b.x, Obs(b.l));
    return b;
}
static void same(const Base &b, const vec &x, const Log *l, double r)
{
    near_all(x, b.x, "the state ends as the same", 1e-9);
    vp_near(r, b.r, 1e-12, "the same is returned");
    if (l) same(*l, b.l);
}
// ---- steppers and states ----------------------------------------------------------------------------------
static bool used(const Ab &s) { return s.is_initialized(); }
static bool used(const Dp &s) { return s.is_initialized(); }
template<class S> static int used(const S &) { return -1; }
template<class St> static void steppers()
{
    Prob p = prob();
    // a multistep stepper given by value starts again for every step of irregular size
    if (boost::is_same<St, Ab>::value && p.how == ADAPTIVE) return;
    Base b = base<St>(p);
    vec x(p.x0);
    Log l;
    St st;
    double r;
    unsigned form = vp_choose(3);
    if (form == 0) r = go(p, st, Rhs<>(), x, Obs(l));
    else if (form == 1) r = go(p, boost::ref(st), Rhs<>(), x, Obs(l));
    else r = go(p, std::ref(st), Rhs<>(), x, Obs(l));
    same(b, x, &l, r);
    int u = used(st);
    if (u >= 0) vp_assert(u == (form != 0), "a stepper given by reference is used itself, one given by value is not");
}
// the steps are made by the stepper given by reference, by a copy of it otherwise
struct CEu : euler<vec> {
    long n;
    CEu() : n(0) {}
    template<class Sys, class X> void do_step(Sys s, X &x, double t, double dt) { ++n; euler<vec>::do_step(s, x, t, dt); }
};
struct CCk : Ck {
    long n;
    CCk() : n(0) {}
    template<class Sys, class X> controlled_step_result try_step(Sys s, X &x, double &t, double &dt) { ++n; return Ck::try_step(s, x, t, dt); }
};
struct CDe : DEu {
    long n;
    CDe() : n(0) {}
    template<class Sys> std::pair<double, double> do_step(Sys s) { ++n; return DEu::do_step(s); }
};
template<class St> static void counting(bool each)
{
    Prob p = prob();
    vec x(p.x0), y(p.x0), z(p.x0);
    Log l, m, k;
    St a, b, c;
    double r = go(p, a, Rhs<>(), x, Obs(l));
    vp_assert(a.n == 0, "a stepper given by value makes no step itself");
    double s = go(p, boost::ref(b), Rhs<>(), y, Obs(m)), q = go(p, std::ref(c), Rhs<>(), z, Obs(k));
    vp_near(s, r, 1e-12, "the same is returned");
    vp_near(q, r, 1e-12, "the same is returned");
    vp_assert(b.n > 0 && b.n == c.n, "a stepper given by reference makes the steps");
    if (each) vp_assert(b.n == (p.how == NSTEPS ? 3 : long(s)), "a stepper given by reference makes every step returned");
    same(m, l);
    same(k, l);
}
VP_ENTRY(count_euler) { counting<CEu>(true); }
VP_ENTRY(count_ck) { counting<CCk>(true); }
VP_ENTRY(count_deuler) { counting<CDe>(false); }
// ---- a part of a container as (temporary or constant) state -------------------------------------------------
struct RangeRhs {
    template<class X> void operator()(const X &x, vec &d, double t) const
    {
        vec v(boost::begin(x), boost::end(x));
        vp_sys(0, v.data(), v.size(), t, d.data(), d.size(), 4);
    }
};
struct RangeObs {
    Log *l;
    template<class X> void operator()(const X &x, double t) const { l->add(vec(boost::begin(x), boost::end(x)), t); }
};
template<class St> static void ranges()
{
    Prob p = prob();
    Base b;
    b.x = p.x0;
    St s0;
    RangeObs bo = {&b.l};
    b.r = go(p, s0, RangeRhs(), b.x, bo);
    vec w(3);
    w[0] = vp_real(-2, 2);
    w[1] = p.x0[0];
    w[2] = vp_real(-2, 2);
    const vec w0(w);
    Log l;
    RangeObs o = {&l};
    St st;
    typedef boost::iterator_range<vec::iterator> R;
    const R x(w.begin() + 1, w.begin() + 2);
    double r;
    unsigned form = vp_choose(2);
    if (form && p.how < TIMES) { r = go(p, st, RangeRhs(), x); }
    else r = go(p, st, RangeRhs(), x, o);
    same(b, vec(1, w[1]), form && p.how < TIMES ? 0 : &l, r);
    vp_assert(w[0] == w0[0] && w[2] == w0[2], "the neighbours of the state are left alone");
}
// ---- systems ------------------------------------------------------------------------------------------------
static long calls_;
static void plainf(const vec &x, vec &d, double t) { ++calls_; Rhs<>()(x, d, t); }
struct Counting {
    long n;
    void operator()(const vec &x, vec &d, double t) { ++n; Rhs<>()(x, d, t); }
};
template<class St> static void systems()
{
    Prob p = prob();
    Base b;
    b.x = p.x0;
    calls_ = 0;
    { St st; b.r = go(p, st, &plainf, b.x, Obs(b.l)); }
    const long n = calls_;
    vec x(p.x0);
    Log l;
    St st;
    double r;
    Counting c = {0};
    long k = 0;
    unsigned form = vp_choose(5);
    if (form == 0) { r = go(p, st, c, x, Obs(l)); vp_assert(c.n == 0, "a system given by value is copied"); }
    else if (form == 1) { r = go(p, st, boost::ref(c), x, Obs(l)); vp_assert(c.n == n, "a system given by reference is called itself, as often"); }
    else if (form == 2) { r = go(p, st, std::ref(c), x, Obs(l)); vp_assert(c.n == n, "a system given by reference is called itself, as often"); }
    else if (form == 3) { r = go(p, st, [&k](const vec &y, vec &d, double t) { ++k; Rhs<>()(y, d, t); }, x, Obs(l)); vp_assert(k == n, "the system is called as often"); }
    else { r = go(p, st, &plainf, x, Obs(l)); vp_assert(calls_ == 2 * n, "the system is called as often"); }
    same(b, x, &l, r);
}
// ---- observers ------------------------------------------------------------------------------------------------
static Log *glob_;
static void plaino(const vec &x, double t) { glob_->add(x, t); }
struct Own {
    Log *l; std::size_t n;
    void operator()(const vec &x, double t) { ++n; l->add(x, t); }
};
template<class St> static void observers()
{
    Prob p = prob();
    Base b = base<St>(p);
    vec x(p.x0);
    Log l, m;
    St st;
    double r;
    Own o = {&l, 0};
    unsigned form = vp_choose(p.how < TIMES ? 8 : 7);
    const Log *seen = &l;
    if (form == 0) { r = go(p, st, Rhs<>(), x, o); vp_assert(o.n == 0, "an observer given by value is copied"); }
    else if (form == 1) { r = go(p, st, Rhs<>(), x, boost::ref(o)); vp_assert(o.n == b.l.t.size(), "an observer given by reference is called itself"); }
    else if (form == 2) { r = go(p, st, Rhs<>(), x, std::ref(o)); vp_assert(o.n == b.l.t.size(), "an observer given by reference is called itself"); }
    else if (form == 3) { glob_ = &l; r = go(p, st, Rhs<>(), x, &plaino); }
    else if (form == 4) r = go(p, st, Rhs<>(), x, [&l](const vec &y, double t) { l.add(y, t); });
    else if (form < 7) {
        observer_collection<vec, double> c;
        c.observers().push_back(Obs(l));
        c.observers().push_back([&l, &m](const vec &y, double t) { vp_assert(l.t.size() == m.t.size() + 1, "the observers of a collection are called in order"); m.add(y, t); });
        vp_assert(const_cast<const observer_collection<vec, double> &>(c).observers().size() == 2, "a collection holds its observers");
        if (form == 5) r = go(p, st, Rhs<>(), x, c);
        else r = go(p, st, Rhs<>(), x, boost::ref(c));
        same(m, b.l);
    }
    else { r = go(p, st, Rhs<>(), x); seen = 0; }
    same(b, x, seen, r);
}
// ---- checkers that never strike -------------------------------------------------------------------------------
template<class St> static void checkers()
{
    Prob p = prob();
    if (p.how == ADAPTIVE) return;
    Base b = base<St>(p);
    vec x(p.x0);
    Log l;
    St st;
    double r;
    Own o = {&l, 0};
    max_step_checker c(1000);
    unsigned form = vp_choose(5);
    if (form == 0) r = goc(p, st, Rhs<>(), x, o, c);
    else if (form == 1) r = goc(p, boost::ref(st), Rhs<>(), x, boost::ref(o), boost::ref(c));
    else if (form == 2) r = goc(p, std::ref(st), boost::ref(Rhs<>() = Rhs<>()), x, std::ref(o), std::ref(c));
    else if (form == 3) r = goc(p, st, Rhs<>(), x, boost::ref(o), c);
    else r = goc(p, st, Rhs<>(), x, Obs(l), boost::ref(c));
    if (form > 0 && form < 4) vp_assert(o.n == b.l.t.size(), "an observer given by reference is called itself");
    same(b, x, &l, r);
}
#define ALLOF(name, S) \
    VP_ENTRY(stepper_##name) { steppers<S>(); } \
    VP_ENTRY(system_##name) { systems<S>(); } \
    VP_ENTRY(observer_##name) { observers<S>(); } \
    VP_ENTRY(checker_##name) { checkers<S>(); }
ALLOF(rk4, Rk4)
ALLOF(ab, Ab)
ALLOF(ck, Ck)
ALLOF(dp5, Dp)
ALLOF(ddp5, DDp)
ALLOF(deuler, DEu)
VP_ENTRY(range_rk4) { ranges<Rk4>(); }
VP_ENTRY(range_ck) { ranges<Ck>(); }
VP_ENTRY(range_dp5) { ranges<Dp>(); }
// ---- integrate() ------------------------------------------------------------------------------------------------
VP_ENTRY(integrate)
{
    Prob p = prob(1);
    p.dt = (p.dt > 0 ? 1 : -1) * 1e-3;
    double end = p.t + 1.5 * p.dt;
    vec x(p.x0), y(p.x0);
    Log a, b;
    Own o = {&b, 0};
    struct Slow { void operator()(const vec &, vec &d, double t) const { double q; vp_sys(0, 0, 0, t, &q, 1, 1); d[0] = 1e-3 * q; } };
    double r = integrate_adaptive(controlled_runge_kutta<runge_kutta_dopri5<vec> >(), Slow(), x, p.t, end, p.dt, Obs(a)), s;
    unsigned form = vp_choose(6);
    if (form == 0) s = integrate(Slow(), y, p.t, end, p.dt, Obs(b));
    else if (form == 1) s = integrate(Slow(), y, p.t, end, p.dt, boost::ref(o));
    else if (form == 2) s = integrate(Slow(), y, p.t, end, p.dt);
    else if (form == 3) s = integrate<double>(Slow(), y, p.t, end, p.dt, Obs(b));
    else if (form == 4) s = integrate<double>(Slow(), y, p.t, end, p.dt);
    else s = integrate(Slow(), y, p.t, end, p.dt, std::ref(o));
    vp_near(s, r, 0, "integrate returns the number of steps of the default stepper");
    near_all(y, x, "integrate gives the result of the default stepper", 1e-12);
    if (form != 2 && form != 4) same(b, a);
}
