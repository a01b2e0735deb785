// C28: exceptions out of the right-hand side, the observer or an allocation
#include "vp.h"
#include <cstdlib>
#include <new>
static long fuse_ = -1;             // evaluations until the right-hand side throws, -1: never
static bool dirty_ = false;         // it has written into its output before
static long afuse_ = -1;            // allocations until one fails
static long live_ = 0;              // blocks allocated and not released
static void *take(std::size_t n)
{
    if (afuse_ >= 0 && afuse_-- == 0) throw std::bad_alloc();
    ++live_;
    return std::malloc(n ? n : 1);
}
static void give(void *p) { if (p) { --live_; std::free(p); } }
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
struct Bomb { int tag; };
static void bomb_sys(int id, const double *x, std::size_t n, double t, double *out, std::size_t m, double B)
{
    long a = afuse_;
    afuse_ = -1;
    if (fuse_ >= 0 && fuse_-- == 0) {
        if (dirty_) for (std::size_t i = 0; i < m; ++i) out[i] = 1000 + double(i);
        afuse_ = a;
        throw Bomb{77};
    }
    vp_sys(id, x, n, t, out, m, B);
    afuse_ = a;
}
#define vp_sys bomb_sys
#include "families.hpp"
#include <memory>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
using namespace boost::numeric::odeint;
using namespace fam;
enum { RHS, ALLOC };
static void arm(int what, unsigned k) { if (what == RHS) { fuse_ = k; dirty_ = vp_choose(2); } else afuse_ = k; }
static void disarm() { fuse_ = afuse_ = -1; }
// runs f; true if it threw (the right thing)
template<class Fn> static bool throws(int what, unsigned maxk, Fn f)
{
    unsigned k = vp_choose(maxk);
    arm(what, k);
    bool r = false;
    try { f(); }
    catch (Bomb &b) { disarm(); r = true; vp_assert(what == RHS && b.tag == 77, "the exception arrives as it was thrown"); }
    catch (std::bad_alloc &) { disarm(); r = true; vp_assert(what == ALLOC, "the exception arrives as it was thrown"); }
    disarm();
    return r;
}
template<class S> auto reset(S &s, int) -> decltype(s.reset(), void()) { s.reset(); }
template<class S> void reset(S &, long) {}
template<class F> struct timed { static const bool value = false; };
template<class R> struct timed<AAB<R> > { static const bool value = true; };
template<class R> struct timed<CAAB<R> > { static const bool value = true; };
template<class F> struct heavy { static const bool value = false; };       // fewer combinations of sizes and forms
template<class R> struct heavy<BS<R> > { static const bool value = true; };
template<class R> struct heavy<CRos<R> > { static const bool value = true; };
template<class R> struct heavy<DRos<R> > { static const bool value = true; };
struct In { vec x; double t, dt; };
template<class F> static In in(std::size_t n, unsigned k)
{
    In i;
    i.x = symvec(n);
    if (timed<F>::value) { i.dt = 0.5; i.t = 0.5 * k; }
    else { i.t = vp_real(-2, 2); i.dt = vp_real(0.125, 1); }
    return i;
}
// ---- any operation of any family is interrupted; after a reset the stepper is as good as new ---------------
template<class F> static void interrupted(int what, unsigned maxk, unsigned maxwarm, bool sizes)
{
    long before = live_;
    {
        typename F::st s(make_of<F>(0)), c(make_of<F>(0));
        unsigned warm = vp_choose(maxwarm + 1), form = vp_choose(F::forms);
        std::size_t n = 1;
        for (unsigned k = 0; k < warm; ++k) { In i = in<F>(n, k); F::run(s, i.x, i.t, i.dt, form); }
        const bool few = heavy<F>::value && sizes;
        if (few) n = 2;
        else if (sizes) n = F::maxn < 3 ? 1 + vp_choose(2) : 2;
        In i = in<F>(n, warm);
        if (!throws(what, maxk, [&] { F::run(s, i.x, i.t, i.dt, form); })) return;
        if (F::memory) reset(s, 0);
        unsigned again = F::forms > 1 && !few ? vp_choose(2) ? form : 0 : form;
        for (unsigned k = 0; k < (few ? 1u : 2u); ++k) {
            In j = in<F>(n, warm + 1 + k);
            near_all(F::run(s, j.x, j.t, j.dt, again), F::run(c, j.x, j.t, j.dt, again), "after the exception the stepper works as a new one");
        }
    }
    vp_assert(live_ == before, "nothing is leaked");
}
#define IT(name, F, K, W) \
    VP_ENTRY(rhs_##name) { interrupted<F<initially_resizer> >(RHS, K, W, false); } \
    VP_ENTRY(alloc_##name) { interrupted<F<initially_resizer> >(ALLOC, 9, 0, false); } \
    VP_ENTRY(rhs_always_##name) { interrupted<F<always_resizer> >(RHS, K, 1, true); } \
    VP_ENTRY(alloc_always_##name) { interrupted<F<always_resizer> >(ALLOC, 9, 1, true); }
IT(euler, Euler, 1, 1)
IT(midpoint, Midpoint, 3, 1)
IT(rk4, Rk4, 4, 1)
IT(rk4c, Rk4c, 4, 1)
IT(ck, Ck, 6, 1)
IT(ckc, Ckc, 6, 1)
IT(f78, F78, 13, 1)
IT(dp5, Dp5, 7, 1)
IT(ext, Ext, 8, 1)
IT(ab1, AB<1>::F, 3, 2)
IT(ab2, AB<2>::F, 3, 2)
IT(ab3, AB<3>::F, 3, 3)
IT(abm2, ABM<2>::F, 3, 2)
IT(aab, AAB, 4, 2)
IT(syme, SymE, 2, 1)
IT(sym4, Sym4, 8, 1)
IT(sym6, Sym6, 12, 1)
IT(verlet, Verlet, 2, 2)
IT(cck, CCk, 6, 1)
IT(cdp5, CDp5, 7, 2)
IT(caab, CAAB, 4, 2)
IT(deuler, DEuler, 2, 1)
IT(ddp5, DDp5, 7, 1)
IT(bs, BS, 7, 1)
IT(bsd, BSD, 7, 1)
IT(ros, Rosen, 6, 1)
IT(cros, CRos, 6, 1)
IT(dros, DRos, 6, 1)
IT(ie, IE, 3, 1)

// ---- an interrupted attempt of a controlled stepper has not taken place ------------------------------------
static double verdict_;
struct VChk {
    template<class Alg, class X, class D, class E, class T> double error(Alg &, const X &, const D &, E &, T) const { return verdict_; }
};
template<class St> struct judged { static const bool value = false; };      // by VChk, any verdict
template<class E, class A, class R, class T> struct judged<controlled_runge_kutta<E, VChk, A, R, T> > { static const bool value = true; };
template<class St, class Sys, class S>
static void attempt(St s, Sys sys, S (*mk)(std::size_t), int what, unsigned maxk, bool sizes, double dt0)
{
    const bool any = judged<St>::value;
    St c(s);
    unsigned form = vp_choose(2), warm = any ? vp_choose(3) : vp_choose(2);
    std::size_t n = 1;
    double t = 0.5, dt = dt0;
    S x(mk(n));
    for (unsigned k = 0; k < warm; ++k) {
        verdict_ = any && k == 0 && vp_choose(2) ? 2 : 0.25;
        S y(x);
        double u = t, du = dt;
        c.try_step(sys, y, u, du);
        s.try_step(sys, x, t, dt);
    }
    if (sizes && (any ? vp_choose(2) : warm == 1)) { n = 2; x = mk(n); dt = dt0; }
    verdict_ = any && vp_choose(2) ? 2 : 0.25;
    const S x0(x);
    const double t0 = t, d0 = dt;
    S o(x);
    if (!throws(what, maxk, [&] { if (form == 0) s.try_step(sys, x, t, dt); else s.try_step(sys, x, t, o, dt); })) return;
    near_all(x, x0, "the state is as before the attempt", 0);
    vp_assert(t == t0, "the time is as before the attempt");
    vp_assert(dt == d0, "the step size is as before the attempt");
    for (unsigned k = 0; k < (any ? 2u : 1u); ++k) {
        S y(x), z(x);
        double u = t, du = dt, w = t, dw = dt;
        controlled_step_result a, b;
        if (form == 0) { a = s.try_step(sys, y, u, du); b = c.try_step(sys, z, w, dw); }
        else { S p(x), q(x); a = s.try_step(sys, y, u, p, du); b = c.try_step(sys, z, w, q, dw); if (a == success && b == success) { y = p; z = q; } }
        vp_assert(a == b, "the repeated attempt is judged as without the exception");
        near_all(y, z, "the repeated attempt gives the state it would have given without the exception");
        vp_near(u, w, 1e-12, "the repeated attempt leads to the same time");
        vp_near(du, dw, 1e-12, "the repeated attempt proposes the same step");
        x = y; t = u; dt = du;
        if (a != success) verdict_ = 0.25;
    }
}
static vec vmk(std::size_t n) { return symvec(n); }
static vec pmk(std::size_t n) { return positive(symvec(n)); }
static uvec umk(std::size_t n) { return usym(n); }
typedef initially_resizer IR;
typedef always_resizer AR;
#define AT(name, TI, TA, SYS, MK, K, DT) \
    VP_ENTRY(attempt_##name) { TI s; attempt(s, SYS, MK, RHS, K, false, DT); } \
    VP_ENTRY(attempt_always_##name) { TA s; attempt(s, SYS, MK, RHS, K, true, DT); } \
    VP_ENTRY(attempt_alloc_##name) { TI s; attempt(s, SYS, MK, ALLOC, 12, false, DT); } \
    VP_ENTRY(attempt_alloc_always_##name) { TA s; attempt(s, SYS, MK, ALLOC, 12, true, DT); }
template<class R> struct VCk { typedef controlled_runge_kutta<typename Ck<R>::st, VChk, Adj, R> st; };
template<class R> struct VDp5 { typedef controlled_runge_kutta<typename Dp5<R>::st, VChk, Adj, R> st; };
AT(ck, VCk<IR>::st, VCk<AR>::st, Rhs<>(), vmk, 6, vp_real(0.125, 1))
AT(dp5, VDp5<IR>::st, VDp5<AR>::st, Rhs<>(), vmk, 7, vp_real(0.125, 1))
AT(bs, BS<IR>::st, BS<AR>::st, Const(), pmk, 7, 0.5)
typedef std::pair<RF, IJac> RosSys;
template<class R> struct SRos : CRos<R>::st { SRos() : CRos<R>::st(1e12, 0.0) {} };
AT(ros, SRos<IR>, SRos<AR>, RosSys(), umk, 6, 0.25)

// ---- a first evaluation that threw has not been made: the step is repeated without any reset ------------------
template<class St> static void first_evaluation(bool sizes)
{
    St s, c;
    unsigned warm = vp_choose(2), form = vp_choose(5);
    if (warm) { vec x = symvec(1); s.do_step(Rhs<>(), x, vp_real(-2, 2), vp_real(0.125, 1)); }
    if (warm && !sizes) s.reset();
    std::size_t n = sizes ? 2 : 1;
    const vec x0 = symvec(n);
    const double t = vp_real(-2, 2), dt = vp_real(0.125, 1);
    vec x(x0), o(n), e(n), y(x0), p(n), q(n);
    auto run = [&](St &st, vec &a, vec &b, vec &er) {
        if (form == 0) { st.do_step(Rhs<>(), a, t, dt); b = a; }
        else if (form == 1) st.do_step(Rhs<>(), const_cast<const vec &>(a), t, b, dt);
        else if (form == 2) { st.do_step(Rhs<>(), a, t, dt, er); b = a; }
        else if (form == 3) st.do_step(Rhs<>(), const_cast<const vec &>(a), t, b, dt, er);
        else { st.initialize(Rhs<>(), a, t); b = a; }
    };
    if (!throws(RHS, 1, [&] { run(s, x, o, e); })) return;
    near_all(x, x0, "the state is as before the step", 0);
    vp_assert(!s.is_initialized(), "the stepper is not initialised after its initialisation has thrown");
    run(s, x, o, e);
    run(c, y, p, q);
    near_all(o, p, "the repeated step is that of a new stepper");
    near_all(e, q, "the repeated step has the error of a new stepper");
    near_all(x, y, "the repeated step leaves the state as a new stepper does");
}
VP_ENTRY(first_dp5) { first_evaluation<Dp5<IR>::st>(false); }
VP_ENTRY(first_always_dp5) { first_evaluation<Dp5<AR>::st>(true); }
template<class St> static void first_acceleration(bool sizes)
{
    St s, c;
    bool warm = vp_choose(2), init = vp_choose(2);
    if (warm) { vec q = symvec(1), p = symvec(1); s.do_step(Acc(), std::make_pair(boost::ref(q), boost::ref(p)), vp_real(-2, 2), vp_real(0.125, 1)); }
    if (warm && !sizes) s.reset();
    std::size_t n = sizes ? 2 : 1;
    const vec q0 = symvec(n), p0 = symvec(n);
    const double t = vp_real(-2, 2), dt = vp_real(0.125, 1);
    vec q(q0), p(p0), y(q0), z(p0);
    auto run = [&](St &st, vec &a, vec &b) {
        if (init) st.initialize(Acc(), a, b, t);
        else st.do_step(Acc(), std::make_pair(boost::ref(a), boost::ref(b)), t, dt);
    };
    if (!throws(RHS, 1, [&] { run(s, q, p); })) return;
    near_all(q, q0, "the coordinates are as before the step", 0);
    near_all(p, p0, "the velocities are as before the step", 0);
    vp_assert(!s.is_initialized(), "the stepper is not initialised after its initialisation has thrown");
    for (unsigned k = 0; k < 2; ++k) {
        run(s, q, p);
        run(c, y, z);
        near_all(q, y, "the repeated step is that of a new stepper");
        near_all(p, z, "the repeated step is that of a new stepper");
    }
}
VP_ENTRY(first_verlet) { first_acceleration<Verlet<IR>::st>(false); }
VP_ENTRY(first_always_verlet) { first_acceleration<Verlet<AR>::st>(true); }

// ---- an interrupted step of a dense output stepper has not taken place --------------------------------------
template<class St, class Sys, class S>
static void dense(St s, Sys sys, S (*mk)(std::size_t), int what, unsigned maxk, double dt)
{
    St c(s);
    S x(mk(1));
    double t = vp_real(-2, 2);
    verdict_ = 0.25;
    if (what == ALLOC && vp_choose(2)) {
        if (!throws(what, 12, [&] { s.initialize(x, t, dt); })) return;
        s.initialize(x, t, dt);
    }
    else s.initialize(x, t, dt);
    c.initialize(x, t, dt);
    unsigned warm = vp_choose(3);
    for (unsigned k = 0; k < warm; ++k) { s.do_step(sys); c.do_step(sys); }
    if (!throws(what, maxk, [&] { s.do_step(sys); })) return;
    near_all(s.current_state(), c.current_state(), "the current state is that before the step");
    vp_near(s.current_time(), c.current_time(), 0, "the current time is that before the step");
    vp_near(s.current_time_step(), c.current_time_step(), 0, "the step size is that before the step");
    for (unsigned k = 0; k < 2; ++k) {
        std::pair<double, double> p = s.do_step(sys), q = c.do_step(sys);
        vp_near(p.first, q.first, 1e-12, "the repeated step begins as without the exception");
        vp_near(p.second, q.second, 1e-12, "the repeated step ends as without the exception");
        near_all(s.current_state(), c.current_state(), "the repeated step gives what it would have given without the exception");
        near_all(s.previous_state(), c.previous_state(), "the repeated step begins where it would have begun without the exception");
        S a(x), b(x);
        double m = p.first + 0.375 * (p.second - p.first);
        s.calc_state(m, a);
        c.calc_state(m, b);
        near_all(a, b, "the repeated step is interpolated as without the exception");
    }
}
#define DT(name, T, SYS, MK, K, H) \
    VP_ENTRY(dense_##name) { T s; dense(s, SYS, MK, RHS, K, H); } \
    VP_ENTRY(dense_alloc_##name) { T s; dense(s, SYS, MK, ALLOC, 12, H); }
DT(euler, DEuler<IR>::st, Rhs<>(), vmk, 2, vp_real(0.125, 1))
DT(dp5, DDp5<IR>::st, Rhs<>(), vmk, 7, vp_real(0.125, 1))
DT(bs, BSD<IR>::st, Const(), pmk, 7, 0.5)
struct SDRos : DRos<IR>::st { SDRos() : DRos<IR>::st(CRos<IR>::make()) {} };
DT(ros, SDRos, RosSys(), umk, 6, 0.25)

// ---- integrations ---------------------------------------------------------------------------------------------
struct BObs {                       // throws at an observation of choice
    vec *x; double *t; int *left;
    void operator()(const vec &y, double s) const { *x = y; *t = s; if ((*left)-- == 0) throw Bomb{78}; }
};
struct BChk {                       // throws at a step of choice
    int *left;
    void operator()() const { if ((*left)-- == 0) throw Bomb{79}; }
    void reset() const {}
};
enum { CONST, ADAPTIVE, NSTEPS, TIMES };
template<class St, class Sys, class O> void go(int how, St st, Sys sys, vec &x, double t, double dt, O o)
{
    if (how == CONST) integrate_const(st, sys, x, t, t + 3.5 * dt, dt, o);
    else if (how == ADAPTIVE) integrate_adaptive(st, sys, x, t, t + 2.5 * dt, dt, o);
    else if (how == NSTEPS) integrate_n_steps(st, sys, x, t, dt, 3, o);
    else { double l[] = {t, t + 0.5 * dt, t + 0.5 * dt, t + 2 * dt, t + 2.25 * dt}; integrate_times(st, sys, x, l, l + 5, dt, o); }
}
struct KeepAdj : Adj { double increase_step(double dt, double, int) const { return dt; } };
template<class St> static void integration(St (*mk)(), bool dense, bool ctl)
{
    long before = live_;
    {
        St s(mk()), c(mk());
        int how = vp_choose(4), left = -1;
        bool byref = vp_choose(2);
        vec x = symvec(1), x0(x), seen(x);
        double t = vp_real(-2, 2), dt = (vp_choose(2) ? 1 : -1) * vp_real(0.125, 1), at = t;
        verdict_ = 0.25;
        BObs o = {&seen, &at, &left};
        bool thrown = false;
        int who = vp_choose(2), expect = who ? 77 : 78;
        if (who == 0) left = vp_choose(4);
        else { fuse_ = vp_choose(4); dirty_ = vp_choose(2); }
        try {
            if (byref) go(how, boost::ref(s), Rhs<>(), x, t, dt, o);
            else go(how, s, Rhs<>(), x, t, dt, o);
        }
        catch (Bomb &b) { thrown = true; vp_assert(b.tag == expect, "the exception arrives as it was thrown"); }
        disarm();
        left = -1;
        if (!thrown) return;
        if (who == 0 && !dense) near_all(x, seen, "after an exception of the observer the state is the one it was given", 0);
        if (who == 1 && ctl && how == ADAPTIVE) near_all(x, seen, "after an exception of the right-hand side the state is that of the last completed step", 0);
        // the same integration once more, from the beginning, with the same stepper
        vec y(x0), z(x0);
        if (byref) reset(s, 0);
        go(how, byref ? St(s) : s, Rhs<>(), y, t, dt, o);
        const double ts = at;
        go(how, c, Rhs<>(), z, t, dt, o);
        near_all(y, z, "the integration repeated after the exception gives the result of a new one");
        vp_near(ts, at, 1e-12, "the integration repeated after the exception ends at the same time");
    }
    vp_assert(live_ == before, "nothing is leaked");
}
typedef controlled_runge_kutta<Ck<IR>::st, VChk, KeepAdj, IR> KCk;
typedef controlled_runge_kutta<Dp5<IR>::st, VChk, KeepAdj, IR> KDp5;
template<class St> static St plain() { return St(); }
VP_ENTRY(integrate_euler) { integration<Euler<IR>::st>(plain<Euler<IR>::st>, false, false); }
VP_ENTRY(integrate_ck) { integration<KCk>(plain<KCk>, false, true); }
VP_ENTRY(integrate_dp5) { integration<KDp5>(plain<KDp5>, false, true); }
VP_ENTRY(integrate_deuler) { integration<DEuler<IR>::st>(plain<DEuler<IR>::st>, true, false); }
VP_ENTRY(integrate_ddp5) { typedef dense_output_runge_kutta<KDp5> D; integration<D>(plain<D>, true, false); }
VP_ENTRY(checker)
{
    long before = live_;
    {
        KCk s;
        int left = vp_choose(4), how = vp_choose(2);
        vec x = symvec(1), seen;
        double t = vp_real(-2, 2), dt = vp_real(0.125, 1), at = t;
        verdict_ = 0.25;
        int never = -1;
        BObs o = {&seen, &at, &never};
        BChk k = {&left};
        bool thrown = false;
        try {
            if (how) integrate_const(s, Rhs<>(), x, t, t + 3.5 * dt, dt, o, k);
            else { double l[] = {t, t + 0.5 * dt, t + 0.5 * dt, t + 2 * dt, t + 2.25 * dt}; integrate_times(s, Rhs<>(), x, l, l + 5, dt, o, k); }
        }
        catch (Bomb &b) { thrown = true; vp_assert(b.tag == 79, "the exception arrives as it was thrown"); }
        vp_assert(thrown == (left == -1), "exceptions of the checker arrive");
    }
    vp_assert(live_ == before, "nothing is leaked");
}
// iterators
template<class R> static void walk(R r, vec &last)
{
    for (auto i = r.first; i != r.second; ++i) last = (*i).first;
}
template<class St> static void iterators()
{
    long before = live_;
    {
        St s;
        int how = vp_choose(4);
        vec x = symvec(1), last(x);
        double t = vp_real(-2, 2), dt = vp_real(0.125, 1);
        verdict_ = 0.25;
        double l[] = {t, t + 0.5 * dt, t + 2 * dt};
        Rhs<> f;
        if (!throws(RHS, 4, [&] {
            if (how == 0) walk(make_const_step_time_range(s, f, x, t, t + 3.5 * dt, dt), last);
            else if (how == 1) walk(make_n_step_time_range(s, f, x, t, dt, 3), last);
            else walk(make_times_time_range(s, f, x, l, l + 3, dt), last);
        })) return;
    }
    vp_assert(live_ == before, "nothing is leaked");
}
VP_ENTRY(iterate_euler) { iterators<Euler<IR>::st>(); }
VP_ENTRY(iterate_deuler) { iterators<DEuler<IR>::st>(); }
VP_ENTRY(iterate_ddp5) { iterators<dense_output_runge_kutta<KDp5> >(); }
