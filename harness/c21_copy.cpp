// C21: copies of every stepper family, taken at any point of a short history
#include "families.hpp"
#include <memory>
#include <new>
using namespace boost::numeric::odeint;
using namespace fam;
template<class F> struct Ins { vec x; double t, dt; unsigned form; };
// steppers that look whether a step continues the one before, or whose work depends on the step size: fixed times
template<class F> struct timed { static const bool value = false; };
template<class R> struct timed<AAB<R> > { static const bool value = true; };
template<class R> struct timed<CAAB<R> > { static const bool value = true; };
static double gap_;
template<class F> static Ins<F> in(std::size_t n, unsigned k)
{
    Ins<F> i;
    i.x = symvec(n);
    if (timed<F>::value) { i.dt = 0.5; i.t = 0.5 * k + (k > 1 ? gap_ : 0); }
    else { i.t = vp_real(-2, 2); i.dt = vp_real(0.125, 1); }
    i.form = 0;
    return i;
}
enum { COPY, ASSIGN, MOVE };
template<class St> void assign(St &a, const St &b, std::true_type) { a = b; }
template<class St> void assign(St &, const St &, std::false_type) { vp_cut("not assignable"); }
template<class St> void assign(St &a, const St &b) { assign(a, b, typename std::is_copy_assignable<St>::type()); }
template<template<class> class FF>
void copies(int how, unsigned maxwarm)
{
    typedef FF<initially_resizer> F;
    typedef typename F::st St;
    gap_ = timed<F>::value && vp_choose(2) ? 0.25 : 0;
    const std::size_t n = F::maxn < 3 || timed<F>::value ? 1 : 2;
    St c1(make_of<F>(0)), c2(make_of<F>(0));             // controls with the same history
    std::unique_ptr<St> orig(new St(make_of<F>(0)));
    unsigned warm = vp_choose(maxwarm + 1), form = vp_choose(F::forms);
    for (unsigned k = 0; k < warm; ++k) {
        Ins<F> i = in<F>(n, k);
        F::run(*orig, i.x, i.t, i.dt, form);
        F::run(c1, i.x, i.t, i.dt, form);
        F::run(c2, i.x, i.t, i.dt, form);
    }
    std::unique_ptr<St> copy;
    if (how == COPY) copy.reset(new St(*orig));
    else if (how == MOVE) copy.reset(new St(std::move(*orig)));
    else {
        copy.reset(new St(make_of<F>(0)));
        unsigned used = vp_choose(3);                   // the target of the assignment has a history of its own
        for (unsigned k = 0; k < used; ++k) { Ins<F> i = in<F>(n, k); F::run(*copy, i.x, i.t, i.dt, form); }
        assign(*copy, *orig);
    }
    if (how == MOVE || vp_choose(2)) orig.reset();
    for (unsigned k = 0; k < 2; ++k) {
        if (orig) {
            Ins<F> i = in<F>(n, warm + k);
            near_all(F::run(*orig, i.x, i.t, i.dt, form), F::run(c1, i.x, i.t, i.dt, form), "the original is not influenced by its copy");
        }
        Ins<F> i = in<F>(n, warm + k);
        near_all(F::run(*copy, i.x, i.t, i.dt, form), F::run(c2, i.x, i.t, i.dt, form), "the copy continues as the original would");
    }
    copy.reset();
    if (orig) { Ins<F> i = in<F>(n, warm + 2); near_all(F::run(*orig, i.x, i.t, i.dt, form), F::run(c1, i.x, i.t, i.dt, form), "the original outlives its copy"); }
}
#define CPA(name, F, W) VP_ENTRY(copy_##name) { copies<F>(COPY, W); } VP_ENTRY(move_##name) { copies<F>(MOVE, W); }
#define CP(name, F, W) CPA(name, F, W) VP_ENTRY(assign_##name) { copies<F>(ASSIGN, W); }
CP(euler, Euler, 1)
CP(midpoint, Midpoint, 1)
CP(rk4, Rk4, 1)
CP(rk4c, Rk4c, 1)
CP(ck, Ck, 1)
CP(ckc, Ckc, 1)
CP(f78, F78, 1)
CP(dp5, Dp5, 2)
CP(ext, Ext, 1)
CP(ab1, AB<1>::F, 2)
CP(ab2, AB<2>::F, 3)
CP(ab3, AB<3>::F, 4)
CP(abm1, ABM<1>::F, 2)
CP(abm2, ABM<2>::F, 3)
CP(abm3, ABM<3>::F, 4)
CP(aab, AAB, 3)
CPA(syme, SymE, 1)
CPA(sym4, Sym4, 1)
CPA(sym6, Sym6, 1)
CP(verlet, Verlet, 2)
CP(cck, CCk, 1)
CP(cdp5, CDp5, 2)
CP(caab, CAAB, 3)
CP(deuler, DEuler, 2)
CP(ddp5, DDp5, 2)
CP(bs, BS, 1)
CP(bsd, BSD, 1)
CPA(ros, Rosen, 1)
CPA(cros, CRos, 1)
CPA(dros, DRos, 1)
CP(ie, IE, 1)

// ---- dense output steppers copied between two steps and between a step and its interpolation ----------
template<class St, class Sys, class S>
static void dense_mid(St (*mk)(), Sys sys, S x0, double dt, int how)
{
    std::unique_ptr<St> orig(new St(mk()));
    St ctl(mk());
    double t = vp_real(-2, 2);
    orig->initialize(x0, t, dt);
    ctl.initialize(x0, t, dt);
    unsigned warm = vp_choose(3);
    for (unsigned k = 0; k < warm; ++k) { orig->do_step(sys); ctl.do_step(sys); }
    std::unique_ptr<St> copy;
    if (how == COPY) copy.reset(new St(*orig));
    else {
        copy.reset(new St(mk()));
        unsigned used = vp_choose(3);
        if (used) { copy->initialize(x0, t + 1, 0.5 * dt); for (unsigned k = 1; k < used; ++k) copy->do_step(sys); }
        assign(*copy, *orig);
    }
    if (vp_choose(2)) { orig->do_step(sys); }
    orig.reset();
    for (unsigned k = 0; k < 2; ++k) {
        if (warm + k > 0) {
            S a(x0), b(x0);
            double s = ctl.previous_time() + 0.375 * (ctl.current_time() - ctl.previous_time());
            copy->calc_state(s, a);
            ctl.calc_state(s, b);
            near_all(a, b, "the copy interpolates as the original would");
            near_all(copy->previous_state(), ctl.previous_state(), "the copy remembers the step before");
            vp_near(copy->previous_time(), ctl.previous_time(), 1e-12, "the copy remembers the time before");
        }
        near_all(copy->current_state(), ctl.current_state(), "the copy has the same state");
        vp_near(copy->current_time(), ctl.current_time(), 1e-12, "the copy has the same time");
        vp_near(copy->current_time_step(), ctl.current_time_step(), 1e-12, "the copy has the same step size");
        copy->do_step(sys);
        ctl.do_step(sys);
    }
    near_all(copy->current_state(), ctl.current_state(), "the copy has the same state");
}
typedef initially_resizer IR;
template<class F> typename F::st mkst() { return make_of<F>(0); }
#define DM(name, F, SYS, X, DT) \
    VP_ENTRY(mid_copy_##name) { dense_mid(mkst<F<IR> >, SYS, X, DT, COPY); } \
    VP_ENTRY(mid_assign_##name) { dense_mid(mkst<F<IR> >, SYS, X, DT, ASSIGN); }
DM(euler, DEuler, Rhs<>(), symvec(2), vp_real(0.125, 1))
DM(dp5, DDp5, Rhs<>(), symvec(2), vp_real(0.125, 1))
DM(bs, BSD, Const(), positive(symvec(1)), 0.5)
typedef std::pair<RF, IJac> RosSys;
VP_ENTRY(mid_copy_ros) { dense_mid(mkst<DRos<IR> >, RosSys(), uv(symvec(1)), 0.25, COPY); }

// ---- an algebra with a life of its own: no stepper may use the algebra of another object ----------------
struct Owned : range_algebra {
    int alive;
    Owned() : alive(1) {}
    Owned(const Owned &) : alive(1) {}
    Owned &operator=(const Owned &) { return *this; }
    ~Owned() { alive = 0; }
    void ok() const { vp_assert(alive == 1, "the algebra used is alive"); }
#define FE(N) template<class... A> void for_each##N(A &&... a) const { ok(); range_algebra::for_each##N(std::forward<A>(a)...); }
    FE(1) FE(2) FE(3) FE(4) FE(5) FE(6) FE(7) FE(8) FE(9) FE(10) FE(11) FE(12) FE(13) FE(14) FE(15)
};
template<class St>
static void own(bool assigned, unsigned steps)
{
    std::unique_ptr<St> orig(new St);
    St ctl;
    vec x = symvec(1), y(x);
    double t = vp_real(-2, 2), dt = vp_real(0.125, 1);
    unsigned warm = vp_choose(steps);
    for (unsigned k = 0; k < warm; ++k) { vec a(x); orig->do_step(Rhs<>(), a, t, dt); ctl.do_step(Rhs<>(), x, t, dt); t += dt; }
    std::unique_ptr<St> copy(assigned ? new St : new St(*orig));
    if (assigned) assign(*copy, *orig);
    orig.reset();
    y = x;
    for (unsigned k = 0; k < steps + 1; ++k) {
        copy->do_step(Rhs<>(), x, t, dt);
        ctl.do_step(Rhs<>(), y, t, dt);
        t += dt;
        near_all(x, y, "the copy continues as the original would");
    }
}
typedef default_operations O;
#define OWN(name, ST, K) VP_ENTRY(own_##name) { typedef ST St; own<St>(false, K); } VP_ENTRY(own_assign_##name) { typedef ST St; own<St>(true, K); }
#define C ,
OWN(rk4, runge_kutta4<vec C double C vec C double C Owned>, 1)
OWN(dp5, runge_kutta_dopri5<vec C double C vec C double C Owned>, 2)
OWN(ab2, adams_bashforth<2 C vec C double C vec C double C Owned>, 2)
OWN(abm2, adams_bashforth_moulton<2 C vec C double C vec C double C Owned>, 2)
OWN(abm3, adams_bashforth_moulton<3 C vec C double C vec C double C Owned>, 3)
OWN(aab, adaptive_adams_bashforth_moulton<2 C vec C double C vec C double C Owned>, 2)
OWN(ext, extrapolation_stepper<4 C vec C double C vec C double C Owned>, 1)
OWN(mid, modified_midpoint<vec C double C vec C double C Owned>, 1)
