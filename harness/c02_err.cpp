// C02: embedded error estimates and the derivative an FSAL stepper hands on
#include "rk_common.hpp"
#define ER(NAME, TYPE, TAB) \
VP_ENTRY(NAME##_vec) { TYPE<vec> s; etableau<TYPE<vec>, vec>(tabs::TAB, s, 1 + vp_choose(3)); } \
VP_ENTRY(NAME##_arr) { TYPE<arr2> s; etableau<TYPE<arr2>, arr2>(tabs::TAB, s, 2); }
ER(ck54, runge_kutta_cash_karp54, ck)
ER(ck54c, runge_kutta_cash_karp54_classic, ck)
ER(dopri5, runge_kutta_dopri5, dp5)
ER(f78, runge_kutta_fehlberg78, f78)

// the estimate does not depend on which overload computes it, nor on aliasing of x
template<class St>
void eoverloads(const Tab &T)
{
    vec x0 = symvec(2), d(2);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    Rhs<> f;
    RkRef r = rk_ref(T, f, x0, t, dt);
    f(x0, d, t);
    { St s; vec o(2), e(2); s.do_step(f, x0, t, o, dt, e); near_all(o, r.out, "out-of-place solution"); near_all(e, r.err, "out-of-place estimate"); }
    { St s; vec o(2), e(2); s.do_step(f, x0, d, t, o, dt, e); near_all(o, r.out, "out-of-place solution, derivative given"); near_all(e, r.err, "out-of-place estimate, derivative given"); }
    { St s; vec x(x0), e(2), dd(d); s.do_step(f, x, dd, t, dt, e); near_all(x, r.out, "in-place solution, derivative given"); near_all(e, r.err, "in-place estimate, derivative given"); }
    { St s; vec x(x0), e(2); s.do_step(f, x, t, x, dt, e); near_all(x, r.out, "aliased solution"); near_all(e, r.err, "aliased estimate"); }
}
VP_ENTRY(ov_ck54) { eoverloads<runge_kutta_cash_karp54<vec> >(tabs::ck); }
VP_ENTRY(ov_ck54c) { eoverloads<runge_kutta_cash_karp54_classic<vec> >(tabs::ck); }
VP_ENTRY(ov_f78) { eoverloads<runge_kutta_fehlberg78<vec> >(tabs::f78); }
VP_ENTRY(ov_dopri5)
{
    vec x0 = symvec(2), d(2);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    Rhs<> f;
    RkRef r = rk_ref(tabs::dp5, f, x0, t, dt);
    f(x0, d, t);
    typedef runge_kutta_dopri5<vec> St;
    { St s; vec o(2), e(2); s.do_step(f, x0, t, o, dt, e); near_all(o, r.out, "out-of-place solution"); near_all(e, r.err, "out-of-place estimate"); }
    { St s; vec o(2), e(2), dn(2); s.do_step(f, x0, d, t, o, dn, dt, e); near_all(o, r.out, "out-of-place solution, derivative given");
      near_all(e, r.err, "out-of-place estimate, derivative given"); near_all(dn, r.klast, "derivative handed on = f(new state, new time)"); }
    { St s; vec x(x0), e(2), dd(d); s.do_step(f, x, dd, t, dt, e); near_all(x, r.out, "in-place solution, derivative given");
      near_all(e, r.err, "in-place estimate, derivative given"); near_all(dd, r.klast, "derivative handed on in place = f(new state, new time)"); }
    { St s; vec x(x0), e(2); s.do_step(f, x, t, x, dt, e); near_all(x, r.out, "aliased solution"); near_all(e, r.err, "aliased estimate"); }
    { St s; vec o(2), dn(2); s.do_step(f, x0, d, t, o, dn, dt); near_all(o, r.out, "no estimate: solution"); near_all(dn, r.klast, "no estimate: derivative handed on"); }
    vec kn(2); f(r.out, kn, t + dt);
    near_all(r.klast, kn, "last stage sits at the new state and time");
    // the estimate vanishes for a constant right-hand side and for dt = 0
}
// consistency with the published orders: the stepper reports them
VP_ENTRY(orders)
{
    runge_kutta_cash_karp54<vec> a; runge_kutta_cash_karp54_classic<vec> b; runge_kutta_dopri5<vec> c; runge_kutta_fehlberg78<vec> d;
    vp_assert(a.order() == 5 && a.stepper_order() == 5 && a.error_order() == 4, "Cash-Karp orders");
    vp_assert(b.order() == 5 && b.stepper_order() == 5 && b.error_order() == 4, "Cash-Karp (classic) orders");
    vp_assert(c.order() == 5 && c.stepper_order() == 5 && c.error_order() == 4, "Dopri5 orders");
    vp_assert(d.order() == 8 && d.stepper_order() == 8 && d.error_order() == 7, "Fehlberg 78 orders");
    euler<vec> e; runge_kutta4<vec> g; runge_kutta4_classic<vec> h;
    vp_assert(e.order() == 1 && g.order() == 4 && h.order() == 4, "orders of the plain steppers");
}
