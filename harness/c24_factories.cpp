// C24: factory functions build the stepper they name with the parameters given
#include "ros_ref.hpp"
#include "rk_common.hpp"
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
using namespace boost::numeric::odeint;
// an algebra with state: counts what it is used for, in a place of the user's choice
struct CountAlg : range_algebra {
    int *n;
    CountAlg(int *p = 0) : n(p) {}
    void tick() const { if (n) ++*n; }
    template<class A, class B, class Op> void for_each2(A &a, B &b, Op op) { tick(); range_algebra::for_each2(a, b, op); }
    template<class A, class B, class C, class Op> void for_each3(A &a, B &b, C &c, Op op) { tick(); range_algebra::for_each3(a, b, c, op); }
};
// bounds the evaluations (and so the rejected attempts) looked at
template<class F> struct Few {
    int *n, max;
    Few(int *p, int m) : n(p), max(m) {}
    template<class X, class D> void operator()(const X &x, D &d, double t) const { if (++*n > max) vp_cut("bound on rejected attempts"); F()(x, d, t); }
};
// a right-hand side that takes one value up to time 0 and another one later: simple errors that still take any value
struct Kick { double a, b; explicit Kick(double lo = -BK, double hi = BK) : a(vp_real(lo, hi)), b(vp_real(lo, hi)) {}
    template<class X, class D> void operator()(const X &, D &d, double t) const { d[0] = t == 0 ? a : b; } };
template<> struct Few<Kick> {
    int *n, max; Kick k;
    Few(int *p, int m, double lo = -BK, double hi = BK) : n(p), max(m), k(lo, hi) {}
    template<class X, class D> void operator()(const X &x, D &d, double t) const { if (++*n > max) vp_cut("bound on rejected attempts"); k(x, d, t); }
};
// tolerances: symbolic, or one of two different pairs
struct Tols { double a, r; explicit Tols(bool fixed, double s = 0.0625) { if (fixed) { bool k = vp_choose(2); a = k ? s : 8 * s; r = k ? 4 * s : 0.5 * s; } else { a = vp_real(0.0009765625, 1); r = vp_real(0.0009765625, 1); } } };
struct Zero { template<class X, class D> void operator()(const X &, D &d, double) const { d[0] = 0; } };
template<class A, class B>
static void same_result(const A &a, const B &b, double ta, double tb, double da, double db, bool ra, bool rb)
{
    vp_assert(ra == rb, "accepted or rejected alike");
    near_all(a, b, "same state");
    vp_near(ta, tb, TOL, "same time");
    vp_near(da, db, TOL, "same next step size");
}
// forms: 0 tolerances only, 1 with stepper, 2 with maximum, 3 with both
template<class St>
static St direct_stepper(int form, int *n) { return form & 1 ? St(CountAlg(n)) : St(); }
template<class St>
static void controlled(unsigned form, double sgn, unsigned attempts)
{
    typedef controlled_runge_kutta<St> C;
    typedef typename C::error_checker_type Chk;
    typedef typename C::step_adjuster_type Adj;
    double atol = vp_real(0.0009765625, 1), rtol = vp_real(0.0009765625, 1), mx = sgn * vp_real(0.25, 1);
    int na = 0, nb = 0;
    const St st(direct_stepper<St>(form, &na));
    C c = form == 0 ? make_controlled<St>(atol, rtol) : form == 1 ? make_controlled(atol, rtol, st)
        : form == 2 ? make_controlled<St>(atol, rtol, mx) : make_controlled(atol, rtol, mx, st);
    C d(Chk(atol, rtol), form & 2 ? Adj(mx) : Adj(), direct_stepper<St>(form, &nb));
    vec x = symvec(1), y(x);
    double t = vp_real(-2, 2), u = t, dt = sgn * 0.5, du = dt;
    Rhs<> f;
    for (unsigned a = 0; a < attempts; ++a) {
        bool ra = c.try_step(f, x, t, dt) == success, rb = d.try_step(f, y, u, du) == success;
        same_result(x, y, t, u, dt, du, ra, rb);
        vp_assert(na == nb, "the stepper given is the one used");
    }
    vp_assert(form != 1 || na > 0, "the stepper given is used");
}
typedef runge_kutta_cash_karp54<vec, double, vec, double, CountAlg> Ck;
typedef runge_kutta_cash_karp54_classic<vec, double, vec, double, CountAlg> Ckc;
typedef runge_kutta_fehlberg78<vec, double, vec, double, CountAlg> F78;
typedef runge_kutta_dopri5<vec, double, vec, double, CountAlg> Dp5;
#define CT(n, S) VP_ENTRY(controlled_##n) { controlled<S>(vp_choose(4), 1, 1); } VP_ENTRY(controlled_##n##_back) { controlled<S>(vp_choose(4), -1, 1); } \
                 VP_ENTRY(controlled_##n##_two) { controlled<S>(2 + vp_choose(2), 1, 2); }
CT(ck, Ck) CT(ckc, Ckc) CT(f78, F78) CT(dp5, Dp5)
// the tolerances mean what they say: independent weights
template<class St>
static void weights(unsigned form, const Tab &T)
{
    double atol = vp_real(0.0009765625, 1), rtol = vp_real(0.0009765625, 1), mx = 1;
    vec x = symvec(1), y(x);
    double t = vp_real(-2, 2), dt = 0.5;
    Rhs<> f;
    RkRef r = rk_ref(T, f, x, t, dt);
    double e = std::abs(r.err[0]) / (atol + rtol * (std::abs(x[0]) + dt * std::abs(r.k1[0])));
    bool ok = (form == 0 ? make_controlled<St>(atol, rtol) : make_controlled<St>(atol, rtol, mx)).try_step(f, y, t, dt) == success;
    if (ok) vp_assert(e <= 1 + 1e-9, "accepted only within the tolerances given");
    else vp_assert(e >= 1 - 1e-9, "rejected only outside the tolerances given");
}
VP_ENTRY(weights_ck) { weights<Ck>(0, tabs::ck); }
VP_ENTRY(weights_ck_max) { weights<Ck>(1, tabs::ck); }
VP_ENTRY(weights_dp5) { weights<Dp5>(0, tabs::dp5); }
VP_ENTRY(weights_dp5_max) { weights<Dp5>(1, tabs::dp5); }
// a step beyond the maximum is cut
template<class C>
static void limit(C c, double mx)
{
    vec x = symvec(1), y(x);
    double t = vp_real(-2, 2), u = t, dt = 2 * mx;
    vp_assert(c.try_step(Rhs<>(), x, u, dt) == fail, "a step beyond the maximum given is refused");
    near_all(x, y, "a refused step leaves the state");
    vp_near(dt, mx, TOL, "a step beyond the maximum given is cut to it");
}
VP_ENTRY(limit_ck) { double m = vp_choose(2) ? 0.25 : -0.25; limit(make_controlled<Ck>(0.1, 0.1, m), m); }
VP_ENTRY(limit_dp5) { double m = vp_choose(2) ? 0.25 : -0.25; limit(make_controlled(0.1, 0.1, m, Dp5()), m); }
VP_ENTRY(limit_f78) { double m = vp_choose(2) ? 0.25 : -0.25; limit(make_controlled(0.1, 0.1, m, F78()), m); }
// dense output
template<class A, class B, class V, class Sys>
static void dense_run(A &a, B &b, const V &x, double t, double dt, Sys f, int *na, int *nb, int *calls, unsigned steps)
{
    a.initialize(x, t, dt); b.initialize(x, t, dt);
    for (unsigned k = 0; k < steps; ++k) {
        *calls = 0;
        std::pair<double, double> p = a.do_step(f);
        *calls = 0;
        std::pair<double, double> q = b.do_step(f);
        vp_near(p.first, q.first, TOL, "same interval"); vp_near(p.second, q.second, TOL, "same interval");
        vp_near(a.current_time_step(), b.current_time_step(), TOL, "same next step size");
        near_all(a.current_state(), b.current_state(), "same state");
        V i(x), j(x);
        double at = p.first + 0.3 * (p.second - p.first);
        a.calc_state(at, i); b.calc_state(at, j);
        near_all(i, j, "same interpolated state");
        vp_assert(*na == *nb, "the stepper given is the one used");
    }
}
static void dense(unsigned form, double sgn, unsigned steps)
{
    typedef Dp5 St;
    typedef controlled_runge_kutta<St> C;
    typedef dense_output_runge_kutta<C> D;
    typedef C::error_checker_type Chk;
    typedef C::step_adjuster_type Adj;
    double atol = vp_real(0.0009765625, 1), rtol = vp_real(0.0009765625, 1), mx = sgn * vp_real(0.25, 1);
    int na = 0, nb = 0;
    const St st(direct_stepper<St>(form, &na));
    D c = form == 0 ? make_dense_output<St>(atol, rtol) : form == 1 ? make_dense_output(atol, rtol, st)
        : form == 2 ? make_dense_output<St>(atol, rtol, mx) : make_dense_output(atol, rtol, mx, st);
    D d(C(Chk(atol, rtol), form & 2 ? Adj(mx) : Adj(), direct_stepper<St>(form, &nb)));
    int calls = 0;
    dense_run(c, d, symvec(1), 0.0, sgn * 0.5, Few<Kick>(&calls, 7), &na, &nb, &calls, steps);
    vp_assert(form != 1 || na > 0, "the stepper given is used");
}
VP_ENTRY(dense) { dense(vp_choose(4), 1, 1); }
VP_ENTRY(dense_back) { dense(vp_choose(4), -1, 1); }
VP_ENTRY(dense_two) { dense(2 + vp_choose(2), 1, 2); }
VP_ENTRY(dense_limit)
{
    double m = vp_choose(2) ? 0.25 : -0.25, t = vp_real(-2, 2);
    vec x(1, 0.0);
    bool given = vp_choose(2);
    dense_output_runge_kutta<controlled_runge_kutta<Dp5> > d = given ? make_dense_output(0.1, 0.1, m, Dp5()) : make_dense_output<Dp5>(0.1, 0.1, m);
    d.initialize(x, t, 4 * m);
    std::pair<double, double> p = d.do_step(Zero());
    vp_near(p.second - p.first, m, TOL, "a dense output step is at most the maximum given");
    vp_near(d.current_time_step(), m, TOL, "a dense output step does not grow beyond the maximum given");
}
// Rosenbrock
typedef rosenbrock4<double> Ros4;
struct JacOne { template<class X> void operator()(const X &, umat &j, double, X &d) const { j(0, 0) = -1; d[0] = 0; } };
static const double one_mat[4] = {-1, 0, 0, 0};
static void ros(unsigned form, double sgn, unsigned attempts)
{
    const Tols q(attempts > 1, 0.00390625);
    typedef rosenbrock4_controller<Ros4> C;
    double atol = q.a, rtol = q.r, mx = sgn * (vp_choose(2) ? 0.25 : 1);
    const Ros4 st;
    C c = form == 0 ? make_controlled<Ros4>(atol, rtol) : form == 1 ? make_controlled(atol, rtol, st)
        : form == 2 ? make_controlled<Ros4>(atol, rtol, mx) : make_controlled(atol, rtol, mx, st);
    C d = form & 2 ? C(atol, rtol, mx, Ros4()) : C(atol, rtol, Ros4());
    uvec x = usym(1), y(x);
    if (attempts > 1) x[0] = y[0] = 1;
    double t = attempts > 1 ? 0 : vp_real(-2, 2), u = t, dt = sgn * 0.5, du = dt;
    RF f; Kick g(attempts > 1 ? -0.5 : -BK, attempts > 1 ? -0.125 : BK);
    for (unsigned a = 0; a < attempts; ++a) {
        bool ra = (attempts > 1 ? c.try_step(std::make_pair(g, JacOne()), x, t, dt) : c.try_step(std::make_pair(f, Jac(one_mat)), x, t, dt)) == success;
        bool rb = (attempts > 1 ? d.try_step(std::make_pair(g, JacOne()), y, u, du) : d.try_step(std::make_pair(f, Jac(one_mat)), y, u, du)) == success;
        same_result(x, y, t, u, dt, du, ra, rb);
        dt = du = sgn * 0.5;
    }
}
VP_ENTRY(ros) { ros(vp_choose(4), 1, 1); }
VP_ENTRY(ros_back) { ros(vp_choose(4), -1, 1); }
VP_ENTRY(ros_two) { ros(2 + vp_choose(2), 1, 2); }
VP_ENTRY(ros_weights)
{
    const Tols q(true, 0.00390625);
    double atol = q.a, rtol = q.r, t = vp_real(-2, 2), dt = 0.5;
    uvec x = usym(1), y(x), ro(1), re(1), c3(1), c4(1);
    Jac jac(one_mat);
    ros_ref(x, t, dt, jac, ro, re, c3, c4, RF());
    double m = std::abs(x[0]) < std::abs(ro[0]) ? std::abs(ro[0]) : std::abs(x[0]), sk = atol + rtol * m;
    bool ok = (vp_choose(2) ? make_controlled<Ros4>(atol, rtol) : make_controlled<Ros4>(atol, rtol, 1.0)).try_step(std::make_pair(RF(), jac), y, t, dt) == success;
    if (ok) vp_assert(std::abs(re[0]) <= sk * (1 + 1e-9), "accepted only within the tolerances given");
    else vp_assert(std::abs(re[0]) >= sk * (1 - 1e-9), "rejected only outside the tolerances given");
}
static void ros_dense(unsigned form, double sgn, unsigned steps)
{
    const Tols q(true, 0.015625);
    typedef rosenbrock4_controller<Ros4> C;
    typedef rosenbrock4_dense_output<C> D;
    double atol = q.a, rtol = q.r, mx = sgn * (vp_choose(2) ? 0.25 : 1);
    const Ros4 st;
    D c = form == 0 ? make_dense_output<Ros4>(atol, rtol) : form == 1 ? make_dense_output(atol, rtol, st)
        : form == 2 ? make_dense_output<Ros4>(atol, rtol, mx) : make_dense_output(atol, rtol, mx, st);
    D d(form & 2 ? C(atol, rtol, mx, Ros4()) : C(atol, rtol, Ros4()));
    int calls = 0, na = 0;
    dense_run(c, d, uvec(1, 1.0), 0.0, sgn * 0.5, std::make_pair(Few<Kick>(&calls, 6, -0.5, -0.125), JacOne()), &na, &na, &calls, steps);
}
VP_ENTRY(ros_dense) { ros_dense(vp_choose(4), 1, 1); }
VP_ENTRY(ros_dense_back) { ros_dense(vp_choose(4), -1, 1); }
// adaptive-order Adams
typedef adaptive_adams_bashforth_moulton<2, vec> Aab;
static void adams(unsigned form, double sgn, unsigned attempts)
{
    const Tols q(attempts > 1, 0.00390625);
    typedef controlled_adams_bashforth_moulton<Aab> C;
    typedef C::step_adjuster_type Adj;
    double atol = q.a, rtol = q.r, mx = sgn * (vp_choose(2) ? 0.25 : 1);
    const Aab st;
    C c = form == 0 ? make_controlled<Aab>(atol, rtol) : form == 1 ? make_controlled(atol, rtol, st)
        : form == 2 ? make_controlled<Aab>(atol, rtol, mx) : make_controlled(atol, rtol, mx, st);
    C d(form & 2 ? Adj(atol, rtol, mx) : Adj(atol, rtol));
    vec x = symvec(1), y(x);
    double t = 0, u = t, dt = sgn * 0.5, du = dt;
    for (unsigned a = 0; a < attempts; ++a) {
        bool ra = c.try_step(Rhs<>(), x, t, dt) == success, rb = d.try_step(Rhs<>(), y, u, du) == success;
        same_result(x, y, t, u, dt, du, ra, rb);
        dt = du = sgn * 0.5;
    }
}
VP_ENTRY(adams) { adams(vp_choose(4), 1, 1); }
VP_ENTRY(adams_back) { adams(vp_choose(4), -1, 1); }
// steppers of the user: the factory hands everything on in order
struct MyStepper { typedef double value_type; typedef double time_type; int tag; explicit MyStepper(int k = 0) : tag(k) {} };
struct MyCtrl {
    double a, r, m; bool limited; int tag;
    MyCtrl(double x, double y, const MyStepper &s) : a(x), r(y), m(0), limited(false), tag(s.tag) {}
    MyCtrl(double x, double y, double z, const MyStepper &s) : a(x), r(y), m(z), limited(true), tag(s.tag) {}
};
struct MyDense : MyCtrl {
    MyDense(double x, double y, const MyStepper &s) : MyCtrl(x, y, s) {}
    MyDense(double x, double y, double z, const MyStepper &s) : MyCtrl(x, y, z, s) {}
};
namespace boost { namespace numeric { namespace odeint {
template<> struct get_controller<MyStepper> { typedef MyCtrl type; };
template<> struct get_dense_output<MyStepper> { typedef MyDense type; };
} } }
static void user(const MyCtrl &c, double a, double r, bool limited, double m, int tag)
{
    vp_assert(c.a == a, "absolute tolerance"); vp_assert(c.r == r, "relative tolerance");
    vp_assert(c.limited == limited && c.tag == tag, "the stepper given");
    if (limited) vp_assert(c.m == m, "maximum step");
}
VP_ENTRY(user_defined)
{
    double a = vp_real(0, 1), r = vp_real(0, 1), m = vp_real(-1, 1);
    MyStepper s(7);
    user(make_controlled<MyStepper>(a, r), a, r, false, 0, 0);
    user(make_controlled(a, r, s), a, r, false, 0, 7);
    user(make_controlled<MyStepper>(a, r, m), a, r, true, m, 0);
    user(make_controlled(a, r, m, s), a, r, true, m, 7);
    user(make_dense_output<MyStepper>(a, r), a, r, false, 0, 0);
    user(make_dense_output(a, r, s), a, r, false, 0, 7);
    user(make_dense_output<MyStepper>(a, r, m), a, r, true, m, 0);
    user(make_dense_output(a, r, m, s), a, r, true, m, 7);
}
