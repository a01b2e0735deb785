// C03: every way of calling a step gives the same step
#include "rk_common.hpp"
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/range.hpp>
#include <functional>

// right-hand side with a private call counter: a copy counts in the copy
struct OwnCount {
    int n;
    OwnCount() : n(0) {}
    template<class X, class D>
    void operator()(const X &x, D &d, double t) { ++n; vp_sys(0, &x[0], x.size(), t, &d[0], x.size(), BK); }
};
// works on ranges of any kind
struct RangeRhs {
    template<class X, class D>
    void operator()(const X &x, D &d, double t) const
    {
        double a[4], o[4];
        std::size_t n = 0;
        for (typename boost::range_iterator<const X>::type i = boost::begin(x); i != boost::end(x); ++i) a[n++] = *i;
        vp_sys(0, a, n, t, o, n, BK);
        n = 0;
        for (typename boost::range_iterator<D>::type i = boost::begin(d); i != boost::end(d); ++i) *i = o[n++];
    }
};

// family with the plain overloads (x,t,dt) (in,t,out,dt), aliased, wrapped, ranges
template<class St>
vec plain_forms(const vec &x0, double t, double dt, bool ranges = true)
{
    const std::size_t n = x0.size();
    Rhs<> f;
    vec ref(x0);
    { St s; s.do_step(f, ref, t, dt); }
    { St s; vec o(n); const vec in(x0); s.do_step(f, in, t, o, dt); near_all(o, ref, "out of place = in place"); near_all(in, x0, "input untouched"); }
    { St s; vec x(x0); s.do_step(f, x, t, x, dt); near_all(x, ref, "output aliasing input = in place"); }
    { St s; OwnCount c; vec x(x0); s.do_step(boost::ref(c), x, t, dt); near_all(x, ref, "system in boost::ref");
      vp_assert(c.n > 0, "a referenced system is called itself, not a copy");
      int m = c.n; St s2; vec o(n); s2.do_step(boost::ref(c), x0, t, o, dt); near_all(o, ref, "system in boost::ref, out of place");
      vp_assert(c.n == 2 * m, "both forms evaluate the referenced system equally often"); }
    { St s; OwnCount c; vec x(x0); s.do_step(std::ref(c), x, t, dt); near_all(x, ref, "system in std::ref"); vp_assert(c.n > 0, "a std::ref system is called itself"); }
    return ref;
}
template<class St>
void range_forms(const vec &x0, double t, double dt, const vec &ref)
{
    const std::size_t n = x0.size();
    RangeRhs f;
    vec big(n + 2, 7.0), bo(n + 2, 5.0);
    std::copy(x0.begin(), x0.end(), big.begin() + 1);
    { St s; boost::iterator_range<vec::iterator> ro(bo.begin() + 1, bo.end() - 1);
      s.do_step(f, boost::make_iterator_range(big.begin() + 1, big.end() - 1), t, ro, dt);
      for (std::size_t i = 0; i < n; ++i) { vp_near(bo[i + 1], ref[i], TOL, "range out of place = in place"); vp_near(big[i + 1], x0[i], TOL, "input range untouched"); }
      vp_assert(bo[0] == 5 && bo[n + 1] == 5 && big[0] == 7, "nothing outside the range is written"); }
    { St s; s.do_step(f, boost::make_iterator_range(big.begin() + 1, big.end() - 1), t, dt);
      for (std::size_t i = 0; i < n; ++i) vp_near(big[i + 1], ref[i], TOL, "range in place = in place");
      vp_assert(big[0] == 7 && big[n + 1] == 7, "nothing outside the range is written, in place"); }
}
// derivative supplied by the caller (explicit steppers)
template<class St>
void dxdt_forms(const vec &x0, double t, double dt, const vec &ref)
{
    const std::size_t n = x0.size();
    Rhs<> f;
    vec d(n);
    f(x0, d, t);
    { St s; vec x(x0), dd(d); s.do_step(f, x, dd, t, dt); near_all(x, ref, "derivative supplied, in place"); near_all(dd, d, "supplied derivative untouched"); }
    { St s; vec o(n); const vec in(x0), dd(d); s.do_step(f, in, dd, t, o, dt); near_all(o, ref, "derivative supplied, out of place"); }
    { St s; vec x(x0), dd(d); s.do_step(f, x, dd, t, x, dt); near_all(x, ref, "derivative supplied, aliased"); }
    { St s; OwnCount c; vec x(x0), dd(d); s.do_step(boost::ref(c), x, dd, t, dt); near_all(x, ref, "derivative supplied, boost::ref"); }
    // a supplied derivative is the one used: perturb it
    vec e(d); e[0] += 1.0;
    vec a(x0), b(n);
    { St s; s.do_step(f, a, e, t, dt); }
    { St s; s.do_step(f, x0, e, t, b, dt); near_all(a, b, "other supplied derivative: both forms use it"); }
}
template<class St>
void err_forms(const vec &x0, double t, double dt, const vec &ref)
{
    const std::size_t n = x0.size();
    Rhs<> f;
    vec d(n), er(n);
    f(x0, d, t);
    { St s; vec x(x0); s.do_step(f, x, t, dt, er); near_all(x, ref, "with error, in place"); }
    { St s; vec o(n), e(n); s.do_step(f, x0, t, o, dt, e); near_all(o, ref, "with error, out of place"); near_all(e, er, "error estimate, out of place"); }
    { St s; vec o(n), e(n); s.do_step(f, x0, d, t, o, dt, e); near_all(o, ref, "with error and derivative, out of place"); near_all(e, er, "error estimate, derivative, out of place"); }
    { St s; vec x(x0), e(n), dd(d); s.do_step(f, x, dd, t, dt, e); near_all(x, ref, "with error and derivative, in place"); near_all(e, er, "error estimate, derivative, in place"); }
    { St s; vec x(x0), e(n); s.do_step(f, x, t, x, dt, e); near_all(x, ref, "with error, aliased"); near_all(e, er, "error estimate, aliased"); }
    { St s; OwnCount c; vec x(x0), e(n); s.do_step(boost::ref(c), x, t, dt, e); near_all(x, ref, "with error, boost::ref"); near_all(e, er, "error estimate, boost::ref"); }
}
#define START vec x0 = symvec(2); double t = vp_real(-2, 2), dt = vp_real(-1, 1);
#define EXPL(N, ...) VP_ENTRY(N) { START vec r = plain_forms<__VA_ARGS__ >(x0, t, dt); dxdt_forms<__VA_ARGS__ >(x0, t, dt, r); range_forms<__VA_ARGS__ >(x0, t, dt, r); }
#define EXPLE(N, ...) EXPL(N, __VA_ARGS__) VP_ENTRY(N##_err) { START vec r(x0); __VA_ARGS__ s; Rhs<> f; s.do_step(f, r, t, dt); err_forms<__VA_ARGS__ >(x0, t, dt, r); }
EXPL(euler, euler<vec>)
EXPL(rk4, runge_kutta4<vec>)
EXPL(rk4c, runge_kutta4_classic<vec>)
EXPL(midpoint, modified_midpoint<vec>)
EXPLE(ck54, runge_kutta_cash_karp54<vec>)
EXPLE(ck54c, runge_kutta_cash_karp54_classic<vec>)
EXPLE(f78, runge_kutta_fehlberg78<vec>)
EXPLE(extrap4, extrapolation_stepper<4, vec>)
EXPLE(extrap6, extrapolation_stepper<6, vec>)
// FSAL: a supplied derivative is replaced by the new one
VP_ENTRY(dopri5)
{
    START
    typedef runge_kutta_dopri5<vec> St;
    vec r = plain_forms<St>(x0, t, dt);
    range_forms<St>(x0, t, dt, r);
    Rhs<> f;
    vec d(2), dn(2);
    f(x0, d, t);
    f(r, dn, t + dt);
    { St s; vec x(x0), dd(d); s.do_step(f, x, dd, t, dt); near_all(x, r, "derivative supplied, in place"); near_all(dd, dn, "derivative handed on, in place"); }
    { St s; vec o(2), q(2); s.do_step(f, x0, d, t, o, q, dt); near_all(o, r, "derivative supplied, out of place"); near_all(q, dn, "derivative handed on"); }
    { St s; vec o(2), dd(d); s.do_step(f, x0, dd, t, o, dd, dt); near_all(o, r, "derivative in and out aliased"); near_all(dd, dn, "derivative handed on, aliased"); }
    { St s; vec x(x0), q(2); s.do_step(f, x, d, t, x, q, dt); near_all(x, r, "state aliased"); near_all(q, dn, "derivative handed on, state aliased"); }
    vec er(2);
    { St s; vec x(x0); s.do_step(f, x, t, dt, er); near_all(x, r, "with error, in place"); }
    { St s; vec o(2), e(2); s.do_step(f, x0, t, o, dt, e); near_all(o, r, "with error, out of place"); near_all(e, er, "error out of place"); }
    { St s; vec x(x0), dd(d), e(2); s.do_step(f, x, dd, t, dt, e); near_all(x, r, "with error and derivative, in place"); near_all(e, er, "error, derivative, in place"); near_all(dd, dn, "derivative handed on with error, in place"); }
    { St s; vec o(2), q(2), e(2); s.do_step(f, x0, d, t, o, q, dt, e); near_all(o, r, "with error and derivative"); near_all(e, er, "error, derivative"); near_all(q, dn, "derivative handed on with error"); }
    { St s; vec o(2), dd(d), e(2); s.do_step(f, x0, dd, t, o, dd, dt, e); near_all(o, r, "with error, derivative aliased"); near_all(e, er, "error, derivative aliased"); }
    { St s; vec x(x0), e(2); s.do_step(f, x, t, x, dt, e); near_all(x, r, "with error, aliased"); near_all(e, er, "error, aliased"); }
}
// multistep: three consecutive steps of every form, fresh history each
template<class St>
void multistep(int steps)
{
    vec x0 = symvec(1);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    Rhs<> f;
    St a, b, c, d, e;
    OwnCount cnt;
    vec xa(x0), xb(x0), xc(x0), xd(x0), xe(x0);
    for (int i = 0; i < steps; ++i) {
        a.do_step(f, xa, t + i * dt, dt);
        vec o(1);
        b.do_step(f, xb, t + i * dt, o, dt); xb = o;
        c.do_step(f, xc, t + i * dt, xc, dt);
        d.do_step(boost::ref(cnt), xd, t + i * dt, dt);
        e.do_step(std::ref(cnt), xe, t + i * dt, dt);
        near_all(xb, xa, "out of place = in place");
        near_all(xc, xa, "aliased = in place");
        near_all(xd, xa, "boost::ref = by value");
        near_all(xe, xa, "std::ref = by value");
    }
    vp_assert(cnt.n > 0, "the referenced system is called itself");
}
VP_ENTRY(ab1) { multistep<adams_bashforth<1, vec> >(2); }
VP_ENTRY(ab2) { multistep<adams_bashforth<2, vec> >(3); }
VP_ENTRY(ab3) { multistep<adams_bashforth<3, vec> >(4); }
VP_ENTRY(abm2) { multistep<adams_bashforth_moulton<2, vec> >(3); }
VP_ENTRY(abm3) { multistep<adams_bashforth_moulton<3, vec> >(4); }
VP_ENTRY(abm1) { multistep<adams_bashforth_moulton<1, vec> >(2); }
VP_ENTRY(abm8) { multistep<adams_bashforth_moulton<8, vec> >(9); }
VP_ENTRY(aabm3)
{
    vec x0 = symvec(1);
    double t = vp_real(-2, 2), dt = vp_real(0.125, 1);
    typedef adaptive_adams_bashforth_moulton<3, vec> St;
    Rhs<> f;
    St a, b, c, d;
    OwnCount cnt;
    vec xa(x0), xb(x0), xc(x0), xd(x0);
    for (int i = 0; i < 3; ++i) {
        vec o(1), e(1), ei(1);
        a.do_step(f, xa, t + i * dt, dt);
        b.do_step(f, xb, t + i * dt, o, dt); xb = o;
        c.do_step(f, xc, t + i * dt, o, dt, e); xc = o;
        d.do_step(std::ref(cnt), xd, t + i * dt, dt, ei);
        near_all(xb, xa, "out of place = in place");
        near_all(xc, xa, "with error, out of place = in place");
        near_all(xd, xa, "with error, in place, std::ref = in place");
        near_all(e, ei, "error estimates agree");
    }
    vp_assert(cnt.n > 0, "the referenced system is called itself");
}
// symplectic steppers
struct PFun { int *n; PFun(int *m = 0) : n(m) {} template<class X, class D> void operator()(const X &x, D &d) const { if (n) ++*n; vp_sys(1, &x[0], x.size(), 0, &d[0], x.size(), BK); } };
struct QFun { template<class X, class D> void operator()(const X &x, D &d) const { vp_sys(2, &x[0], x.size(), 0, &d[0], x.size(), BK); } };
typedef std::pair<vec, vec> qp;
template<class St>
void sympl(std::size_t n)
{
    vec q0 = symvec(n), p0 = symvec(n);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    for (int sep = 0; sep < 2; ++sep) {
        int cnt = 0;
        QFun qf; PFun pf;
        std::pair<QFun, PFun> sys(qf, pf);
        std::pair<QFun, PFun> csys(qf, PFun(&cnt));
        PFun cp(&cnt);
        qp ref(q0, p0);
        { St s; if (sep) s.do_step(sys, ref, t, dt); else s.do_step(pf, ref, t, dt); }
        { St s; qp in(q0, p0), o{vec(n), vec(n)}; if (sep) s.do_step(sys, in, t, o, dt); else s.do_step(pf, in, t, o, dt);
          near_all(o.first, ref.first, "coordinates, out of place"); near_all(o.second, ref.second, "momenta, out of place");
          near_all(in.first, q0, "input coordinates untouched"); near_all(in.second, p0, "input momenta untouched"); }
        { St s; qp x(q0, p0); if (sep) s.do_step(sys, x, t, x, dt); else s.do_step(pf, x, t, x, dt);
          near_all(x.first, ref.first, "coordinates, aliased"); near_all(x.second, ref.second, "momenta, aliased"); }
        { St s; vec q(q0), p(p0); if (sep) s.do_step(sys, q, p, t, dt); else s.do_step(pf, q, p, t, dt);
          near_all(q, ref.first, "coordinates, separate arguments"); near_all(p, ref.second, "momenta, separate arguments"); }
        { St s; vec q(q0), p(p0); if (sep) s.do_step(boost::ref(csys), std::make_pair(boost::ref(q), boost::ref(p)), t, dt); else s.do_step(boost::ref(cp), std::make_pair(boost::ref(q), boost::ref(p)), t, dt);
          near_all(q, ref.first, "coordinates, pair of references"); near_all(p, ref.second, "momenta, pair of references"); }
        { St s; qp x(q0, p0); if (sep) s.do_step(std::make_pair(boost::ref(qf), boost::ref(cp)), x, t, dt); else s.do_step(std::ref(cp), x, t, dt);
          near_all(x.first, ref.first, "coordinates, functions by reference"); near_all(x.second, ref.second, "momenta, functions by reference"); }
        vp_assert(cnt > 0, "the caller's functions are called");
    }
}
VP_ENTRY(sym_euler) { sympl<symplectic_euler<vec> >(2); }
VP_ENTRY(sym_m4) { sympl<symplectic_rkn_sb3a_m4_mclachlan<vec> >(1); }
VP_ENTRY(sym_m6) { sympl<symplectic_rkn_sb3a_mclachlan<vec> >(1); }
struct Acc { int *n; Acc(int *m = 0) : n(m) {} template<class Q, class Pm, class A> void operator()(const Q &q, const Pm &p, A &a, double t) const
{ if (n) ++*n; double in[4]; std::size_t k = q.size(); for (std::size_t i = 0; i < k; ++i) { in[i] = q[i]; in[k + i] = p[i]; } vp_sys(3, in, 2 * k, t, &a[0], k, BK); } };
VP_ENTRY(verlet)
{
    vec q0 = symvec(2), p0 = symvec(2), a0(2);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    typedef velocity_verlet<vec> St;
    int cnt = 0;
    Acc f, fc(&cnt);
    f(q0, p0, a0, t);
    qp ref(q0, p0);
    { St s; s.do_step(f, ref, t, dt); }
    { St s; vec q(q0), p(p0); s.do_step(f, std::make_pair(boost::ref(q), boost::ref(p)), t, dt); near_all(q, ref.first, "coordinates, pair of references"); near_all(p, ref.second, "velocities, pair of references"); }
    { St s; vec q(2), p(2), a(2); s.do_step(f, q0, p0, a0, q, p, a, t, dt); near_all(q, ref.first, "coordinates, explicit form"); near_all(p, ref.second, "velocities, explicit form");
      vec an(2); f(q, p0, an, t + dt); near_all(a, an, "acceleration handed on"); }
    { St s; vec q(q0), p(p0), a(a0), an(2); s.do_step(f, q, p, a, q, p, an, t, dt); near_all(q, ref.first, "coordinates, explicit form aliased"); near_all(p, ref.second, "velocities, explicit form aliased"); }
    { St s; qp x(q0, p0); s.do_step(boost::ref(fc), x, t, dt); near_all(x.first, ref.first, "coordinates, boost::ref"); near_all(x.second, ref.second, "velocities, boost::ref"); vp_assert(cnt == 2, "the referenced system is called itself"); }
    { St s; qp x(q0, p0); s.do_step(std::ref(fc), x, t, dt); near_all(x.first, ref.first, "coordinates, std::ref"); }
}
