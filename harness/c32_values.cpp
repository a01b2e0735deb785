// C32: element types: complex, single and extended precision, user-defined vector-space elements
#include "containers.hpp"
#include "families.hpp"
#include <complex>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
using namespace boost::numeric::odeint;
typedef std::complex<double> cd;
typedef std::vector<cd> cvec; typedef boost::array<cd, 2> carr; typedef std::array<cd, 2> csarr;
typedef std::vector<float> fvec; typedef std::vector<long double> lvec;
typedef std::vector<Pt> pvec; typedef boost::array<Pt, 2> parr;
typedef std::vector<arr2> avec;
// value type of steps and factors, exactness, elements per state, reading and writing the components
template<class S> struct El;
template<class S> struct Cx {
    typedef double V; static double tol() { return 1e-7; }
    static const unsigned n = 4;
    static void put(const vec &v, S &s) { for (unsigned i = 0; i < 2; ++i) s[i] = cd(v[2 * i], v[2 * i + 1]); }
    static vec get(const S &s) { vec v; for (unsigned i = 0; i < 2; ++i) { v.push_back(s[i].real()); v.push_back(s[i].imag()); } return v; }
};
template<> struct El<cvec> : Cx<cvec> { static cvec make() { return cvec(2); } };
template<> struct El<carr> : Cx<carr> { static carr make() { return carr(); } };
template<> struct El<csarr> : Cx<csarr> { static csarr make() { return csarr(); } };
template<> struct El<cd> {
    typedef double V; static double tol() { return 1e-7; }
    static const unsigned n = 2;
    static cd make() { return cd(); }
    static void put(const vec &v, cd &s) { s = cd(v[0], v[1]); }
    static vec get(const cd &s) { vec v; v.push_back(s.real()); v.push_back(s.imag()); return v; }
};
template<class S, class T> struct Num {
    typedef T V;
    static const unsigned n = 2;
    static S make() { return S(2); }
    static void put(const vec &v, S &s) { s[0] = T(v[0]); s[1] = T(v[1]); }
    static vec get(const S &s) { vec v; v.push_back(s[0]); v.push_back(s[1]); return v; }
};
template<> struct El<fvec> : Num<fvec, float> { static double tol() { return 2e-4; } };
template<> struct El<lvec> : Num<lvec, long double> { static double tol() { return 1e-7; } };
template<class S> struct Pts {
    typedef double V; static double tol() { return 1e-7; }
    static const unsigned n = 6;
    static void put(const vec &v, S &s) { for (unsigned i = 0; i < 2; ++i) s[i] = Pt(v[3 * i], v[3 * i + 1], v[3 * i + 2]); }
    static vec get(const S &s) { vec v; for (unsigned i = 0; i < 2; ++i) { v.push_back(s[i].a); v.push_back(s[i].b); v.push_back(s[i].c); } return v; }
};
template<> struct El<pvec> : Pts<pvec> { static pvec make() { return pvec(2); } };
template<> struct El<parr> : Pts<parr> { static parr make() { return parr(); } };
template<> struct El<Pt> {
    typedef double V; static double tol() { return 1e-7; }
    static const unsigned n = 3;
    static Pt make() { return Pt(); }
    static void put(const vec &v, Pt &s) { s = Pt(v[0], v[1], v[2]); }
    static vec get(const Pt &s) { vec v; v.push_back(s.a); v.push_back(s.b); v.push_back(s.c); return v; }
};
template<class S> static S boxed(const vec &v) { S s(El<S>::make()); El<S>::put(v, s); return s; }
template<class S> static vec comps(const S &s) { return El<S>::get(s); }
// arbitrary right-hand side; in single precision, where points differ by rounding, an affine one with arbitrary constants
static bool affine_ = false;
struct VRhs {
    void operator()(const vec &v, vec &w, double t) const
    {
        if (!affine_) { Rhs<>()(v, w, t); return; }
        double z = 0, g[2];
        vp_sys(5, &z, 1, 0, g, 2, 1);
        w[0] = g[0] + 0.25 * v[0] + 0.5 * v[1] + 0.25 * t;
        w[1] = g[1] - 0.75 * v[0] - 0.125 * v[1] - 0.5 * t;
    }
};
struct VPF {
    void operator()(const vec &v, vec &w) const
    {
        if (!affine_) { fam::PF()(v, w); return; }
        VRhs()(v, w, 0);
    }
};
struct ERhs {
    template<class S, class T> void operator()(const S &x, S &d, T t) const
    { const vec v = comps(x); vec w(v.size()); VRhs()(v, w, double(t)); El<S>::put(w, d); }
};
struct EPF { template<class S> void operator()(const S &x, S &d) const { const vec v = comps(x); vec w(v.size()); VPF()(v, w); El<S>::put(w, d); } };
template<class S> static void same(const S &a, const vec &b, const char *m) { near_all(comps(a), b, m, El<S>::tol()); }
static const char *const MSG = "the components are those of a vector of doubles";
static double sx() { return vp_real(0.125, 1); }
// times and step sizes that are the same in every precision
template<class S> static double tm() { affine_ = boost::is_same<S, fvec>::value; return boost::is_same<S, fvec>::value ? 0.5 : vp_real(-2, 2); }
template<class S> static double stp() { return boost::is_same<S, fvec>::value ? 0.25 : sx(); }
template<class S> struct Alg { typedef typename algebra_dispatcher<S>::algebra_type type; };
template<> struct Alg<Pt> { typedef vector_space_algebra type; };
// ---- plain steps ------------------------------------------------------------------------------------------
template<template<class, class, class, class, class, class, class> class ST, class S> struct With
{ typedef ST<S, typename El<S>::V, S, typename El<S>::V, typename Alg<S>::type, default_operations, initially_resizer> type; };
template<class St, class Ref, class S> static void steps(unsigned k)
{
    typedef typename El<S>::V V;
    St st; Ref ref;
    vec v = symvec(El<S>::n);
    S x(boxed<S>(v));
    double t = tm<S>(), dt = stp<S>();
    unsigned form = vp_choose(2);
    for (unsigned i = 0; i < k; ++i) {
        if (form == 0) { st.do_step(ERhs(), x, V(t), V(dt)); }
        else { S o(El<S>::make()); st.do_step(ERhs(), x, V(t), o, V(dt)); x = o; }
        ref.do_step(VRhs(), v, t, dt);
        same(x, v, MSG);
        t += dt;
    }
}
template<class St, class Ref, class S> static void errors()
{
    typedef typename El<S>::V V;
    St st; Ref ref;
    vec v = symvec(El<S>::n), e(v);
    S x(boxed<S>(v)), o(El<S>::make()), f(El<S>::make());
    double t = tm<S>(), dt = stp<S>();
    if (vp_choose(2)) { st.do_step(ERhs(), x, V(t), o, V(dt), f); x = o; }
    else st.do_step(ERhs(), x, V(t), V(dt), f);
    ref.do_step(VRhs(), v, t, dt, e);
    same(x, v, MSG);
    same(f, e, "the error estimates of the components are those of a vector of doubles");
}
#define ST1(name, ST, S, k) VP_ENTRY(name) { steps<With<ST, S>::type, ST<vec>, S>(k); }
#define ER1(name, ST, S) VP_ENTRY(name) { errors<With<ST, S>::type, ST<vec>, S>(); }
#define PLAIN(n, S) \
    ST1(euler_##n, euler, S, 1) ST1(mid_##n, modified_midpoint, S, 1) ST1(rk4_##n, runge_kutta4, S, 1) \
    ST1(ck_##n, runge_kutta_cash_karp54, S, 1) \
    ST1(f78_##n, runge_kutta_fehlberg78, S, 1) ST1(dp5_##n, runge_kutta_dopri5, S, 2) \
    ER1(eck_##n, runge_kutta_cash_karp54, S) \
    ER1(ef78_##n, runge_kutta_fehlberg78, S) ER1(edp5_##n, runge_kutta_dopri5, S)
#define CLASSIC(n, S) ST1(rk4c_##n, runge_kutta4_classic, S, 1) ST1(ckc_##n, runge_kutta_cash_karp54_classic, S, 1) ER1(eckc_##n, runge_kutta_cash_karp54_classic, S)
#define ALLE(X) X(cvec, cvec) X(carr, carr) X(csarr, csarr) X(cd, cd) X(fvec, fvec) X(lvec, lvec) X(pvec, pvec) X(parr, parr) X(pt, Pt)
ALLE(PLAIN)
ALLE(CLASSIC)
#define MULTI(n, S) \
    VP_ENTRY(ab3_##n) { typedef El<S>::V V; steps<adams_bashforth<3, S, V, S, V, Alg<S>::type>, adams_bashforth<3, vec>, S>(4); } \
    VP_ENTRY(abm2_##n) { typedef El<S>::V V; steps<adams_bashforth_moulton<2, S, V, S, V, Alg<S>::type>, adams_bashforth_moulton<2, vec>, S>(3); } \
    VP_ENTRY(ext_##n) { typedef El<S>::V V; steps<extrapolation_stepper<4, S, V, S, V, Alg<S>::type>, extrapolation_stepper<4, vec>, S>(1); }
MULTI(cvec, cvec) MULTI(fvec, fvec) MULTI(lvec, lvec) MULTI(pvec, pvec) MULTI(cd, cd) MULTI(pt, Pt)
template<class St, class Ref, class S> static void symplectic()
{
    typedef typename El<S>::V V;
    St st; Ref ref;
    vec q = symvec(El<S>::n), p = symvec(El<S>::n);
    S a(boxed<S>(q)), b(boxed<S>(p));
    double dt = stp<S>();
    tm<S>();
    st.do_step(EPF(), a, b, V(0), V(dt));
    ref.do_step(VPF(), q, p, 0.0, dt);
    same(a, q, MSG);
    same(b, p, MSG);
}
#define SYM(n, S) \
    VP_ENTRY(syme_##n) { typedef El<S>::V V; symplectic<symplectic_euler<S, S, V, S, S, V, Alg<S>::type>, symplectic_euler<vec>, S>(); } \
    VP_ENTRY(sym6_##n) { typedef El<S>::V V; symplectic<symplectic_rkn_sb3a_mclachlan<S, S, V, S, S, V, Alg<S>::type>, symplectic_rkn_sb3a_mclachlan<vec>, S>(); }
SYM(cvec, cvec) SYM(fvec, fvec) SYM(lvec, lvec) SYM(pvec, pvec) SYM(parr, parr) SYM(pt, Pt)
// ---- error control ----------------------------------------------------------------------------------------
template<class S> static void checker()
{
    typedef typename El<S>::V V;
    typedef typename Alg<S>::type A;
    vec x = symvec(El<S>::n), d = symvec(El<S>::n), e = symvec(El<S>::n);
    double ea = vp_real(0.25, 1), er = vp_real(0.25, 1), ax = vp_real(0, 1), ad = vp_real(0, 1), dt = vp_choose(2) ? -sx() : sx();
    default_error_checker<V, A, default_operations> c = default_error_checker<V, A, default_operations>(V(ea), V(er), V(ax), V(ad));
    S sx_(boxed<S>(x)), sd(boxed<S>(d)), se(boxed<S>(e));
    A alg;
    double r = c.error(alg, sx_, sd, se, V(dt)), m = 0;
    bool hit = false;
    const unsigned w = El<S>::n / 2;
    for (unsigned i = 0; i < 2; ++i) {
        double q;
        if (w == 2) q = std::abs(cd(e[2 * i], e[2 * i + 1])) / (ea + er * (ax * std::abs(cd(x[2 * i], x[2 * i + 1])) + ad * std::abs(dt) * std::abs(cd(d[2 * i], d[2 * i + 1]))));
        else q = std::abs(e[i]) / (ea + er * (ax * std::abs(x[i]) + ad * std::abs(dt) * std::abs(d[i])));
        m = m > q ? m : q;
    }
    (void)hit;
    vp_near(r, m, El<S>::tol(), "the error is the largest of the moduli of the elements' errors, weighted by the moduli of state and derivative");
}
VP_ENTRY(checker_cvec) { checker<cvec>(); }
VP_ENTRY(checker_carr) { checker<carr>(); }
VP_ENTRY(checker_fvec) { checker<fvec>(); }
VP_ENTRY(checker_lvec) { checker<lvec>(); }
// attempts and dense steps with a fixed verdict
template<class S, class St> static void attempts(St st, bool ok)
{
    typedef typename El<S>::V V;
    typedef controlled_runge_kutta<runge_kutta_dopri5<vec>, fam::Chk, fam::Adj> Ref;
    Ref ref;
    vec v = symvec(El<S>::n);
    S x(boxed<S>(v));
    double t = tm<S>(), dt = stp<S>(), t2 = t, dt2 = dt;
    (void)ok;
    for (unsigned k = 0; k < 2; ++k) {
        V tv(t), dv(dt);
        controlled_step_result r = st.try_step(ERhs(), x, tv, dv), q = ref.try_step(VRhs(), v, t2, dt2);
        vp_assert(r == q, "the verdict is that for a vector of doubles");
        t = tv; dt = dv;
        vp_near(t, t2, El<S>::tol(), "the time is that for a vector of doubles");
        vp_near(dt, dt2, El<S>::tol(), "the step size is that for a vector of doubles");
        same(x, v, MSG);
    }
}
struct FAdj {
    float decrease_step(float dt, float, int) const { return 0.5f * dt; }
    float increase_step(float dt, float, int) const { return 1.5f * dt; }
    bool check_step_size_limit(float) { return true; }
    float get_max_dt() { return 0; }
};
struct LAdj {
    long double decrease_step(long double dt, long double, int) const { return 0.5L * dt; }
    long double increase_step(long double dt, long double, int) const { return 1.5L * dt; }
    bool check_step_size_limit(long double) { return true; }
    long double get_max_dt() { return 0; }
};
template<class V> struct AdjOf { typedef fam::Adj type; };
template<> struct AdjOf<float> { typedef FAdj type; };
template<> struct AdjOf<long double> { typedef LAdj type; };
template<class S> struct Ctl { typedef controlled_runge_kutta<typename With<runge_kutta_dopri5, S>::type, fam::Chk, typename AdjOf<typename El<S>::V>::type> type; };
template<class S> static void dense()
{
    typedef typename El<S>::V V;
    dense_output_runge_kutta<typename Ctl<S>::type> st;
    dense_output_runge_kutta<controlled_runge_kutta<runge_kutta_dopri5<vec>, fam::Chk, fam::Adj> > ref;
    vec v = symvec(El<S>::n);
    double t = tm<S>(), dt = 0.25;
    st.initialize(boxed<S>(v), V(t), V(dt));
    ref.initialize(v, t, dt);
    for (unsigned k = 0; k < 2; ++k) {
        st.do_step(ERhs());
        ref.do_step(VRhs());
        S o(El<S>::make());
        vec w(v.size());
        double a = ref.previous_time() + 0.375 * (ref.current_time() - ref.previous_time());
        st.calc_state(V(a), o);
        ref.calc_state(a, w);
        same(o, w, "the interpolated components are those of a vector of doubles");
        same(st.current_state(), ref.current_state(), MSG);
        same(st.previous_state(), ref.previous_state(), MSG);
    }
}
#define CTL(n, S) VP_ENTRY(attempt_##n) { attempts<S>(Ctl<S>::type(), true); } VP_ENTRY(dense_##n) { dense<S>(); }
CTL(cvec, cvec) CTL(fvec, fvec) CTL(lvec, lvec) CTL(pvec, pvec) CTL(cd, cd) CTL(pt, Pt)
// real error control: accepted only within the tolerance, weighted by moduli
template<class S> static void real()
{
    typedef typename El<S>::V V;
    typedef typename With<runge_kutta_cash_karp54, S>::type Es;
    vec v = symvec(El<S>::n), d(v.size()), e(v.size()), y(v);
    S x(boxed<S>(v));
    double t = tm<S>(), dt = 0.25;
    double tol = 0.0625;
    controlled_runge_kutta<Es> st = make_controlled(V(tol), V(tol), Es());
    Rhs<>()(v, d, t);
    runge_kutta_cash_karp54<vec>().do_step(Rhs<>(), y, t, dt, e);
    V tv(t), dv(dt);
    controlled_step_result r = st.try_step(ERhs(), x, tv, dv);
    bool good = true;
    for (unsigned i = 0; i < El<S>::n / 2; ++i) {
        double q = std::abs(cd(e[2 * i], e[2 * i + 1])), p = tol * (1 + std::abs(cd(v[2 * i], v[2 * i + 1])) + dt * std::abs(cd(d[2 * i], d[2 * i + 1])));
        good = good && q <= p;
    }
    vp_assert((r == success) == good, "a step is accepted if and only if the modulus of each error is within its tolerance");
    same(x, good ? y : v, "an accepted step is the step, a rejected one none");
}
VP_ENTRY(real_cd) { real<cd>(); }
VP_ENTRY(real_cvec) { real<cvec>(); }
// ---- integrations -------------------------------------------------------------------------------------------
template<class S> struct ELog { std::vector<vec> x; std::vector<double> t; };
template<class S> struct EObs { ELog<S> *l; template<class X, class T> void operator()(const X &x, T t) const { l->x.push_back(comps(x)); l->t.push_back(double(t)); } };
struct VObs { ELog<vec> *l; void operator()(const vec &x, double t) const { l->x.push_back(x); l->t.push_back(t); } };
template<class S> static void integrations()
{
    typedef typename El<S>::V V;
    vec v = symvec(El<S>::n);
    S x(boxed<S>(v));
    double t = tm<S>(), dt = stp<S>();
    ELog<S> a; ELog<vec> b;
    EObs<S> o = {&a}; VObs p = {&b};
    double r, q;
    V ts[] = {V(t), V(t + 0.5 * dt), V(t + 1.75 * dt)};
    double td[] = {t, t + 0.5 * dt, t + 1.75 * dt};
    typename Ctl<S>::type ct;
    controlled_runge_kutta<runge_kutta_dopri5<vec>, fam::Chk, fam::Adj> cr;
    unsigned how = vp_choose(3);
    if (how == 0) { r = integrate_const(typename With<runge_kutta4, S>::type(), ERhs(), x, V(t), V(t + 2.5 * dt), V(dt), o); q = integrate_const(runge_kutta4<vec>(), VRhs(), v, t, t + 2.5 * dt, dt, p); }
    else if (how == 1) { r = integrate_adaptive(ct, ERhs(), x, V(t), V(t + 1.5 * dt), V(dt), o); q = integrate_adaptive(cr, VRhs(), v, t, t + 1.5 * dt, dt, p); }
    else { r = integrate_times(ct, ERhs(), x, ts, ts + 3, V(dt), o); q = integrate_times(cr, VRhs(), v, td, td + 3, dt, p); }
    vp_near(r, q, 0, "as many steps as with a vector of doubles");
    same(x, v, MSG);
    vp_assert(a.t.size() == b.t.size(), "as many observations as with a vector of doubles");
    for (std::size_t i = 0; i < a.t.size() && i < b.t.size(); ++i) { vp_near(a.t[i], b.t[i], El<S>::tol(), "observed at the same times"); near_all(a.x[i], b.x[i], MSG, El<S>::tol()); }
}
#define INT(n, S) VP_ENTRY(integrate_##n) { integrations<S>(); }
INT(cvec, cvec) INT(fvec, fvec) INT(lvec, lvec) INT(pvec, pvec) INT(cd, cd) INT(pt, Pt)
