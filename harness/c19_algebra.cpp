// C19: element-wise operations of all algebras
#define BOOST_FUSION_INVOKE_MAX_ARITY 15
#define BOOST_RESULT_OF_NUM_ARGS 15
#define FUSION_MAX_VECTOR_SIZE 15
#include "containers.hpp"
#include "rk_common.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
using namespace boost::numeric::odeint;

// s1 := 3 s1 + 5 s2 + 7 s3 + ... : different for every argument order, number of applications and element
template<class T> T lin(double) { return T(); }
struct Op {
    typedef void result_type;
    template<class T> static void add(T &, double) {}
    template<class T, class A, class... R> static void add(T &s, double w, const A &a, const R &... r) { s = s + w * a; add(s, w + 2, r...); }
    template<class T, class... R> void operator()(T &s, const R &... r) const { T q = 3.0 * s; add(q, 5.0, r...); s = q; }
};
static vec expect(const std::vector<vec> &a, std::size_t n)
{
    vec r(n);
    for (std::size_t i = 0; i < n; ++i) {
        double q = 3.0 * a[0][i], w = 5.0;
        for (std::size_t k = 1; k < a.size(); ++k, w += 2) q = q + w * a[k][i];
        r[i] = q;
    }
    return r;
}
#define A2 , c[1]
#define A3 A2 , c[2]
#define A4 A3 , c[3]
#define A5 A4 , c[4]
#define A6 A5 , c[5]
#define A7 A6 , c[6]
#define A8 A7 , c[7]
#define A9 A8 , c[8]
#define A10 A9 , c[9]
#define A11 A10 , c[10]
#define A12 A11 , c[11]
#define A13 A12 , c[12]
#define A14 A13 , c[13]
#define A15 A14 , c[14]
#define ALL(M) M(2, A2) M(3, A3) M(4, A4) M(5, A5) M(6, A6) M(7, A7) M(8, A8) M(9, A9) M(10, A10) M(11, A11) M(12, A12) M(13, A13) M(14, A14) M(15, A15)
template<class A, class S, class O>
void apply(unsigned n, S &s, const std::vector<S> &c, O op)
{
    A al;
    if (n == 1) { al.for_each1(s, op); return; }
#define M(k, args) if (n == k) { al.for_each##k(s args, op); return; }
    ALL(M)
#undef M
}
template<class A, class S>
void foreach(std::size_t dim, std::size_t mult = 1)
{
    unsigned n = 1 + vp_choose(15);
    std::size_t d = mult * dim;
    std::vector<vec> a;
    std::vector<S> c;
    for (unsigned k = 0; k < n; ++k) { a.push_back(symvec(d)); c.push_back(Box<S>::make(a[k])); }
    S s = Box<S>::make(a[0]);
    apply<A>(n, s, c, Op());
    near_all(Box<S>::read(s), expect(a, d), "every element is treated once, arguments in order");
    for (unsigned k = 1; k < n; ++k) near_all(Box<S>::read(c[k]), a[k], "the other arguments are left alone");
}
VP_ENTRY(range_vector) { foreach<range_algebra, vec>(vp_choose(4)); }
VP_ENTRY(range_list) { foreach<range_algebra, std::list<double>>(2); }
VP_ENTRY(range_deque) { foreach<range_algebra, std::deque<double>>(2); }
VP_ENTRY(range_array) { foreach<range_algebra, arr3>(3); }
VP_ENTRY(array_boost) { foreach<array_algebra, arr3>(3); }
VP_ENTRY(array_std) { foreach<array_algebra, sarr3>(3); }
VP_ENTRY(array_one) { foreach<array_algebra, boost::array<double, 1>>(1); }
VP_ENTRY(space_pt) { foreach<vector_space_algebra, Pt>(3); }
VP_ENTRY(space_double) { foreach<vector_space_algebra, double>(1); }
VP_ENTRY(space_complex) { foreach<vector_space_algebra, std::complex<double>>(2); }
VP_ENTRY(fusion) { foreach<fusion_algebra, fus3>(3); }
VP_ENTRY(multi_array) { foreach<multi_array_algebra, marr>(1 + vp_choose(3), 2); }

// ---- norm ---------------------------------------------------------------------------------
template<class S>
double norm(const S &s) { return algebra_dispatcher<S>::algebra_type::norm_inf(s); }
template<class A, class S>
void normt(std::size_t d)
{
    vec v = symvec(d);
    double r = A::norm_inf(Box<S>::make(v));
    bool any = d == 0 && r == 0;
    for (std::size_t i = 0; i < d; ++i) {
        vp_assert(r >= v[i] && r >= -v[i], "the norm bounds every element");
        any = any | (r == v[i]) | (r == -v[i]);
    }
    vp_assert(any, "the norm is the absolute value of an element");
}
VP_ENTRY(norm_vector) { normt<range_algebra, vec>(vp_choose(4)); }
VP_ENTRY(norm_list) { normt<range_algebra, std::list<double>>(3); }
VP_ENTRY(norm_array) { normt<array_algebra, arr3>(3); }
VP_ENTRY(norm_stdarray) { normt<array_algebra, sarr3>(3); }
VP_ENTRY(norm_double) { normt<vector_space_algebra, double>(1); }
VP_ENTRY(norm_fusion) { normt<fusion_algebra, fus3>(3); }
VP_ENTRY(norm_multi) { normt<multi_array_algebra, marr>(4); }
VP_ENTRY(norm_complex)
{
    vec v = symvec(2);
    double r = vector_space_algebra::norm_inf(std::complex<double>(v[0], v[1]));
    vp_assert(r >= 0, "modulus");
    vp_near(r * r, v[0] * v[0] + v[1] * v[1], 1e-8, "modulus");
}

// ---- operations ---------------------------------------------------------------------------
typedef default_operations O;
VP_ENTRY(scale_sum)
{
    unsigned n = 1 + vp_choose(14);
    double f[14], t[14], r = vp_real(-BX, BX), e = 0;
    for (unsigned k = 0; k < n; ++k) { f[k] = vp_real(-BX, BX); t[k] = vp_real(-BX, BX); e = k ? e + f[k] * t[k] : f[k] * t[k]; }
#define F1 f[0]
#define F2 F1, f[1]
#define F3 F2, f[2]
#define F4 F3, f[3]
#define F5 F4, f[4]
#define F6 F5, f[5]
#define F7 F6, f[6]
#define F8 F7, f[7]
#define F9 F8, f[8]
#define F10 F9, f[9]
#define F11 F10, f[10]
#define F12 F11, f[11]
#define F13 F12, f[12]
#define F14 F13, f[13]
#define T1 t[0]
#define T2 T1, t[1]
#define T3 T2, t[2]
#define T4 T3, t[3]
#define T5 T4, t[4]
#define T6 T5, t[5]
#define T7 T6, t[6]
#define T8 T7, t[7]
#define T9 T8, t[8]
#define T10 T9, t[9]
#define T11 T10, t[10]
#define T12 T11, t[11]
#define T13 T12, t[12]
#define T14 T13, t[13]
    switch (n) {
#define M(k) case k: { O::scale_sum##k<> op(F##k); op(r, T##k); break; }
    M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14)
#undef M
    }
    vp_near(r, e, TOL, "the linear combination of the arguments with the factors in order");
}
VP_ENTRY(scale_ops)
{
    double a = vp_real(-BX, BX), b = vp_real(-BX, BX), x = vp_real(-BX, BX), y = vp_real(-BX, BX), z = vp_real(-BX, BX);
    double s = x;
    O::scale<> sc(a);
    sc(s);
    vp_near(s, a * x, TOL, "scale");
    double p = x, q = y;
    O::scale_sum_swap2<> sw(a, b);
    sw(p, q, z);
    vp_near(p, a * y + b * z, TOL, "scale_sum_swap: sum");
    vp_near(q, x, TOL, "scale_sum_swap: swap");
}
VP_ENTRY(error_ops)
{
    double ea = vp_real(0.0078125, 1), er = vp_real(0, 1), ax = vp_real(0, 2), ad = vp_real(0, 2);
    double x = vp_real(-BX, BX), y = vp_real(-BX, BX), d = vp_real(-BX, BX), e = vp_real(-BX, BX), r = vp_real(0, BX);
    double w2 = std::abs(e) / (ea + er * (ax * std::abs(x) + ad * std::abs(d)));
    double wm = std::abs(e) / (ea + er * std::max(std::abs(x), std::abs(y)));
    switch (vp_choose(7)) {
    case 0: { double s = e; O::rel_error<> op(ea, er, ax, ad); op(s, x, d); vp_near(s, w2, TOL, "rel_error"); break; }
    case 1: { double s = e; O::default_rel_error<> op(ea, er); op(s, x, y); vp_near(s, wm, TOL, "default_rel_error"); break; }
    case 2: { O::maximum<double> op; vp_near(op(x, y), std::max(std::abs(x), std::abs(y)), TOL, "maximum"); break; }
    case 3: { O::rel_error_max<> op(ea, er); vp_near(op(r, x, y, e), std::max(r, wm), TOL, "rel_error_max"); break; }
    case 4: { O::rel_error_max2<> op(ea, er, ax, ad); vp_near(op(r, x, y, d, e), std::max(r, w2), TOL, "rel_error_max2"); break; }
    case 5: { O::rel_error_l2<> op(ea, er); vp_near(op(r, x, y, e), r + wm * wm, TOL, "rel_error_l2"); break; }
    case 6: { O::rel_error_l2_2<> op(ea, er, ax, ad); vp_near(op(r, x, y, d, e), r + w2 * w2, TOL, "rel_error_l2_2"); break; }
    }
}

// ---- whole steps with the algebra chosen by the dispatcher ----------------------------------
struct BoxRhs {
    template<class X, class D>
    void operator()(const X &x, D &d, double t) const
    {
        vec v = Box<X>::read(x), r(v.size());
        vp_sys(0, v.data(), v.size(), t, r.data(), v.size(), BK);
        put(d, r);
    }
    template<class D> static void put(D &d, const vec &r) { d = Box<D>::make(r); }
    static void put(marr &d, const vec &r) { marr m = Box<marr>::make(r); for (std::size_t i = 0; i < r.size(); ++i) d.data()[i] = m.data()[i]; }
};
template<class Ref, class St, class S, class A>
void step(std::size_t d)
{
    vec v = symvec(d), w(v);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    S x = Box<S>::make(v);
    St st;
    Ref ref;
    ref.do_step(Rhs<>(), w, t, dt);
    st.do_step(BoxRhs(), x, t, dt);
    near_all(Box<S>::read(x), w, "a step gives the same numbers in every container", 1e-7);
}
template<template<class, class, class, class, class, class, class> class ST, class S>
struct With { typedef ST<S, double, S, double, typename algebra_dispatcher<S>::algebra_type, O, initially_resizer> type; };
#define STEP(name, S, d) \
    VP_ENTRY(rk4_##name) { step<runge_kutta4<vec>, With<runge_kutta4, S>::type, S, void>(d); } \
    VP_ENTRY(f78_##name) { step<runge_kutta_fehlberg78<vec>, With<runge_kutta_fehlberg78, S>::type, S, void>(d); }
typedef std::list<double> dlist;
typedef std::deque<double> ddeque;
STEP(list, dlist, 2)
STEP(deque, ddeque, 2)
STEP(array, arr3, 3)
STEP(stdarray, sarr3, 3)
STEP(complex, std::complex<double>, 2)
STEP(double, double, 1)
STEP(fusion, fus3, 3)
STEP(multi, marr, 4)
VP_ENTRY(rk4_pt) { step<runge_kutta4<vec>, runge_kutta4<Pt, double, Pt, double, vector_space_algebra>, Pt, void>(3); }
