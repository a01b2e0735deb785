// C25: states in containers of other libraries give the results of a plain vector
#include "containers.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#if defined(VP_EIGEN)
#include <Eigen/Dense>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
#elif defined(VP_UBLAS)
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#elif defined(VP_GSL)
#include "gsl_standin.hpp"
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
#endif
using namespace boost::numeric::odeint;
// state holder: container of S with the elements of v, freed at the end
template<class S> struct Held { S s; explicit Held(const vec &v) : s(Box<S>::make(v)) {} vec read() const { return Box<S>::read(s); } };
template<class S> struct put_elems { static void put(S &d, const vec &r) { d = Box<S>::make(r); } };
#if defined(VP_EIGEN)
typedef Eigen::VectorXd evec; typedef Eigen::Matrix<double, 2, 1> evec2; typedef Eigen::MatrixXd emat; typedef Eigen::ArrayXd earr; typedef Eigen::Matrix<double, 1, Eigen::Dynamic> erow;
template<class S> struct EBox {
    static S make(const vec &v) { S s(v.size()); for (std::size_t i = 0; i < v.size(); ++i) s(i) = v[i]; return s; }
    static vec read(const S &s) { vec v(s.size()); for (std::size_t i = 0; i < v.size(); ++i) v[i] = s(i); return v; }
};
template<> struct Box<evec> : EBox<evec> {};
template<> struct Box<erow> : EBox<erow> {};
template<> struct Box<earr> : EBox<earr> {};
template<> struct Box<evec2> {
    static evec2 make(const vec &v) { return evec2(v[0], v[1]); }
    static vec read(const evec2 &s) { vec v(2); v[0] = s(0); v[1] = s(1); return v; }
};
template<> struct Box<emat> {
    static emat make(const vec &v) { emat s(v.size() / 2, 2); for (std::size_t i = 0; i < v.size(); ++i) s(i / 2, i % 2) = v[i]; return s; }
    static vec read(const emat &s) { vec v(s.size()); for (std::size_t i = 0; i < v.size(); ++i) v[i] = s(i / 2, i % 2); return v; }
};
#elif defined(VP_UBLAS)
typedef boost::numeric::ublas::vector<double> uvec; typedef boost::numeric::ublas::matrix<double> umat;
template<> struct Box<uvec> {
    static uvec make(const vec &v) { uvec s(v.size()); for (std::size_t i = 0; i < v.size(); ++i) s(i) = v[i]; return s; }
    static vec read(const uvec &s) { vec v(s.size()); for (std::size_t i = 0; i < v.size(); ++i) v[i] = s(i); return v; }
};
template<> struct Box<umat> {
    static umat make(const vec &v) { umat s(v.size() / 2, 2); for (std::size_t i = 0; i < v.size(); ++i) s(i / 2, i % 2) = v[i]; return s; }
    static vec read(const umat &s) { vec v(s.size1() * s.size2()); for (std::size_t i = 0; i < v.size(); ++i) v[i] = s(i / 2, i % 2); return v; }
};
#elif defined(VP_GSL)
typedef gsl_vector *gvec;
template<> struct Box<gvec> {
    static gvec make(const vec &v) { gvec s = gsl_vector_alloc(v.size()); for (std::size_t i = 0; i < v.size(); ++i) s->data[i * s->stride] = v[i]; return s; }
    static vec read(const gsl_vector *s) { vec v(s->size); for (std::size_t i = 0; i < v.size(); ++i) v[i] = s->data[i * s->stride]; return v; }
};
template<> struct Held<gvec> {
    gvec s;
    explicit Held(const vec &v) : s(Box<gvec>::make(v)) {}
    ~Held() { gsl_vector_free(s); }
    vec read() const { return Box<gvec>::read(s); }
};
template<> struct put_elems<gvec> { static void put(gvec &d, const vec &r) { for (std::size_t i = 0; i < r.size(); ++i) d->data[i * d->stride] = r[i]; } };
#endif
template<class X> struct strip { typedef X type; };
struct BoxRhs {
    template<class X, class D>
    void operator()(const X &x, D &d, double t) const
    {
        vec v = Box<X>::read(x), r(v.size());
        vp_sys(0, v.data(), v.size(), t, r.data(), v.size(), BK);
        put_elems<D>::put(d, r);
    }
};
template<class S> struct alg { typedef typename algebra_dispatcher<S>::algebra_type type; };
template<template<class, class, class, class, class, class, class> class ST, class S, class R = initially_resizer>
struct With { typedef ST<S, double, S, double, typename alg<S>::type, default_operations, R> type; };

template<class St, class S>
static void plain(std::size_t n, unsigned steps)
{
    typename With<St::template st, vec>::type ref;
    typename With<St::template st, S>::type st;
    vec v = symvec(n);
    Held<S> x(v);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    for (unsigned k = 0; k < steps; ++k) {
        ref.do_step(Rhs<>(), v, t, dt);
        st.do_step(BoxRhs(), x.s, t, dt);
        near_all(x.read(), v, "a step gives the same numbers as with a vector", 1e-7);
        t += dt;
    }
    vec w(v);
    Held<S> o(w);
    ref.do_step(Rhs<>(), v, t, w, dt);
    st.do_step(BoxRhs(), x.s, t, o.s, dt);
    near_all(o.read(), w, "so does an out-of-place step", 1e-7);
    near_all(x.read(), v, "which leaves its input", 1e-7);
}
template<class St, class S>
static void error(std::size_t n)
{
    typename With<St::template st, vec>::type ref;
    typename With<St::template st, S>::type st;
    vec v = symvec(n), e(n);
    Held<S> x(v), xe(v);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    ref.do_step(Rhs<>(), v, t, dt, e);
    st.do_step(BoxRhs(), x.s, t, dt, xe.s);
    near_all(x.read(), v, "a step with error estimate gives the same numbers as with a vector", 1e-7);
    near_all(xe.read(), e, "so does its error estimate", 1e-7);
}
// one attempt with real error control
template<class St, class S>
static void controlled(std::size_t n)
{
    typedef typename With<St::template st, vec>::type R;
    typedef typename With<St::template st, S>::type T;
    controlled_runge_kutta<R> ref((typename controlled_runge_kutta<R>::error_checker_type(0.5, 0.25)));
    controlled_runge_kutta<T> st((typename controlled_runge_kutta<T>::error_checker_type(0.5, 0.25)));
    vec v = symvec(n);
    Held<S> x(v);
    double t = vp_real(-2, 2), dt = vp_choose(2) ? 0.5 : -0.5, u = t, du = dt;
    bool a = ref.try_step(Rhs<>(), v, t, dt) == success;
    bool b = st.try_step(BoxRhs(), x.s, u, du) == success;
    vp_assert(a == b, "accepted or rejected as with a vector");
    near_all(x.read(), v, "an attempt gives the same numbers as with a vector", 1e-7);
    vp_near(u, t, TOL, "same time");
    vp_near(du, dt, 1e-7, "same next step size");
}
template<class S>
static void sizes()
{
    vec a = symvec(2), b = symvec(4);
    Held<S> x(a), y(b), z(a);
    vp_assert(same_size(x.s, z.s), "same_size of states of the same size");
    vp_assert(!same_size(x.s, y.s), "same_size of states of different sizes");
    resize(x.s, y.s);
    vp_assert(same_size(x.s, y.s), "resize makes the sizes agree");
    boost::numeric::odeint::copy(y.s, x.s);
    near_all(x.read(), b, "copy copies the elements");
    x.s = Box<S>::make(b);
    near_all(y.read(), b, "copies are independent");
    near_all(z.read(), a, "resizing does not touch other states");
}
struct Rk4 { template<class A, class B, class C, class D, class E, class F, class G> using st = runge_kutta4<A, B, C, D, E, F, G>; };
struct Dp5 { template<class A, class B, class C, class D, class E, class F, class G> using st = runge_kutta_dopri5<A, B, C, D, E, F, G>; };
struct Ck { template<class A, class B, class C, class D, class E, class F, class G> using st = runge_kutta_cash_karp54<A, B, C, D, E, F, G>; };
struct Ckc { template<class A, class B, class C, class D, class E, class F, class G> using st = runge_kutta_cash_karp54_classic<A, B, C, D, E, F, G>; };
#define ALLN(name, S, n) \
    VP_ENTRY(rk4_##name) { plain<Rk4, S>(n, 2); } VP_ENTRY(dp5_##name) { plain<Dp5, S>(n, 2); } VP_ENTRY(ckc_##name) { plain<Ckc, S>(n, 1); } \
    VP_ENTRY(err_##name) { error<Dp5, S>(n); } VP_ENTRY(err_ck_##name) { error<Ck, S>(n); }
#define CTL(name, S, n) VP_ENTRY(ctl_##name) { controlled<Ck, S>(n); } VP_ENTRY(ctl_fsal_##name) { controlled<Dp5, S>(n); }
#define SIZ(name, S) VP_ENTRY(size_##name) { sizes<S>(); }
#if defined(VP_EIGEN)
ALLN(evec, evec, 2) CTL(evec, evec, 2) SIZ(evec, evec)
ALLN(erow, erow, 2) CTL(erow, erow, 2) SIZ(erow, erow)
ALLN(evec2, evec2, 2) CTL(evec2, evec2, 2)
ALLN(emat, emat, 4) CTL(emat, emat, 4) SIZ(emat, emat)
ALLN(earr, earr, 2) SIZ(earr, earr)
#elif defined(VP_UBLAS)
ALLN(uvec, uvec, 2) CTL(uvec, uvec, 2) SIZ(uvec, uvec)
ALLN(umat, umat, 4) CTL(umat, umat, 4) SIZ(umat, umat)
#elif defined(VP_GSL)
ALLN(gvec, gvec, 2)
#endif
#if defined(VP_GSL)
// a state with a stride: a view of every other element
VP_ENTRY(gvec_stride)
{
    vec v = symvec(2), all(4);
    for (int i = 0; i < 2; ++i) { all[2 * i] = v[i]; all[2 * i + 1] = vp_real(-BX, BX); }
    vec keep(all);
    gsl_vector view;
    view.size = 2; view.stride = 2; view.data = all.data(); view.block = 0; view.owner = 0;
    gvec p = &view;
    With<runge_kutta4, vec>::type ref;
    With<runge_kutta4, gvec>::type st;
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    ref.do_step(Rhs<>(), v, t, dt);
    st.do_step(BoxRhs(), p, t, dt);
    for (int i = 0; i < 2; ++i) { vp_near(all[2 * i], v[i], 1e-7, "a strided vector is stepped like a vector"); vp_near(all[2 * i + 1], keep[2 * i + 1], TOL, "elements between are left alone"); }
}
// copies of steppers own their buffers
template<class T>
static void copied(bool assigned)
{
    With<runge_kutta_dopri5, vec>::type ref;
    T *a = new T, *b;
    vec v = symvec(2);
    Held<gvec> x(v);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    ref.do_step(Rhs<>(), v, t, dt);
    a->do_step(BoxRhs(), x.s, t, dt);
    if (assigned) { b = new T; *b = *a; } else b = new T(*a);
    delete a;
    ref.do_step(Rhs<>(), v, t + dt, dt);
    b->do_step(BoxRhs(), x.s, t + dt, dt);
    near_all(x.read(), v, "a copied stepper continues", 1e-7);
    delete b;
}
VP_ENTRY(gvec_copied) { copied<With<runge_kutta_dopri5, gvec>::type>(false); }
VP_ENTRY(gvec_assigned) { copied<With<runge_kutta_dopri5, gvec>::type>(true); }
VP_ENTRY(gvec_always)
{
    With<runge_kutta4, vec, always_resizer>::type ref;
    With<runge_kutta4, gvec, always_resizer>::type st;
    for (int k = 0; k < 3; ++k) {
        vec v = symvec(1 + vp_choose(3));
        Held<gvec> x(v);
        double t = vp_real(-2, 2), dt = vp_real(-1, 1);
        ref.do_step(Rhs<>(), v, t, dt);
        st.do_step(BoxRhs(), x.s, t, dt);
        near_all(x.read(), v, "steps of any size", 1e-7);
    }
}
VP_ENTRY(gvec_size)
{
    vec a = symvec(2), b = symvec(4);
    Held<gvec> x(a), y(b), z(a);
    vp_assert(same_size(x.s, z.s), "same_size of states of the same size");
    vp_assert(!same_size(x.s, y.s), "same_size of states of different sizes");
    resize(x.s, y.s);
    vp_assert(same_size(x.s, y.s), "resize makes the sizes agree");
    boost::numeric::odeint::copy(y.s, x.s);
    near_all(x.read(), b, "copy copies the elements");
    vp_assert(x.s != y.s, "copies are independent");
    x.s->data[0] = 0;
    near_all(y.read(), b, "copies are independent");
    near_all(z.read(), a, "resizing does not touch other states");
    // values of the user wrapped in a range
    vec r;
    for (gsl_vector_iterator i = boost::begin(x.s); i != boost::end(x.s); ++i) r.push_back(*i);
    near_all(r, x.read(), "a gsl vector is a range of its elements");
}
#endif
