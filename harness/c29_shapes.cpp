// C29: sizes of state containers: comparison, resizing, copying, and steppers used with changing shapes
#include "containers.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/util/same_instance.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/range/iterator_range.hpp>
#ifdef VP_EIGEN
#include <Eigen/Dense>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
#endif
using namespace boost::numeric::odeint;
namespace bf = boost::fusion;
typedef std::vector<long> shape;                                // extents and bases
typedef boost::multi_array<double, 1> ma1; typedef boost::multi_array<double, 2> ma2; typedef boost::multi_array<double, 3> ma3;
typedef boost::numeric::ublas::vector<double> uvec; typedef boost::numeric::ublas::matrix<double> umat;
typedef std::list<double> dlist; typedef std::deque<double> ddeque;
typedef boost::fusion::vector<vec, vec> fvv;
typedef boost::fusion::vector<double, vec, boost::array<double, 2>, vec> fmix;
// number of shapes, container of shape k, its shape, its elements by position
template<class S> struct Shape;
template<class S> struct Linear {
    static const unsigned n = 4;
    static S make(unsigned k) { return S(k); }
    static shape of(const S &s) { return shape(1, s.size()); }
    template<class F> static void each(S &s, F f) { for (typename S::iterator i = s.begin(); i != s.end(); ++i) f(*i); }
};
template<> struct Shape<vec> : Linear<vec> {};
template<> struct Shape<dlist> : Linear<dlist> {};
template<> struct Shape<ddeque> : Linear<ddeque> {};
template<> struct Shape<uvec> : Linear<uvec> {};
template<> struct Shape<umat> {
    static const unsigned n = 5;
    static umat make(unsigned k) { static const int r[] = {1, 2, 1, 3, 2}, c[] = {1, 1, 2, 2, 3}; return umat(r[k], c[k]); }
    static shape of(const umat &s) { shape r; r.push_back(s.size1()); r.push_back(s.size2()); return r; }
    template<class F> static void each(umat &s, F f) { for (std::size_t i = 0; i < s.size1(); ++i) for (std::size_t j = 0; j < s.size2(); ++j) f(s(i, j)); }
};
template<class M> static shape mshape(const M &m)
{
    shape r;
    for (std::size_t i = 0; i < M::dimensionality; ++i) { r.push_back(m.shape()[i]); r.push_back(m.index_bases()[i]); }
    return r;
}
typedef boost::multi_array_types::extent_range ER;
template<> struct Shape<ma1> {
    static const unsigned n = 5;
    static ma1 make(unsigned k) { static const int a[] = {0, 0, -1, 0, 2}, b[] = {1, 2, 1, 3, 4}; return ma1(boost::extents[ER(a[k], b[k])]); }
    static shape of(const ma1 &s) { return mshape(s); }
    template<class F> static void each(ma1 &s, F f) { shape h = of(s); for (long i = h[1]; i < h[1] + h[0]; ++i) f(s[i]); }
};
template<> struct Shape<ma2> {
    static const unsigned n = 6;
    static ma2 make(unsigned k)
    {
        static const int a[] = {0, 0, 0, 0, 1, 0}, b[] = {1, 1, 2, 2, 3, 2}, c[] = {0, 0, 0, 0, 0, -1}, d[] = {1, 2, 1, 2, 2, 1};
        return ma2(boost::extents[ER(a[k], b[k])][ER(c[k], d[k])]);
    }
    static shape of(const ma2 &s) { return mshape(s); }
    template<class F> static void each(ma2 &s, F f)
    {
        shape h = of(s);
        for (long i = h[1]; i < h[1] + h[0]; ++i) for (long j = h[3]; j < h[3] + h[2]; ++j) f(s[i][j]);
    }
};
template<> struct Shape<ma3> {
    static const unsigned n = 5;
    static ma3 make(unsigned k)
    {
        static const int a[] = {0, 0, 0, 0, 0}, b[] = {1, 2, 1, 1, 1}, c[] = {0, 0, 0, 0, 0}, d[] = {1, 1, 2, 1, 1}, e[] = {0, 0, 0, 0, -1}, g[] = {1, 1, 1, 2, 1};
        return ma3(boost::extents[ER(a[k], b[k])][ER(c[k], d[k])][ER(e[k], g[k])]);
    }
    static shape of(const ma3 &s) { return mshape(s); }
    template<class F> static void each(ma3 &s, F f)
    {
        shape h = of(s);
        for (long i = h[1]; i < h[1] + h[0]; ++i) for (long j = h[3]; j < h[3] + h[2]; ++j) for (long k = h[5]; k < h[5] + h[4]; ++k) f(s[i][j][k]);
    }
};
template<> struct Shape<fvv> {
    static const unsigned n = 5;
    static fvv make(unsigned k) { static const int a[] = {1, 2, 1, 2, 0}, b[] = {1, 1, 2, 2, 1}; return fvv(vec(a[k]), vec(b[k])); }
    static shape of(const fvv &s) { shape r; r.push_back(bf::at_c<0>(s).size()); r.push_back(bf::at_c<1>(s).size()); return r; }
    template<class F> static void each(fvv &s, F f) { Linear<vec>::each(bf::at_c<0>(s), f); Linear<vec>::each(bf::at_c<1>(s), f); }
};
template<> struct Shape<fmix> {
    static const unsigned n = 4;
    static fmix make(unsigned k) { static const int a[] = {1, 2, 1, 2}, b[] = {1, 1, 2, 2}; return fmix(0.0, vec(a[k]), boost::array<double, 2>(), vec(b[k])); }
    static shape of(const fmix &s) { shape r; r.push_back(bf::at_c<1>(s).size()); r.push_back(bf::at_c<3>(s).size()); return r; }
    template<class F> static void each(fmix &s, F f)
    {
        f(bf::at_c<0>(s)); Linear<vec>::each(bf::at_c<1>(s), f);
        f(bf::at_c<2>(s)[0]); f(bf::at_c<2>(s)[1]); Linear<vec>::each(bf::at_c<3>(s), f);
    }
};
#ifdef VP_EIGEN
template<class M> struct EMatrix {
    static const unsigned n = 5;
    static M make(unsigned k) { static const int r[] = {1, 2, 1, 3, 2}, c[] = {1, 1, 2, 2, 3}; return M(r[k], c[k]); }
    static shape of(const M &s) { shape r; r.push_back(s.rows()); r.push_back(s.cols()); return r; }
    template<class F> static void each(M &s, F f) { for (int i = 0; i < s.rows(); ++i) for (int j = 0; j < s.cols(); ++j) f(s(i, j)); }
};
template<class V> struct EVector {
    static const unsigned n = 4;
    static V make(unsigned k) { return V(k + 1); }
    static shape of(const V &s) { return shape(1, s.size()); }
    template<class F> static void each(V &s, F f) { for (int i = 0; i < s.size(); ++i) f(s[i]); }
};
typedef Eigen::MatrixXd emat; typedef Eigen::ArrayXXd earr2; typedef Eigen::VectorXd evec; typedef Eigen::RowVectorXd erow; typedef Eigen::ArrayXd earr;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> emrow;
template<> struct Shape<emat> : EMatrix<emat> {};
template<> struct Shape<emrow> : EMatrix<emrow> {};
template<> struct Shape<earr2> : EMatrix<earr2> {};
template<> struct Shape<evec> : EVector<evec> {};
template<> struct Shape<erow> : EVector<erow> {};
template<> struct Shape<earr> : EVector<earr> {};
#endif
struct Fill { void operator()(double &x) const { x = vp_real(-2, 2); } };
struct Get { vec *v; void operator()(double &x) const { v->push_back(x); } };
struct Put { const vec *v; std::size_t *i; void operator()(double &x) const { x = (*v)[(*i)++]; } };
template<class S> static S filled(unsigned k) { S s(Shape<S>::make(k)); Shape<S>::each(s, Fill()); return s; }
template<class S> static vec elems(const S &s) { vec v; Get g = {&v}; Shape<S>::each(const_cast<S &>(s), g); return v; }
template<class S> static void put(S &s, const vec &v) { std::size_t i = 0; Put p = {&v, &i}; Shape<S>::each(s, p); }

// ---- comparison, resizing, copying ------------------------------------------------------------------------
template<class S> static void shapes()
{
    typedef Shape<S> H;
    unsigned a = vp_choose(H::n), b = vp_choose(H::n);
    S x(filled<S>(a));
    const S y(filled<S>(b));
    const vec v = elems(y);
    vp_assert(is_resizeable<S>::value, "the container is resizeable");
    vp_assert(same_size(x, y) == (H::of(x) == H::of(y)), "sizes are the same if and only if the shapes are");
    vp_assert(same_size(x, x), "a container has its own size");
    resize(x, y);
    vp_assert(H::of(x) == H::of(y), "a resized container has the shape of the other");
    vp_assert(same_size(x, y) && same_size(y, x), "a resized container has the size of the other");
    boost::numeric::odeint::copy(y, x);
    near_all(elems(x), v, "a copy has the elements of the original", 0);
    near_all(elems(y), v, "the original keeps its elements", 0);
    vp_assert(same_instance(x, x) && !same_instance(x, y), "only a container itself is the same instance");
    Shape<S>::each(x, Fill());
    near_all(elems(y), v, "a copy has memory of its own", 0);
    // wrapper used by the steppers
    S z(filled<S>(a));
    state_wrapper<S> w;
    adjust_size_by_resizeability(w, z, typename is_resizeable<S>::type());
    vp_assert(H::of(w.m_v) == H::of(z), "a buffer gets the shape of the state");
    vp_assert(adjust_size_by_resizeability(w, y, typename is_resizeable<S>::type()) == (a != b), "resizing reports whether the shape was another");
    vp_assert(H::of(w.m_v) == H::of(y), "a buffer gets the shape of the next state");
    vp_assert(!adjust_size_by_resizeability(w, y, typename is_resizeable<S>::type()), "nothing is resized twice");
}
#define SH(name, S) VP_ENTRY(shapes_##name) { shapes<S>(); }
#ifdef VP_EIGEN
SH(emat, emat)
SH(emrow, emrow)
SH(earr2, earr2)
SH(evec, evec)
SH(erow, erow)
SH(earr, earr)
#else
SH(vec, vec)
SH(list, dlist)
SH(deque, ddeque)
SH(ma1, ma1)
SH(ma2, ma2)
SH(ma3, ma3)
SH(uvec, uvec)
SH(umat, umat)
SH(fvv, fvv)
SH(fmix, fmix)
VP_ENTRY(fixed)
{
    typedef boost::fusion::vector<double, boost::array<double, 2> > ffix;
    vp_assert(!is_resizeable<double>::value && !is_resizeable<arr3>::value && !is_resizeable<ffix>::value && !is_resizeable<sarr3>::value, "fixed types are not resizeable");
    state_wrapper<arr3> w;
    arr3 x;
    x[0] = x[1] = x[2] = vp_real(-2, 2);
    vp_assert(!adjust_size_by_resizeability(w, x, is_resizeable<arr3>::type()), "fixed types are never resized");
}
// a container sized after one of another type
template<class A, class B> static void across()
{
    unsigned a = vp_choose(4), b = vp_choose(4);
    A x(filled<A>(a));
    const B y(filled<B>(b));
    vp_assert(same_size(x, y) == (a == b), "sizes of different containers are compared");
    resize(x, y);
    vp_assert(x.size() == b, "a container is sized after one of another type");
    boost::numeric::odeint::copy(y, x);
    near_all(elems(x), elems(y), "a container of another type is copied", 0);
}
VP_ENTRY(vec_list) { across<vec, dlist>(); }
VP_ENTRY(list_vec) { across<dlist, vec>(); }
VP_ENTRY(deque_vec) { across<ddeque, vec>(); }
VP_ENTRY(vec_deque) { across<vec, ddeque>(); }
VP_ENTRY(range)
{
    unsigned a = vp_choose(4), b = 1 + vp_choose(3), o = vp_choose(b);
    vec x(filled<vec>(a)), y(filled<vec>(b));
    boost::iterator_range<vec::iterator> r(y.begin() + o, y.end());
    resize(x, r);
    vp_assert(x.size() == b - o && same_size(x, r), "a container is sized after a part of another");
    boost::numeric::odeint::copy(r, x);
    near_all(x, vec(y.begin() + o, y.end()), "a part of a container is copied", 0);
    vec z(filled<vec>(b));
    const vec z0(z);
    boost::iterator_range<vec::iterator> q(z.begin() + o, z.end());
    boost::numeric::odeint::copy(x, q);
    for (unsigned i = 0; i < b; ++i) vp_assert(z[i] == (i < o ? z0[i] : y[i]), "a part of a container is written");
}

#endif
// ---- steppers used with one shape after another ---------------------------------------------------------------
struct ShapeRhs {
    template<class X, class D> void operator()(const X &x, D &d, double t) const
    {
        vp_assert(Shape<X>::of(x) == Shape<D>::of(d), "the derivative has the shape of the state");
        vec v = elems(x), r(v.size());
        vp_sys(0, v.data(), v.size(), t, r.data(), r.size(), 4);
        put(d, r);
    }
};
struct VRhs {
    void operator()(const vec &x, vec &d, double t) const { vp_sys(0, x.data(), x.size(), t, d.data(), d.size(), 4); }
};
struct Easy {
    template<class Alg, class X, class D, class E, class T> double error(Alg &, const X &, const D &, E &, T) const { return 0.75; }
};
template<class St, class Sys, class X> static X one(St &st, Sys sys, X x, double t, double dt, explicit_controlled_stepper_tag) { st.try_step(sys, x, t, dt); return x; }
template<class St, class Sys, class X> static X one(St &st, Sys sys, X x, double t, double dt, explicit_controlled_stepper_fsal_tag) { st.try_step(sys, x, t, dt); return x; }
template<class St, class Sys, class X> static X one(St &st, Sys sys, X x, double t, double dt, stepper_tag) { st.do_step(sys, x, t, dt); return x; }
template<class St, class Sys, class X> static X one(St &st, Sys sys, const X &x, double t, double dt, dense_output_stepper_tag)
{
    X y(x);
    st.initialize(x, t, dt);
    st.do_step(sys);
    st.calc_state(t + 0.5 * dt, y);
    return y;
}
template<class St, class Ref, class S> static void changing()
{
    St st;
    unsigned last = Shape<S>::n;
    for (unsigned k = 0; k < 2; ++k) {
        unsigned a = last == Shape<S>::n ? vp_choose(Shape<S>::n) : (last + 1 + vp_choose(Shape<S>::n - 1)) % Shape<S>::n;
        last = a;
        S x(filled<S>(a));
        const shape h = Shape<S>::of(x);
        vec v = elems(x);
        if (v.empty()) return;
        double t = vp_real(-2, 2), dt = vp_real(0.125, 1);
        Ref ref;
        S y = one(st, ShapeRhs(), x, t, dt, typename St::stepper_category());
        vec w = one(ref, VRhs(), v, t, dt, typename Ref::stepper_category());
        vp_assert(Shape<S>::of(y) == h, "a step keeps the shape of the state");
        near_all(elems(y), w, "a step after one of another shape is that of a new stepper on a vector", 1e-9);
    }
}
template<class S, template<class, class, class, class, class, class, class> class ST> struct On {
    typedef ST<S, double, S, double, typename algebra_dispatcher<S>::algebra_type, typename operations_dispatcher<S>::operations_type, always_resizer> type;
};
template<class S> struct St {
    typedef typename On<S, euler>::type eul;
    typedef typename On<S, runge_kutta4>::type rk4;
    typedef typename On<S, runge_kutta4_classic>::type rk4c;
    typedef typename On<S, runge_kutta_dopri5>::type dp5;
    typedef typename On<S, runge_kutta_cash_karp54>::type ck;
    typedef controlled_runge_kutta<ck, Easy, default_step_adjuster<double, double>, always_resizer> cck;
    typedef controlled_runge_kutta<dp5, Easy, default_step_adjuster<double, double>, always_resizer> cdp5;
    typedef dense_output_runge_kutta<cdp5> ddp5;
    typedef dense_output_runge_kutta<eul> deul;
};
#define CHG(name, S) \
    VP_ENTRY(euler_##name) { changing<St<S>::eul, St<vec>::eul, S>(); } \
    VP_ENTRY(rk4_##name) { changing<St<S>::rk4, St<vec>::rk4, S>(); } \
    VP_ENTRY(rk4c_##name) { changing<St<S>::rk4c, St<vec>::rk4c, S>(); } \
    VP_ENTRY(cck_##name) { changing<St<S>::cck, St<vec>::cck, S>(); } \
    VP_ENTRY(cdp5_##name) { changing<St<S>::cdp5, St<vec>::cdp5, S>(); } \
    VP_ENTRY(ddp5_##name) { changing<St<S>::ddp5, St<vec>::ddp5, S>(); } \
    VP_ENTRY(deuler_##name) { changing<St<S>::deul, St<vec>::deul, S>(); }
#ifdef VP_EIGEN
CHG(emat, emat)
CHG(earr2, earr2)
CHG(evec, evec)
CHG(erow, erow)
#else
CHG(ma1, ma1)
CHG(ma2, ma2)
CHG(ma3, ma3)
CHG(list, dlist)
CHG(umat, umat)
#endif
