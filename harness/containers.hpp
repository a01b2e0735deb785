// containers of doubles with a common make / read interface
#ifndef VP_CONTAINERS
#define VP_CONTAINERS
#include "common.hpp"
#include <list>
#include <deque>
#include <complex>
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/sequence/intrinsic/at_c.hpp>
#include <boost/multi_array.hpp>
#include <boost/operators.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>

// the list primitives live in libstdc++.so; given here so that they are part of what is executed symbolically
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
}
}}
// containers the user declares resizable, as the documentation asks
namespace boost { namespace numeric { namespace odeint {
template<> struct is_resizeable<std::list<double>> { typedef boost::true_type type; static const bool value = true; };
template<> struct is_resizeable<std::deque<double>> { typedef boost::true_type type; static const bool value = true; };
}}}
// a vector-space type of three components
struct Pt : boost::additive1<Pt, boost::additive2<Pt, double, boost::multiplicative2<Pt, double>>> {
    double a, b, c;
    Pt() : a(0), b(0), c(0) {}
    explicit Pt(double v) : a(v), b(v), c(v) {}
    Pt(double x, double y, double z) : a(x), b(y), c(z) {}
    Pt &operator+=(const Pt &p) { a += p.a; b += p.b; c += p.c; return *this; }
    Pt &operator-=(const Pt &p) { a -= p.a; b -= p.b; c -= p.c; return *this; }
    Pt &operator+=(double p) { a += p; b += p; c += p; return *this; }
    Pt &operator-=(double p) { a -= p; b -= p; c -= p; return *this; }
    Pt &operator*=(double p) { a *= p; b *= p; c *= p; return *this; }
    Pt &operator/=(double p) { a /= p; b /= p; c /= p; return *this; }
};
inline Pt operator/(const Pt &p, const Pt &q) { return Pt(p.a / q.a, p.b / q.b, p.c / q.c); }
inline Pt abs(const Pt &p) { return Pt(std::abs(p.a), std::abs(p.b), std::abs(p.c)); }
namespace boost { namespace numeric { namespace odeint {
template<> struct vector_space_norm_inf<Pt> {
    typedef double result_type;
    double operator()(const Pt &p) const { return std::max(std::max(std::abs(p.a), std::abs(p.b)), std::abs(p.c)); }
};
}}}
typedef boost::multi_array<double, 2> marr;
typedef boost::fusion::vector<double, double, double> fus3;
typedef boost::array<double, 3> arr3;
typedef std::array<double, 3> sarr3;

template<class S> struct Box;
template<class S> struct RangeBox {
    static S make(const vec &v) { return S(v.begin(), v.end()); }
    static vec read(const S &s) { return vec(s.begin(), s.end()); }
};
template<> struct Box<vec> : RangeBox<vec> {};
template<> struct Box<std::list<double>> : RangeBox<std::list<double>> {};
template<> struct Box<std::deque<double>> : RangeBox<std::deque<double>> {};
template<class S> struct ArrBox {
    static S make(const vec &v) { S s; for (std::size_t i = 0; i < s.size(); ++i) s[i] = v[i]; return s; }
    static vec read(const S &s) { return vec(s.begin(), s.end()); }
};
template<std::size_t N> struct Box<boost::array<double, N>> : ArrBox<boost::array<double, N>> {};
template<std::size_t N> struct Box<std::array<double, N>> : ArrBox<std::array<double, N>> {};
template<> struct Box<double> {
    static double make(const vec &v) { return v[0]; }
    static vec read(double s) { return vec(1, s); }
};
template<> struct Box<std::complex<double>> {
    static std::complex<double> make(const vec &v) { return std::complex<double>(v[0], v[1]); }
    static vec read(const std::complex<double> &s) { vec v(2); v[0] = s.real(); v[1] = s.imag(); return v; }
};
template<> struct Box<Pt> {
    static Pt make(const vec &v) { return Pt(v[0], v[1], v[2]); }
    static vec read(const Pt &s) { vec v(3); v[0] = s.a; v[1] = s.b; v[2] = s.c; return v; }
};
template<> struct Box<fus3> {
    static fus3 make(const vec &v) { return fus3(v[0], v[1], v[2]); }
    static vec read(const fus3 &s) { vec v(3); v[0] = boost::fusion::at_c<0>(s); v[1] = boost::fusion::at_c<1>(s); v[2] = boost::fusion::at_c<2>(s); return v; }
};
// 2 x n/2, index base (1,-1)
template<> struct Box<marr> {
    static marr make(const vec &v)
    {
        typedef marr::extent_range R;
        marr s(boost::extents[R(1, 3)][R(-1, (long)(v.size() / 2) - 1)]);
        for (std::size_t i = 0; i < v.size(); ++i) s[1 + i / (v.size() / 2)][(long)(i % (v.size() / 2)) - 1] = v[i];
        return s;
    }
    static vec read(const marr &s)
    {
        vec v;
        for (long i = s.index_bases()[0]; i < s.index_bases()[0] + (long)s.shape()[0]; ++i)
            for (long j = s.index_bases()[1]; j < s.index_bases()[1] + (long)s.shape()[1]; ++j) v.push_back(s[i][j]);
        return v;
    }
};
#endif
