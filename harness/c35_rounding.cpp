// C35: times on a grid do not accumulate rounding errors. Every operation on times commits an arbitrary error of up to E.
#include "common.hpp"
#include <limits>
#include <utility>
static const double E = 0.0000019073486328125;      // 2^-19
static double err() { return vp_real(-E, E); }
struct Rt {
    double v;
    Rt() : v(0) {}
    Rt(double x) : v(x) {}
    Rt(int x) : v(x) {}
    Rt(long x) : v(x) {}
    Rt(unsigned long x) : v(x) {}
    Rt &operator+=(const Rt &b) { v = v + b.v + err(); return *this; }
    Rt &operator-=(const Rt &b) { v = v - b.v + err(); return *this; }
    Rt &operator*=(const Rt &b) { v = v * b.v + err(); return *this; }
    Rt &operator/=(const Rt &b) { v = v / b.v + err(); return *this; }
    Rt operator-() const { return Rt(-v); }
};
static Rt operator+(Rt a, const Rt &b) { return a += b; }
static Rt operator-(Rt a, const Rt &b) { return a -= b; }
static Rt operator*(Rt a, const Rt &b) { return a *= b; }
static Rt operator/(Rt a, const Rt &b) { return a /= b; }
static bool operator<(const Rt &a, const Rt &b) { return a.v < b.v; }
static bool operator>(const Rt &a, const Rt &b) { return a.v > b.v; }
static bool operator<=(const Rt &a, const Rt &b) { return a.v <= b.v; }
static bool operator>=(const Rt &a, const Rt &b) { return a.v >= b.v; }
static bool operator==(const Rt &a, const Rt &b) { return a.v == b.v; }
static bool operator!=(const Rt &a, const Rt &b) { return a.v != b.v; }
static Rt abs(const Rt &a) { return Rt(a.v < 0 ? -a.v : a.v); }
namespace std {
    template<> struct numeric_limits<Rt> : numeric_limits<double> { static Rt epsilon() { return Rt(8 * E); } };
}
#ifdef VP_ITER
#include <boost/numeric/odeint/iterator/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_adaptive.hpp>
#else
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#endif
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
using namespace boost::numeric::odeint;
#ifndef VP_N
#define VP_N 6
#endif
static std::vector<double> tried_t, tried_dt;
static void tried(const Rt &t, const Rt &dt) { tried_t.push_back(t.v); tried_dt.push_back(dt.v); }
struct Types { typedef vec state_type; typedef vec deriv_type; typedef double value_type; typedef Rt time_type; typedef unsigned short order_type; };
struct Plain : Types {
    typedef stepper_tag stepper_category;
    template<class Sys, class X> void do_step(Sys, X &x, Rt t, Rt dt) { tried(t, dt); x[0] += 1; }
};
struct Ctrl : Types {
    typedef controlled_stepper_tag stepper_category;
    template<class Sys, class X> controlled_step_result try_step(Sys, X &x, Rt &t, Rt &dt) { tried(t, dt); t += dt; x[0] += 1; return success; }
};
template<int NUM, int DEN> struct Dense : Types {       // steps NUM / DEN times as long as the first
    typedef dense_output_stepper_tag stepper_category;
    vec x; Rt t, old, dt; bool fresh;
    template<class X> void initialize(const X &y, Rt s, Rt h) { x = y; t = old = s; dt = h; fresh = true; }
    template<class Sys> std::pair<Rt, Rt> do_step(Sys)
    {
        tried(t, dt);
        old = t;
        t += dt;
        if (fresh) { fresh = false; dt = Rt(dt.v * NUM / DEN); }
        x[0] += 1;
        return std::make_pair(old, t);
    }
    template<class X> void calc_state(Rt, X &y) const { y = x; }
    const vec &current_state() const { return x; }
    const vec &previous_state() const { return x; }
    Rt current_time() const { return t; }
    Rt previous_time() const { return old; }
    Rt current_time_step() const { return dt; }
};
struct Rec { std::vector<double> *t; template<class X> void operator()(const X &, const Rt &s) const { t->push_back(s.v); } };
struct Nothing { template<class X, class D> void operator()(const X &, D &, const Rt &) const {} };
struct In { double t, dt; unsigned n; };
static In input()
{
    In i;
    i.n = VP_N - vp_choose(2);
    i.t = vp_real(-4, 4);
    i.dt = (vp_choose(2) ? 1 : -1) * vp_real(0.25, 1);
    tried_t.clear(); tried_dt.clear();
    return i;
}
static void grid(const In &i, const std::vector<double> &t)
{
    vp_assert(t.size() == i.n + 1, "every point of the grid is visited, and nothing else");
    for (std::size_t k = 0; k < t.size(); ++k)
        vp_assert(t[k] - (i.t + k * i.dt) <= 3 * E && t[k] - (i.t + k * i.dt) >= -3 * E, "a grid time has no more than the rounding errors of one product and one sum");
}
static void steps(const In &i, std::size_t n)
{
    vp_assert(tried_t.size() == n, "as many steps as intervals");
    for (std::size_t k = 0; k < tried_t.size(); ++k) {
        vp_assert(tried_t[k] - (i.t + k * i.dt) <= 3 * E && tried_t[k] - (i.t + k * i.dt) >= -3 * E, "a step starts with no more than the rounding errors of one product and one sum");
        if (k < i.n) vp_assert(tried_dt[k] - i.dt <= 5 * E && tried_dt[k] - i.dt >= -5 * E, "a step has the size of an interval");
    }
}
template<class St> static void konst(bool st)
{
    In i = input();
    vec x(1);
    std::vector<double> t;
    Rec r = {&t};
    integrate_const(St(), Nothing(), x, Rt(i.t), Rt(i.t + (i.n + 0.5) * i.dt), Rt(i.dt), r);
    grid(i, t);
    if (st) steps(i, i.n);
}
template<class St> static void nsteps(bool st)
{
    In i = input();
    vec x(1);
    std::vector<double> t;
    Rec r = {&t};
    double e = integrate_n_steps(St(), Nothing(), x, Rt(i.t), Rt(i.dt), i.n, r).v;
    grid(i, t);
    vp_assert(e - (i.t + i.n * i.dt) <= 3 * E && e - (i.t + i.n * i.dt) >= -3 * E, "the time returned has no more than the rounding errors of one product and one sum");
    if (st) steps(i, i.n);
}
// the last, shorter step starts from a point of the grid
VP_ENTRY(adaptive_plain)
{
    In i = input();
    vec x(1);
    std::vector<double> t;
    Rec r = {&t};
    const double end = i.t + (i.n + 0.5) * i.dt;
    integrate_adaptive(Plain(), Nothing(), x, Rt(i.t), Rt(end), Rt(i.dt), r);
    vp_assert(t.size() == i.n + 2, "every point of the grid and the end are visited");
    vp_assert(t.back() - end <= 5 * E && t.back() - end >= -5 * E, "the end is reached without accumulated rounding errors");
    t.pop_back();
    grid(i, t);
    steps(i, i.n + 1);
    vp_assert(tried_dt.back() - 0.5 * i.dt <= 3 * E && tried_dt.back() - 0.5 * i.dt >= -3 * E, "the last step has the size that remains");
}
template<class St> static void checked()
{
    In i = input();
    vec x(1);
    std::vector<double> t;
    Rec r = {&t};
    if (vp_choose(2)) integrate_const(St(), Nothing(), x, Rt(i.t), Rt(i.t + (i.n + 0.5) * i.dt), Rt(i.dt), r, max_step_checker(1000));
    else integrate_n_steps(St(), Nothing(), x, Rt(i.t), Rt(i.dt), i.n, r, max_step_checker(1000));
    grid(i, t);
}
#define KIND(name, S, st) \
    VP_ENTRY(const_##name) { konst<S >(st); } \
    VP_ENTRY(nsteps_##name) { nsteps<S >(st); }
typedef Dense<1, 1> D1; typedef Dense<1, 3> DS; typedef Dense<5, 2> DL;
KIND(plain, Plain, true)
KIND(ctrl, Ctrl, false)
KIND(dense, D1, false)
KIND(dense_short, DS, false)
KIND(dense_long, DL, false)
#ifndef VP_ITER
VP_ENTRY(checked_plain) { checked<Plain>(); }
VP_ENTRY(checked_ctrl) { checked<Ctrl>(); }
VP_ENTRY(checked_dense) { checked<D1>(); }
template<class St> static void it_const(bool st)
{
    In i = input();
    vec x(1);
    std::vector<double> t;
    typedef const_step_time_iterator<St, Nothing, vec> It;
    const double end = i.t + (i.n + 0.5) * i.dt;
    It a = make_const_step_time_iterator_begin(St(), Nothing(), x, Rt(i.t), Rt(end), Rt(i.dt)), b = make_const_step_time_iterator_end(St(), Nothing(), x);
    for (unsigned k = 0; a != b && k < 2 * VP_N; ++a, ++k) t.push_back(a->second.v);
    grid(i, t);
    if (st) steps(i, i.n);
}
template<class St> static void it_nsteps(bool st)
{
    In i = input();
    vec x(1);
    std::vector<double> t;
    typedef n_step_time_iterator<St, Nothing, vec> It;
    It a = make_n_step_time_iterator_begin(St(), Nothing(), x, Rt(i.t), Rt(i.dt), i.n), b = make_n_step_time_iterator_end(St(), Nothing(), x);
    for (unsigned k = 0; a != b && k < 2 * VP_N; ++a, ++k) t.push_back(a->second.v);
    grid(i, t);
    if (st) steps(i, i.n);
}
VP_ENTRY(it_const_plain) { it_const<Plain>(true); }
VP_ENTRY(it_const_dense) { it_const<D1>(false); }
VP_ENTRY(it_const_dense_short) { it_const<DS>(false); }
VP_ENTRY(it_const_dense_long) { it_const<DL>(false); }
VP_ENTRY(it_nsteps_plain) { it_nsteps<Plain>(true); }
VP_ENTRY(it_nsteps_dense) { it_nsteps<D1>(false); }
VP_ENTRY(it_nsteps_dense_short) { it_nsteps<DS>(false); }
VP_ENTRY(it_nsteps_dense_long) { it_nsteps<DL>(false); }
#endif
