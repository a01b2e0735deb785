// C26: states distributed over the nodes of a communicator
#include "common.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/external/mpi/mpi.hpp>
using namespace boost::numeric::odeint;
typedef mpi_state<vec> mst;
using vpmpi::Nodes;

// local sizes of the nodes: any
static std::vector<std::size_t> sizes(unsigned nodes, unsigned most)
{
    std::vector<std::size_t> l(1 + vp_choose(nodes));
    for (std::size_t i = 0; i < l.size(); ++i) l[i] = vp_choose(most + 1);
    return l;
}
static std::vector<vec> locals(const std::vector<std::size_t> &l) { std::vector<vec> v(l.size()); for (std::size_t i = 0; i < l.size(); ++i) v[i] = symvec(l[i]); return v; }
static vec joined(const std::vector<vec> &v) { vec r; for (std::size_t i = 0; i < v.size(); ++i) r.insert(r.end(), v[i].begin(), v[i].end()); return r; }
static int part() { return (int)vp_choose(2); }     // the whole world, or a communicator of some of its nodes
static mst node(int c, const vec &v = vec()) { mst s((boost::mpi::communicator(c))); s() = v; return s; }

struct Mix {
    double k;
    template<class... A>
    void operator()(double &a, A &... r) const
    {
        double s = k * a, c = 1.25;
        double v[] = { 0.0, double(r)... };
        for (std::size_t i = 1; i <= sizeof...(r); ++i) { s = s + c * v[i]; c = c * -0.5 - 0.0625; }
        a = s;
    }
};
template<int N> struct Call;
#define LIST1 s[0]
#define LIST2 LIST1, s[1]
#define LIST3 LIST2, s[2]
#define LIST4 LIST3, s[3]
#define LIST5 LIST4, s[4]
#define LIST6 LIST5, s[5]
#define LIST7 LIST6, s[6]
#define LIST8 LIST7, s[7]
#define LIST9 LIST8, s[8]
#define LIST10 LIST9, s[9]
#define LIST11 LIST10, s[10]
#define LIST12 LIST11, s[11]
#define LIST13 LIST12, s[12]
#define LIST14 LIST13, s[13]
#define LIST15 LIST14, s[14]
#define CALL(n) template<> struct Call<n> { template<class A, class S> static void go(std::vector<S> &s, Mix op) { A::for_each##n(LIST##n, op); } };
CALL(1) CALL(2) CALL(3) CALL(4) CALL(5) CALL(6) CALL(7) CALL(8) CALL(9) CALL(10) CALL(11) CALL(12) CALL(13) CALL(14) CALL(15)
template<int N> void each()
{
    const int c = part();
    const std::vector<std::size_t> l = sizes(2, 2);
    Mix op = { vp_real(-1, 1) };
    std::vector<std::vector<vec> > in(l.size()), out(l.size());
    for (std::size_t r = 0; r < l.size(); ++r) { in[r].resize(N); for (int i = 0; i < N; ++i) in[r][i] = symvec(l[r]); }
    auto prog = [&](int r) {
        std::vector<mst> s(N, node(c));
        for (int i = 0; i < N; ++i) s[i]() = in[r][i];
        Call<N>::template go<mpi_nested_algebra<range_algebra> >(s, op);
        out[r].resize(N);
        for (int i = 0; i < N; ++i) out[r][i] = s[i]();
    };
    Nodes::get().run((int)l.size(), c, prog);
    for (std::size_t r = 0; r < l.size(); ++r) {
        Call<N>::template go<range_algebra>(in[r], op);
        for (int i = 0; i < N; ++i) near_all(out[r][i], in[r][i], "loop over the elements of every node");
    }
}
#define EACH(n) VP_ENTRY(each##n) { each<n>(); }
EACH(1) EACH(2) EACH(3) EACH(4) EACH(5) EACH(6) EACH(7) EACH(8) EACH(9) EACH(10) EACH(11) EACH(12) EACH(13) EACH(14) EACH(15)

VP_ENTRY(norm)
{
    const int c = part();
    const std::vector<std::size_t> l = sizes(3, 2);
    const std::vector<vec> v = locals(l);
    const vec x = joined(v);
    vp_assume(x.size() <= 4);
    vec m(l.size());
    auto prog = [&](int r) { m[r] = mpi_nested_algebra<range_algebra>::norm_inf(node(c, v[r])); };
    Nodes::get().run((int)l.size(), c, prog);
    bool hit = m[0] == 0, zero = true;
    for (std::size_t i = 0; i < x.size(); ++i) {
        vp_assert(m[0] >= x[i] && m[0] >= -x[i], "the norm bounds every component");
        hit = hit || m[0] == x[i] || m[0] == -x[i];
        zero = zero && x[i] == 0;
    }
    vp_assert(hit, "the norm is the size of a component");
    vp_assert(m[0] != 0 || zero, "only the zero state has norm zero");
    for (std::size_t r = 1; r < l.size(); ++r) vp_assert(m[r] == m[0], "the same norm on every node");
}
VP_ENTRY(split_join)
{
    const int c = part();
    const std::size_t n = 1 + vp_choose(3), k = vp_choose(7);
    const vec x = symvec(k);
    std::vector<vec> got(n);
    vec back(k + vp_choose(2)), before;
    for (std::size_t i = 0; i < back.size(); ++i) back[i] = vp_real(-BX, BX);
    before = back;
    auto prog = [&](int r) {
        mst s = node(c, vec(r, 7.0));
        split(x, s);
        got[r] = s();
        vec y = before;
        unsplit(s, y);
        if (r == 0) back = y;
        else near_all(y, before, "only the root receives the container");
    };
    Nodes::get().run((int)n, c, prog);
    near_all(joined(got), x, "the parts of the nodes in order are the container");
    for (std::size_t r = 0; r < n; ++r) vp_assert(got[r].size() == k / n || got[r].size() == k / n + 1, "parts of about equal size");
    for (std::size_t i = 0; i < k; ++i) vp_near(back[i], x[i], TOL, "joining undoes splitting");
    for (std::size_t i = k; i < back.size(); ++i) vp_near(back[i], before[i], 0, "nothing written beyond the elements");
}
VP_ENTRY(split_fixed)
{
    const std::size_t n = 1 + vp_choose(3);
    const vec x = symvec(2 * n);
    std::vector<vec> got(n);
    vec back(2 * n, 0.0);
    auto prog = [&](int r) {
        mpi_state<vec> s = node(0);
        split(make_pair(x.begin(), x.end()), s);
        got[r] = s();
        unsplit(s, back);
    };
    Nodes::get().run((int)n, 0, prog);
    near_all(joined(got), x, "the parts of the nodes in order are the range");
    near_all(back, x, "joining undoes splitting");
}
VP_ENTRY(shape)
{
    const int c = part();
    const std::vector<std::size_t> l = sizes(2, 2);
    std::vector<std::size_t> k(l.size());
    for (std::size_t i = 0; i < l.size(); ++i) k[i] = vp_choose(3);
    const std::vector<vec> a = locals(l), b = locals(k);
    bool eq = true;
    for (std::size_t i = 0; i < l.size(); ++i) eq = eq && l[i] == k[i];
    std::vector<int> same(l.size()), after(l.size()), adj(l.size()), again(l.size());
    std::vector<vec> out(l.size()), src(l.size());
    auto prog = [&](int r) {
        mst x = node(c, a[r]), y = node(c, b[r]);
        same[r] = same_size(x, y);
        resize(x, y);
        after[r] = same_size(x, y);
        vp_assert(x().size() == y().size(), "resized on every node");
        boost::numeric::odeint::copy(y, x);
        out[r] = x();
        src[r] = y();
        state_wrapper<mst> w;
        adj[r] = adjust_size_by_resizeability(w, y, is_resizeable<mst>::type());
        vp_assert(w.m_v().size() == y().size(), "a wrapped state is resized on every node");
        again[r] = adjust_size_by_resizeability(w, y, is_resizeable<mst>::type());
    };
    Nodes::get().run((int)l.size(), c, prog);
    std::size_t total = 0;
    for (std::size_t r = 0; r < l.size(); ++r) total += k[r];
    for (std::size_t r = 0; r < l.size(); ++r) {
        vp_assert(same[r] == eq, "same size: the same local sizes on every node");
        vp_assert(after[r], "resizing makes the sizes the same");
        near_all(out[r], b[r], "a copy has the elements of the original");
        near_all(src[r], b[r], "copying leaves the original alone");
        vp_assert(adj[r] == (total != 0 || c != 0), "a wrapped state reports whether it was adapted");
        vp_assert(!again[r], "nothing to resize the second time");
    }
}

// ---- steppers: component k of the whole state has the right-hand side f_k(x_k, t) ------------
struct LocRhs {
    int first;
    template<class D> void operator()(const mst &x, D &d, double t) const { for (std::size_t i = 0; i < x().size(); ++i) vp_sys(first + (int)i, &x()[i], 1, t, &d()[i], 1, BK); }
};
struct AllRhs {
    template<class D> void operator()(const vec &x, D &d, double t) const { for (std::size_t i = 0; i < x.size(); ++i) vp_sys((int)i, &x[i], 1, t, &d[i], 1, BK); }
};
struct LocCoor { int first; template<class Q, class D> void operator()(const Q &p, D &d) const { LocRhs f = { first }; f(p, d, 0.0); } };
struct AllCoor { template<class Q, class D> void operator()(const Q &p, D &d) const { AllRhs()(p, d, 0.0); } };
static std::vector<std::size_t> shape_of(int which)
{
    std::vector<std::size_t> l;
    switch (which) {
    case 0: l.push_back(1); l.push_back(1); break;
    case 1: l.push_back(0); l.push_back(2); break;
    default: l.push_back(2); break;
    }
    return l;
}
static int first_of(const std::vector<std::size_t> &l, int r) { std::size_t k = 0; for (int i = 0; i < r; ++i) k += l[i]; return (int)k; }

template<class PS, class SS> void steps(int n)
{
    const int c = part();
    const std::vector<std::size_t> l = shape_of((int)vp_choose(3));
    const std::vector<vec> v = locals(l);
    const double t = vp_real(-1, 1), dt = vp_real(0.0625, 0.5);
    std::vector<vec> out(l.size());
    auto prog = [&](int r) {
        PS st;
        mst x = node(c, v[r]);
        const LocRhs f = { first_of(l, r) };
        for (int i = 0; i < n; ++i) st.do_step(f, x, t + i * dt, dt);
        out[r] = x();
    };
    Nodes::get().run((int)l.size(), c, prog);
    SS st;
    vec x = joined(v);
    for (int i = 0; i < n; ++i) st.do_step(AllRhs(), x, t + i * dt, dt);
    near_all(joined(out), x, "step");
}
#define NA double, mst, double
VP_ENTRY(euler) { steps<euler<mst, NA>, euler<vec> >(2); }
VP_ENTRY(rk4) { steps<runge_kutta4<mst, NA>, runge_kutta4<vec> >(2); }
VP_ENTRY(dopri5) { steps<runge_kutta_dopri5<mst, NA>, runge_kutta_dopri5<vec> >(2); }
VP_ENTRY(abm2) { steps<adams_bashforth_moulton<2, mst, NA>, adams_bashforth_moulton<2, vec> >(3); }
VP_ENTRY(symplectic)
{
    const int c = part();
    const std::vector<std::size_t> l = shape_of((int)vp_choose(3));
    const std::vector<vec> q = locals(l), p = locals(l);
    const double t = vp_real(-1, 1), dt = vp_real(0.0625, 0.5);
    std::vector<vec> oq(l.size()), op(l.size());
    auto prog = [&](int r) {
        symplectic_rkn_sb3a_mclachlan<mst> st;
        std::pair<mst, mst> x(node(c, q[r]), node(c, p[r]));
        const LocCoor f = { first_of(l, r) };
        for (int i = 0; i < 2; ++i) st.do_step(std::make_pair(f, f), x, t, dt);
        oq[r] = x.first();
        op[r] = x.second();
    };
    Nodes::get().run((int)l.size(), c, prog);
    symplectic_rkn_sb3a_mclachlan<vec> st;
    std::pair<vec, vec> x(joined(q), joined(p));
    for (int i = 0; i < 2; ++i) st.do_step(std::make_pair(AllCoor(), AllCoor()), x, t, dt);
    near_all(joined(oq), x.first, "coordinates");
    near_all(joined(op), x.second, "momenta");
}
typedef default_error_checker<double, range_algebra, default_operations> sec;
typedef default_error_checker<double, mpi_nested_algebra<range_algebra>, default_operations> pec;
template<template<class, class, class, class, class, class, class> class RK> void tries(int which)
{
    const int c = part();
    const std::vector<std::size_t> l = shape_of(which);
    const std::vector<vec> v = locals(l);
    const double t = vp_real(-1, 1), dt = 0.25;
    std::vector<vec> out(l.size());
    std::vector<int> res(l.size());
    vec ot(l.size()), od(l.size());
    typedef RK<mst, double, mst, double, mpi_nested_algebra<range_algebra>, default_operations, initially_resizer> P;
    typedef RK<vec, double, vec, double, range_algebra, default_operations, initially_resizer> S;
    auto prog = [&](int r) {
        controlled_runge_kutta<P, pec> st(pec(1e-2, 1e-2));
        mst x = node(c, v[r]);
        const LocRhs f = { first_of(l, r) };
        ot[r] = t;
        od[r] = dt;
        res[r] = st.try_step(f, x, ot[r], od[r]);
        out[r] = x();
    };
    Nodes::get().run((int)l.size(), c, prog);
    controlled_runge_kutta<S, sec> st(sec(1e-2, 1e-2));
    vec x = joined(v);
    double u = t, d = dt;
    const int a = st.try_step(AllRhs(), x, u, d);
    for (std::size_t r = 0; r < l.size(); ++r) {
        vp_assert(res[r] == a, "every node accepts and rejects alike");
        vp_near(ot[r], u, 1e-9, "time");
        vp_near(od[r], d, 1e-9, "step size");
    }
    near_all(joined(out), x, "state");
}
VP_ENTRY(controlled_1) { tries<runge_kutta_cash_karp54>(0); }
VP_ENTRY(controlled_2) { tries<runge_kutta_dopri5>(0); }
VP_ENTRY(controlled_3) { tries<runge_kutta_dopri5>(1); }
VP_ENTRY(dense)
{
    const int c = part();
    const std::vector<std::size_t> l = shape_of(0);
    const std::vector<vec> v = locals(l);
    const double t = vp_real(-1, 1), dt = 0.25;
    std::vector<vec> out(l.size());
    auto prog = [&](int r) {
        dense_output_runge_kutta<euler<mst, NA> > st;
        st.initialize(node(c, v[r]), t, dt);
        const LocRhs f = { first_of(l, r) };
        st.do_step(f);
        st.do_step(f);
        mst y = node(c, v[r]);
        st.calc_state(t + 0.375, y);
        out[r] = y();
    };
    Nodes::get().run((int)l.size(), c, prog);
    dense_output_runge_kutta<euler<vec> > st;
    st.initialize(joined(v), t, dt);
    st.do_step(AllRhs());
    st.do_step(AllRhs());
    vec y(2);
    st.calc_state(t + 0.375, y);
    near_all(joined(out), y, "interpolated state");
}
