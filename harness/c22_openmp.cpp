// C22: the OpenMP algebras and states compute what the sequential ones compute, for every assignment of
// the loop iterations to the threads, and without data races
#include "common.hpp"
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#include <boost/numeric/odeint/util/split_adaptor.hpp>
using namespace boost::numeric::odeint;
typedef openmp_state<double> ost;

static void team(unsigned most = 3) { vp_omp_team(1 + (int)vp_choose(most)); }
static vec flat(const ost &s) { vec v; for (std::size_t i = 0; i < s.size(); ++i) v.insert(v.end(), s[i].begin(), s[i].end()); return v; }
// parts of the lengths l[0..n)
static ost parts(const vec &v, const std::vector<std::size_t> &l)
{
    ost s(l.size());
    std::size_t k = 0;
    for (std::size_t i = 0; i < l.size(); ++i) { s[i].assign(v.begin() + k, v.begin() + k + l[i]); k += l[i]; }
    return s;
}
static std::size_t sum(const std::vector<std::size_t> &l) { std::size_t k = 0; for (std::size_t i = 0; i < l.size(); ++i) k += l[i]; return k; }
static std::vector<std::size_t> lengths(unsigned np, unsigned most)
{
    std::vector<std::size_t> l(vp_choose(np + 1));
    for (std::size_t i = 0; i < l.size(); ++i) l[i] = vp_choose(most + 1);
    return l;
}
static void same_shape(const ost &a, const ost &b)
{
    vp_assert(a.size() == b.size(), "number of parts");
    for (std::size_t i = 0; i < a.size(); ++i) vp_assert(a[i].size() == b[i].size(), "size of a part");
}

// ---- for_each -----------------------------------------------------------------------------
// the first argument becomes its own combination with all the others; every argument is read
struct Mix {
    double k;
    template<class... A>
    void operator()(double &a, A &... r) const
    {
        double s = k * a, c = 1.25;
        double v[] = { 0.0, double(r)... };
        for (std::size_t i = 1; i <= sizeof...(r); ++i) { s = s + c * v[i]; c = c * -0.5 - 0.0625; }
        a = s;
    }
};
template<int N> struct Call;
#define LIST1 s[0]
#define LIST2 LIST1, s[1]
#define LIST3 LIST2, s[2]
#define LIST4 LIST3, s[3]
#define LIST5 LIST4, s[4]
#define LIST6 LIST5, s[5]
#define LIST7 LIST6, s[6]
#define LIST8 LIST7, s[7]
#define LIST9 LIST8, s[8]
#define LIST10 LIST9, s[9]
#define LIST11 LIST10, s[10]
#define LIST12 LIST11, s[11]
#define LIST13 LIST12, s[12]
#define LIST14 LIST13, s[13]
#define LIST15 LIST14, s[14]
#define CALL(n) template<> struct Call<n> { template<class A, class S> static void go(std::vector<S> &s, Mix op) { A::for_each##n(LIST##n, op); } };
CALL(1) CALL(2) CALL(3) CALL(4) CALL(5) CALL(6) CALL(7) CALL(8) CALL(9) CALL(10) CALL(11) CALL(12) CALL(13) CALL(14) CALL(15)

template<int N> void range_case()
{
    team();
    const std::size_t n = vp_choose(4);
    Mix op = { vp_real(-1, 1) };
    std::vector<vec> s(N), r;
    for (int i = 0; i < N; ++i) s[i] = symvec(n);
    r = s;
    Call<N>::template go<range_algebra>(r, op);
    Call<N>::template go<openmp_range_algebra>(s, op);
    for (int i = 0; i < N; ++i) near_all(s[i], r[i], "parallel loop over elements");
}
template<int N> void nested_case()
{
    team(N <= 3 ? 3 : 2);
    const std::vector<std::size_t> l = lengths(N <= 3 ? 3 : 2, 2);
    Mix op = { vp_real(-1, 1) };
    std::vector<vec> r(N);
    std::vector<ost> s(N);
    for (int i = 0; i < N; ++i) { r[i] = symvec(sum(l)); s[i] = parts(r[i], l); }
    const ost shape = s[0];
    Call<N>::template go<range_algebra>(r, op);
    Call<N>::template go<openmp_algebra>(s, op);
    for (int i = 0; i < N; ++i) { same_shape(s[i], shape); near_all(flat(s[i]), r[i], "parallel loop over parts"); }
}
#define BOTH(n) VP_ENTRY(range##n) { range_case<n>(); } VP_ENTRY(nested##n) { nested_case<n>(); }
BOTH(1) BOTH(2) BOTH(3) BOTH(4) BOTH(5) BOTH(6) BOTH(7) BOTH(8) BOTH(9) BOTH(10) BOTH(11) BOTH(12) BOTH(13) BOTH(14) BOTH(15)

// ---- norm ---------------------------------------------------------------------------------
static double norm(const vec &v) { double m = 0; for (std::size_t i = 0; i < v.size(); ++i) { double a = v[i] < 0 ? -v[i] : v[i]; if (a > m) m = a; } return m; }
VP_ENTRY(norm_range)
{
    team();
    const std::size_t n = vp_choose(4);
    const vec x = symvec(n);
    const double m = openmp_range_algebra::norm_inf(x);
    for (std::size_t i = 0; i < n; ++i) vp_assert(m >= x[i] && m >= -x[i], "the norm bounds every component");
    bool hit = m == 0;
    for (std::size_t i = 0; i < n; ++i) hit = hit || m == x[i] || m == -x[i];
    vp_assert(hit, "the norm is the size of a component");
    vp_assert(n != 0 || m == 0, "norm of the empty state");
    bool zero = true;
    for (std::size_t i = 0; i < n; ++i) zero = zero && x[i] == 0;
    vp_assert(m != 0 || zero, "only the zero state has norm zero");
}
VP_ENTRY(norm_nested)
{
    team();
    std::vector<std::size_t> l = lengths(3, 2);
    vp_assume(sum(l) <= 3 && l.size() + sum(l) <= 5);
    const vec x = symvec(sum(l));
    const ost s = parts(x, l);
    const double m = openmp_algebra::norm_inf(s);
    for (std::size_t i = 0; i < x.size(); ++i) vp_assert(m >= x[i] && m >= -x[i], "the norm bounds every component");
    bool hit = m == 0;
    for (std::size_t i = 0; i < x.size(); ++i) hit = hit || m == x[i] || m == -x[i];
    vp_assert(hit, "the norm is the size of a component");
    bool zero = true;
    for (std::size_t i = 0; i < x.size(); ++i) zero = zero && x[i] == 0;
    vp_assert(m != 0 || zero, "only the zero state has norm zero");
}

// ---- split, join, copy, resize ------------------------------------------------------------
VP_ENTRY(split_join)
{
    team();
    const std::size_t n = vp_choose(6), p = vp_choose(4);
    const vec x = symvec(n);
    ost s(p, symvec(p ? vp_choose(3) : 0));
    split(x, s);
    vp_assert(p == 0 || s.size() == p, "the target keeps its number of parts");
    vp_assert(p != 0 || (int)s.size() == omp_get_max_threads(), "an empty target gets one part per thread");
    near_all(flat(s), x, "the parts in order are the container");
    for (std::size_t i = 0; i + 1 < s.size(); ++i) vp_assert(s[i].size() == n / s.size(), "equal parts");
    vec y = symvec(vp_choose(3));
    unsplit(s, y);
    near_all(y, x, "joining undoes splitting");
}
VP_ENTRY(join_any)
{
    team();
    std::vector<std::size_t> l = lengths(3, 2);
    const vec x = symvec(sum(l));
    const ost s = parts(x, l);
    vec y = symvec(vp_choose(3));
    unsplit(s, y);
    near_all(y, x, "joining concatenates the parts");
}
VP_ENTRY(copy_parts)
{
    team();
    std::vector<std::size_t> l = lengths(3, 2);
    const vec x = symvec(sum(l));
    const ost s = parts(x, l);
    ost t = parts(symvec(sum(l)), l);
    boost::numeric::odeint::copy(s, t);
    same_shape(s, t);
    near_all(flat(t), x, "a copy has the elements of the original");
    near_all(flat(s), x, "copying leaves the original alone");
}
VP_ENTRY(resize_parts)
{
    team(2);
    std::vector<std::size_t> l = lengths(2, 1), k = lengths(2, 2);
    ost s = parts(symvec(sum(l)), l);
    const ost t = parts(symvec(sum(k)), k);
    bool eq = l.size() == k.size();
    for (std::size_t i = 0; eq && i < l.size(); ++i) eq = l[i] == k[i];
    vp_assert(same_size(s, t) == eq, "same size: the parts have the same sizes");
    resize(s, t);
    same_shape(s, t);
    vp_assert(same_size(s, t), "resizing gives the shape of the other state");
    state_wrapper<ost> w;
    const bool r = adjust_size_by_resizeability(w, t, is_resizeable<ost>::type());
    vp_assert(r == !t.empty(), "a wrapped state reports whether it was resized");
    same_shape(w.m_v, t);
    vp_assert(!adjust_size_by_resizeability(w, t, is_resizeable<ost>::type()), "nothing to resize the second time");
}
VP_ENTRY(split_ranges)
{
    const std::size_t n = vp_choose(12), p = 1 + vp_choose(5);
    vec x = symvec(n);
    vec j;
    for (std::size_t i = 0; i < p; ++i) {
        boost::iterator_range<vec::iterator> r = detail::make_split_range(x, i, p);
        vp_assert(r.size() == n / p || r.size() == n / p + 1, "sub-ranges of about equal size");
        const vec &c = x;
        boost::iterator_range<vec::const_iterator> q = c | detail::split(i, p);
        vp_assert(q.begin() == r.begin() && q.end() == r.end(), "both forms give the same sub-range");
        j.insert(j.end(), r.begin(), r.end());
    }
    near_all(j, x, "the sub-ranges in order are the range");
}

// ---- steppers -----------------------------------------------------------------------------
// the system of the parallel state: the parts together
struct PRhs {
    template<class D>
    void operator()(const ost &x, D &d, double t) const
    {
        const vec v = flat(x);
        vec r(v.size());
        vp_sys(0, &v[0], v.size(), t, &r[0], r.size(), BK);
        std::size_t k = 0;
        for (std::size_t i = 0; i < d.size(); ++i) for (std::size_t j = 0; j < d[i].size(); ++j) d[i][j] = r[k++];
    }
};
struct PCoor {     // dq/dt of p
    template<class Q, class D> void operator()(const Q &p, D &d) const { PRhs()(p, d, 0.0); }
};
struct SCoor { template<class Q, class D> void operator()(const Q &p, D &d) const { Rhs<0>()(p, d, 0.0); } };
static std::vector<std::size_t> L2() { std::vector<std::size_t> l(2); l[0] = 1; l[1] = 1; return l; }
static void mode() { team(2); vp_omp_mode(1 + vp_choose(2)); }

template<class St, class PS, class SS>
void steps(PS ps, SS ss, int n)
{
    mode();
    const vec x0 = symvec(2);
    const double t = vp_real(-1, 1), dt = vp_real(0.0625, 0.5);
    const St p = St();
    vec x = x0;
    typename PS::state_type y = p(x0);
    for (int i = 0; i < n; ++i) {
        ss.do_step(Rhs<0>(), x, t + i * dt, dt);
        ps.do_step(typename St::sys(), y, t + i * dt, dt);
    }
    near_all(p.back(y), x, "step");
}
struct InRange { typedef Rhs<0> sys; vec operator()(const vec &x) const { return x; } vec back(const vec &x) const { return x; } };
struct InParts { typedef PRhs sys; ost operator()(const vec &x) const { return parts(x, L2()); } vec back(const ost &x) const { return flat(x); } };
#define RA double, vec, double, openmp_range_algebra
#define NA double, ost, double
VP_ENTRY(euler_range) { steps<InRange>(euler<vec, RA>(), euler<vec>(), 2); }
VP_ENTRY(euler_parts) { steps<InParts>(euler<ost, NA>(), euler<vec>(), 2); }
VP_ENTRY(rk4_range) { steps<InRange>(runge_kutta4<vec, RA>(), runge_kutta4<vec>(), 2); }
VP_ENTRY(rk4_parts) { steps<InParts>(runge_kutta4<ost, NA>(), runge_kutta4<vec>(), 2); }
VP_ENTRY(dopri5_range) { steps<InRange>(runge_kutta_dopri5<vec, RA>(), runge_kutta_dopri5<vec>(), 2); }
VP_ENTRY(dopri5_parts) { steps<InParts>(runge_kutta_dopri5<ost, NA>(), runge_kutta_dopri5<vec>(), 2); }
VP_ENTRY(f78_parts) { steps<InParts>(runge_kutta_fehlberg78<ost, NA>(), runge_kutta_fehlberg78<vec>(), 1); }
VP_ENTRY(midpoint_parts) { steps<InParts>(modified_midpoint<ost, NA>(), modified_midpoint<vec>(), 1); }
VP_ENTRY(ab3_range) { steps<InRange>(adams_bashforth<3, vec, RA>(), adams_bashforth<3, vec>(), 4); }
VP_ENTRY(ab3_parts) { steps<InParts>(adams_bashforth<3, ost, NA>(), adams_bashforth<3, vec>(), 4); }
VP_ENTRY(abm2_parts) { steps<InParts>(adams_bashforth_moulton<2, ost, NA>(), adams_bashforth_moulton<2, vec>(), 3); }

template<class St, class PS, class SS> void pair_steps(PS ps, SS ss)
{
    mode();
    const vec q0 = symvec(2), p0 = symvec(2);
    const double t = vp_real(-1, 1), dt = vp_real(0.0625, 0.5);
    std::pair<vec, vec> x(q0, p0);
    std::pair<ost, ost> y(parts(q0, L2()), parts(p0, L2()));
    for (int i = 0; i < 2; ++i) {
        ss.do_step(std::make_pair(SCoor(), SCoor()), x, t, dt);
        ps.do_step(std::make_pair(PCoor(), PCoor()), y, t, dt);
    }
    near_all(flat(y.first), x.first, "coordinates");
    near_all(flat(y.second), x.second, "momenta");
}
VP_ENTRY(symplectic_parts) { pair_steps<InParts>(symplectic_rkn_sb3a_mclachlan<ost>(), symplectic_rkn_sb3a_mclachlan<vec>()); }

template<class St, class PS, class SS> void tries(PS ps, SS ss, int n = 1)
{
    mode();
    const vec x0 = symvec(2);
    const St p = St();
    vec x = x0;
    typename PS::state_type y = p(x0);
    double t = vp_real(-1, 1), dt = 0.25, u = t, du = dt;
    for (int i = 0; i < n; ++i) {
        controlled_step_result a = ss.try_step(Rhs<0>(), x, t, dt), b = ps.try_step(typename St::sys(), y, u, du);
        vp_assert(a == b, "accepted and rejected alike");
        vp_near(u, t, 1e-9, "time");
        vp_near(du, dt, 1e-9, "step size");
        near_all(p.back(y), x, "state");
        if (a == fail) vp_cut("rejected attempt");
    }
}
typedef default_error_checker<double, range_algebra, default_operations> sec;
typedef default_error_checker<double, openmp_range_algebra, default_operations> rec;
typedef default_error_checker<double, openmp_algebra, default_operations> pec;
VP_ENTRY(controlled_range) { tries<InRange>(controlled_runge_kutta<runge_kutta_cash_karp54<vec, RA>, rec>(rec(1e-2, 1e-2)), controlled_runge_kutta<runge_kutta_cash_karp54<vec>, sec>(sec(1e-2, 1e-2))); }
VP_ENTRY(controlled_parts) { tries<InParts>(controlled_runge_kutta<runge_kutta_dopri5<ost, NA>, pec>(pec(1e-2, 1e-2)), controlled_runge_kutta<runge_kutta_dopri5<vec>, sec>(sec(1e-2, 1e-2))); }
VP_ENTRY(thorough_controlled_parts2) { tries<InParts>(controlled_runge_kutta<runge_kutta_dopri5<ost, NA>, pec>(pec(1e-2, 1e-2)), controlled_runge_kutta<runge_kutta_dopri5<vec>, sec>(sec(1e-2, 1e-2)), 2); }
VP_ENTRY(dense_parts)
{
    mode();
    const vec x0 = symvec(2);
    const double t = vp_real(-1, 1), dt = 0.25;
    dense_output_runge_kutta<euler<vec> > ss;
    dense_output_runge_kutta<euler<ost, NA> > ps;
    ss.initialize(x0, t, dt);
    ps.initialize(parts(x0, L2()), t, dt);
    for (int i = 0; i < 2; ++i) {
        std::pair<double, double> a = ss.do_step(Rhs<0>()), b = ps.do_step(PRhs());
        vp_near(b.first, a.first, 1e-9, "step begin");
        vp_near(b.second, a.second, 1e-9, "step end");
        near_all(flat(ps.current_state()), ss.current_state(), "state");
    }
    vec x(2);
    ost y = parts(x, L2());
    ss.calc_state(t + 0.375, x);
    ps.calc_state(t + 0.375, y);
    near_all(flat(y), x, "interpolated state");
}
