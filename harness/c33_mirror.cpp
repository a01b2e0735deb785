// C33: the direction of time is immaterial: x' = f(x,t) integrated backwards is y' = -f(y,-s) integrated forwards
#include "vp.h"
#include <type_traits>
static bool mirror_ = false;
static void mirror_sys(int id, const double *x, std::size_t n, double t, double *out, std::size_t m, double B)
{
    if (!mirror_) { vp_sys(id, x, n, t, out, m, B); return; }
    vp_sys(id, x, n, -t, out, m, B);
    for (std::size_t i = 0; i < m; ++i) out[i] = -out[i];
}
#define vp_sys mirror_sys
#include "families.hpp"
#undef vp_sys
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
using namespace boost::numeric::odeint;
using namespace fam;
// f is run twice: backwards (s = -1), and forwards on the mirrored system (s = 1); it returns what is observed,
// times and step sizes multiplied by s
template<class F> static void both(F f, const char *msg, double tol = TOL)
{
    mirror_ = false;
    const vec a = f(-1.0);
    mirror_ = true;
    const vec b = f(1.0);
    mirror_ = false;
    near_all(a, b, msg, tol);
}
static const char *const STEP = "a step backwards is the mirror image of a step forwards";
static const char *const ATT = "an attempt backwards is the mirror image of one forwards";
static const char *const DEN = "dense output backwards is the mirror image of forwards";
static const char *const INT = "an integration backwards is the mirror image of one forwards";
template<class F> struct fixed { static const bool value = false; };
template<class R> struct fixed<AAB<R> > { static const bool value = true; };
template<class F> static void steps(unsigned k, std::size_t n = 2, unsigned form = vp_choose(F::forms))
{
    std::vector<vec> x;
    std::vector<double> h;
    double t0 = fixed<F>::value ? 0.25 : vp_real(-2, 2);
    for (unsigned i = 0; i < k; ++i) { x.push_back(symvec(n)); h.push_back(fixed<F>::value ? (i == 1 ? 0.25 : 0.5) : vp_real(0.125, 1)); }
    both([&](double s) {
        typename F::st st(make_of<F>(0));
        double t = -s * t0;
        vec r;
        for (unsigned i = 0; i < k; ++i) { app(r, F::run(st, x[i], t, s * h[i], form)); t += s * h[i]; }
        return r;
    }, STEP);
}
typedef initially_resizer IR;
#define SP(name, F, K) VP_ENTRY(step_##name) { steps<F<IR> >(K); }
SP(euler, Euler, 1)
SP(midpoint, Midpoint, 1)
SP(rk4, Rk4, 1)
SP(rk4c, Rk4c, 1)
SP(ck, Ck, 1)
SP(ckc, Ckc, 1)
SP(f78, F78, 1)
SP(dp5, Dp5, 2)
SP(ext, Ext, 1)
SP(ab3, AB<3>::F, 4)
SP(abm3, ABM<3>::F, 4)
VP_ENTRY(step_aab) { steps<AAB<IR> >(4, 1); }
// (the derivatives of the coordinates being given as well: with the momenta in their place the mirrored system is of another kind)
VP_ENTRY(step_syme) { steps<SymE<IR> >(1, 2, 2 * vp_choose(2)); }
VP_ENTRY(step_sym4) { steps<Sym4<IR> >(1, 2, 2 * vp_choose(2)); }
VP_ENTRY(step_sym6) { steps<Sym6<IR> >(1, 2, 2 * vp_choose(2)); }
// second order: velocities change their sign, accelerations do not
struct MAcc { template<class X> void operator()(const X &q, const X &p, X &d, double t) const
{ vec z(q); for (std::size_t i = 0; i < p.size(); ++i) z.push_back(mirror_ ? -p[i] : p[i]); vp_sys(3, z.data(), z.size(), mirror_ ? -t : t, d.data(), d.size(), BK); } };
VP_ENTRY(step_verlet)
{
    vec q0 = symvec(2), p0 = symvec(2);
    double t0 = vp_real(-2, 2), h = vp_real(0.125, 1);
    both([&](double s) {
        Verlet<IR>::st st;
        vec q(q0), p(p0);
        for (std::size_t i = 0; i < p.size(); ++i) p[i] *= -s;
        for (int k = 0; k < 2; ++k) st.do_step(MAcc(), std::make_pair(boost::ref(q), boost::ref(p)), -s * t0 + s * k * h, s * h);
        vec r(q);
        for (std::size_t i = 0; i < p.size(); ++i) r.push_back(-s * p[i]);
        return r;
    }, STEP);
}
// ---- real error control ---------------------------------------------------------------------------------------
template<class St> static void attempts(St mk, double dt0, unsigned k, unsigned form = vp_choose(2))
{
    vec x0 = symvec(1);
    double t0 = vp_real(-2, 2);
    both([&](double s) {
        auto st = mk(s);
        double t = -s * t0, dt = s * dt0;
        vec x(x0), r;
        for (unsigned i = 0; i < k; ++i) {
            controlled_step_result q;
            if (form == 0) q = st.try_step(Rhs<>(), x, t, dt);
            else { vec o(x); q = st.try_step(Rhs<>(), x, t, o, dt); if (q == success) x = o; }
            app(r, x);
            r.push_back(-s * t);
            r.push_back(s * dt);
            r.push_back(q == success ? 1.0 : 0.0);
        }
        return r;
    }, ATT, 1e-6);
}
typedef runge_kutta_cash_karp54<vec> RCk; typedef runge_kutta_dopri5<vec> RDp;
#define AT(name, MK, DT, ...) VP_ENTRY(attempt_##name) { attempts([](double s) { (void)s; return MK; }, DT, __VA_ARGS__); }
AT(ck, make_controlled(0.25, 0.25, RCk()), 0.5, 1)
AT(dp5, make_controlled(0.25, 0.25, RDp()), 0.5, 1)
AT(ck_max, make_controlled(0.25, 0.25, s * 0.375, RCk()), 0.5, 2)
AT(dp5_max, make_controlled(0.25, 0.25, s * 0.375, RDp()), 0.5, 2)
AT(dp5_max_grow, make_controlled(1e6, 1e6, s * 0.75, RDp()), 0.5, 2)
AT(ck_grow, make_controlled(1e6, 1e6, RCk()), 0.5, 2)
AT(bs, bulirsch_stoer<vec>(0.25, 0.0), 0.5, 1, 0)
AT(bs_max, bulirsch_stoer<vec>(1e6, 0.0, 1.0, 1.0, s * 0.625), 0.5, 1)
AT(bs_exceed, bulirsch_stoer<vec>(1e6, 0.0, 1.0, 1.0, s * 0.25), 0.5, 1)
typedef adaptive_adams_bashforth_moulton<2, vec> A2;
AT(aab, controlled_adams_bashforth_moulton<A2>(), 0.5, 1)
// checkers and adjusters by themselves
VP_ENTRY(adjusters)
{
    double dt = vp_real(0.125, 1), e = vp_real(0.015625, 4), mx = vp_choose(2) ? vp_real(0.125, 1) : 0.0;
    both([&](double s) {
        default_step_adjuster<double, double> a(s * mx);
        vec r;
        r.push_back(s * a.decrease_step(s * dt, e, 4));
        r.push_back(s * a.increase_step(s * dt, e, 5));
        r.push_back(a.check_step_size_limit(s * dt) ? 1.0 : 0.0);
        r.push_back(s * a.get_max_dt());
        return r;
    }, "step sizes are adjusted backwards as forwards", 1e-6);
}
// ---- implicit -----------------------------------------------------------------------------------------------------
struct MRF { template<class X, class D> void operator()(const X &x, D &d, double t) const { mirror_sys(0, &x[0], x.size(), t, &d[0], x.size(), BK); } };
struct MJac {
    template<class X> void operator()(const X &x, umat &j, double) const
    { for (std::size_t a = 0; a < x.size(); ++a) for (std::size_t b = 0; b < x.size(); ++b) j(a, b) = (mirror_ ? -1 : 1) * (a == b ? -2.0 - 0.5 * double(a) : 0.25); }
    // the time derivative of -f(y,-s) is that of f
    template<class X> void operator()(const X &x, umat &j, double t, X &f) const { (*this)(x, j, t); vp_sys(2, &x[0], x.size(), mirror_ ? -t : t, &f[0], x.size(), BK); }
};
typedef std::pair<MRF, MJac> MSys;
struct MAff {
    template<class X, class D> void operator()(const X &x, D &d, double t) const
    {
        double z = 0;
        umat j(x.size(), x.size());
        MJac()(x, j, t);
        mirror_sys(3, &z, 1, t, &d[0], x.size(), BK);
        for (std::size_t a = 0; a < x.size(); ++a) for (std::size_t b = 0; b < x.size(); ++b) d[a] += j(a, b) * x[b];
    }
};
VP_ENTRY(step_ros)
{
    uvec x0 = usym(2);
    double t0 = vp_real(-2, 2);
    both([&](double s) {
        rosenbrock4<double> st;
        uvec x(x0), o(2), e(2), q(2);
        st.do_step(MSys(), x, -s * t0, o, s * 0.25, e);
        vec r;
        app(r, o); app(r, e);
        st.prepare_dense_output();
        st.calc_state(-s * t0 + s * 0.125, q, x, -s * t0, o, -s * t0 + s * 0.25);
        app(r, q);
        return r;
    }, STEP);
}
VP_ENTRY(step_ie)
{
    uvec x0 = usym(2);
    double t0 = vp_real(-2, 2);
    both([&](double s) {
        implicit_euler<double> st(1e6);
        uvec x(x0);
        st.do_step(std::make_pair(MAff(), MJac()), x, -s * t0, s * 0.25);
        vec r;
        app(r, x);
        return r;
    }, STEP);
}
static void ros_attempts(double tol, bool limited, unsigned k)
{
    uvec x0 = usym(1);
    double t0 = vp_real(-2, 2);
    unsigned form = vp_choose(2);
    both([&](double s) {
        rosenbrock4_controller<rosenbrock4<double> > st(tol, 0.0, limited ? s * 0.375 : 0.0);
        uvec x(x0);
        double t = -s * t0, dt = s * 0.25;
        vec r;
        for (unsigned i = 0; i < k; ++i) {
            controlled_step_result q;
            if (form == 0) q = st.try_step(MSys(), x, t, dt);
            else { uvec o(x); q = st.try_step(MSys(), x, t, o, dt); if (q == success) x = o; }
            app(r, x);
            r.push_back(-s * t);
            r.push_back(s * dt);
            r.push_back(q == success ? 1.0 : 0.0);
        }
        return r;
    }, ATT, 1e-6);
}
VP_ENTRY(attempt_ros) { ros_attempts(1.0, false, 1); }
VP_ENTRY(attempt_ros_max) { ros_attempts(1e12, true, 1); }
// ---- dense output --------------------------------------------------------------------------------------------------
template<class Mk, class Sys, class X> static void dense(Mk mk, Sys sys, const X &x0, double h, unsigned k)
{
    double t0 = vp_real(-2, 2);
    both([&](double s) {
        auto st = mk(s);
        vec r;
        st.initialize(x0, -s * t0, s * h);
        for (unsigned i = 0; i < k; ++i) {
            st.do_step(sys);
            X o(x0);
            st.calc_state(st.previous_time() + 0.375 * (st.current_time() - st.previous_time()), o);
            app(r, o);
            app(r, st.current_state());
            app(r, st.previous_state());
            r.push_back(-s * st.current_time());
            r.push_back(-s * st.previous_time());
            r.push_back(s * st.current_time_step());
        }
        return r;
    }, DEN, 1e-6);
}
#define DE(name, MK, SYS, X, H, K) VP_ENTRY(dense_##name) { dense([](double s) { (void)s; return MK; }, SYS, X, H, K); }
DE(euler, DEuler<IR>::st(), Rhs<>(), symvec(2), vp_real(0.125, 1), 2)
DE(dp5, DDp5<IR>::st(), Rhs<>(), symvec(2), vp_real(0.125, 1), 2)
DE(dp5_real, make_dense_output(1e6, 1e6, RDp()), Rhs<>(), symvec(1), 0.5, 2)
DE(dp5_max, make_dense_output(1e6, 1e6, s * 0.75, RDp()), Rhs<>(), symvec(1), 0.5, 2)
DE(bs, bulirsch_stoer_dense_out<vec>(1e6, 0.0), Rhs<>(), symvec(1), 0.5, 1)
DE(bs_max, bulirsch_stoer_dense_out<vec>(1e6, 0.0, 1.0, 1.0, s * 0.625), Rhs<>(), symvec(1), 0.5, 1)
DE(ros, make_dense_output(1e12, 0.0, rosenbrock4<double>()), MSys(), usym(1), 0.25, 1)
// ---- integrations and iterators ---------------------------------------------------------------------------------------
struct MObs { vec *r; double s; void operator()(const vec &x, double t) const { app(*r, x); r->push_back(-s * t); } };
// (iterators on a grid are not offered for controlled steppers)
template<class St> static void grid_iterators(std::true_type, St &, vec &, double, double, double, unsigned, MObs) {}
template<class St> static void grid_iterators(std::false_type, St &st, vec &x, double t, double e, double dt, unsigned how, MObs o)
{
    if (how == 4) for (auto i = make_const_step_time_iterator_begin(st, Rhs<>(), x, t, e, dt), z = make_const_step_time_iterator_end(st, Rhs<>(), x); i != z; ++i) o((*i).first, (*i).second);
    else for (auto i = make_n_step_time_iterator_begin(st, Rhs<>(), x, t, dt, 2), z = make_n_step_time_iterator_end(st, Rhs<>(), x); i != z; ++i) o((*i).first, (*i).second);
}
template<class St> static void integrations()
{
    vec x0 = symvec(1);
    double t0 = vp_real(-2, 2), h = vp_real(0.125, 1), len = h * (vp_choose(2) ? 2.25 : 1.75);
    unsigned how = vp_choose(8);
    both([&](double s) {
        St st;
        vec x(x0), r;
        MObs o = {&r, s};
        const double t = -s * t0, e = t + s * len, dt = s * h;
        const double ts[] = {t, t, t + 0.5 * dt, t + 1.75 * dt};
        double n = 0;
        if (how == 0) n = integrate_const(st, Rhs<>(), x, t, e, dt, o);
        else if (how == 1) n = integrate_adaptive(st, Rhs<>(), x, t, e, dt, o);
        else if (how == 2) n = -s * integrate_n_steps(st, Rhs<>(), x, t, dt, 2, o);
        else if (how == 3) n = integrate_times(st, Rhs<>(), x, ts, ts + 4, dt, o);
        else if (how == 4 || how == 5) grid_iterators(std::integral_constant<bool, std::is_convertible<typename St::stepper_category, controlled_stepper_tag>::value>(), st, x, t, e, dt, how, o);
        else if (how == 6) for (auto i = make_times_time_iterator_begin(st, Rhs<>(), x, ts, ts + 4, dt), z = make_times_time_iterator_end<const double *>(st, Rhs<>(), x); i != z; ++i) o((*i).first, (*i).second);
        else { integrate_const(st, Rhs<>(), x, t, e, dt); }
        r.push_back(n);
        app(r, x);
        return r;
    }, INT, 1e-7);
}
template<class St> static void adaptive_iterators()
{
    vec x0 = symvec(1);
    double t0 = vp_real(-2, 2), h = vp_real(0.125, 1), len = h * (vp_choose(2) ? 2.25 : 1.75);
    both([&](double s) {
        St st;
        vec x(x0), r;
        MObs o = {&r, s};
        for (auto i = make_adaptive_time_iterator_begin(st, Rhs<>(), x, -s * t0, -s * t0 + s * len, s * h), z = make_adaptive_time_iterator_end(st, Rhs<>(), x); i != z; ++i) o((*i).first, (*i).second);
        app(r, x);
        return r;
    }, INT, 1e-7);
}
typedef controlled_runge_kutta<RCk, Chk, Adj> FCk; typedef dense_output_runge_kutta<controlled_runge_kutta<RDp, Chk, Adj> > FDd;
VP_ENTRY(integrate_rk4) { integrations<runge_kutta4<vec> >(); }
VP_ENTRY(integrate_ck) { integrations<FCk>(); }
VP_ENTRY(integrate_dense) { integrations<FDd>(); }
VP_ENTRY(adaptive_ck) { adaptive_iterators<FCk>(); }
VP_ENTRY(adaptive_dense) { adaptive_iterators<FDd>(); }
// ---- integrations under real error control --------------------------------------------------------------------------
template<class Mk> static void real_integrations(Mk mk, double len)
{
    vec x0 = symvec(1);
    double t0 = vp_real(-2, 2);
    unsigned how = vp_choose(4);
    both([&](double s) {
        auto st = mk(s);
        vec x(x0), r;
        MObs o = {&r, s};
        const double t = -s * t0, e = t + s * len, dt = s * 0.5;
        const double ts[] = {t, t + 0.75 * dt, t + 1.5 * dt};
        double n = 0;
        if (how == 0) n = integrate_const(st, Rhs<>(), x, t, e, dt, o);
        else if (how == 1) n = integrate_adaptive(st, Rhs<>(), x, t, e, dt, o);
        else if (how == 2) n = -s * integrate_n_steps(st, Rhs<>(), x, t, dt, 2, o);
        else n = integrate_times(st, Rhs<>(), x, ts, ts + 3, dt, o);
        r.push_back(n);
        app(r, x);
        return r;
    }, INT, 1e-6);
}
#define RI(name, MK, LEN) VP_ENTRY(integrate_##name) { real_integrations([](double s) { (void)s; return MK; }, LEN); }
RI(real_dp5, make_controlled(1e6, 1e6, RDp()), 1.125)
RI(real_dp5_max, make_controlled(1e6, 1e6, s * 0.375, RDp()), 0.75)
RI(real_ck, make_controlled(1e6, 1e6, RCk()), 1.125)
RI(real_dense, make_dense_output(1e6, 1e6, RDp()), 1.125)
RI(real_dense_max, make_dense_output(1e6, 1e6, s * 0.75, RDp()), 1.125)
RI(real_bs, bulirsch_stoer<vec>(1e6, 0.0), 0.75)
RI(real_bs_dense, bulirsch_stoer_dense_out<vec>(1e6, 0.0), 0.75)
VP_ENTRY(thorough_attempt_ck2) { attempts([](double) { return make_controlled(0.25, 0.25, RCk()); }, 0.5, 2); }
VP_ENTRY(thorough_attempt_dp52) { attempts([](double) { return make_controlled(0.25, 0.25, RDp()); }, 0.5, 2); }
VP_ENTRY(thorough_attempt_aab2) { attempts([](double) { return controlled_adams_bashforth_moulton<A2>(); }, 0.5, 2); }
VP_ENTRY(thorough_attempt_ros2) { ros_attempts(1.0, false, 2); }
