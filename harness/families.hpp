// Every stepper family behind one interface: a stepper with resizer R makes one operation of a chosen form
// and returns everything a caller can observe (the new state first).
#ifndef VP_FAMILIES
#define VP_FAMILIES
#include "rk_common.hpp"
#include "ros_ref.hpp"
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
namespace fam {
typedef boost::numeric::odeint::range_algebra RA;
typedef boost::numeric::odeint::default_operations DO;
template<class A> void app(vec &v, const A &a) { for (std::size_t i = 0; i < a.size(); ++i) v.push_back(a[i]); }

// stepper making plain steps on vectors; F forms
struct Base {
    static const unsigned forms = 2;
    static const bool memory = false;     // remembers earlier steps: a new problem needs another size or a reset
    static const bool adjusts = true;     // has adjust_size
    static const unsigned maxn = 3;       // largest state used
    template<class St> static vec run(St &st, const vec &x, double t, double dt, unsigned form)
    {
        vec y(x);
        if (form == 0) st.do_step(Rhs<>(), y, t, dt);
        else { vec o(x.size(), 7.0); st.do_step(Rhs<>(), x, t, o, dt); y = o; }
        return y;
    }
};
struct ErrBase : Base {
    static const unsigned forms = 4;
    template<class St> static vec run(St &st, const vec &x, double t, double dt, unsigned form)
    {
        if (form < 2) return Base::run(st, x, t, dt, form);
        vec y(x), e(x.size(), 3.0);
        if (form == 2) st.do_step(Rhs<>(), y, t, dt, e);
        else { vec o(x.size(), 7.0); st.do_step(Rhs<>(), x, t, o, dt, e); y = o; }
        app(y, e);
        return y;
    }
};
template<class R> struct Euler : Base { typedef euler<vec, double, vec, double, RA, DO, R> st; };
template<class R> struct Midpoint : Base { typedef modified_midpoint<vec, double, vec, double, RA, DO, R> st; };
template<class R> struct Rk4 : Base { typedef runge_kutta4<vec, double, vec, double, RA, DO, R> st; };
template<class R> struct Rk4c : Base { typedef runge_kutta4_classic<vec, double, vec, double, RA, DO, R> st; };
template<class R> struct Ck : ErrBase { typedef runge_kutta_cash_karp54<vec, double, vec, double, RA, DO, R> st; };
template<class R> struct Ckc : ErrBase { typedef runge_kutta_cash_karp54_classic<vec, double, vec, double, RA, DO, R> st; };
template<class R> struct F78 : ErrBase { typedef runge_kutta_fehlberg78<vec, double, vec, double, RA, DO, R> st; };
template<class R> struct Dp5 : ErrBase { typedef runge_kutta_dopri5<vec, double, vec, double, RA, DO, R> st; static const bool memory = true; };
template<class R> struct Ext : ErrBase { typedef extrapolation_stepper<6, vec, double, vec, double, RA, DO, R> st; };
template<std::size_t K> struct AB { template<class R> struct F : Base { typedef adams_bashforth<K, vec, double, vec, double, RA, DO, R> st; static const bool memory = true; }; };
template<std::size_t K> struct ABM { template<class R> struct F : Base { typedef adams_bashforth_moulton<K, vec, double, vec, double, RA, DO, R> st; static const bool memory = true; }; };
template<class R> struct AAB : ErrBase { typedef adaptive_adams_bashforth_moulton<2, vec, double, vec, double, RA, DO, R> st; static const bool memory = true; static const bool adjusts = false; };

// symplectic: state (q,p), p derived from the vector given
struct PF { template<class X, class D> void operator()(const X &x, D &d) const { vp_sys(1, &x[0], x.size(), 0, &d[0], d.size(), BK); } };
struct QF { template<class X, class D> void operator()(const X &x, D &d) const { vp_sys(2, &x[0], x.size(), 0, &d[0], d.size(), BK); } };
struct SymBase : Base {
    static const unsigned forms = 3;
    template<class St> static vec run(St &st, const vec &x, double t, double dt, unsigned form)
    {
        vec q(x), p(x);
        for (std::size_t i = 0; i < p.size(); ++i) p[i] *= 0.5;
        QF qf; PF pf;
        if (form == 0) { std::pair<vec, vec> s(q, p); st.do_step(std::make_pair(qf, pf), s, t, dt); q = s.first; p = s.second; }
        else if (form == 1) st.do_step(pf, q, p, t, dt);
        else { std::pair<vec, vec> s(q, p), o(q, p); st.do_step(std::make_pair(qf, pf), s, t, o, dt); q = o.first; p = o.second; }
        app(q, p);
        return q;
    }
};
template<class R> struct SymE : SymBase { typedef symplectic_euler<vec, vec, double, vec, vec, double, RA, DO, R> st; };
template<class R> struct Sym4 : SymBase { typedef symplectic_rkn_sb3a_m4_mclachlan<vec, vec, double, vec, vec, double, RA, DO, R> st; };
template<class R> struct Sym6 : SymBase { typedef symplectic_rkn_sb3a_mclachlan<vec, vec, double, vec, vec, double, RA, DO, R> st; };
struct Acc { template<class X, class D> void operator()(const X &q, const X &p, D &d, double t) const
{ vec z(q.begin(), q.end()); app(z, p); vp_sys(3, &z[0], z.size(), t, &d[0], d.size(), BK); } };
template<class R> struct Verlet : Base {
    typedef velocity_verlet<vec, vec, double, vec, double, double, RA, DO, R> st;
    static const bool memory = true;
    static const unsigned forms = 1;
    static vec run(st &s, const vec &x, double t, double dt, unsigned)
    {
        vec q(x), p(x);
        for (std::size_t i = 0; i < p.size(); ++i) p[i] *= 0.5;
        s.do_step(Acc(), std::make_pair(boost::ref(q), boost::ref(p)), t, dt);
        app(q, p);
        return q;
    }
};
// controllers with a fixed verdict
struct Chk {
    template<class Alg, class X, class D, class E, class T> double error(Alg &, const X &, const D &, E &e, T) const { return 0.25; }
};
struct Adj {
    double decrease_step(double dt, double, int) const { return 0.5 * dt; }
    double increase_step(double dt, double, int) const { return 1.5 * dt; }
    bool check_step_size_limit(double) { return true; }
    double get_max_dt() { return 0; }
};
struct CtlBase : Base {
    template<class St> static vec run(St &st, const vec &x, double t, double dt, unsigned form)
    {
        vec y(x);
        controlled_step_result r;
        if (form == 0) r = st.try_step(Rhs<>(), y, t, dt);
        else { vec o(x.size(), 7.0); r = st.try_step(Rhs<>(), x, t, o, dt); y = o; }
        y.push_back(t);
        y.push_back(dt);
        y.push_back(r == success);
        return y;
    }
};
template<class R> struct CCk : CtlBase { typedef controlled_runge_kutta<typename Ck<R>::st, Chk, Adj, R> st; };
template<class R> struct CDp5 : CtlBase { typedef controlled_runge_kutta<typename Dp5<R>::st, Chk, Adj, R> st; static const bool memory = true; };
struct AdamsAdj {
    template<class S> double adjust_stepsize(std::size_t, double dt, S &, const S &, const S &) { return 1.25 * dt; }
    static double threshold() { return 0.9; }
};
struct OrdAdj { template<class E> std::size_t adjust_order(std::size_t o, std::size_t i, E &) { return i < o ? o : o < 2 ? o + 1 : o; } };
template<class R> struct CAAB : CtlBase { typedef controlled_adams_bashforth_moulton<typename AAB<R>::st, AdamsAdj, OrdAdj, R> st; static const bool memory = true; static const bool adjusts = false; };
// dense output: a whole initialisation, step, interpolation
struct DenseBase : Base {
    static const unsigned forms = 1;
    template<class St> static vec run(St &st, const vec &x, double t, double dt, unsigned)
    {
        st.initialize(x, t, dt);
        std::pair<double, double> p = st.do_step(Rhs<>());
        vec o(x.size(), 7.0);
        st.calc_state(p.first + 0.25 * (p.second - p.first), o);
        vec y(st.current_state());
        app(y, o);
        app(y, st.previous_state());
        y.push_back(p.first);
        y.push_back(p.second);
        y.push_back(st.current_time());
        y.push_back(st.current_time_step());
        return y;
    }
};
template<class R> struct DEuler : DenseBase { typedef dense_output_runge_kutta<typename Euler<R>::st> st; };
template<class R> struct DDp5 : DenseBase { typedef dense_output_runge_kutta<typename CDp5<R>::st> st; };
// Bulirsch-Stoer: x' = constant, so that the verdict does not depend on the state
struct Const { template<class X, class D> void operator()(const X &x, D &d, double) const { double z = 0; vp_sys(4, &z, 1, 0, &d[0], d.size(), 1); for (std::size_t i = 0; i < d.size(); ++i) d[i] = 0.75 + 0.25 * d[i]; } };
inline vec positive(vec x) { for (std::size_t i = 0; i < x.size(); ++i) x[i] = 1.5 + 0.25 * x[i]; return x; }
template<class R> struct BS : Base {
    typedef bulirsch_stoer<vec, double, vec, double, RA, DO, R> st;
    static const bool memory = true;
    static const unsigned maxn = 2;
    static vec run(st &s, const vec &x0, double t, double dt, unsigned form)
    {
        const vec x(positive(x0));
        vec y(x);
        controlled_step_result r;
        dt = 0.5;
        if (form == 0) r = s.try_step(Const(), y, t, dt);
        else { vec o(x.size(), 7.0); r = s.try_step(Const(), x, t, o, dt); y = o; }
        y.push_back(t);
        y.push_back(dt);
        y.push_back(r == success);
        return y;
    }
};
template<class R> struct BSD : Base {
    typedef bulirsch_stoer_dense_out<vec, double, vec, double, RA, DO, R> st;
    static const unsigned forms = 1;
    static const unsigned maxn = 2;
    static vec run(st &s, const vec &x0, double t, double, unsigned)
    {
        const vec x(positive(x0));
        s.initialize(x, t, 0.5);
        std::pair<double, double> p = s.do_step(Const());
        vec o(x.size(), 7.0);
        s.calc_state(p.first + 0.25 * (p.second - p.first), o);
        vec y(s.current_state());
        app(y, o);
        app(y, s.previous_state());
        y.push_back(p.first);
        y.push_back(p.second);
        y.push_back(s.current_time_step());
        return y;
    }
};
// implicit
struct IJac {
    template<class X> void operator()(const X &x, umat &j, double) const
    { for (std::size_t a = 0; a < x.size(); ++a) for (std::size_t b = 0; b < x.size(); ++b) j(a, b) = a == b ? -2.0 - 0.5 * double(a) : 0.25; }
    template<class X> void operator()(const X &x, umat &j, double t, X &f) const { (*this)(x, j, t); vp_sys(2, &x[0], x.size(), t, &f[0], x.size(), BK); }
};
inline uvec uv(const vec &x) { uvec u(x.size()); for (std::size_t i = 0; i < x.size(); ++i) u[i] = x[i]; return u; }
template<class R> struct Rosen : Base {
    typedef rosenbrock4<double, default_rosenbrock_coefficients<double>, R> st;
    static const unsigned forms = 4;
    static const unsigned maxn = 2;
    static vec run(st &s, const vec &x, double t, double, unsigned form)
    {
        uvec u(uv(x)), o(x.size()), e(x.size());
        std::pair<RF, IJac> sys;
        const double dt = 0.25;
        vec y, z;
        if (form == 0) { s.do_step(sys, u, t, dt); app(y, u); }
        else if (form == 1) { s.do_step(sys, u, t, o, dt); app(y, o); }
        else if (form == 2) { s.do_step(sys, u, t, dt, e); app(y, u); app(y, e); }
        else { s.do_step(sys, u, t, o, dt, e); app(y, o); app(y, e); s.prepare_dense_output(); uvec q(x.size()); s.calc_state(t + 0.125, q, u, t, o, t + dt); app(y, q); }
        return y;
    }
};
template<class R> struct CRos : Base {
    typedef rosenbrock4_controller<typename Rosen<R>::st> st;
    static st make() { return st(1e12, 0.0); }
    static const unsigned maxn = 2;
    static vec run(st &s, const vec &x, double t, double, unsigned form)
    {
        uvec u(uv(x)), o(x.size());
        std::pair<RF, IJac> sys;
        double dt = 0.25;
        controlled_step_result r;
        vec y;
        if (form == 0) { r = s.try_step(sys, u, t, dt); app(y, u); }
        else { r = s.try_step(sys, u, t, o, dt); app(y, o); }
        y.push_back(t);
        y.push_back(r == success);
        return y;
    }
};
template<class R> struct DRos : Base {
    typedef rosenbrock4_dense_output<typename CRos<R>::st> st;
    static const unsigned forms = 1;
    static st make() { return st(CRos<R>::make()); }
    static const unsigned maxn = 2;
    static vec run(st &s, const vec &x, double t, double, unsigned)
    {
        s.initialize(uv(x), t, 0.25);
        std::pair<RF, IJac> sys;
        std::pair<double, double> p = s.do_step(sys);
        uvec o(x.size());
        s.calc_state(p.first + 0.25 * (p.second - p.first), o);
        vec y;
        app(y, s.current_state());
        app(y, o);
        app(y, s.previous_state());
        y.push_back(p.second);
        return y;
    }
};
// affine right-hand side: one Newton iteration solves it
struct Aff {
    template<class X, class D> void operator()(const X &x, D &d, double t) const
    {
        double z = 0;
        umat j(x.size(), x.size());
        IJac()(x, j, t);
        vp_sys(3, &z, 1, t, &d[0], x.size(), BK);
        for (std::size_t a = 0; a < x.size(); ++a) for (std::size_t b = 0; b < x.size(); ++b) d[a] += j(a, b) * x[b];
    }
};
template<class R> struct IE : Base {
    typedef implicit_euler<double, R> st;
    static const unsigned forms = 1;
    static st make() { return st(1e6); }
    static vec run(st &s, const vec &x, double t, double, unsigned)
    {
        uvec u(uv(x));
        s.do_step(std::make_pair(Aff(), IJac()), u, t, 0.25);
        vec y;
        app(y, u);
        return y;
    }
};
template<class F> typename F::st make_of(long) { return typename F::st(); }
template<class F> auto make_of(int) -> decltype(F::make()) { return F::make(); }
}
#endif
