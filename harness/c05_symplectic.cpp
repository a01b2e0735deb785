// C05: symplectic Runge-Kutta-Nystroem schemes and velocity Verlet
#include "common.hpp"
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
using namespace boost::numeric::odeint;
struct PFun { template<class X, class D> void operator()(const X &x, D &d) const { vp_sys(1, &x[0], x.size(), 0, &d[0], d.size(), BK); } };
struct QFun { template<class X, class D> void operator()(const X &x, D &d) const { vp_sys(2, &x[0], x.size(), 0, &d[0], d.size(), BK); } };
// published coefficients: McLachlan, SIAM J. Sci. Comput. 16 (1995) 151
struct Coef { int s; double a[6], b[6]; };
static Coef euler_c() { Coef c = {1, {1}, {1}}; return c; }
static Coef m4_c()
{
    const double z = std::sqrt(0.875) / 3;
    Coef c = {5, {0.5 - z, z - 1. / 3, 2. / 3, z - 1. / 3, 0.5 - z}, {1, -0.5, -0.5, 1, 0}};
    return c;
}
static Coef m6_c()
{
    const double a0 = 0.40518861839525227722, a1 = -0.28714404081652408900, a2 = 0.5 - (a0 + a1), b0 = -3. / 73, b1 = 17. / 59, b2 = 1 - 2 * (b0 + b1);
    Coef c = {6, {a0, a1, a2, a2, a1, a0}, {b0, b1, b2, b1, b0, 0}};
    return c;
}
template<class S>
static void ref_step(const Coef &c, bool sep, S &q, S &p, double dt)
{
    QFun qf; PFun pf;
    S d(q);
    for (int l = 0; l < c.s; ++l) {
        if (sep) qf(p, d); else d = p;
        for (std::size_t i = 0; i < q.size(); ++i) q[i] += c.a[l] * dt * d[i];
        pf(q, d);
        for (std::size_t i = 0; i < p.size(); ++i) p[i] += c.b[l] * dt * d[i];
    }
}
template<class St, class S>
static void scheme(const Coef &c, std::size_t n, bool palindromic)
{
    vec q0 = symvec(n), p0 = symvec(n);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    bool sep = vp_choose(2);
    QFun qf; PFun pf;
    std::pair<QFun, PFun> sys(qf, pf);
    St st;
    S q = Mk<S>::make(q0), p = Mk<S>::make(p0), rq(q), rp(p);
    std::pair<S, S> x(q, p), y(q, p);
    for (int k = 0; k < 2; ++k) {
        ref_step(c, sep, rq, rp, dt);
        if (sep) st.do_step(sys, x, t, dt); else st.do_step(pf, x, t, dt);
        near_all(x.first, rq, "coordinates = published scheme");
        near_all(x.second, rp, "momenta = published scheme");
        std::pair<S, S> z(y);
        if (sep) st.do_step(sys, z, t, y, dt); else st.do_step(pf, z, t, y, dt);
        near_all(y.first, rq, "coordinates = published scheme, out of place");
        near_all(y.second, rp, "momenta = published scheme, out of place");
        t += dt;
    }
    if (palindromic) {
        std::pair<S, S> w(q, p);
        if (sep) { st.do_step(sys, w, t, dt); st.do_step(sys, w, t, -dt); }
        else { st.do_step(pf, w, t, dt); st.do_step(pf, w, t, -dt); }
        near_all(w.first, q, "a step back returns the coordinates");
        near_all(w.second, p, "a step back returns the momenta");
    }
}
VP_ENTRY(euler_vec) { scheme<symplectic_euler<vec>, vec>(euler_c(), 1 + vp_choose(3), false); }
VP_ENTRY(euler_arr) { scheme<symplectic_euler<arr2>, arr2>(euler_c(), 2, false); }
VP_ENTRY(m4_vec) { scheme<symplectic_rkn_sb3a_m4_mclachlan<vec>, vec>(m4_c(), 1 + vp_choose(2), true); }
VP_ENTRY(m4_arr) { scheme<symplectic_rkn_sb3a_m4_mclachlan<arr2>, arr2>(m4_c(), 2, true); }
VP_ENTRY(m6_vec) { scheme<symplectic_rkn_sb3a_mclachlan<vec>, vec>(m6_c(), 1 + vp_choose(2), true); }
VP_ENTRY(m6_arr) { scheme<symplectic_rkn_sb3a_mclachlan<arr2>, arr2>(m6_c(), 2, true); }
// the tables themselves
VP_ENTRY(tables)
{
    symplectic_rkn_sb3a_m4_mclachlan<vec> a; symplectic_rkn_sb3a_mclachlan<vec> b;
    Coef c = m4_c(), d = m6_c();
    double sa = 0, sb = 0;
    for (int i = 0; i < c.s; ++i) { vp_near(a.coef_a()[i], c.a[i], 1e-14, "order 4 drift coefficients"); vp_near(a.coef_b()[i], c.b[i], 1e-14, "order 4 kick coefficients"); sa += a.coef_a()[i]; sb += a.coef_b()[i]; }
    vp_near(sa, 1, 1e-14, "order 4 drifts add up to one step"); vp_near(sb, 1, 1e-14, "order 4 kicks add up to one step");
    sa = sb = 0;
    for (int i = 0; i < d.s; ++i) { vp_near(b.coef_a()[i], d.a[i], 1e-14, "order 6 drift coefficients"); vp_near(b.coef_b()[i], d.b[i], 1e-14, "order 6 kick coefficients"); sa += b.coef_a()[i]; sb += b.coef_b()[i]; }
    vp_near(sa, 1, 1e-14, "order 6 drifts add up to one step"); vp_near(sb, 1, 1e-14, "order 6 kicks add up to one step");
    symplectic_euler<vec> e;
    vp_assert(a.order() == 4 && b.order() == 4 && e.order() == 1, "orders");
}
struct Acc { template<class Q, class Pm, class A> void operator()(const Q &q, const Pm &p, A &a, double t) const
{ double in[8]; std::size_t k = q.size(); for (std::size_t i = 0; i < k; ++i) { in[i] = q[i]; in[k + i] = p[i]; } vp_sys(3, in, 2 * k, t, &a[0], k, BK); } };
// force without velocity dependence, for reversibility
struct Force { template<class Q, class Pm, class A> void operator()(const Q &q, const Pm &, A &a, double) const { vp_sys(4, &q[0], q.size(), 0, &a[0], q.size(), BK); } };
template<class S>
static void verlet(std::size_t n)
{
    vec q0 = symvec(n), p0 = symvec(n);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    velocity_verlet<S> st;
    S q = Mk<S>::make(q0), p = Mk<S>::make(p0), a(q), b(q);
    std::pair<S, S> x(q, p);
    Acc f;
    for (int k = 0; k < 2; ++k) {
        f(q, p, a, t);
        if (k) a = b;  // velocity-dependent forces are evaluated with the old velocity
        S qn(q);
        for (std::size_t i = 0; i < n; ++i) qn[i] = q[i] + dt * p[i] + dt * dt / 2 * a[i];
        f(qn, p, b, t + dt);
        for (std::size_t i = 0; i < n; ++i) p[i] += dt / 2 * (a[i] + b[i]);
        q = qn;
        st.do_step(f, x, t, dt);
        near_all(x.first, q, "Verlet coordinates");
        near_all(x.second, p, "Verlet velocities");
        t += dt;
    }
    velocity_verlet<S> r;
    Force g;
    std::pair<S, S> w(Mk<S>::make(q0), Mk<S>::make(p0));
    r.do_step(g, w, t, dt);
    r.do_step(g, w, t + dt, -dt);
    near_all(w.first, Mk<S>::make(q0), "a Verlet step back returns the coordinates");
    near_all(w.second, Mk<S>::make(p0), "a Verlet step back returns the velocities");
}
VP_ENTRY(verlet_vec) { verlet<vec>(1 + vp_choose(2)); }
VP_ENTRY(verlet_arr) { verlet<arr2>(2); }
