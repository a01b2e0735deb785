// C04: the derivative a stateful stepper keeps is never stale
#include "rk_common.hpp"
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>

// step of tableau T with the first stage derivative given
static void rk_k1(const Tab &T, const vec &x, const vec &k1, double t, double dt, vec &out, vec &err, vec &klast)
{
    const int s = T.s;
    const std::size_t n = x.size();
    Rhs<> f;
    std::vector<vec> k(s, vec(n));
    k[0] = k1;
    for (int i = 1; i < s; ++i) {
        vec y(n);
        for (std::size_t j = 0; j < n; ++j) {
            double sum = 0;
            for (int l = 0; l < i; ++l) sum += T.a[i * s + l] * k[l][j];
            y[j] = x[j] + dt * sum;
        }
        f(y, k[i], t + T.c[i] * dt);
    }
    out.assign(n, 0); err.assign(n, 0);
    for (std::size_t j = 0; j < n; ++j) {
        double sum = 0, es = 0;
        for (int l = 0; l < s; ++l) { sum += T.b[l] * k[l][j]; es += T.db[l] * k[l][j]; }
        out[j] = x[j] + dt * sum; err[j] = dt * es;
    }
    klast = k[s - 1];
}
template<class St>
static void fsal(int len)
{
    St st;
    vec x = symvec(1), cached(1);
    bool has = false;
    double t = vp_real(-2, 2);
    int n = 0;
    CountRhs<> f(n);
    for (int i = 0; i < len; ++i) {
        double dt = vp_real(-1, 1);
        vec o(1), e(1), ro, re, rl, k1(1), d(1), dn(1);
        unsigned op = vp_choose(11);
        vp_assert(st.is_initialized() == has, "is_initialized tells whether a derivative is kept");
        if (op == 0) { st.reset(); has = false; continue; }
        if (op == 1) { d[0] = vp_real(-BK, BK); st.initialize(d); cached = d; has = true; continue; }
        if (op == 2) { n = 0; st.initialize(f, x, t); vp_assert(n == 1, "initialize evaluates once"); f(x, cached, t); has = true; continue; }
        bool given = op >= 7;
        if (given) { d[0] = vp_real(-BK, BK); k1 = d; }
        else if (has) k1 = cached;
        else f(x, k1, t);
        rk_k1(tabs::dp5, x, k1, t, dt, ro, re, rl);
        n = 0;
        vec in(x);
        switch (op) {
        case 3: st.do_step(f, x, t, dt); break;
        case 4: st.do_step(f, in, t, o, dt); x = o; break;
        case 5: st.do_step(f, x, t, dt, e); break;
        case 6: st.do_step(f, in, t, o, dt, e); x = o; break;
        case 7: st.do_step(f, x, d, t, dt); dn = d; break;
        case 8: st.do_step(f, in, d, t, o, dn, dt, e); x = o; break;
        case 9: st.do_step(f, x, d, t, dt, e); dn = d; break;
        default: st.do_step(f, in, d, t, o, dn, dt); x = o;
        }
        vp_assert(n == (given || has ? 6 : 7), "one evaluation less when a derivative is kept or given");
        near_all(x, ro, "the step uses the kept / given / recomputed derivative");
        if (op == 5 || op == 6 || op == 8 || op == 9) near_all(e, re, "so does the error estimate");
        if (given) { near_all(dn, rl, "the new derivative is handed on"); has = false; }
        else { cached = rl; has = true; }
        t += dt;
    }
    vp_assert(st.is_initialized() == has, "is_initialized tells whether a derivative is kept");
}
VP_ENTRY(dopri5) { fsal<runge_kutta_dopri5<vec> >(3); }
VP_ENTRY(thorough_dopri5) { fsal<runge_kutta_dopri5<vec> >(4); }
VP_ENTRY(dopri5_always) { fsal<runge_kutta_dopri5<vec, double, vec, double, range_algebra, default_operations, always_resizer> >(2); }
// resizing by hand or automatically discards the kept derivative
template<class St>
static void resized(bool manual)
{
    St st;
    Rhs<> f;
    vec a = symvec(1), b = symvec(2), d(2), k1(2), ro, re, rl;
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    if (manual) st.adjust_size(a);
    st.do_step(f, a, t, dt);
    if (manual) st.adjust_size(b);
    f(b, k1, t);
    rk_k1(tabs::dp5, b, k1, t, dt, ro, re, rl);
    st.do_step(f, b, t, dt);
    near_all(b, ro, "after a change of size the derivative is recomputed");
}
VP_ENTRY(resized_manual) { resized<runge_kutta_dopri5<vec, double, vec, double, range_algebra, default_operations, never_resizer> >(true); }
VP_ENTRY(resized_adjust) { resized<runge_kutta_dopri5<vec> >(true); }
VP_ENTRY(resized_always) { resized<runge_kutta_dopri5<vec, double, vec, double, range_algebra, default_operations, always_resizer> >(false); }
// velocity Verlet keeps the acceleration
struct AccN { int *n; AccN(int &m) : n(&m) {} template<class Q, class Pm, class A> void operator()(const Q &q, const Pm &p, A &a, double t) const
{ ++*n; double in[4]; std::size_t k = q.size(); for (std::size_t i = 0; i < k; ++i) { in[i] = q[i]; in[k + i] = p[i]; } vp_sys(3, in, 2 * k, t, &a[0], k, BK); } };
template<class St>
static void verlet(int len)
{
    St st;
    std::pair<vec, vec> x(symvec(1), symvec(1));
    bool has = false;
    vec cached(1);
    double t = vp_real(-2, 2);
    int n = 0;
    AccN f(n);
    for (int i = 0; i < len; ++i) {
        double dt = vp_real(-1, 1);
        vp_assert(st.is_initialized() == has, "is_initialized tells whether an acceleration is kept");
        unsigned op = vp_choose(5);
        if (op == 0) { st.reset(); has = false; continue; }
        if (op == 1) { vec d(1); d[0] = vp_real(-BK, BK); st.initialize(d); cached = d; has = true; continue; }
        if (op == 2) { n = 0; st.initialize(f, x.first, x.second, t); vp_assert(n == 1, "initialize evaluates once"); f(x.first, x.second, cached, t); has = true; continue; }
        vec a0(cached);
        if (!has) f(x.first, x.second, a0, t);
        double q = x.first[0], p = x.second[0];
        vec qn(1), an(1), pv(1, p);
        qn[0] = q + dt * p + 0.5 * dt * dt * a0[0];
        f(qn, pv, an, t + dt);
        double pn = p + 0.5 * dt * (a0[0] + an[0]);
        n = 0;
        if (op == 3) st.do_step(f, x, t, dt);
        else st.do_step(f, std::make_pair(boost::ref(x.first), boost::ref(x.second)), t, dt);
        vp_assert(n == (has ? 1 : 2), "one evaluation less when an acceleration is kept");
        vp_near(x.first[0], qn[0], TOL, "the step uses the kept / given / recomputed acceleration");
        vp_near(x.second[0], pn, TOL, "so does the velocity update");
        cached = an; has = true;
        t += dt;
    }
    vp_assert(st.is_initialized() == has, "is_initialized tells whether an acceleration is kept");
}
VP_ENTRY(verlet) { verlet<velocity_verlet<vec> >(4); }
VP_ENTRY(thorough_verlet) { verlet<velocity_verlet<vec> >(5); }
template<class St>
static void verlet_resized(bool manual)
{
    St st;
    int n = 0;
    AccN f(n);
    std::pair<vec, vec> a(symvec(1), symvec(1)), b(symvec(2), symvec(2));
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    if (manual) st.adjust_size(a.first);
    st.do_step(f, a, t, dt);
    if (manual) st.adjust_size(b.first);
    vec k(2);
    f(b.first, b.second, k, t);
    vec q(b.first);
    for (int i = 0; i < 2; ++i) q[i] += dt * b.second[i] + 0.5 * dt * dt * k[i];
    st.do_step(f, b, t, dt);
    near_all(b.first, q, "after a change of size the acceleration is recomputed");
}
VP_ENTRY(verlet_resized_manual) { verlet_resized<velocity_verlet<vec, vec, double, vec, double, double, range_algebra, default_operations, never_resizer> >(true); }
VP_ENTRY(verlet_resized_adjust) { verlet_resized<velocity_verlet<vec> >(true); }
VP_ENTRY(verlet_resized_always) { verlet_resized<velocity_verlet<vec, vec, double, vec, double, double, range_algebra, default_operations, always_resizer> >(false); }
