// C12: dense output
#include "ros_ref.hpp"
#include "extrap_ref.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;

// ---- Dormand-Prince 5 with a scheduled controller -----------------------------------------
struct Plan { int rejects; int attempts; double seen_dt; };
static Plan plan;
// the same interpolation written into a range
template<class D, class S> static void into_range(D &, double, const S &) {}
template<class D> static void into_range(D &d, double t, const vec &y)
{
    vec z(y.size() + 2, 0.25);
    d.calc_state(t, std::make_pair(z.begin() + 1, z.end() - 1));
    for (std::size_t i = 0; i < y.size(); ++i) vp_near(z[i + 1], y[i], 1e-12, "interpolation into a range = interpolation into a state");
    vp_assert(z.front() == 0.25 && z.back() == 0.25, "interpolation into a range stays in the range");
}
struct Checker {
    template<class Alg, class X, class D, class E, class T>
    double error(Alg &, const X &, const D &, E &, T dt) const { ++plan.attempts; plan.seen_dt = dt; return plan.rejects-- > 0 ? 4.0 : 0.25; }
};
struct Adjuster {
    double decrease_step(double dt, double, int) const { return 0.5 * dt; }
    double increase_step(double dt, double, int) const { return 1.5 * dt; }
    bool check_step_size_limit(double) { return true; }
    double get_max_dt() { return 0; }
};
// weights of the continuous extension (Hairer, Norsett, Wanner, Solving ODEs I, II.6)
static vec dp5_interp(const vec &x, const std::vector<vec> &k, double dt, double h)
{
    double q = h * h * (h - 1) * (h - 1), a = h * h * (3 - 2 * h), b[7];
    b[0] = a * (35. / 384) + h * (h - 1) * (h - 1) - q * 5 * (2558722523. - 31403016. * h) / 11282082432.;
    b[1] = 0;
    b[2] = a * (500. / 1113) + q * 100 * (882725551. - 15701508. * h) / 32700410799.;
    b[3] = a * (125. / 192) - q * 25 * (443332067. - 31403016. * h) / 1880347072.;
    b[4] = a * (-2187. / 6784) + q * 32805 * (23143187. - 3489224. * h) / 199316789632.;
    b[5] = a * (11. / 84) - q * 55 * (29972135. - 7076736. * h) / 822651844.;
    b[6] = h * h * (h - 1) + q * 10 * (7414447. - 829305. * h) / 29380423.;
    vec r(x);
    for (std::size_t i = 0; i < x.size(); ++i) { double s = 0; for (int l = 0; l < 7; ++l) s += b[l] * k[l][i]; r[i] = x[i] + dt * s; }
    return r;
}
template<class F>
static std::vector<vec> dp5_stages(F f, const vec &x, double t, double dt)
{
    const Tab &T = tabs::dp5;
    std::vector<vec> k(7, vec(x.size()));
    for (int i = 0; i < 7; ++i) {
        vec y(x);
        for (std::size_t j = 0; j < x.size(); ++j) { double s = 0; for (int l = 0; l < i; ++l) s += T.a[i * 7 + l] * k[l][j]; y[j] = x[j] + dt * s; }
        f(y, k[i], t + T.c[i] * dt);
    }
    return k;
}
template<class S>
void dopri5_history(std::size_t n, int ops, double dt0, int maxrej)
{
    typedef runge_kutta_dopri5<S> St;
    typedef controlled_runge_kutta<St, Checker, Adjuster> C;
    dense_output_runge_kutta<C> d = dense_output_runge_kutta<C>(C(Checker(), Adjuster(), St()));
    Rhs<> f;
    double t = vp_real(-2, 2), dt = dt0;
    vec x = symvec(n);
    d.initialize(Mk<S>::make(x), t, dt);
    for (int o = 0; o < ops; ++o) {
        near_all(d.current_state(), x, "current state before the step");
        vp_near(d.current_time(), t, 1e-12, "current time before the step");
        if (o > 0 && vp_choose(2)) {                          // start again from elsewhere
            x = symvec(n);
            t = vp_real(-2, 2);
            dt = -dt0;
            d.initialize(Mk<S>::make(x), t, dt);
            near_all(d.current_state(), x, "initialised state");
            vp_near(d.current_time(), t, 0, "initialised time");
            vp_assert(d.current_time_step() == dt, "initialised step size");
        }
        vp_assert(d.current_time_step() == dt, "the step size reported is the next one tried");
        plan.rejects = vp_choose(maxrej + 1);
        plan.attempts = 0;
        const int rej = plan.rejects;
        std::pair<double, double> iv = d.do_step(f);
        vp_assert(plan.attempts == rej + 1, "attempts are repeated until accepted, and not after");
        for (int i = 0; i < rej; ++i) dt *= 0.5;
        std::vector<vec> k = dp5_stages(f, x, t, dt);
        RkRef ref = rk_ref(tabs::dp5, f, x, t, dt);
        near_all(d.previous_state(), x, "previous state = former current state");
        near_all(d.current_state(), ref.out, "current state = underlying step");
        vp_near(d.previous_time(), t, 0, "previous time = former current time");
        vp_near(d.current_time(), t + dt, 1e-12, "current time advanced by the accepted step");
        vp_near(iv.first, d.previous_time(), 0, "interval start returned");
        vp_near(iv.second, d.current_time(), 0, "interval end returned");
        S y = Mk<S>::make(x);
        d.calc_state(t, y);
        near_all(y, x, "interpolation at the previous time");
        d.calc_state(d.current_time(), y);
        near_all(y, ref.out, "interpolation at the current time");
        double h = vp_real(0, 1);
        d.calc_state(t + h * dt, y);
        near_all(y, dp5_interp(x, k, dt, h), "interpolation inside = published continuous extension");
        into_range(d, t + h * dt, y);
        x = ref.out;
        t = t + dt;
        dt *= 1.5;
    }
}
VP_ENTRY(dp5_one) { dopri5_history<vec>(1, 1, 0.5, 2); }
VP_ENTRY(dp5_two) { dopri5_history<vec>(1, 2, 0.5, 1); }
VP_ENTRY(dp5_two_back) { dopri5_history<vec>(1, 2, -0.5, 1); }
VP_ENTRY(dp5_three) { dopri5_history<vec>(1, 3, 0.25, 1); }
VP_ENTRY(dp5_2d) { dopri5_history<vec>(2, 1, 0.5, 1); }
VP_ENTRY(dp5_array) { dopri5_history<arr2>(2, 1, -0.5, 1); }
VP_ENTRY(thorough_dp5_four) { dopri5_history<vec>(1, 4, 0.25, 1); }
VP_ENTRY(thorough_dp5_2d_two) { dopri5_history<vec>(2, 2, 0.25, 1); }
// order: exact for solutions that are polynomials up to degree four; continuous derivative at the ends
struct CubicSys { double c[4]; void operator()(const vec &, vec &d, double t) const { d[0] = c[0] + t * (c[1] + t * (c[2] + t * c[3])); }
    double sol(double x0, double t0, double t) const { double s = x0; for (int i = 0; i < 4; ++i) s += c[i] / (i + 1) * (std::pow(t, i + 1) - std::pow(t0, i + 1)); return s; } };
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
VP_ENTRY(dp5_order)
{
    typedef controlled_runge_kutta<runge_kutta_dopri5<vec>, Checker, Adjuster> C;
    dense_output_runge_kutta<C> d;
    CubicSys f;
    for (int i = 0; i < 4; ++i) f.c[i] = vp_real(-1, 1);
    double t = vp_real(-1, 1), dt = vp_choose(2) ? 0.5 : -0.5;
    vec x = symvec(1), y(1);
    d.initialize(x, t, dt);
    plan.rejects = 0;
    d.do_step(f);
    double h = vp_real(0, 1), s = t + h * dt;
    d.calc_state(s, y);
    double e = x[0];
    for (int i = 0; i < 4; ++i) e += f.c[i] / (i + 1) * (ipow(s, i + 1) - ipow(t, i + 1));
    vp_near(y[0], e, TOL, "interpolation is exact for quartic solutions");
}
// ---- Euler -------------------------------------------------------------------------------
template<class S>
void euler_history(std::size_t n, int ops)
{
    dense_output_runge_kutta<euler<S> > d;
    Rhs<> f;
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    vec x = symvec(n);
    d.initialize(Mk<S>::make(x), t, dt);
    for (int o = 0; o < ops; ++o) {
        if (o > 0 && vp_choose(2)) {
            x = symvec(n); t = vp_real(-2, 2); dt = vp_real(-1, 1);
            d.initialize(Mk<S>::make(x), t, dt);
        }
        near_all(d.current_state(), x, "Euler: current state before the step");
        vp_near(d.current_time(), t, 1e-12, "Euler: current time before the step");
        vp_assert(d.current_time_step() == dt, "Euler: step size reported");
        std::pair<double, double> iv = d.do_step(f);
        vec k(n), out(x);
        f(x, k, t);
        for (std::size_t i = 0; i < n; ++i) out[i] = x[i] + dt * k[i];
        near_all(d.previous_state(), x, "Euler: previous state");
        near_all(d.current_state(), out, "Euler: current state");
        vp_near(d.previous_time(), t, 0, "Euler: previous time");
        vp_near(d.current_time(), t + dt, 1e-12, "Euler: current time");
        vp_near(iv.first, t, 0, "Euler: interval start");
        vp_near(iv.second, t + dt, 1e-12, "Euler: interval end");
        double h = vp_real(0, 1);
        S y = Mk<S>::make(x);
        d.calc_state(t, y);
        near_all(y, x, "Euler: interpolation at the previous time");
        d.calc_state(t + dt, y);
        near_all(y, out, "Euler: interpolation at the current time");
        d.calc_state(t + h * dt, y);
        for (std::size_t i = 0; i < n; ++i) vp_near(y[i], x[i] + h * dt * k[i], TOL, "Euler: linear interpolation");
        into_range(d, t + h * dt, y);
        x = out;
        t = t + dt;
    }
}
VP_ENTRY(euler) { euler_history<vec>(1, 3); }
VP_ENTRY(euler_2d) { euler_history<vec>(2, 2); }
VP_ENTRY(euler_array) { euler_history<arr2>(2, 2); }
// ---- Rosenbrock --------------------------------------------------------------------------
template<class Sys>
static void ros_dense(Sys f, const double *m, std::size_t n, int steps, double dt0, bool limit)
{
    typedef rosenbrock4_controller<rosenbrock4<double> > C;
    rosenbrock4_dense_output<C> d(C(1e9, 0, dt0));          // always accepted, the step size stays at its limit
    Jac jac(m);
    uvec x = usym(n);
    double t = vp_real(-2, 2);
    d.initialize(x, t, limit ? 2 * dt0 : dt0);              // beyond the limit: cut first
    for (int s = 0; s < steps; ++s) {
        if (s > 0 && vp_choose(2)) { x = usym(n); t = vp_real(-2, 2); d.initialize(x, t, dt0); }
        near_all(d.current_state(), x, "Rosenbrock: current state before the step");
        std::pair<double, double> iv = d.do_step(std::make_pair(f, jac));
        uvec o(n), e(n), c3(n), c4(n), y(n);
        ros_ref(x, t, dt0, jac, o, e, c3, c4, f);
        near_all(d.previous_state(), x, "Rosenbrock: previous state");
        near_all(d.current_state(), o, "Rosenbrock: current state");
        vp_near(d.previous_time(), t, 0, "Rosenbrock: previous time");
        vp_near(d.current_time(), t + dt0, 1e-12, "Rosenbrock: current time");
        vp_near(iv.first, t, 0, "Rosenbrock: interval start");
        vp_near(iv.second, t + dt0, 1e-12, "Rosenbrock: interval end");
        if (n == 1) vp_near(d.current_time_step(), dt0, 1e-12, "Rosenbrock: next step size");
        d.calc_state(t, y);
        near_all(y, x, "Rosenbrock: interpolation at the previous time");
        d.calc_state(t + dt0, y);
        near_all(y, o, "Rosenbrock: interpolation at the current time");
        double h = vp_real(0, 1);
        d.calc_state(t + h * dt0, y);
        for (std::size_t i = 0; i < n; ++i)
            vp_near(y[i], (1 - h) * x[i] + h * (o[i] + (1 - h) * (c3[i] + h * c4[i])), 1e-7, "Rosenbrock: published interpolant");
        x = o;
        t += dt0;
    }
}
static const double one_mat[4] = {-1, 0, 0, 0};
VP_ENTRY(ros) { ros_dense(RF(), one_mat, 1, 1, 0.25, true); }
VP_ENTRY(ros_back) { ros_dense(RF(), one_mat, 1, 1, -0.25, true); }
VP_ENTRY(ros_two) { ros_dense(RF(), one_mat, 1, 2, 0.25, false); }
VP_ENTRY(ros_2d) { LinF f = {mats[0]}; ros_dense(f, mats[0], 2, 1, 0.125, false); }
VP_ENTRY(thorough_ros_three) { ros_dense(RF(), one_mat, 1, 3, -0.25, false); }

// ---- Bulirsch-Stoer: substeps 2, 6, 10, ...; exact for polynomials -------------------------
static vec lagr(const std::vector<vec> &T, int lo, int hi)
{
    vec r(T[lo].size(), 0.0);
    for (int i = lo; i <= hi; ++i) {
        double w = 1, ni = 2 + 4 * i;
        for (int j = lo; j <= hi; ++j) { double nj = 2 + 4 * j; if (j != i) w *= ni * ni / (ni * ni - nj * nj); }
        for (std::size_t c = 0; c < r.size(); ++c) r[c] += w * T[i][c];
    }
    return r;
}
// midpoint rule up to the centre of the step
template<class F>
static vec centre_ref(F f, const vec &x, const vec &d0, double t, double dt, int n)
{
    double h = dt / n;
    vec a(x), b(x), d(d0);
    for (std::size_t i = 0; i < x.size(); ++i) b[i] = x[i] + h * d0[i];
    for (int k = 2; k <= n / 2; ++k) {
        vec c(x);
        f(b, d, t + (k - 1) * h);
        for (std::size_t i = 0; i < x.size(); ++i) c[i] = a[i] + 2 * h * d[i];
        a = b; b = c;
    }
    return b;
}
struct Counting { int *n; void operator()(const vec &x, vec &d, double t) const { ++*n; vp_sys(0, &x[0], x.size(), t, &d[0], x.size(), BK); } };
// arbitrary right-hand side: ends and centre
static void bsd_any(double dt0, int steps)
{
    bulirsch_stoer_dense_out<vec> d(1e5, 0.0, 1.0, 1.0, dt0);
    int calls = 0;
    Counting f = {&calls};
    Rhs<> g;
    vec x = symvec(1);
    double t = vp_real(-2, 2);
    d.initialize(x, t, dt0);
    for (int s = 0; s < steps; ++s) {
        if (s > 0 && vp_choose(2)) { x = symvec(1); t = vp_real(-2, 2); d.initialize(x, t, dt0); }
        near_all(d.current_state(), x, "Bulirsch-Stoer: current state before the step");
        std::pair<double, double> iv = d.do_step(f);
        vec k(1), y(1);
        g(x, k, t);
        std::vector<vec> T, M;
        for (int i = 0; i <= 1; ++i) { T.push_back(midpoint_ref(g, x, k, t, dt0, 2 + 4 * i)); M.push_back(centre_ref(g, x, k, t, dt0, 2 + 4 * i)); }
        vec out = lagr(T, 0, 1), mid = lagr(M, 0, 1);
        near_all(d.previous_state(), x, "Bulirsch-Stoer: previous state");
        near_all(d.current_state(), out, "Bulirsch-Stoer: current state");
        vp_near(d.previous_time(), t, 0, "Bulirsch-Stoer: previous time");
        vp_near(d.current_time(), t + dt0, 1e-12, "Bulirsch-Stoer: current time");
        vp_near(iv.first, t, 0, "Bulirsch-Stoer: interval start");
        vp_near(iv.second, t + dt0, 1e-12, "Bulirsch-Stoer: interval end");
        vp_near(d.current_time_step(), dt0, 1e-12, "Bulirsch-Stoer: next step size is the limit");
        d.calc_state(t + 0.5 * dt0, y);
        near_all(y, mid, "Bulirsch-Stoer: interpolation at the centre = extrapolated midpoint value");
        x = out;
        t += dt0;
    }
}
VP_ENTRY(bsd_any) { bsd_any(0.5, 1); }
VP_ENTRY(bsd_any_back) { bsd_any(-0.5, 1); }
VP_ENTRY(bsd_any_two) { bsd_any(0.5, 2); }
struct Poly {
    int deg;
    double c[12];
    int *n;
    void operator()(const vec &, vec &d, double t) const { if (n) ++*n; double s = 0; for (int i = deg; i >= 0; --i) s = c[i] + t * s; d[0] = s; }
    double sol(double x0, double t0, double t) const { double s = x0; for (int i = 0; i <= deg; ++i) s += c[i] / (i + 1) * (ipow(t, i + 1) - ipow(t0, i + 1)); return s; }
};
// the column k reached is known from the number of calls; the step is exact up to degree 2k+1, the interpolation up to 2k
static void bsd_poly(bulirsch_stoer_dense_out<vec> &d, int deg, double dt0, int k0)
{
    int calls = 0;
    Poly f;
    f.deg = deg; f.n = &calls;
    for (int i = 0; i <= deg; ++i) f.c[i] = i == deg ? vp_real(0.5, 1) : i == 0 || i == deg / 2 ? vp_real(-1, 1) : 0;
    const double t = -0.5 * dt0;
    vec x = symvec(1), y(1);
    d.initialize(x, t, dt0);
    d.do_step(f);
    vp_near(d.current_time(), t + dt0, 1e-12, "Bulirsch-Stoer: polynomial step accepted at once");
    int k = -1, left = calls - 2;
    while (left > 0) left -= 2 + 4 * ++k;
    vp_assert(left == 0 && k >= 1, "Bulirsch-Stoer: whole columns are computed");
    if (deg <= 2 * k + 1) vp_near(d.current_state()[0], f.sol(x[0], t, t + dt0), TOL, "Bulirsch-Stoer: polynomial solved exactly");
    if (deg > 2 * k) return;
    double h = vp_real(0, 1);
    d.calc_state(t + h * dt0, y);
    vp_near(y[0], f.sol(x[0], t, t + h * dt0), TOL, "Bulirsch-Stoer: interpolation is exact for polynomials");
    if (k == k0) vp_log(k);
}
template<int D> static void bsd_deg(double dt0, double tol) { bulirsch_stoer_dense_out<vec> d(tol, 0.0, 1.0, 1.0, dt0); bsd_poly(d, D, dt0, (D + 1) / 2); }
VP_ENTRY(bsd_poly1) { bsd_deg<1>(0.5, 1e-3); }
VP_ENTRY(bsd_poly2) { bsd_deg<2>(-0.5, 1e-3); }
VP_ENTRY(bsd_poly3) { bsd_deg<3>(-1, 1e-3); }
VP_ENTRY(bsd_poly4) { bsd_deg<4>(1.0, 1e-3); }
VP_ENTRY(bsd_poly5) { bsd_deg<5>(1.0, 1e-4); }
VP_ENTRY(bsd_poly6) { bsd_deg<6>(-1.0, 1e-4); }
VP_ENTRY(bsd_poly8) { bsd_deg<8>(2.0, 1e-4); }
// a stepper used before and initialised again behaves like a fresh one, also after steps that raised the order
VP_ENTRY(bsd_again)
{
    const double c0 = vp_real(9, 11);
    bulirsch_stoer_dense_out<vec> d(1e-9, 0.0, 1.0, 0.0), fresh(d);
    Poly f;
    f.n = 0;
    for (int i = 0; i < 12; ++i) f.c[i] = 0;
    vec x(1, 0.0);
    f.deg = 8; f.c[8] = c0;
    d.initialize(x, 0.0, 1.0);
    d.do_step(f);
    int n1 = 0, n2 = 0;
    x = symvec(1);
    f.deg = 10; f.c[8] = 0; f.c[10] = 100.0;
    d.initialize(x, 0.0, 1.0);
    fresh.initialize(x, 0.0, 1.0);
    f.n = &n1; d.do_step(f);
    f.n = &n2; fresh.do_step(f);
    vp_assert(n1 == n2, "Bulirsch-Stoer: same work after initialising again");
    vp_near(d.current_time(), fresh.current_time(), 1e-12, "Bulirsch-Stoer: same step after initialising again");
    vp_near(d.current_time_step(), fresh.current_time_step(), 1e-12, "Bulirsch-Stoer: same proposal after initialising again");
    near_all(d.current_state(), fresh.current_state(), "Bulirsch-Stoer: same state after initialising again");
}
