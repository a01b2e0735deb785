// C27: states and times with physical units give the numbers of the same computation without units
#include "common.hpp"
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/units/systems/si/acceleration.hpp>
#include <boost/units/systems/si/momentum.hpp>
#include <boost/units/systems/si/force.hpp>
#include <boost/units/systems/si/mass.hpp>
#include <boost/units/quantity.hpp>
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/sequence/intrinsic/at_c.hpp>
#include <boost/numeric/odeint/util/unit_helper.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
using namespace boost::numeric::odeint;
namespace units = boost::units;
namespace si = boost::units::si;
namespace fusion = boost::fusion;
typedef units::quantity<si::time, double> utime;
typedef units::quantity<si::length, double> ulen;
typedef units::quantity<si::velocity, double> uvel;
typedef units::quantity<si::acceleration, double> uacc;
typedef fusion::vector<ulen, uvel> ust;
typedef fusion::vector<uvel, uacc> uder;
typedef arr2 pst;

static ust with(const pst &x) { return ust(ulen::from_value(x[0]), uvel::from_value(x[1])); }
static pst plain(const ust &x) { pst r; r[0] = fusion::at_c<0>(x).value(); r[1] = fusion::at_c<1>(x).value(); return r; }
static uder dwith(const pst &x) { return uder(uvel::from_value(x[0]), uacc::from_value(x[1])); }
static utime sec(double t) { return utime::from_value(t); }
static void same(const ust &a, const pst &b, const char *m) { const pst p = plain(a); for (int i = 0; i < 2; ++i) vp_near(p[i], b[i], TOL, m); }
struct URhs {
    void operator()(const ust &x, uder &d, utime t) const
    {
        const pst v = plain(x);
        pst r;
        vp_sys(0, &v[0], 2, t.value(), &r[0], 2, BK);
        d = dwith(r);
    }
};
static pst sym2() { pst x; for (int i = 0; i < 2; ++i) x[i] = vp_real(-BX, BX); return x; }

template<class U, class P> void step_forms()
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(-0.5, 0.5);
    vp_assume(dt != 0);
    U u;
    P p;
    pst x = x0, y = x0, dx;
    ust a = with(x0), b = with(x0);
    uder da;
    p.do_step(Rhs<0>(), x, t, dt);
    u.do_step(URhs(), a, sec(t), sec(dt));
    same(a, x, "step in place");
    p.do_step(Rhs<0>(), x, t + dt, y, dt);
    u.do_step(URhs(), a, sec(t + dt), b, sec(dt));
    same(b, y, "step into another state");
    Rhs<0>()(y, dx, t);
    p.do_step(Rhs<0>(), y, dx, t, dt);
    URhs()(b, da, sec(t));
    u.do_step(URhs(), b, da, sec(t), sec(dt));
    same(b, y, "step with the derivative given");
}
#define UN ust, double, uder, utime
VP_ENTRY(euler) { step_forms<euler<UN>, euler<pst> >(); }
VP_ENTRY(rk4) { step_forms<runge_kutta4<UN>, runge_kutta4<pst> >(); }
VP_ENTRY(rk4_classic) { step_forms<runge_kutta4_classic<UN>, runge_kutta4_classic<pst> >(); }
VP_ENTRY(ck54) { step_forms<runge_kutta_cash_karp54<UN>, runge_kutta_cash_karp54<pst> >(); }
VP_ENTRY(ck54_classic) { step_forms<runge_kutta_cash_karp54_classic<UN>, runge_kutta_cash_karp54_classic<pst> >(); }
VP_ENTRY(dopri5) { step_forms<runge_kutta_dopri5<UN>, runge_kutta_dopri5<pst> >(); }

template<class U, class P> void error_forms()
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(0.0625, 0.5);
    U u;
    P p;
    pst x = x0, e;
    ust a = with(x0), f;
    for (int i = 0; i < 2; ++i) {
        p.do_step(Rhs<0>(), x, t + i * dt, dt, e);
        u.do_step(URhs(), a, sec(t + i * dt), sec(dt), f);
        same(a, x, "step with error");
        same(f, e, "error estimate");
    }
}
VP_ENTRY(err_ck54) { error_forms<runge_kutta_cash_karp54<UN>, runge_kutta_cash_karp54<pst> >(); }
VP_ENTRY(err_ck54_classic) { error_forms<runge_kutta_cash_karp54_classic<UN>, runge_kutta_cash_karp54_classic<pst> >(); }
VP_ENTRY(err_dopri5) { error_forms<runge_kutta_dopri5<UN>, runge_kutta_dopri5<pst> >(); }

template<class U, class P> void tries(U u, P p, double dt0)
{
    const pst x0 = sym2();
    double t = vp_real(-1, 1), dt = dt0;
    utime ut = sec(t), ud = sec(dt);
    pst x = x0;
    ust a = with(x0);
    const controlled_step_result r = p.try_step(Rhs<0>(), x, t, dt), s = u.try_step(URhs(), a, ut, ud);
    vp_assert(r == s, "accepted and rejected alike");
    vp_near(ut.value(), t, 1e-9, "time");
    vp_near(ud.value(), dt, 1e-9, "step size");
    same(a, x, "state");
}
template<class U, class P> void control(double dt, double max_dt = 0)
{
    typedef controlled_runge_kutta<U> CU;
    typedef controlled_runge_kutta<P> CP;
    typedef typename CU::error_checker_type EU;
    typedef typename CU::step_adjuster_type AU;
    typedef typename CP::error_checker_type EP;
    typedef typename CP::step_adjuster_type AP;
    tries(CU(EU(1e-2, 1e-2), AU(sec(max_dt))), CP(EP(1e-2, 1e-2), AP(max_dt)), dt);
}
VP_ENTRY(control_ck54_classic) { control<runge_kutta_cash_karp54_classic<UN>, runge_kutta_cash_karp54_classic<pst> >(0.25); }
VP_ENTRY(control_dopri5) { control<runge_kutta_dopri5<UN>, runge_kutta_dopri5<pst> >(0.25); }
VP_ENTRY(control_dopri5_back) { control<runge_kutta_dopri5<UN>, runge_kutta_dopri5<pst> >(-0.25); }
VP_ENTRY(control_dopri5_max) { control<runge_kutta_dopri5<UN>, runge_kutta_dopri5<pst> >(0.25, 0.375); }

VP_ENTRY(bulirsch_stoer) { tries(bulirsch_stoer<UN>(1e3, 1e3), bulirsch_stoer<pst>(1e3, 1e3), 0.25); }
template<class U, class P> void dense(U u, P p)
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = 0.25;
    u.initialize(with(x0), sec(t), sec(dt));
    p.initialize(x0, t, dt);
    for (int i = 0; i < 2; ++i) {
        const std::pair<double, double> a = p.do_step(Rhs<0>());
        const std::pair<utime, utime> b = u.do_step(URhs());
        vp_near(b.first.value(), a.first, 1e-9, "step begin");
        vp_near(b.second.value(), a.second, 1e-9, "step end");
    }
    vp_near(u.current_time().value(), p.current_time(), 1e-9, "current time");
    vp_near(u.previous_time().value(), p.previous_time(), 1e-9, "previous time");
    vp_near(u.current_time_step().value(), p.current_time_step(), 1e-9, "time step");
    same(u.current_state(), p.current_state(), "current state");
    same(u.previous_state(), p.previous_state(), "previous state");
    const double s = p.previous_time() + 0.375 * (p.current_time() - p.previous_time());
    pst x;
    ust a;
    p.calc_state(s, x);
    u.calc_state(sec(s), a);
    same(a, x, "interpolated state");
}
VP_ENTRY(dense_euler) { dense(dense_output_runge_kutta<euler<UN> >(), dense_output_runge_kutta<euler<pst> >()); }

template<class U, class P> void multistep(int n)
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(0.0625, 0.5);
    U u;
    P p;
    pst x = x0;
    ust a = with(x0);
    for (int i = 0; i < n; ++i) {
        p.do_step(Rhs<0>(), x, t + i * dt, dt);
        u.do_step(URhs(), a, sec(t + i * dt), sec(dt));
    }
    same(a, x, "step");
}
VP_ENTRY(abm2) { multistep<adams_bashforth_moulton<2, UN>, adams_bashforth_moulton<2, pst> >(3); }
VP_ENTRY(midpoint) { multistep<modified_midpoint<UN>, modified_midpoint<pst> >(1); }
VP_ENTRY(ab2) { multistep<adams_bashforth<2, UN>, adams_bashforth<2, pst> >(3); }

// ---- integrate functions: the solution at every observed time ---------------------------------
struct Seen { std::vector<double> t, x; };
struct PObs { Seen *s; void operator()(const pst &x, double t) const { s->t.push_back(t); s->x.push_back(x[0]); s->x.push_back(x[1]); } };
struct UObs { Seen *s; void operator()(const ust &x, utime t) const { PObs o = { s }; o(plain(x), t.value()); } };
static void same_seen(const Seen &a, const Seen &b)
{
    vp_assert(a.t.size() == b.t.size(), "number of observations");
    for (std::size_t i = 0; i < a.t.size() && i < b.t.size(); ++i) {
        vp_near(a.t[i], b.t[i], 1e-9, "observed time");
        for (int j = 0; j < 2; ++j) vp_near(a.x[2 * i + j], b.x[2 * i + j], TOL, "observed state");
    }
}
template<class F, class G> void integration(F f, G g)
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(0.25, 0.5), len = vp_real(0, 1);
    Seen a, b;
    PObs po = { &a };
    UObs uo = { &b };
    pst x = x0;
    ust u = with(x0);
    g(x, t, t + len, dt, po);
    f(u, sec(t), sec(t + len), sec(dt), uo);
    same(u, x, "final state");
    same_seen(b, a);
}
#define FG(name, fu, fp) VP_ENTRY(name) { integration([](ust &x, utime a, utime b, utime d, UObs o) { fu; }, [](pst &x, double a, double b, double d, PObs o) { fp; }); }
FG(integrate_const, integrate_const(runge_kutta4<UN>(), URhs(), x, a, b, d, o), integrate_const(runge_kutta4<pst>(), Rhs<0>(), x, a, b, d, o))
FG(integrate_n_steps, integrate_n_steps(runge_kutta4<UN>(), URhs(), x, a, d, 2, o), integrate_n_steps(runge_kutta4<pst>(), Rhs<0>(), x, a, d, 2, o))

FG(integrate_adaptive, integrate_adaptive(runge_kutta4<UN>(), URhs(), x, a, b, d, o), integrate_adaptive(runge_kutta4<pst>(), Rhs<0>(), x, a, b, d, o))
template<class F, class G> void times(F f, G g)
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(0.25, 0.5);
    std::vector<double> ts;
    ts.push_back(t);
    for (int i = 0; i < 2; ++i) ts.push_back(ts.back() + vp_real(0, 0.5));
    std::vector<utime> us;
    for (std::size_t i = 0; i < ts.size(); ++i) us.push_back(sec(ts[i]));
    Seen a, b;
    PObs po = { &a };
    UObs uo = { &b };
    pst x = x0;
    ust u = with(x0);
    g(x, ts, dt, po);
    f(u, us, sec(dt), uo);
    same(u, x, "final state");
    same_seen(b, a);
}
VP_ENTRY(integrate_times)
{
    times([](ust &x, const std::vector<utime> &ts, utime d, UObs o) { integrate_times(euler<UN>(), URhs(), x, ts, d, o); },
          [](pst &x, const std::vector<double> &ts, double d, PObs o) { integrate_times(euler<pst>(), Rhs<0>(), x, ts, d, o); });
}
// with step-size control that accepts every step (|error| is far below the tolerance), concrete times
typedef controlled_runge_kutta<runge_kutta_dopri5<UN> > UC;
typedef controlled_runge_kutta<runge_kutta_dopri5<pst> > PC;
static UC uc() { return UC(UC::error_checker_type(1e6, 1.0)); }
static PC pc() { return PC(PC::error_checker_type(1e6, 1.0)); }
typedef dense_output_runge_kutta<UC> UDn;
typedef dense_output_runge_kutta<PC> PDn;
template<class F, class G> void loose(F f, G g)
{
    const pst x0 = sym2();
    Seen a, b;
    PObs po = { &a };
    UObs uo = { &b };
    pst x = x0;
    ust u = with(x0);
    g(x, po);
    f(u, uo);
    same(u, x, "final state");
    same_seen(b, a);
}
#define LS(name, fu, fp) VP_ENTRY(name) { loose([](ust &x, UObs o) { fu; }, [](pst &x, PObs o) { fp; }); }
LS(adaptive_controlled, integrate_adaptive(uc(), URhs(), x, sec(0.0), sec(0.75), sec(0.125), o), integrate_adaptive(pc(), Rhs<0>(), x, 0.0, 0.75, 0.125, o))
LS(adaptive_dense, integrate_adaptive(UDn(uc()), URhs(), x, sec(0.0), sec(0.75), sec(0.125), o), integrate_adaptive(PDn(pc()), Rhs<0>(), x, 0.0, 0.75, 0.125, o))
LS(const_controlled, integrate_const(uc(), URhs(), x, sec(0.0), sec(0.625), sec(0.25), o), integrate_const(pc(), Rhs<0>(), x, 0.0, 0.625, 0.25, o))
LS(const_dense, integrate_const(UDn(uc()), URhs(), x, sec(0.0), sec(0.625), sec(0.25), o), integrate_const(PDn(pc()), Rhs<0>(), x, 0.0, 0.625, 0.25, o))
LS(n_steps_controlled, integrate_n_steps(uc(), URhs(), x, sec(0.0), sec(0.25), 2, o), integrate_n_steps(pc(), Rhs<0>(), x, 0.0, 0.25, 2, o))
LS(n_steps_dense, integrate_n_steps(UDn(uc()), URhs(), x, sec(0.0), sec(0.25), 2, o), integrate_n_steps(PDn(pc()), Rhs<0>(), x, 0.0, 0.25, 2, o))
static std::vector<double> grid() { std::vector<double> t; t.push_back(0.0); t.push_back(0.1875); t.push_back(0.5); return t; }
static std::vector<utime> ugrid() { std::vector<utime> t; const std::vector<double> g = grid(); for (std::size_t i = 0; i < g.size(); ++i) t.push_back(sec(g[i])); return t; }
LS(times_controlled, integrate_times(uc(), URhs(), x, ugrid(), sec(0.125), o), integrate_times(pc(), Rhs<0>(), x, grid(), 0.125, o))
LS(times_dense, integrate_times(UDn(uc()), URhs(), x, ugrid(), sec(0.125), o), integrate_times(PDn(pc()), Rhs<0>(), x, grid(), 0.125, o))

// ---- iterators ---------------------------------------------------------------------------------
VP_ENTRY(const_step_iterator)
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(0.25, 0.5), len = vp_real(0, 1);
    pst x = x0;
    ust u = with(x0);
    runge_kutta4<UN> us;
    runge_kutta4<pst> ps;
    typedef const_step_time_iterator<runge_kutta4<UN>, URhs, ust> UI;
    typedef const_step_time_iterator<runge_kutta4<pst>, Rhs<0>, pst> PI;
    UI i(us, URhs(), u, sec(t), sec(t + len), sec(dt)), ie(us, URhs(), u);
    PI j(ps, Rhs<0>(), x, t, t + len, dt), je(ps, Rhs<0>(), x);
    for (int k = 0; k < 6 && !(j == je); ++k, ++i, ++j) {
        vp_assert(!(i == ie), "as many steps");
        vp_near(i->second.value(), j->second, 1e-9, "time");
        same(i->first, j->first, "state");
    }
    vp_assert(i == ie, "as many steps");
}

template<class UI, class PI> void walk(UI i, UI ie, PI j, PI je)
{
    for (int k = 0; k < 6 && !(j == je); ++k, ++i, ++j) {
        vp_assert(!(i == ie), "as many steps");
        vp_near(i->second.value(), j->second, 1e-9, "time");
        same(i->first, j->first, "state");
    }
    vp_assert(i == ie, "as many steps");
}
VP_ENTRY(n_step_iterator)
{
    const pst x0 = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(0.25, 0.5);
    pst x = x0;
    ust u = with(x0);
    walk(make_n_step_time_iterator_begin(runge_kutta4<UN>(), URhs(), u, sec(t), sec(dt), 2), make_n_step_time_iterator_end(runge_kutta4<UN>(), URhs(), u),
         make_n_step_time_iterator_begin(runge_kutta4<pst>(), Rhs<0>(), x, t, dt, 2), make_n_step_time_iterator_end(runge_kutta4<pst>(), Rhs<0>(), x));
}
VP_ENTRY(adaptive_iterator)
{
    const pst x0 = sym2();
    pst x = x0;
    ust u = with(x0);
    walk(make_adaptive_time_iterator_begin(uc(), URhs(), u, sec(0.0), sec(0.75), sec(0.125)), make_adaptive_time_iterator_end(uc(), URhs(), u),
         make_adaptive_time_iterator_begin(pc(), Rhs<0>(), x, 0.0, 0.75, 0.125), make_adaptive_time_iterator_end(pc(), Rhs<0>(), x));
}
VP_ENTRY(times_iterator)
{
    const pst x0 = sym2();
    const double dt = vp_real(0.25, 0.5);
    pst x = x0;
    ust u = with(x0);
    const std::vector<double> g = grid();
    const std::vector<utime> h = ugrid();
    walk(make_times_time_iterator_begin(euler<UN>(), URhs(), u, h.begin(), h.end(), sec(dt)), make_times_time_iterator_end<std::vector<utime>::const_iterator>(euler<UN>(), URhs(), u),
         make_times_time_iterator_begin(euler<pst>(), Rhs<0>(), x, g.begin(), g.end(), dt), make_times_time_iterator_end<std::vector<double>::const_iterator>(euler<pst>(), Rhs<0>(), x));
}

// ---- coordinates and momenta ---------------------------------------------------------------------
typedef units::quantity<si::momentum, double> umom;
typedef units::quantity<si::force, double> ufor;
typedef fusion::vector<ulen, ulen> uq;
typedef fusion::vector<umom, umom> up;
typedef fusion::vector<uvel, uvel> udq;
typedef fusion::vector<ufor, ufor> udp;
template<class D, class E, class S> void two(int id, const S &s, D &d)
{
    pst v, r;
    v[0] = fusion::at_c<0>(s).value();
    v[1] = fusion::at_c<1>(s).value();
    vp_sys(id, &v[0], 2, 0.0, &r[0], 2, BK);
    d = D(E::from_value(r[0]), E::from_value(r[1]));
}
struct UDq { void operator()(const up &p, udq &d) const { two<udq, uvel>(1, p, d); } };
struct UDp { void operator()(const uq &q, udp &d) const { two<udp, ufor>(2, q, d); } };
template<int Id> struct PD { void operator()(const pst &x, pst &d) const { vp_sys(Id, &x[0], 2, 0.0, &d[0], 2, BK); } };
template<class U, class P> void hamilton()
{
    const pst q = sym2(), p = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(-0.5, 0.5);
    vp_assume(dt != 0);
    std::pair<pst, pst> x(q, p);
    std::pair<uq, up> a(uq(ulen::from_value(q[0]), ulen::from_value(q[1])), up(umom::from_value(p[0]), umom::from_value(p[1])));
    P ps;
    U us;
    for (int k = 0; k < 2; ++k) {
        ps.do_step(std::make_pair(PD<1>(), PD<2>()), x, t, dt);
        us.do_step(std::make_pair(UDq(), UDp()), a, sec(t), sec(dt));
    }
    vp_near(fusion::at_c<0>(a.first).value(), x.first[0], TOL, "coordinate");
    vp_near(fusion::at_c<1>(a.first).value(), x.first[1], TOL, "coordinate");
    vp_near(fusion::at_c<0>(a.second).value(), x.second[0], TOL, "momentum");
    vp_near(fusion::at_c<1>(a.second).value(), x.second[1], TOL, "momentum");
}
VP_ENTRY(symplectic_euler) { hamilton<symplectic_euler<uq, up, double, udq, udp, utime>, symplectic_euler<pst> >(); }
VP_ENTRY(symplectic_mclachlan) { hamilton<symplectic_rkn_sb3a_mclachlan<uq, up, double, udq, udp, utime>, symplectic_rkn_sb3a_mclachlan<pst> >(); }

typedef fusion::vector<uvel, uvel> uv2;
typedef fusion::vector<uacc, uacc> ua2;
struct UAcc {
    void operator()(const uq &q, const uv2 &v, ua2 &a, utime t) const
    {
        double x[4] = { fusion::at_c<0>(q).value(), fusion::at_c<1>(q).value(), fusion::at_c<0>(v).value(), fusion::at_c<1>(v).value() }, r[2];
        vp_sys(3, x, 4, t.value(), r, 2, BK);
        a = ua2(uacc::from_value(r[0]), uacc::from_value(r[1]));
    }
};
struct PAcc {
    void operator()(const pst &q, const pst &v, pst &a, double t) const
    {
        double x[4] = { q[0], q[1], v[0], v[1] };
        vp_sys(3, x, 4, t, &a[0], 2, BK);
    }
};
VP_ENTRY(velocity_verlet)
{
    const pst q = sym2(), v = sym2();
    const double t = vp_real(-1, 1), dt = vp_real(0.0625, 0.5);
    typedef units::derived_dimension<units::time_base_dimension, 2>::type time2_dim;
    typedef units::quantity<units::unit<time2_dim, si::system>, double> utime2;
    velocity_verlet<uq, uv2, double, ua2, utime, utime2> us;
    velocity_verlet<pst> ps;
    std::pair<pst, pst> x(q, v);
    std::pair<uq, uv2> a(uq(ulen::from_value(q[0]), ulen::from_value(q[1])), uv2(uvel::from_value(v[0]), uvel::from_value(v[1])));
    for (int k = 0; k < 2; ++k) {
        ps.do_step(PAcc(), x, t + k * dt, dt);
        us.do_step(UAcc(), a, sec(t + k * dt), sec(dt));
    }
    vp_near(fusion::at_c<0>(a.first).value(), x.first[0], TOL, "coordinate");
    vp_near(fusion::at_c<1>(a.first).value(), x.first[1], TOL, "coordinate");
    vp_near(fusion::at_c<0>(a.second).value(), x.second[0], TOL, "velocity");
    vp_near(fusion::at_c<1>(a.second).value(), x.second[1], TOL, "velocity");
}
