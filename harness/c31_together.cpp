// C31: steppers, integrations and iterators used together: interleaved, and one inside the right-hand side or observer of another
#include "vp.h"
#include <functional>
static long fuse_ = -1;             // evaluations until something else is done meanwhile
static std::function<void()> *meanwhile_;
static void busy_sys(int id, const double *x, std::size_t n, double t, double *out, std::size_t m, double B)
{
    if (fuse_ >= 0 && fuse_-- == 0) (*meanwhile_)();
    vp_sys(id, x, n, t, out, m, B);
}
#define vp_sys busy_sys
#include "families.hpp"
#include "integ_common.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
using namespace fam;
template<class F> struct timed { static const bool value = false; };
template<class R> struct timed<AAB<R> > { static const bool value = true; };
template<class R> struct timed<CAAB<R> > { static const bool value = true; };
template<class F> struct small { static const bool value = F::maxn < 3; };
struct In { vec x; double t, dt; };
template<class F> static In in(std::size_t n, unsigned k)
{
    In i;
    i.x = symvec(n);
    if (timed<F>::value) { i.dt = 0.5; i.t = 0.5 * k; }
    else { i.t = vp_real(-2, 2); i.dt = vp_real(0.125, 1); }
    return i;
}
template<class F> static vec run(typename F::st &s, const In &i, unsigned form) { return F::run(s, i.x, i.t, i.dt, form); }
// ---- two steppers of one type ---------------------------------------------------------------------------------
template<class F> static void interleaved(unsigned steps)
{
    typedef typename F::st St;
    St a(make_of<F>(0)), b(make_of<F>(0));
    std::size_t na = 1, nb = vp_choose(2) ? 1 : 2;
    unsigned fa = vp_choose(F::forms), fb = F::forms - 1 - fa;
    std::vector<In> ia, ib;
    std::vector<vec> ra, rb;
    for (unsigned k = 0; k < steps; ++k) {
        ia.push_back(in<F>(na, k));
        ib.push_back(in<F>(nb, k));
        ra.push_back(run<F>(a, ia[k], fa));
        rb.push_back(run<F>(b, ib[k], fb));
    }
    St ca(make_of<F>(0));
    for (unsigned k = 0; k < steps; ++k) near_all(ra[k], run<F>(ca, ia[k], fa), "a stepper does what it does alone");
    St cb(make_of<F>(0));
    for (unsigned k = 0; k < steps; ++k) near_all(rb[k], run<F>(cb, ib[k], fb), "a stepper does what it does alone");
}
template<class F> static void nested(unsigned evals, unsigned maxwarm)
{
    typedef typename F::st St;
    St a(make_of<F>(0)), b(make_of<F>(0)), ca(make_of<F>(0)), cb(make_of<F>(0));
    std::size_t na = 1, nb = vp_choose(2) ? 1 : 2;
    unsigned fa = vp_choose(F::forms), fb = F::forms - 1 - fa, warm = vp_choose(maxwarm + 1);
    for (unsigned k = 0; k < warm; ++k) {
        In i = in<F>(na, k), j = in<F>(nb, k);
        near_all(run<F>(a, i, fa), run<F>(ca, i, fa), "a stepper does what it does alone");
        near_all(run<F>(b, j, fb), run<F>(cb, j, fb), "a stepper does what it does alone");
    }
    for (unsigned k = warm; k < warm + 2; ++k) {
        In i = in<F>(na, k), j = in<F>(nb, k);
        vec rb;
        std::function<void()> f = [&] { rb = run<F>(b, j, fb); };
        meanwhile_ = &f;
        if (k == warm) fuse_ = vp_choose(evals);
        vec ra = run<F>(a, i, fa);
        fuse_ = -1;
        if (k == warm && rb.empty()) return;               // fewer evaluations than that
        if (rb.empty()) rb = run<F>(b, j, fb);
        near_all(ra, run<F>(ca, i, fa), "a stepper is not influenced by one used in its right-hand side");
        near_all(rb, run<F>(cb, j, fb), "a stepper used in the right-hand side of another does what it does alone");
    }
}
#define TG(name, F, K, W) \
    VP_ENTRY(turns_##name) { interleaved<F<initially_resizer> >(W + 2); } \
    VP_ENTRY(nested_##name) { nested<F<initially_resizer> >(K, W); }
TG(euler, Euler, 1, 1)
TG(midpoint, Midpoint, 3, 1)
TG(rk4, Rk4, 4, 1)
TG(rk4c, Rk4c, 4, 1)
TG(ck, Ck, 6, 1)
TG(ckc, Ckc, 6, 1)
TG(f78, F78, 13, 0)
TG(dp5, Dp5, 7, 1)
TG(ext, Ext, 8, 0)
TG(ab1, AB<1>::F, 1, 1)
TG(ab2, AB<2>::F, 4, 2)
TG(ab3, AB<3>::F, 4, 3)
TG(abm2, ABM<2>::F, 4, 2)
TG(aab, AAB, 3, 2)
TG(syme, SymE, 2, 1)
TG(sym4, Sym4, 8, 0)
TG(sym6, Sym6, 12, 0)
TG(verlet, Verlet, 2, 1)
TG(cck, CCk, 6, 1)
TG(cdp5, CDp5, 7, 1)
TG(caab, CAAB, 3, 2)
TG(deuler, DEuler, 1, 1)
TG(ddp5, DDp5, 7, 1)
TG(bs, BS, 7, 0)
TG(bsd, BSD, 7, 0)
TG(ros, Rosen, 6, 1)
TG(cros, CRos, 6, 0)
TG(dros, DRos, 6, 0)
TG(ie, IE, 2, 1)

// ---- the step size control of two Rosenbrock controllers in turns: the errors are what the stepper says ------------------
struct Said { double e[4]; unsigned k; };
struct SaysError : rosenbrock4<double> {
    Said *s;
    template<class F> void do_step(F, const state_type &x, double, state_type &o, double dt, state_type &e) { o = x; o[0] += dt; e[0] = s->e[s->k++]; }
};
typedef rosenbrock4_controller<SaysError> Predicts;
static Predicts predicts(Said &s) { SaysError st; st.s = &s; s.k = 0; return Predicts(1.0, 0.0, st); }
static void attempt_of(Predicts &c, boost::numeric::ublas::vector<double> &x, double &t, double &h, vec &log)
{
    log.push_back(c.try_step(0, x, t, h) == success ? 1.0 : 0.0);
    log.push_back(t); log.push_back(h); log.push_back(x[0]); log.push_back(c.last_error());
}
VP_ENTRY(turns_rosenbrock_control)
{
    Said p, q;
    for (int i = 0; i < 4; ++i) { p.e[i] = vp_real(0.0625, 1); q.e[i] = vp_real(0.0625, i == 1 ? 2 : 1); }
    const bool back = vp_choose(2);
    vec a, b, da, db;
    {
        Predicts c = predicts(p), d = predicts(q);
        boost::numeric::ublas::vector<double> x(1, 0.0), y(1, 0.0);
        double t = 0, s = 0, h = back ? -0.5 : 0.5, g = 0.25;
        for (int k = 0; k < 2; ++k) { attempt_of(c, x, t, h, a); attempt_of(d, y, s, g, b); }
    }
    {
        Predicts c = predicts(p);
        boost::numeric::ublas::vector<double> x(1, 0.0);
        double t = 0, h = back ? -0.5 : 0.5;
        for (int k = 0; k < 2; ++k) attempt_of(c, x, t, h, da);
    }
    {
        Predicts d = predicts(q);
        boost::numeric::ublas::vector<double> y(1, 0.0);
        double s = 0, g = 0.25;
        for (int k = 0; k < 2; ++k) attempt_of(d, y, s, g, db);
    }
    near_all(a, da, "a controller in turns with another one proposes what it proposes alone", 1e-9);
    near_all(b, db, "a controller in turns with another one proposes what it proposes alone", 1e-9);
}

// ---- integrations ------------------------------------------------------------------------------------------------
struct Easy {
    template<class Alg, class X, class D, class E, class T> double error(Alg &, const X &, const D &, E &, T) const { return 0.75; }
};
typedef runge_kutta4<vec> Rk;
typedef controlled_runge_kutta<runge_kutta_cash_karp54<vec>, Easy> Cc;
typedef dense_output_runge_kutta<controlled_runge_kutta<runge_kutta_dopri5<vec>, Easy> > Dd;
enum { CONST, ADAPTIVE, NSTEPS, TIMES, HOWS };
struct Prob { int how; vec x; double t, dt; double ts[3]; };
static Prob prob(int how)
{
    Prob p = {how, symvec(1), vp_real(-2, 2), vp_real(0.125, 1), {0, 0, 0}};
    p.ts[0] = p.t; p.ts[1] = p.t + 0.5 * p.dt; p.ts[2] = p.t + 1.75 * p.dt;
    return p;
}
// observes; meanwhile something else at observation k
struct Busy {
    Log *l; long k; const std::function<void()> *f;
    void operator()(const vec &x, double t) const
    {
        l->add(x, t);
        if (k >= 0 && long(l->t.size()) == k + 1) (*f)();
        if (k >= 0) vp_assert(l->x.back().size() == x.size() && l->x.back()[0] == x[0], "the state observed stays as it is");
    }
};
static const std::function<void()> nothing_ = [] {};
template<class St> static double go(const Prob &p, vec &x, Log &l, long k = -1, const std::function<void()> &f = nothing_)
{
    St st;
    Busy o = {&l, k, &f};
    x = p.x;
    switch (p.how) {
    case CONST: return integrate_const(st, Rhs<>(), x, p.t, p.t + 2.5 * p.dt, p.dt, o);
    case ADAPTIVE: return integrate_adaptive(st, Rhs<>(), x, p.t, p.t + 1.5 * p.dt, p.dt, o);
    case NSTEPS: return integrate_n_steps(st, Rhs<>(), x, p.t, p.dt, 2, o);
    }
    return integrate_times(st, Rhs<>(), x, p.ts, p.ts + 3, p.dt, o);
}
static void same(const Log &a, const vec &xa, double ra, const Log &b, const vec &xb, double rb)
{
    vp_assert(a.t.size() == b.t.size(), "an integration observes what it observes alone");
    for (std::size_t i = 0; i < a.t.size() && i < b.t.size(); ++i) {
        vp_near(a.t[i], b.t[i], 1e-12, "an integration observes what it observes alone");
        near_all(a.x[i], b.x[i], "an integration observes what it observes alone", 1e-9);
    }
    near_all(xa, xb, "an integration ends as it does alone", 1e-9);
    vp_near(ra, rb, 1e-12, "an integration returns what it returns alone");
}
template<class St> static void integrations(bool observer)
{
    int how = vp_choose(HOWS);
    Prob a = prob(how), b = prob(vp_choose(2) ? how : (how + 1) % HOWS);
    vec xa, xb, ya, yb;
    Log la, lb, ma, mb;
    double ra, rb = -1, sa, sb;
    std::function<void()> f = [&] { rb = go<St>(b, xb, lb); };
    meanwhile_ = &f;
    unsigned k = vp_choose(3);
    if (observer) ra = go<St>(a, xa, la, k, f);
    else { static const int at[] = {0, 2, 7}; fuse_ = at[k]; ra = go<St>(a, xa, la); fuse_ = -1; }
    if (xb.empty()) return;
    sa = go<St>(a, ya, ma);
    sb = go<St>(b, yb, mb);
    same(la, xa, ra, ma, ya, sa);
    same(lb, xb, rb, mb, yb, sb);
}
#define IG(name, S) VP_ENTRY(observer_##name) { integrations<S>(true); } VP_ENTRY(system_##name) { integrations<S>(false); }
IG(rk4, Rk)
IG(cck, Cc)
IG(ddp5, Dd)
// ---- iterators ---------------------------------------------------------------------------------------------------
template<class I> struct Pair { I i, e; };
template<class Mk> static void iterators(Mk mk)
{
    Prob a = prob(0), b = prob(0);
    vec xa(a.x), xb(b.x), ya(a.x), yb(b.x);
    Log la, lb, ma, mb;
    {
        auto p = mk(a, xa), q = mk(b, xb);
        auto i = p.i;                               // copies share the state
        auto j = q.i;
        for (int k = 0; k < 6; ++k) {
            if (i != p.e) { la.add((*i).first, (*i).second); ++i; }
            if (j != q.e) { lb.add((*j).first, (*j).second); ++j; }
        }
        vp_assert(i == p.e && j == q.e, "iterators reach their ends");
    }
    { auto p = mk(a, ya); for (int k = 0; k < 6 && p.i != p.e; ++k) { ma.add((*p.i).first, (*p.i).second); ++p.i; } }
    { auto p = mk(b, yb); for (int k = 0; k < 6 && p.i != p.e; ++k) { mb.add((*p.i).first, (*p.i).second); ++p.i; } }
    same(la, xa, 0, ma, ya, 0);
    same(lb, xb, 0, mb, yb, 0);
}
template<class I> static Pair<I> pair_of(I a, I b) { Pair<I> p = {a, b}; return p; }
#define ITS(name, S) \
    VP_ENTRY(iter_const_##name) { iterators([](Prob &p, vec &x) { return pair_of(make_const_step_time_iterator_begin(S(), Rhs<>(), x, p.t, p.t + 2.5 * p.dt, p.dt), make_const_step_time_iterator_end(S(), Rhs<>(), x)); }); } \
    VP_ENTRY(iter_n_##name) { iterators([](Prob &p, vec &x) { return pair_of(make_n_step_time_iterator_begin(S(), Rhs<>(), x, p.t, p.dt, 2), make_n_step_time_iterator_end(S(), Rhs<>(), x)); }); } \
    VP_ENTRY(iter_times_##name) { iterators([](Prob &p, vec &x) { return pair_of(make_times_time_iterator_begin(S(), Rhs<>(), x, p.ts, p.ts + 3, p.dt), make_times_time_iterator_end<double *>(S(), Rhs<>(), x)); }); }
#define ITA(name, S) \
    VP_ENTRY(iter_adaptive_##name) { iterators([](Prob &p, vec &x) { return pair_of(make_adaptive_time_iterator_begin(S(), Rhs<>(), x, p.t, p.t + 1.5 * p.dt, p.dt), make_adaptive_time_iterator_end(S(), Rhs<>(), x)); }); }
ITS(rk4, Rk)
ITS(ddp5, Dd)
ITA(cck, Cc)
ITA(ddp5, Dd)
