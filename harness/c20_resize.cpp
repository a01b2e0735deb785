// C20: automatic, initial and manual sizing of every stepper family
#include "families.hpp"
#include <new>
using namespace boost::numeric::odeint;
using namespace fam;
// what adjust_size is given: a ublas vector for the implicit steppers
template<class St> const vec &wrap(const vec &x, St *) { return x; }
template<class V, class C, class R> uvec wrap(const vec &x, rosenbrock4<V, C, R> *) { return uv(x); }
template<class S> uvec wrap(const vec &x, rosenbrock4_controller<S> *) { return uv(x); }
template<class S> uvec wrap(const vec &x, rosenbrock4_dense_output<S> *) { return uv(x); }
template<class V, class R> uvec wrap(const vec &x, implicit_euler<V, R> *) { return uv(x); }
static double dts() { return vp_real(0.125, 1); }
// always: states of changing sizes
template<template<class> class F>
void always(unsigned steps)
{
    typedef F<always_resizer> A;
    typedef F<initially_resizer> I;
    typename A::st st(make_of<A>(0));
    std::size_t last = 0;
    unsigned form = vp_choose(A::forms);
    for (unsigned k = 0; k < steps; ++k) {
        std::size_t n;
        if (!A::memory) n = 1 + vp_choose(A::maxn);
        else n = last == 0 ? 1 + vp_choose(A::maxn) : 1 + (last + vp_choose(A::maxn - 1)) % A::maxn;      // another size than before
        last = n;
        vec x = symvec(n);
        double t = vp_real(-2, 2), dt = dts();
        typename I::st fresh(make_of<I>(0));
        near_all(A::run(st, x, t, dt, form), I::run(fresh, x, t, dt, form), "with automatic resizing the result does not depend on the sizes used before");
        if (A::memory && vp_choose(2)) {              // a second step of the same size
            vec x2 = symvec(n);
            near_all(A::run(st, x2, t + dt, dt, form), I::run(fresh, x2, t + dt, dt, form), "... nor does the step after");
        }
    }
}
// initially: the first state decides
template<template<class> class F>
void initially()
{
    typedef F<always_resizer> A;
    typedef F<initially_resizer> I;
    std::size_t n = 1 + vp_choose(A::maxn);
    typename A::st st(make_of<A>(0));
    typename I::st in(make_of<I>(0));
    for (unsigned k = 0; k < 2; ++k) {
        unsigned form = vp_choose(A::forms);
        vec x = symvec(n);
        double t = vp_real(-2, 2), dt = dts();
        near_all(I::run(in, x, t, dt, form), A::run(st, x, t, dt, form), "with initial resizing the stepper works for the size it saw first");
    }
}
// never: adjust_size before use, and again for another size
template<template<class> class F>
void never()
{
    typedef F<never_resizer> N;
    typedef F<initially_resizer> I;
    typename N::st st(make_of<N>(0));
    std::size_t n = 1 + vp_choose(N::maxn);
    unsigned form = vp_choose(N::forms);
    for (unsigned k = 0; k < 2; ++k) {
        vec x = symvec(n);
        double t = vp_real(-2, 2), dt = dts();
        typename I::st fresh(make_of<I>(0));
        st.adjust_size(wrap(x, (typename N::st *)0));
        near_all(N::run(st, x, t, dt, form), I::run(fresh, x, t, dt, form), "adjust_size prepares every buffer");
        if (vp_choose(2)) near_all(N::run(st, x, t, dt, form), I::run(fresh, x, t, dt, form), "adjust_size prepares every buffer for the step after as well");
        n = N::memory ? 1 + (n + vp_choose(N::maxn - 1)) % N::maxn : 1 + vp_choose(N::maxn);
    }
}
#define FAM(name, F, S) \
    VP_ENTRY(always_##name) { always<F>(S); } \
    VP_ENTRY(initially_##name) { initially<F>(); }
#define FAMN(name, F, S) FAM(name, F, S) \
    VP_ENTRY(never_##name) { never<F>(); }
FAMN(euler, Euler, 3)
FAMN(midpoint, Midpoint, 3)
FAMN(rk4, Rk4, 3)
FAMN(rk4c, Rk4c, 3)
FAMN(ck, Ck, 2)
FAMN(ckc, Ckc, 2)
FAMN(f78, F78, 2)
FAMN(dp5, Dp5, 3)
FAMN(ext, Ext, 2)
FAMN(ab1, AB<1>::F, 3)
FAMN(ab2, AB<2>::F, 3)
FAMN(ab3, AB<3>::F, 3)
FAMN(abm1, ABM<1>::F, 3)
FAMN(abm2, ABM<2>::F, 3)
FAMN(abm3, ABM<3>::F, 3)
FAM(aab, AAB, 2)
FAMN(syme, SymE, 3)
FAMN(sym4, Sym4, 2)
FAMN(sym6, Sym6, 2)
FAMN(verlet, Verlet, 3)
FAMN(cck, CCk, 2)
FAMN(cdp5, CDp5, 3)
FAM(caab, CAAB, 2)
FAMN(deuler, DEuler, 3)
FAMN(ddp5, DDp5, 2)
FAMN(bs, BS, 2)
FAMN(bsd, BSD, 2)
FAMN(ros, Rosen, 2)
FAMN(cros, CRos, 2)
FAMN(dros, DRos, 2)
FAMN(ie, IE, 2)
// the multistep controller with its own order selection: uninitialised or left-over buffers never decide
struct Decay { template<class X, class D> void operator()(const X &x, D &d, double t) const { for (std::size_t i = 0; i < x.size(); ++i) d[i] = -x[i] + 0.25 * t * t; } };
template<class S>
static void caab_order(unsigned warm)
{
    typedef controlled_adams_bashforth_moulton<adaptive_adams_bashforth_moulton<3, S>, AdamsAdj> C;
    // both live in memory with different left-over contents
    alignas(16) static double mem[2][sizeof(C) / sizeof(double) + 1];
    for (int k = 0; k < 2; ++k) { const double ps[] = {0, 0.001, 0.25, 8}; double p = ps[vp_choose(4)]; for (std::size_t i = 0; i < sizeof(C) / sizeof(double) + 1; ++i) mem[k][i] = p; }
    C &used = *new (mem[0]) C, &fresh = *new (mem[1]) C;
    S x, y, e;
    for (std::size_t i = 0; i < 2; ++i) { x[i] = 1.0 + i; y[i] = 3.0 - i; }
    const double rough[] = {0.5, 0.25, 1.5, 0.125};
    double t = 0.25;
    for (unsigned k = 0; k < warm; ++k) { double dt = rough[k % 4]; used.try_step(Decay(), y, t, dt); }
    if (warm) used.reset();
    S x2(x);
    double t1 = 0, t2 = 0;
    for (unsigned k = 0; k < 5; ++k) {
        double d1 = rough[(k + 2) % 4], d2 = d1;
        used.try_step(Decay(), x, t1, d1);
        fresh.try_step(Decay(), x2, t2, d2);
        near_all(x, x2, "order selection uses computed errors only");
        vp_near(d1, d2, 1e-12, "order selection uses computed errors only");
    }
}
VP_ENTRY(caab_order_array) { caab_order<arr2>(0); }
VP_ENTRY(caab_order_reset) { caab_order<arr2>(4 + vp_choose(6)); }
