#ifndef RK_COMMON
#define RK_COMMON
#include "common.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
using namespace boost::numeric::odeint;

// sizes 1..3; one or two consecutive steps with the same stepper object
template<class St, class S>
void tableau(const Tab &T, St &st, std::size_t n)
{
    vec x0 = symvec(n);
    S x = Mk<S>::make(x0);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    Rhs<> f;
    RkRef r = rk_ref(T, f, x0, t, dt);
    st.do_step(f, x, t, dt);
    near_all(x, r.out, "step = published tableau");
    double dt2 = vp_real(-1, 1);
    vec x1(x.begin(), x.end());
    RkRef r2 = rk_ref(T, f, x1, t + dt, dt2);
    S out = Mk<S>::make(x1);
    st.do_step(f, x, t + dt, out, dt2);
    near_all(out, r2.out, "second step = published tableau");
    near_all(x, x1, "out-of-place step leaves its input unchanged");
}
template<class St, class S>
void etableau(const Tab &T, St &st, std::size_t n)
{
    vec x0 = symvec(n);
    S x = Mk<S>::make(x0), xerr = Mk<S>::make(x0);
    double t = vp_real(-2, 2), dt = vp_real(-1, 1);
    Rhs<> f;
    RkRef r = rk_ref(T, f, x0, t, dt);
    st.do_step(f, x, t, dt, xerr);
    near_all(x, r.out, "error step = published tableau");
    near_all(xerr, r.err, "error estimate = difference of the embedded solutions");
}
#endif
