// C23: comparisons of times along the direction of integration
#include "common.hpp"
#include <limits>
#include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
namespace od = boost::numeric::odeint::detail;
// t1, t2 = t1 + g where g runs over all distances, or over those around the tolerance
static void order(double sgn, double scale)
{
    const double eps = std::numeric_limits<double>::epsilon();
    double t1 = vp_real(-2, 2), g = scale * vp_real(-4, 4), dt = sgn * vp_real(0.0009765625, 4), t2 = t1 + g;
    double ahead = sgn * g;                    // how far t2 lies ahead of t1
    bool lt = od::less_with_sign(t1, t2, dt), le = od::less_eq_with_sign(t1, t2, dt);
    if (ahead >= 2 * eps) vp_assert(lt, "less_with_sign: an earlier time is less");
    if (ahead <= 0.25 * eps) vp_assert(!lt, "less_with_sign: the same or a later time is not less");
    if (ahead >= -0.25 * eps) vp_assert(le, "less_eq_with_sign: an earlier or the same time is less or equal");
    if (ahead <= -2 * eps) vp_assert(!le, "less_eq_with_sign: a later time is not less or equal");
    vp_assert(lt || od::less_eq_with_sign(t2, t1, dt), "two times are ordered one way or the other");
    vp_assert(!(lt && od::less_eq_with_sign(t2, t1, dt)), "two times are not ordered both ways");
    vp_assert(!lt || le, "less implies less or equal");
    vp_assert(lt == od::less_with_sign(-t1, -t2, -dt), "the order is reversed with the direction");
    vp_assert(le == od::less_eq_with_sign(-t1, -t2, -dt), "the order is reversed with the direction");
    vp_assert(lt == od::less_with_sign(t1, t2, 0.5 * dt), "only the sign of the step matters");
    vp_assert(le == od::less_eq_with_sign(t1, t2, 0.5 * dt), "only the sign of the step matters");
}
VP_ENTRY(forward) { order(1, 1); }
VP_ENTRY(backward) { order(-1, 1); }
VP_ENTRY(forward_close) { order(1, std::numeric_limits<double>::epsilon()); }
VP_ENTRY(backward_close) { order(-1, std::numeric_limits<double>::epsilon()); }
static void transitive(double sgn)
{
    double a = vp_real(-2, 2), b = vp_real(-2, 2), c = vp_real(-2, 2), dt = sgn * vp_real(0.0009765625, 4);
    if (od::less_with_sign(a, b, dt) && od::less_with_sign(b, c, dt)) vp_assert(od::less_with_sign(a, c, dt), "less_with_sign is transitive");
    if (od::less_with_sign(a, b, dt)) vp_assert(!od::less_with_sign(b, a, dt), "less_with_sign is asymmetric");
    vp_assert(!od::less_with_sign(a, a, dt), "less_with_sign is irreflexive");
    vp_assert(od::less_eq_with_sign(a, a, dt), "less_eq_with_sign is reflexive");
}
VP_ENTRY(transitive_forward) { transitive(1); }
VP_ENTRY(transitive_backward) { transitive(-1); }
// other arithmetic types of time
template<class T>
static void typed(double sgn)
{
    T a = T(vp_real(-2, 2)), b = T(vp_real(-2, 2)), dt = T(sgn * vp_real(0.0009765625, 4));
    T ahead = T(sgn) * (b - a);
    bool lt = od::less_with_sign(a, b, dt), le = od::less_eq_with_sign(a, b, dt);
    if (ahead >= T(0.0009765625)) { vp_assert(lt, "an earlier time is less"); vp_assert(le, "an earlier time is less or equal"); }
    if (ahead <= T(-0.0009765625)) { vp_assert(!lt, "a later time is not less"); vp_assert(!le, "a later time is not less or equal"); }
    vp_assert(!od::less_with_sign(a, a, dt), "a time is not less than itself");
    vp_assert(od::less_eq_with_sign(a, a, dt), "a time is less than or equal to itself");
    T m = od::min_abs(dt, T(2) * dt), x = od::max_abs(dt, T(2) * dt);
    vp_assert(m == dt, "min_abs of a step and its double");
    vp_assert(x == T(2) * dt, "max_abs of a step and its double");
}
VP_ENTRY(float_forward) { typed<float>(1); }
VP_ENTRY(float_backward) { typed<float>(-1); }
static void integral(int sgn)
{
    int a = int(vp_choose(4)) - 2, b = int(vp_choose(4)) - 2, c = sgn * int(1 + vp_choose(3)), d = sgn * int(1 + vp_choose(3));
    vp_assert(od::less_with_sign(a, b, c) == (sgn > 0 ? a < b : a > b), "less_with_sign of whole numbers");
    vp_assert(od::less_eq_with_sign(a, b, c) == (sgn > 0 ? a <= b : a >= b), "less_eq_with_sign of whole numbers");
    vp_assert(od::min_abs(c, d) == sgn * (sgn * c < sgn * d ? sgn * c : sgn * d), "min_abs of whole numbers");
    vp_assert(od::max_abs(c, d) == sgn * (sgn * c > sgn * d ? sgn * c : sgn * d), "max_abs of whole numbers");
}
VP_ENTRY(int_forward) { integral(1); }
VP_ENTRY(int_backward) { integral(-1); }
// the step of smaller / larger magnitude
static void magnitude(double sgn)
{
    double u = vp_real(0.0009765625, 4), v = vp_real(0.0009765625, 4);
    double m = od::min_abs(sgn * u, sgn * v), x = od::max_abs(sgn * u, sgn * v);
    vp_assert(m == sgn * (u < v ? u : v), "min_abs is the step of smaller magnitude");
    vp_assert(x == sgn * (u < v ? v : u), "max_abs is the step of larger magnitude");
    vp_assert(od::min_abs(sgn * v, sgn * u) == m, "min_abs does not depend on the order");
    vp_assert(od::max_abs(sgn * v, sgn * u) == x, "max_abs does not depend on the order");
}
VP_ENTRY(magnitude_forward) { magnitude(1); }
VP_ENTRY(magnitude_backward) { magnitude(-1); }
