#ifndef VP_COMMON
#define VP_COMMON
#include "vp.h"
#include <vector>
#include <array>
#include <boost/array.hpp>
#include <boost/ref.hpp>
#include <cmath>
typedef std::vector<double> vec;
typedef boost::array<double, 2> arr2;
typedef std::array<double, 2> sarr2;

const double BX = 2.0, BK = 4.0;        // bounds of states and of system-function values
const double TOL = 1e-8;

// arbitrary right-hand side: same (x,t) -> same value
template<int Id = 0>
struct Rhs {
    template<class X, class D>
    void operator()(const X &x, D &d, double t) const { vp_sys(Id, &x[0], x.size(), t, &d[0], x.size(), BK); }
};
// counts its calls as well
template<int Id = 0>
struct CountRhs {
    int *n;
    CountRhs(int &c) : n(&c) {}
    template<class X, class D>
    void operator()(const X &x, D &d, double t) const { ++*n; vp_sys(Id, &x[0], x.size(), t, &d[0], x.size(), BK); }
};
inline vec symvec(std::size_t n, double b = BX)
{
    vec x(n);
    for (std::size_t i = 0; i < n; ++i) x[i] = vp_real(-b, b);
    return x;
}
template<class A, class B>
inline void near_all(const A &a, const B &b, const char *msg, double tol = TOL)
{
    vp_assert(a.size() == b.size(), "sizes agree");
    for (std::size_t i = 0; i < a.size(); ++i) vp_near(a[i], b[i], tol, msg);
}
inline void copy_in(const vec &a, vec &b) { b = a; }
template<class A>
inline void copy_in(const vec &a, A &b) { for (std::size_t i = 0; i < b.size(); ++i) b[i] = a[i]; }
template<class S> struct Mk { static S make(const vec &x) { S s; copy_in(x, s); return s; } };
template<> struct Mk<vec> { static vec make(const vec &x) { return x; } };

// ---- published Butcher tableaus (independent transcription) ------------------------------
struct Tab {
    int s;
    const double *a;   // s*s row-major
    const double *b;
    const double *db;  // b - bhat, or 0
    const double *c;
};
namespace tabs {
const double Z = 0.0;
static const double eu_a[] = {0}, eu_b[] = {1}, eu_c[] = {0};
static const double r4_a[] = {0,0,0,0, .5,0,0,0, 0,.5,0,0, 0,0,1,0}, r4_b[] = {1./6, 1./3, 1./3, 1./6}, r4_c[] = {0,.5,.5,1};
static const double ck_a[] = {
 0,0,0,0,0,0,
 1./5,0,0,0,0,0,
 3./40,9./40,0,0,0,0,
 3./10,-9./10,6./5,0,0,0,
 -11./54,5./2,-70./27,35./27,0,0,
 1631./55296,175./512,575./13824,44275./110592,253./4096,0};
static const double ck_b[] = {37./378,0,250./621,125./594,0,512./1771};
static const double ck_d[] = {37./378-2825./27648,0,250./621-18575./48384,125./594-13525./55296,-277./14336,512./1771-1./4};
static const double ck_c[] = {0,1./5,3./10,3./5,1,7./8};
static const double dp_a[] = {
 0,0,0,0,0,0,0,
 1./5,0,0,0,0,0,0,
 3./40,9./40,0,0,0,0,0,
 44./45,-56./15,32./9,0,0,0,0,
 19372./6561,-25360./2187,64448./6561,-212./729,0,0,0,
 9017./3168,-355./33,46732./5247,49./176,-5103./18656,0,0,
 35./384,0,500./1113,125./192,-2187./6784,11./84,0};
static const double dp_b[] = {35./384,0,500./1113,125./192,-2187./6784,11./84,0};
static const double dp_d[] = {35./384-5179./57600,0,500./1113-7571./16695,125./192-393./640,-2187./6784+92097./339200,11./84-187./2100,-1./40};
static const double dp_c[] = {0,1./5,3./10,4./5,8./9,1,1};
static const double f8_a[] = {
 0,0,0,0,0,0,0,0,0,0,0,0,0,
 2./27,0,0,0,0,0,0,0,0,0,0,0,0,
 1./36,1./12,0,0,0,0,0,0,0,0,0,0,0,
 1./24,0,1./8,0,0,0,0,0,0,0,0,0,0,
 5./12,0,-25./16,25./16,0,0,0,0,0,0,0,0,0,
 1./20,0,0,1./4,1./5,0,0,0,0,0,0,0,0,
 -25./108,0,0,125./108,-65./27,125./54,0,0,0,0,0,0,0,
 31./300,0,0,0,61./225,-2./9,13./900,0,0,0,0,0,0,
 2,0,0,-53./6,704./45,-107./9,67./90,3,0,0,0,0,0,
 -91./108,0,0,23./108,-976./135,311./54,-19./60,17./6,-1./12,0,0,0,0,
 2383./4100,0,0,-341./164,4496./1025,-301./82,2133./4100,45./82,45./164,18./41,0,0,0,
 3./205,0,0,0,0,-6./41,-3./205,-3./41,3./41,6./41,0,0,0,
 -1777./4100,0,0,-341./164,4496./1025,-289./82,2193./4100,51./82,33./164,12./41,0,1,0};
static const double f8_b[] = {0,0,0,0,0,34./105,9./35,9./35,9./280,9./280,0,41./840,41./840};
static const double f8_d[] = {-41./840,0,0,0,0,0,0,0,0,0,-41./840,41./840,41./840};
static const double f8_c[] = {0,2./27,1./9,1./6,5./12,1./2,5./6,1./6,2./3,1./3,1,0,1};
static const Tab euler = {1, eu_a, eu_b, 0, eu_c};
static const Tab rk4 = {4, r4_a, r4_b, 0, r4_c};
static const Tab ck = {6, ck_a, ck_b, ck_d, ck_c};
static const Tab dp5 = {7, dp_a, dp_b, dp_d, dp_c};
static const Tab f78 = {13, f8_a, f8_b, f8_d, f8_c};
}
struct RkRef {
    vec out, err, k1, klast;
};
template<class F>
RkRef rk_ref(const Tab &T, F f, const vec &x, double t, double dt)
{
    const int s = T.s;
    const std::size_t n = x.size();
    std::vector<vec> k(s, vec(n));
    for (int i = 0; i < s; ++i) {
        vec y(x);
        for (std::size_t j = 0; j < n; ++j) {
            double sum = 0;
            for (int l = 0; l < i; ++l) sum += T.a[i * s + l] * k[l][j];
            y[j] = x[j] + dt * sum;
        }
        f(y, k[i], t + T.c[i] * dt);
    }
    RkRef r;
    r.out = x;
    r.err.assign(n, 0.0);
    for (std::size_t j = 0; j < n; ++j) {
        double sum = 0, es = 0;
        for (int l = 0; l < s; ++l) { sum += T.b[l] * k[l][j]; if (T.db) es += T.db[l] * k[l][j]; }
        r.out[j] = x[j] + dt * sum;
        r.err[j] = dt * es;
    }
    r.k1 = k[0];
    r.klast = k[s - 1];
    return r;
}
#endif
