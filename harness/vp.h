// Harness primitives: interpreted by vp/engine.py (symbolically), implemented
// by harness/native.cpp (replay and translator validation).
#ifndef VP_H
#define VP_H
#include <cstddef>
extern "C" {
double vp_real(double lo, double hi);              // any real in [lo,hi]
unsigned vp_choose(unsigned n);                    // any of 0..n-1
void vp_assume(bool);
void vp_assert(bool, const char *msg);
void vp_near(double a, double b, double tol, const char *msg);
// arbitrary function of (x[0..n), t) -> out[0..m), each |out| <= B; same arguments, same result
void vp_sys(int id, const double *x, std::size_t n, double t, double *out, std::size_t m, double B);
[[noreturn]] void vp_cut(const char *msg);         // bound reached: the rest of the path is outside the claim
[[noreturn]] void vp_stop();                       // end of path, everything checked
void vp_log(double);
bool vp_symbolic();
int vp_live(const void *);
void vp_omp_team(int n);                           // threads of a parallel region
void vp_omp_mode(int m);                           // chunks of a loop: 0 to any thread, 1 in turns, 2 to the last thread
}
#define VP_ENTRY(name) extern "C" void h_##name()
#endif
