// Native side of the harness primitives: replays a solver model against the
// real compiled code (and, with "trace", prints every checked value so that the
// IR executor can be validated against the machine code).
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>

struct Sys { int id; std::vector<double> a, o; };
static std::vector<std::pair<char, double> > ins;
static std::size_t pos = 0;
static std::vector<Sys> table;
static bool trace = false;
static int fails = 0;
struct Stop {};

static void fail(const char *m, double a = 0, double b = 0)
{
    ++fails;
    std::printf("VPFAIL %s  [%.17g vs %.17g]\n", m, a, b);
    std::fflush(stdout);
}

extern "C" {
double vp_real(double lo, double hi)
{
    if (pos >= ins.size() || ins[pos].first != 'r') { std::printf("VPDIVERGED\n"); std::fflush(stdout); _exit(3); }
    return ins[pos++].second;
}
unsigned vp_choose(unsigned)
{
    if (pos >= ins.size() || ins[pos].first != 'c') { std::printf("VPDIVERGED\n"); std::fflush(stdout); _exit(3); }
    return (unsigned)ins[pos++].second;
}
void vp_assume(bool b)
{
    if (!b) { std::printf("VPASSUME\n"); std::fflush(stdout); _exit(fails ? 1 : 4); }
}
void vp_assert(bool b, const char *m) { if (trace) std::printf("A %d\n", (int)b); if (!b) fail(m); }
void vp_near(double a, double b, double tol, const char *m)
{
    if (trace) std::printf("N %a %a\n", a, b);
    bool ok = (a == b) || (std::fabs(a - b) <= tol) || (std::isnan(a) && std::isnan(b));
    if (!ok) fail(m, a, b);
}
void vp_sys(int id, const double *x, std::size_t n, double t, double *out, std::size_t m, double)
{
    std::vector<double> a(x, x + n);
    a.push_back(t);
    const Sys *best = 0;
    double bd = 1e-6;
    for (std::size_t i = 0; i < table.size(); ++i) {
        const Sys &s = table[i];
        if (s.id != id || s.a.size() != a.size() || s.o.size() != m) continue;
        double d = 0;
        for (std::size_t j = 0; j < a.size(); ++j) {
            double e = std::fabs(s.a[j] - a[j]) / (1.0 + std::fabs(a[j]));
            if (!(e <= d)) d = e;
        }
        if (d < bd) { bd = d; best = &s; }
    }
    if (best) { for (std::size_t i = 0; i < m; ++i) out[i] = best->o[i]; return; }
    for (std::size_t i = 0; i < m; ++i) {
        double s = 0.25 * (double)(i + 1) + 0.125 * id, c = 0.5;
        for (std::size_t j = 0; j < a.size(); ++j) { s = s + c * a[j]; c = c * -0.75; }
        out[i] = s / (1.0 + s * s) + 0.0625 * (double)(i + 1) * s;
    }
}
void vp_cut(const char *) { std::printf("VPCUT\n"); std::fflush(stdout); _exit(fails ? 1 : 0); }
void vp_stop() { std::fflush(stdout); _exit(fails ? 1 : 0); }
void vp_log(double x) { if (trace) std::printf("L %a\n", x); }
bool vp_symbolic() { return false; }
int vp_live(const void *p) { return 1; }
}
extern "C" __attribute__((weak)) void vp_omp_team(int) {}
extern "C" __attribute__((weak)) void vp_omp_mode(int) {}
std::vector<int> vp_owners;   // chunk -> thread, in the order of the parallel loops (see kmpc.cpp)

int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    trace = argc > 3 && !std::strcmp(argv[3], "trace");
    FILE *f = std::fopen(argv[2], "r");
    if (!f) return 2;
    char k[8];
    while (std::fscanf(f, "%7s", k) == 1) {
        if (k[0] == 's') {
            int id; std::size_t n, m;
            if (std::fscanf(f, "%d %zu %zu", &id, &n, &m) != 3) return 2;
            Sys s; s.id = id; s.a.resize(n); s.o.resize(m);
            for (auto &x : s.a) { if (std::fscanf(f, "%lf", &x) != 1) return 2; }
            for (auto &x : s.o) { if (std::fscanf(f, "%lf", &x) != 1) return 2; }
            table.push_back(s);
        } else {
            double v;
            if (std::fscanf(f, "%lf", &v) != 1) return 2;
            if (k[0] == 'o') vp_owners.push_back((int)v);
            else ins.push_back(std::make_pair(k[0], v));
        }
    }
    std::fclose(f);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { std::printf("no entry %s\n", argv[1]); return 2; }
    try { fn(); }
    catch (std::exception &e) { std::printf("VPFAIL uncaught C++ exception: %s\n", e.what()); fails++; }
    catch (...) { std::printf("VPFAIL uncaught C++ exception\n"); fails++; }
    std::fflush(stdout);
    return fails ? 1 : 0;
}
