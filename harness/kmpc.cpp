// Minimal OpenMP runtime for replay (clang's entry points, POSIX threads): a team of real threads, every
// chunk of a dynamic or runtime schedule run by the thread the counterexample gives it to.
#include "vp.h"
#include <pthread.h>
#include <vector>
#include <cstdint>
#include <cstdarg>

extern std::vector<int> vp_owners;
static std::size_t own_pos = 0;
static int team = 1;
static __thread int tid = 0;
static __thread int level = 0;
static __thread int nloop = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
struct Loop { long long lo, stride, n; std::vector<int> own; };
static std::vector<Loop *> loops;
struct Cur { Loop *l; long long i; };
static __thread Cur cur = { 0, 0 };
static __thread Loop *mine = 0;

typedef void *V;
static void call(V fn, int *g, int *b, int n, V *a)
{
#define T1 int *, int *
    switch (n) {
    case 0: ((void (*)(T1))fn)(g, b); break;
    case 1: ((void (*)(T1, V))fn)(g, b, a[0]); break;
    default:
        // the calling convention lets a callee ignore surplus arguments
        ((void (*)(T1, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V))fn)
            (g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
             a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]);
    }
}
struct Arg { V fn; int n; V *a; int t; };
static void *run(void *p)
{
    Arg *x = (Arg *)p;
    tid = x->t;
    level = 1;
    nloop = 0;
    int g = x->t, b = 0;
    call(x->fn, &g, &b, x->n, x->a);
    return 0;
}

extern "C" {
void __kmpc_fork_call(void *, int n, void *fn, ...)
{
    V a[24] = { 0 };
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < n && i < 24; ++i) a[i] = va_arg(ap, V);
    va_end(ap);
    if (level) {
        ++level;
        int g = tid, b = 0;
        call(fn, &g, &b, n, a);
        --level;
        return;
    }
    for (Loop *l : loops) delete l;
    loops.clear();
    std::vector<pthread_t> th(team);
    std::vector<Arg> arg(team);
    for (int t = 0; t < team; ++t) { Arg x = { fn, n, a, t }; arg[t] = x; pthread_create(&th[t], 0, run, &arg[t]); }
    for (int t = 0; t < team; ++t) pthread_join(th[t], 0);
}
static void init(long long lo, long long up, long long st)
{
    long long n = st > 0 ? (up >= lo ? (up - lo) / st + 1 : 0) : (up <= lo ? (up - lo) / st + 1 : 0);
    Loop *l = 0;
    if (level == 1) {
        pthread_mutex_lock(&mu);
        if (nloop < (int)loops.size()) l = loops[nloop];
        else {
            l = new Loop;
            l->lo = lo; l->stride = st; l->n = n;
            for (long long i = 0; i < n; ++i) {
                int o = own_pos < vp_owners.size() ? vp_owners[own_pos++] : (int)(i % team);
                l->own.push_back(o < team ? o : 0);
            }
            loops.push_back(l);
        }
        ++nloop;
        pthread_mutex_unlock(&mu);
    } else {
        l = mine ? mine : (mine = new Loop);
        l->lo = lo; l->stride = st; l->n = n;
        l->own.assign((std::size_t)n, tid);
        pthread_mutex_lock(&mu);
        own_pos += (std::size_t)n;
        pthread_mutex_unlock(&mu);
    }
    cur.l = l;
    cur.i = 0;
}
static bool next(long long *v, int *last, long long *st)
{
    Loop *l = cur.l;
    while (cur.i < l->n && l->own[(std::size_t)cur.i] != tid) ++cur.i;
    if (cur.i >= l->n) return false;
    *v = l->lo + cur.i * l->stride;
    *last = cur.i == l->n - 1;
    *st = l->stride;
    ++cur.i;
    return true;
}
#define D(S, T) \
    void __kmpc_dispatch_init_##S(void *, int, int, T lo, T up, T st, T) { init((long long)lo, (long long)up, (long long)st); } \
    int __kmpc_dispatch_next_##S(void *, int, int *last, T *lo, T *up, T *st) \
    { long long v, s; if (!next(&v, last, &s)) return 0; *lo = *up = (T)v; *st = (T)s; return 1; } \
    void __kmpc_dispatch_fini_##S(void *, int) {} \
    void __kmpc_for_static_init_##S(void *, int, int, int *last, T *lo, T *up, T *, T, T) \
    { long long a = (long long)*lo, u = (long long)*up, n = u - a + 1, T_ = level == 1 ? team : 1, t = level == 1 ? tid : 0; \
      long long c = n > 0 ? (n + T_ - 1) / T_ : 0, p = a + t * c, q = a + (t + 1) * c - 1; if (q > u) q = u; \
      *last = n > 0 && p <= u && q == u; *lo = (T)p; *up = (T)q; }
D(4, int) D(4u, unsigned) D(8, long long) D(8u, unsigned long long)
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_barrier(void *, int) {}
int __kmpc_global_thread_num(void *) { return tid; }
int __kmpc_reduce_nowait(void *, int, int, std::size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&mu); return 1; }
void __kmpc_end_reduce_nowait(void *, int, void *) { pthread_mutex_unlock(&mu); }
int __kmpc_reduce(void *, int, int, std::size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&mu); return 1; }
void __kmpc_end_reduce(void *, int, void *) { pthread_mutex_unlock(&mu); }
void __kmpc_critical(void *, int, void *) { pthread_mutex_lock(&mu); }
void __kmpc_end_critical(void *, int, void *) { pthread_mutex_unlock(&mu); }
void __kmpc_push_num_threads(void *, int, int n) {}
void omp_set_num_threads(int n) { team = n; }
int omp_get_num_threads(void) { return level == 1 ? team : 1; }
int omp_get_max_threads(void) { return team; }
int omp_get_thread_num(void) { return level == 1 ? tid : 0; }
int omp_get_num_procs(void) { return team; }
int omp_get_thread_limit(void) { return team; }
int omp_in_parallel(void) { return level > 0 && team > 1; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic(void) { return 0; }
void vp_omp_team(int n) { team = n; }
void vp_omp_mode(int) {}
}
