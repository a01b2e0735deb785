/* what the OpenMP adaptors of odeint use of omp.h; the runtime is harness/kmpc.cpp or the compiler's own */
#ifndef VP_OMP_H
#define VP_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
int omp_get_thread_limit(void);
void omp_set_nested(int);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
