/* minimal stand-in so that clang (without libomp headers) can type check the OpenMP code; never linked or run */
#ifndef RK_OMP_H
#define RK_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *p; } omp_lock_t;
typedef struct { void *p; } omp_nest_lock_t;
int omp_get_num_procs(void); int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void);
void omp_set_num_threads(int); int omp_in_parallel(void); void omp_set_dynamic(int); int omp_get_dynamic(void);
void omp_set_nested(int); int omp_get_nested(void); int omp_get_thread_limit(void); int omp_get_level(void);
void omp_init_lock(omp_lock_t *); void omp_destroy_lock(omp_lock_t *); void omp_set_lock(omp_lock_t *); void omp_unset_lock(omp_lock_t *); int omp_test_lock(omp_lock_t *);
double omp_get_wtime(void); double omp_get_wtick(void);
#ifdef __cplusplus
}
#endif
#endif
