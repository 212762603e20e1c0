#ifndef SYM_OMP_H
#define SYM_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); int omp_get_num_procs(); double omp_get_wtime(); double omp_get_wtick(); int omp_in_parallel(); int omp_get_thread_limit(); int omp_get_level(); int omp_get_active_level(); void omp_set_dynamic(int); int omp_get_dynamic(); void omp_set_nested(int); int omp_get_nested(); void omp_set_max_active_levels(int); int omp_get_max_active_levels();
typedef struct { unsigned char x[4]; } omp_lock_t; void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
