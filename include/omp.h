#pragma once
// Declarations only: used when clang parses /repo's sources for extraction
// (clang's own omp.h is not installed).  Never linked.
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void);
int omp_get_num_procs(void); int omp_in_parallel(void); void omp_set_num_threads(int);
int omp_get_dynamic(void); void omp_set_dynamic(int); int omp_get_nested(void); void omp_set_nested(int);
int omp_get_thread_limit(void); int omp_get_level(void); double omp_get_wtime(void); double omp_get_wtick(void);
typedef void* omp_lock_t; void omp_init_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
