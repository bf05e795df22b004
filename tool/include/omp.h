/* Declarations of the OpenMP run-time API for analysis only: gcc's own <omp.h>
 * uses attributes clang rejects.  Never compiled into anything. */
#ifndef SLATV_OMP_H
#define SLATV_OMP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#define SLATV_NT throw()
#else
#define SLATV_NT
#endif
typedef struct { unsigned char _x[4]; } omp_lock_t;
typedef struct { unsigned char _x[16]; } omp_nest_lock_t;
typedef enum { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
typedef enum { omp_lock_hint_none = 0 } omp_lock_hint_t;
extern void omp_set_num_threads(int) SLATV_NT;
extern int omp_get_num_threads(void) SLATV_NT;
extern int omp_get_max_threads(void) SLATV_NT;
extern int omp_get_thread_num(void) SLATV_NT;
extern int omp_get_num_procs(void) SLATV_NT;
extern int omp_in_parallel(void) SLATV_NT;
extern void omp_set_dynamic(int) SLATV_NT;
extern int omp_get_dynamic(void) SLATV_NT;
extern void omp_set_nested(int) SLATV_NT;
extern int omp_get_nested(void) SLATV_NT;
extern void omp_init_lock(omp_lock_t *) SLATV_NT;
extern void omp_init_lock_with_hint(omp_lock_t *, omp_lock_hint_t) SLATV_NT;
extern void omp_destroy_lock(omp_lock_t *) SLATV_NT;
extern void omp_set_lock(omp_lock_t *) SLATV_NT;
extern void omp_unset_lock(omp_lock_t *) SLATV_NT;
extern int omp_test_lock(omp_lock_t *) SLATV_NT;
extern void omp_init_nest_lock(omp_nest_lock_t *) SLATV_NT;
extern void omp_destroy_nest_lock(omp_nest_lock_t *) SLATV_NT;
extern void omp_set_nest_lock(omp_nest_lock_t *) SLATV_NT;
extern void omp_unset_nest_lock(omp_nest_lock_t *) SLATV_NT;
extern int omp_test_nest_lock(omp_nest_lock_t *) SLATV_NT;
extern double omp_get_wtime(void) SLATV_NT;
extern double omp_get_wtick(void) SLATV_NT;
extern void omp_set_schedule(omp_sched_t, int) SLATV_NT;
extern void omp_get_schedule(omp_sched_t *, int *) SLATV_NT;
extern int omp_get_thread_limit(void) SLATV_NT;
extern void omp_set_max_active_levels(int) SLATV_NT;
extern int omp_get_max_active_levels(void) SLATV_NT;
extern int omp_get_supported_active_levels(void) SLATV_NT;
extern int omp_get_level(void) SLATV_NT;
extern int omp_get_ancestor_thread_num(int) SLATV_NT;
extern int omp_get_team_size(int) SLATV_NT;
extern int omp_get_active_level(void) SLATV_NT;
extern int omp_in_final(void) SLATV_NT;
extern int omp_get_cancellation(void) SLATV_NT;
extern int omp_is_initial_device(void) SLATV_NT;
extern int omp_get_num_teams(void) SLATV_NT;
extern int omp_get_team_num(void) SLATV_NT;
#ifdef __cplusplus
}
#endif
#endif
