/* Declarations of the OpenMP runtime's user interface for the analysis front end (clang is installed without its own omp.h).
   Found behind every other include directory; the build itself uses the compiler's header. */
#ifndef OTFFT_SA_OMP_H
#define OTFFT_SA_OMP_H 1
#ifdef __cplusplus
extern "C" {
#define OMP_NX noexcept
#else
#define OMP_NX
#endif
typedef enum omp_sched_t { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4, omp_sched_monotonic = 0x80000000U } omp_sched_t;
typedef enum omp_proc_bind_t { omp_proc_bind_false = 0, omp_proc_bind_true = 1, omp_proc_bind_master = 2, omp_proc_bind_primary = 2, omp_proc_bind_close = 3, omp_proc_bind_spread = 4 } omp_proc_bind_t;
typedef struct { void* p; } omp_lock_t;
typedef struct { void* p; int c; } omp_nest_lock_t;
typedef unsigned long omp_lock_hint_t;
typedef unsigned long omp_sync_hint_t;
extern void omp_set_num_threads(int) OMP_NX;
extern int omp_get_num_threads(void) OMP_NX;
extern int omp_get_max_threads(void) OMP_NX;
extern int omp_get_thread_num(void) OMP_NX;
extern int omp_get_num_procs(void) OMP_NX;
extern int omp_in_parallel(void) OMP_NX;
extern void omp_set_dynamic(int) OMP_NX;
extern int omp_get_dynamic(void) OMP_NX;
extern void omp_set_nested(int) OMP_NX;
extern int omp_get_nested(void) OMP_NX;
extern void omp_set_schedule(omp_sched_t, int) OMP_NX;
extern void omp_get_schedule(omp_sched_t*, int*) OMP_NX;
extern int omp_get_thread_limit(void) OMP_NX;
extern void omp_set_max_active_levels(int) OMP_NX;
extern int omp_get_max_active_levels(void) OMP_NX;
extern int omp_get_supported_active_levels(void) OMP_NX;
extern int omp_get_level(void) OMP_NX;
extern int omp_get_ancestor_thread_num(int) OMP_NX;
extern int omp_get_team_size(int) OMP_NX;
extern int omp_get_active_level(void) OMP_NX;
extern int omp_in_final(void) OMP_NX;
extern int omp_get_cancellation(void) OMP_NX;
extern omp_proc_bind_t omp_get_proc_bind(void) OMP_NX;
extern int omp_get_num_places(void) OMP_NX;
extern int omp_get_place_num(void) OMP_NX;
extern int omp_get_default_device(void) OMP_NX;
extern int omp_get_num_devices(void) OMP_NX;
extern int omp_is_initial_device(void) OMP_NX;
extern int omp_get_num_teams(void) OMP_NX;
extern int omp_get_team_num(void) OMP_NX;
extern int omp_get_max_task_priority(void) OMP_NX;
extern double omp_get_wtime(void) OMP_NX;
extern double omp_get_wtick(void) OMP_NX;
extern void omp_init_lock(omp_lock_t*) OMP_NX;
extern void omp_destroy_lock(omp_lock_t*) OMP_NX;
extern void omp_set_lock(omp_lock_t*) OMP_NX;
extern void omp_unset_lock(omp_lock_t*) OMP_NX;
extern int omp_test_lock(omp_lock_t*) OMP_NX;
extern void omp_init_nest_lock(omp_nest_lock_t*) OMP_NX;
extern void omp_destroy_nest_lock(omp_nest_lock_t*) OMP_NX;
extern void omp_set_nest_lock(omp_nest_lock_t*) OMP_NX;
extern void omp_unset_nest_lock(omp_nest_lock_t*) OMP_NX;
extern int omp_test_nest_lock(omp_nest_lock_t*) OMP_NX;
#ifdef __cplusplus
}
#endif
#undef OMP_NX
#endif
