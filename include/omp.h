/* Minimal OpenMP runtime API used only for parsing (never linked). */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
typedef struct { void *_lk; } omp_lock_t;
typedef struct { void *_lk; } omp_nest_lock_t;
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_num_devices(void);
int omp_get_default_device(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
#endif
