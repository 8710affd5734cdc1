#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#define MAXP 12           /* simulated processes 1..MAXP (0 = external observer) */
typedef void* (*fib_fn)(void*);
typedef struct fiber fiber_t;
extern int sim_proc;              /* process whose code is running now */
extern int sim_conc;              /* concurrency mode: yield at sync/shared accesses */
extern int64_t sim_clock;         /* ns */
extern int64_t sim_clock_step;    /* added at each clock_gettime */
extern unsigned char sim_dead[4096];
extern int sim_pid_of[MAXP+1];
extern int sim_sleepclk;         /* sleeping advances the clock */
extern int sim_parent[4096];     /* parent of a pid */
fiber_t *fib_new(int proc, fib_fn fn, void *arg, int kind);   /* kind 0 app, 1 helper */
int  fib_done(fiber_t *f);
void *fib_result(fiber_t *f);
void fib_free(fiber_t *f);
int  fib_step(fiber_t *f);        /* run until next yield; 1 if it made progress */
void fib_kill(int proc);         /* the process crashes */
int  fib_blocked(fiber_t *f);
void fib_quiesce(int with_helpers);
fiber_t *fib_list(void); fiber_t *fib_next(fiber_t*); int fib_proc(fiber_t*); int fib_kind(fiber_t*);
fiber_t *fib_current(void);
void fib_yield(void);
int  sim_shm_exists(const char *prefix);   /* number of live segments with that prefix */
void sim_shm_reset(void);
void *sim_shm_find(const char *name, size_t *size);
#endif
