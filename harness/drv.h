#ifndef DRV_H
#define DRV_H
#include <sched.h>
#include <stdint.h>
void *sym(int p, const char *n);
void out(const char *f, ...); void xout(const char *f, ...);
char *cap_start(void); char *cap_end(void);
cpu_set_t mk(uint64_t m); uint64_t km(const cpu_set_t *s);
void set_callbacks(int p);
static inline void set_callbacks_pre(int p) { (void)p; }
int run_extra(int p, const char *name, char **a, int na, int *ret);
void dump_extra(char d);
void after_init(int p, int ok);
extern int64_t time_unit; int tu(int64_t); void jname(void (*o)(const char*, ...), const char*);
int sim_nproc(void); int sim_ncpus(void); const char *sim_key(void);
#endif
