/* Simulation runtime: replaces the OS services the library uses (shared memory,
 * pids, clock, threads and blocking primitives) by deterministic ones, so that
 * several copies of the library run as several processes inside one OS process
 * and every interleaving is under the driver's control. */
#define _GNU_SOURCE
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/stat.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <stdbool.h>

int sim_proc = 0;
int sim_conc = 0;
int64_t sim_clock = 1000000000LL;
int64_t sim_clock_step = 1000;
unsigned char sim_dead[4096];
int sim_pid_of[MAXP+1];
cpu_set_t sim_affinity[MAXP+1];

#define REAL(name) ({ static __typeof__(&name) p_; if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

/* ---------------------------------------------------------------- fibers */
enum { W_NONE, W_COND, W_MUTEX, W_JOIN, W_BARRIER, W_POLL, W_YIELD, W_RW };
struct fiber { ucontext_t ctx; int proc, kind, done, wait; void *obj; int signaled; unsigned gen; int polls;
    fib_fn fn; void *arg, *res; char *stk; fiber_t *next; int64_t wake; };
static fiber_t *fibs; static fiber_t *cur; static ucontext_t main_ctx;
#define STK (256*1024)
fiber_t *fib_current(void) { return cur; }
fiber_t *fib_list(void) { return fibs; }
fiber_t *fib_next(fiber_t*f) { return f->next; }
int fib_proc(fiber_t*f) { return f->proc; }
int fib_kind(fiber_t*f) { return f->kind; }
int fib_done(fiber_t *f) { return f->done; }
void *fib_result(fiber_t *f) { return f->res; }
static void tramp(void) { fiber_t *f = cur; f->res = f->fn(f->arg); f->done = 1; cur = NULL;
    setcontext(&main_ctx); }
static char *stk_cache[64]; static int nstk;
fiber_t *fib_new(int proc, fib_fn fn, void *arg, int kind) {
    fiber_t *f = calloc(1, sizeof *f); f->proc = proc; f->kind = kind; f->fn = fn; f->arg = arg;
    f->stk = nstk ? stk_cache[--nstk] : mmap(0, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stk; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = 0;
    makecontext(&f->ctx, tramp, 0);
    fiber_t **q = &fibs; while (*q) q = &(*q)->next; *q = f;
    return f;
}
void fib_free(fiber_t *f) { fiber_t **q = &fibs; while (*q && *q != f) q = &(*q)->next; if (*q) *q = f->next;
    if (nstk < 64) stk_cache[nstk++] = f->stk; else munmap(f->stk, STK); free(f); }
void fib_yield(void) { fiber_t *f = cur; if (!f) return; cur = NULL; swapcontext(&f->ctx, &main_ctx); }
static int mutex_free(void *m) { if (REAL(pthread_mutex_trylock)(m) == 0) { REAL(pthread_mutex_unlock)(m); return 1; } return 0; }
typedef struct { unsigned magic, count, arrived, gen; } simbar_t;
void fib_kill(int proc) { for (fiber_t *f = fibs; f; f = f->next) if (f->proc == proc) f->done = 1; }
int fib_blocked(fiber_t *f) {
    if (f->done) return 1;
    switch (f->wait) {
        case W_COND: return !f->signaled;
        case W_MUTEX: return !mutex_free(f->obj);
        case W_JOIN: return !((fiber_t*)f->obj)->done;
        case W_BARRIER: return ((simbar_t*)f->obj)->gen == f->gen;
        case W_POLL: return f->polls > 3;
        default: return 0;
    }
}
int fib_step(fiber_t *f) {
    if (f->done) return 0;
    int op = sim_proc; sim_proc = f->proc; cur = f;
    swapcontext(&main_ctx, &f->ctx); cur = NULL; sim_proc = op; return 1;
}
void fib_quiesce(int with_helpers) {
    for (fiber_t *f = fibs; f; f = f->next) f->polls = 0;
    int prog = 1, guard = 0;
    while (prog && ++guard < 100000) { prog = 0;
        for (fiber_t *f = fibs, *n; f; f = n) { n = f->next;
            if ((f->kind == 1 && !with_helpers) || fib_blocked(f)) continue;
            int waspoll = f->wait == W_POLL; int p = f->polls;
            fib_step(f);
            if (!f->done && f->wait == W_POLL) { f->polls = waspoll ? p+1 : 1; }
            else if (f->done || f->wait != W_POLL) for (fiber_t *g = fibs; g; g = g->next) if (g != f) g->polls = 0;
            prog = 1; } }
}
static void block(int why, void *obj) { cur->wait = why; cur->obj = obj; fib_yield(); }

/* a point at which, in concurrency mode, the scheduler may switch */
void sim_point(void) { if (sim_conc && cur) { cur->wait = W_YIELD; fib_yield(); cur->wait = W_NONE; } }

/* ---------------------------------------------------------------- threads */
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg) {
    (void)a; fiber_t *f = fib_new(sim_proc, fn, arg, 1); *t = (pthread_t)f; return 0; }
int pthread_join(pthread_t t, void **r) { fiber_t *f = (fiber_t*)t;
    while (!f->done) { if (cur) block(W_JOIN, f); else fib_quiesce(1); }
    if (cur) cur->wait = W_NONE;
    if (r) *r = f->res; fib_free(f); return 0; }
pthread_t pthread_self(void) { return (pthread_t)(cur ? (void*)cur : (void*)&main_ctx); }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!cur) return REAL(pthread_mutex_lock)(m);
    sim_point();
    while (REAL(pthread_mutex_trylock)(m) != 0) block(W_MUTEX, m);
    cur->wait = W_NONE; return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { (void)ts;
    if (!cur) return REAL(pthread_mutex_trylock)(m) == 0 ? 0 : ETIMEDOUT;
    sim_point();
    if (REAL(pthread_mutex_trylock)(m) == 0) return 0;
    for (int i = 0; i < 64; i++) { cur->wait = sim_conc ? W_MUTEX : W_POLL; cur->obj = m; if (sim_conc) i = 0; fib_yield();
        if (REAL(pthread_mutex_trylock)(m) == 0) { cur->wait = W_NONE; return 0; } }
    cur->wait = W_NONE; return ETIMEDOUT; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!cur) { fprintf(stderr, "cond_wait outside fiber\n"); abort(); }
    REAL(pthread_mutex_unlock)(m); cur->signaled = 0; block(W_COND, c);
    while (REAL(pthread_mutex_trylock)(m) != 0) block(W_MUTEX, m);
    cur->wait = W_NONE; return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void)t; return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t *c) { for (fiber_t *f = fibs; f; f = f->next)
    if (!f->done && f->wait == W_COND && f->obj == c && !f->signaled) { f->signaled = 1; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { for (fiber_t *f = fibs; f; f = f->next)
    if (!f->done && f->wait == W_COND && f->obj == c) f->signaled = 1; return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) { (void)a;
    simbar_t *s = (simbar_t*)b; if (n == 0) return EINVAL; *s = (simbar_t){0xBA55, n, 0, 0}; return 0; }
int pthread_barrier_destroy(pthread_barrier_t *b) { simbar_t *s = (simbar_t*)b; s->magic = 0; return 0; }
int pthread_barrier_wait(pthread_barrier_t *b) { simbar_t *s = (simbar_t*)b;
    sim_point();
    if (++s->arrived >= s->count) { s->arrived = 0; s->gen++; return PTHREAD_BARRIER_SERIAL_THREAD; }
    if (!cur) abort();
    cur->gen = s->gen; block(W_BARRIER, s); cur->wait = W_NONE; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!cur) return REAL(pthread_rwlock_rdlock)(l); sim_point();
    while (REAL(pthread_rwlock_tryrdlock)(l) != 0) block(W_POLL, l);
    cur->wait = W_NONE; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!cur) return REAL(pthread_rwlock_wrlock)(l); sim_point();
    while (REAL(pthread_rwlock_trywrlock)(l) != 0) block(W_POLL, l);
    cur->wait = W_NONE; return 0; }
int sim_sleepclk = 1;
int usleep(useconds_t us) { if (sim_sleepclk) sim_clock += (int64_t)us * 1000; if (cur) { block(W_POLL, 0); cur->wait = W_NONE; } return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; if (sim_sleepclk) sim_clock += a->tv_sec*1000000000LL + a->tv_nsec; if (cur) { block(W_POLL, 0); cur->wait = W_NONE; } return 0; }
int sched_yield(void) { if (cur) { block(W_POLL, 0); cur->wait = W_NONE; } return 0; }
int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { (void)t; (void)n; (void)s; return 0; }
int pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { (void)t; memset(s, 0, n); memcpy(s, &sim_affinity[sim_proc], n < sizeof(cpu_set_t) ? n : sizeof(cpu_set_t)); return 0; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { (void)p; memset(s, 0, n); memcpy(s, &sim_affinity[sim_proc], n < sizeof(cpu_set_t) ? n : sizeof(cpu_set_t)); return 0; }

/* ---------------------------------------------------------------- pids, clock */
pid_t getpid(void) { return sim_pid_of[sim_proc]; }
int kill(pid_t pid, int sig) { (void)sig; if (pid <= 0 || pid >= 4096 || sim_dead[pid]) { errno = ESRCH; return -1; } return 0; }
int clock_gettime(clockid_t id, struct timespec *t) { (void)id; sim_clock += sim_clock_step;
    t->tv_sec = sim_clock / 1000000000LL; t->tv_nsec = sim_clock % 1000000000LL; return 0; }

int sim_parent[4096];
FILE *fopen(const char *path, const char *mode) { int pid;
    if (sscanf(path, "/proc/%d/status", &pid) == 1) { static char b[64]; int n = snprintf(b, sizeof b, "Name:\tx\nPPid:\t%d\n", pid > 0 && pid < 4096 ? sim_parent[pid] : 0);
        return fmemopen(b, n, "r"); }
    return REAL(fopen)(path, mode); }
/* ---------------------------------------------------------------- shared memory */
typedef struct { char name[128]; int fd, live; void *addr; size_t size; int maps; } seg_t;
static seg_t segs[256]; static int nsegs; static seg_t *fd2seg[1024];
static seg_t *seg_live(const char *n) { for (int i = 0; i < nsegs; i++) if (segs[i].live && !strcmp(segs[i].name, n)) return &segs[i]; return 0; }
int shm_open(const char *name, int flags, mode_t mode) { (void)mode;
    if (!name[0] || strchr(name+1, '/')) { errno = EINVAL; return -1; }
    seg_t *s = seg_live(name);
    if (s && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!s) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (nsegs == 256) abort();
        s = &segs[nsegs++]; *s = (seg_t){.live = 1}; snprintf(s->name, sizeof s->name, "%s", name); s->fd = memfd_create("sim", 0); }
    int fd = dup(s->fd); if (fd < 0 || fd >= 1024) abort();
    fd2seg[fd] = s; return fd; }
int shm_unlink(const char *name) { seg_t *s = (name[0] == '/' && !strchr(name+1, '/')) ? seg_live(name) : 0;
    if (!s) { errno = ENOENT; return -1; } s->live = 0; return 0; }
#define SEGMAX (4u<<20)
static void seg_addr(seg_t *s) { if (!s->addr) s->addr = REAL(mmap)(0, SEGMAX + 4096, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); }
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    seg_t *s = fd >= 0 && fd < 1024 ? fd2seg[fd] : 0;
    if (!s) return REAL(mmap)(a, n, prot, fl, fd, off);
    seg_addr(s); s->maps++; return s->addr; }
/* the size of a segment is that of its file: what lies beyond cannot be accessed, and shrinking loses the data */
static int seg_resize(int fd, off_t n, int shrink) { seg_t *s = fd >= 0 && fd < 1024 ? fd2seg[fd] : 0; if (!s) { errno = EBADF; return -1; }
    if (n > SEGMAX) { errno = ENOSPC; return -1; }
    if (!shrink && (size_t)n <= s->size) return 0;
    seg_addr(s); size_t a = (s->size + 4095) & ~4095ul, b = ((size_t)n + 4095) & ~4095ul;
    if (b > a) mprotect((char*)s->addr + a, b - a, PROT_READ|PROT_WRITE);
    if ((size_t)n < s->size) memset((char*)s->addr + n, 0, s->size - n);
    if (b < a) mprotect((char*)s->addr + b, a - b, PROT_NONE);
    s->size = n; return REAL(ftruncate)(s->fd, n); }
int ftruncate(int fd, off_t n) { if (fd >= 0 && fd < 1024 && fd2seg[fd]) return seg_resize(fd, n, 1); return REAL(ftruncate)(fd, n); }
int posix_fallocate(int fd, off_t o, off_t n) { if (fd >= 0 && fd < 1024 && fd2seg[fd]) return seg_resize(fd, o + n, 0) ? errno : 0; return REAL(posix_fallocate)(fd, o, n); }
int fallocate(int fd, int mode, off_t o, off_t n) { if (fd >= 0 && fd < 1024 && fd2seg[fd]) return seg_resize(fd, o + n, 0); return REAL(fallocate)(fd, mode, o, n); }
int munmap(void *a, size_t n) { for (int i = 0; i < nsegs; i++) if (segs[i].addr == a && a) { segs[i].maps--; return 0; }
    return REAL(munmap)(a, n); }
/* a segment has its name until it is removed */
int fstat(int fd, struct stat *b) { seg_t *s = fd >= 0 && fd < 1024 ? fd2seg[fd] : 0; int e = REAL(fstat)(fd, b);
    if (s && !e) { b->st_nlink = s->live; b->st_size = s->size; } return e; }
int close(int fd) { if (fd >= 0 && fd < 1024) fd2seg[fd] = 0; return REAL(close)(fd); }
int access(const char *p, int m) { if (!strncmp(p, "/dev/shm/DLB_", 13)) { if (seg_live(p + 8)) return 0; errno = ENOENT; return -1; }
    return REAL(access)(p, m); }
int sim_shm_exists(const char *pre) { int k = 0; for (int i = 0; i < nsegs; i++) if (segs[i].live && !strncmp(segs[i].name, pre, strlen(pre))) k++; return k; }
void *sim_shm_find(const char *n, size_t *sz) { seg_t *s = seg_live(n); if (!s) return 0; if (sz) *sz = s->size; return s->addr; }
int sim_is_shared(const void *a) { for (int i = 0; i < nsegs; i++) if (segs[i].addr && (const char*)a >= (char*)segs[i].addr && (const char*)a < (char*)segs[i].addr + segs[i].size) return 1; return 0; }
