/* Driver: runs scripts of operations ("walks") against N copies of the library,
 * each one playing one process of the node, and prints one JSON line per op. */
#define _GNU_SOURCE
#include "sim.h"
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_talp.h"
#include "apis/dlb_errors.h"
#include "LB_core/DLB_kernel.h"
#include "LB_comm/shmem_talp.h"
#include "LB_comm/shmem_barrier.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <inttypes.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "drv.h"

static void *lib[MAXP+1];
static int nproc = 3, ncpus = 4, ncores = 4, nnodes = 1, cbmode = 0, helper_auto = 1;
static char key[64] = "k"; static char dumps[32] = "";
extern cpu_set_t sim_affinity[];
void *sym(int p, const char *n) { void *f = dlsym(lib[p], n); if (!f) { printf("{\"nosym\":\"%s\"}\n", n); fflush(stdout); _exit(3);} return f; }
#define CALL(p, type, name, ...) ({ int o_ = sim_proc; sim_proc = (p); type r_ = ((__typeof__(&name))sym(p, #name))(__VA_ARGS__); sim_proc = o_; r_; })
#define VCALL(p, name, ...) ({ int o_ = sim_proc; sim_proc = (p); ((__typeof__(&name))sym(p, #name))(__VA_ARGS__); sim_proc = o_; })

/* ------------------------------------------------------------ output buffer */
static char *ob; static size_t on, oc;
void out(const char *f, ...) { va_list l; for (;;) { if (oc - on < 4096) { oc = oc*2 + 16384; ob = realloc(ob, oc); }
    va_start(l, f); int k = vsnprintf(ob+on, oc-on, f, l); va_end(l); if (k < (int)(oc-on)) { on += k; break; } oc = oc*2 + k; ob = realloc(ob, oc);} }
static void flush_out(void) { size_t w = 0; while (w < on) { ssize_t k = write(1, ob+w, on-w); if (k <= 0) _exit(4); w += k; } on = 0; }

/* ------------------------------------------------------------ capture */
static char *cap; static size_t capn, capc; static int capturing; static int nwarn;
void hw_capture(int kind, const char *msg) { if (kind == 1) { nwarn++; return; } if (!capturing) return;
    size_t l = strlen(msg) + 2; if (capn + l > capc) { capc = (capn+l)*2; cap = realloc(cap, capc); }
    memcpy(cap+capn, msg, l-2); capn += l-2; cap[capn++] = '\n'; cap[capn] = 0; }
char *cap_start(void) { capn = 0; if (!cap) cap = malloc(capc = 65536); cap[0] = 0; capturing = 1; return cap; }
char *cap_end(void) { capturing = 0; return cap; }

/* ------------------------------------------------------------ masks */
cpu_set_t mk(uint64_t m) { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; i++) if (m >> i & 1) CPU_SET(i, &s); return s; }
uint64_t km(const cpu_set_t *s) { uint64_t m = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, s)) m |= 1ull << i; return m; }
void out_set(uint64_t m) { out("["); const char *c = ""; for (int i = 0; i < 64; i++) if (m >> i & 1) { out("%s%d", c, i); c = ","; } out("]"); }
uint64_t parse_list(const char *s, const char **end) { /* "[0-3,5]" */ uint64_t m = 0; while (*s && *s != '[') s++; if (*s) s++;
    while (*s && *s != ']') { int a = strtol(s, (char**)&s, 10), b = a; if (*s == '-') b = strtol(s+1, (char**)&s, 10);
        for (int i = a; i <= b && i < 64; i++) m |= 1ull << i; if (*s == ',') s++; else if (*s != ']') break; }
    if (*s) s++; if (end) *end = s; return m; }

/* ------------------------------------------------------------ callbacks */
static char cbb[65536]; static size_t cbn; int cb_block = 0;
static void cb_add(int p, const char *k, int v) { cbn += snprintf(cbb+cbn, sizeof cbb - cbn, "%s[%d,\"%s\",%d]", cbn ? "," : "", p, k, v); }
static void cb_en(int c, void *a) { cb_add((intptr_t)a, "E", c); }
static void cb_dis(int c, void *a) { cb_add((intptr_t)a, "D", c); }
static void cb_nt(int n, void *a) { cb_add((intptr_t)a, "T", n); }
static void cb_pm(const_dlb_cpu_set_t m, void *a) { cb_add((intptr_t)a, "P", (int)km(m)); }
static void cb_ens(const_dlb_cpu_set_t m, void *a) { for (int i = 0; i < 64; i++) if (CPU_ISSET(i, (cpu_set_t*)m)) cb_en(i, a); }
static void cb_diss(const_dlb_cpu_set_t m, void *a) { for (int i = 0; i < 64; i++) if (CPU_ISSET(i, (cpu_set_t*)m)) cb_dis(i, a); }
void set_callbacks(int p) { void *a = (void*)(intptr_t)p;
    CALL(p, int, DLB_CallbackSet, dlb_callback_enable_cpu, (dlb_callback_t)cb_en, a);
    CALL(p, int, DLB_CallbackSet, dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, a);
    CALL(p, int, DLB_CallbackSet, dlb_callback_set_num_threads, (dlb_callback_t)cb_nt, a);
    CALL(p, int, DLB_CallbackSet, dlb_callback_set_process_mask, (dlb_callback_t)cb_pm, a);
    if (cbmode) { CALL(p, int, DLB_CallbackSet, dlb_callback_enable_cpu_set, (dlb_callback_t)cb_ens, a);
        CALL(p, int, DLB_CallbackSet, dlb_callback_disable_cpu_set, (dlb_callback_t)cb_diss, a); } }

/* ------------------------------------------------------------ dumps */
bool shmem_cpuinfo__exists(void); void shmem_cpuinfo__print_info(const char*, int, int, dlb_printshmem_flags_t);
const cpu_set_t* shmem_cpuinfo_testing__get_free_cpu_set(void); const cpu_set_t* shmem_cpuinfo_testing__get_occupied_core_set(void);
bool shmem_procinfo__exists(void); void shmem_procinfo__print_info(const char*);
static int finder(const char *fn) { for (int p = 1; p <= nproc; p++) if (!sim_dead[sim_pid_of[p]] && ((bool(*)(void))sym(p, fn))()) return p; return 0; }
int pid2proc(int pid) { return pid; }

static void dump_cpuinfo(void) {
    int p = finder("shmem_cpuinfo__exists");
    out("\"cpu\":"); if (!p) { out("{}"); return; }
    cap_start(); VCALL(p, shmem_cpuinfo__print_info, key, 0, 1, DLB_COLOR_AUTO == 1 ? 0 : 0); char *t = cap_end();
    if (!strstr(t, "CPU States")) { out("{\"free\":"); out_set(km(CALL(p, const cpu_set_t*, shmem_cpuinfo_testing__get_free_cpu_set)));
        out(",\"occ\":"); out_set(km(CALL(p, const cpu_set_t*, shmem_cpuinfo_testing__get_occupied_core_set))); out("}"); return; }
    static char rq[64][512]; for (int i = 0; i < 64; i++) rq[i][0] = 0;
    char grq[8192] = ""; size_t gn = 0; int sec = 0; int own[64]={0}, gst[64]={0}; char st[64][8]; for (int i = 0; i < 64; i++) strcpy(st[i], "?");
    for (char *sv, *l = strtok_r(t, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
        int c, o, g; char s[16];
        if (strstr(l, "Cpu requests")) { sec = 1; continue; }
        if (strstr(l, "Process requests")) { sec = 2; continue; }
        if (sec == 0 && sscanf(l, " %d [ %d / %d / %15s ]", &c, &o, &g, s) == 4) { own[c] = o; gst[c] = g; snprintf(st[c], 8, "%s", s); }
        else if (sec == 1 && sscanf(l, " %d:", &c) == 1) { char *q = strchr(l, ':') + 1; size_t n = 0; rq[c][0] = 0;
            for (;;) { char *e; long v = strtol(q, &e, 10); if (e == q) break; n += snprintf(rq[c]+n, 512-n, "%s%ld", n ? "," : "", v); q = e; if (*q == ',') q++; } }
        else if (sec == 2 && sscanf(l, " %d: %d,", &o, &g) == 2) { uint64_t m = parse_list(strchr(l, ','), 0);
            gn += snprintf(grq+gn, sizeof grq-gn, "%s[%d,%d,%" PRIu64 "]", gn ? "," : "", o, g, m); }
    }
    out("{\"own\":["); for (int i = 0; i < ncpus; i++) out("%s%d", i ? "," : "", own[i]);
    out("],\"gst\":["); for (int i = 0; i < ncpus; i++) out("%s%d", i ? "," : "", gst[i]);
    out("],\"st\":["); for (int i = 0; i < ncpus; i++) out("%s\"%s\"", i ? "," : "", st[i]);
    out("],\"rq\":["); for (int i = 0; i < ncpus; i++) out("%s[%s]", i ? "," : "", rq[i]);
    out("],\"grq\":[%s],\"free\":", grq); out_set(km(CALL(p, const cpu_set_t*, shmem_cpuinfo_testing__get_free_cpu_set)));
    out(",\"occ\":"); out_set(km(CALL(p, const cpu_set_t*, shmem_cpuinfo_testing__get_occupied_core_set)));
    out("}");
}
static void dump_procinfo(void) {
    int p = finder("shmem_procinfo__exists");
    out("\"prc\":"); if (!p) { out("null"); return; }
    cap_start(); VCALL(p, shmem_procinfo__print_info, key); char *t = cap_end();
    out("["); const char *c = "";
    for (char *sv, *l = strtok_r(t, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) { int pid; char *q;
        if (sscanf(l, " | %d |", &pid) != 1) continue; q = strchr(strchr(l, '|')+1, '|'); const char *e = q;
        uint64_t a = parse_list(e, &e), b = parse_list(e, &e), d = parse_list(e, &e); int dirty = -1; const char *z = strrchr(e, '|'); while (z && z > e && *--z != '|') ; if (z) dirty = atoi(z + 1);
        out("%s[%d,%" PRIu64 ",%" PRIu64 ",%" PRIu64 ",%d]", c, pid, a, b, d, dirty); c = ","; }
    out("]");
}
static void dump_barrier(void) {
    int p = finder("shmem_barrier__exists"); out("\"bar\":"); if (!p) { out("[]"); return; }
    cap_start(); VCALL(p, shmem_barrier__print_info, key); char *t = cap_end(); out("["); const char *c = "";
    for (char *sv, *l = strtok_r(t, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) { char nm[64]; unsigned a, b, d;
        if (sscanf(l, " | %63[^|]| %u | %u | %u |", nm, &a, &b, &d) == 4) { for (char *e = nm + strlen(nm); e > nm && e[-1] == ' '; ) *--e = 0; out("%s[\"%s\",%d,%d,%d]", c, nm, (int)a, (int)b, (int)d); c = ","; } }
    out("]");
}
static void dump_talp(void) {
    int p = finder("shmem_talp__exists"); out("\"tal\":"); if (!p) { out("[]"); return; }
    cap_start(); VCALL(p, shmem_talp__print_info, key, 0); char *t = cap_end(); out("["); const char *c = "";
    for (char *sv, *l = strtok_r(t, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) { int pid; char nm[160]; int64_t a, b;
        if (sscanf(l, " | %d | %159[^|] | %" SCNd64 " | %" SCNd64 " |", &pid, nm, &a, &b) == 4) {
            int n = strlen(nm); while (n && nm[n-1] == ' ') nm[--n] = 0; char *q = nm; while (*q == ' ') q++;
            out("%s[%d,", c, pid); jname(out, q); out(",%d,%d]", tu(a), tu(b)); c = ","; } }
    out("]");
}
static void dump_files(void) { out("\"shm\":%d", sim_shm_exists("/DLB_")); }
static void dump_state(void) { const char *c = ""; out("{");
    for (const char *d = dumps; *d; d++) { out("%s", c); c = ",";
        switch (*d) { case 'c': dump_cpuinfo(); break; case 'p': dump_procinfo(); break; case 'b': dump_barrier(); break;
            case 't': dump_talp(); break; case 'f': dump_files(); break; default: dump_extra(*d); } }
    out("}"); }

/* ------------------------------------------------------------ ops */
typedef struct { int p, t; char name[32]; char argbuf[512]; char *a[12]; int na; int ret; uint64_t val; char outx[2048]; cpu_set_t ms[12]; } op_t;
#define I(k) ((int)strtol(op->a[k], 0, 0))
#define M(k) ({ op->ms[k] = mk(strtoull(op->a[k], 0, 0)); &op->ms[k]; })
int64_t time_unit = 1;
static int started[MAXP+1], attached[MAXP+1];   /* as the process sees it */
#define OPI(n, f, ...) if (!strcmp(op->name, n)) { op->ret = CALL(op->p, int, f, ##__VA_ARGS__); return 0; }
static char *bar_base; static size_t bar_sz;
static dlb_barrier_t *bar_h(int k) { return (dlb_barrier_t*)(bar_base + (k-1) * bar_sz); }
static int bar_k(dlb_barrier_t *b) { size_t d = (char*)b - bar_base; return d % bar_sz ? -1 : (int)(d / bar_sz) + 1; }
static void bar_start(int p) { if (bar_base) return; char *b = (char*)CALL(p, barrier_t*, shmem_barrier__find, "default"); if (!b) b = (char*)CALL(p, barrier_t*, shmem_barrier__find, "default (id: 1)");
    if (b) { bar_base = b; bar_sz = CALL(p, size_t, shmem_barrier__size) / ncpus; } }
static op_t *xops[MAXP+1];
void xout(const char *f, ...) { op_t *xop = xops[sim_proc]; va_list l; va_start(l, f); int n = strlen(xop->outx); vsnprintf(xop->outx+n, sizeof xop->outx-n, f, l); va_end(l); }
void after_init(int p, int ok) { if (ok > 0) { started[p] = 1; bar_start(p); set_callbacks(p); } }
/* threads other than the main one */
int sim_thr; enum { NTHR = 8 };
static struct { pthread_t th; sem_t go, done; op_t *op; int up; } thr[MAXP+1][NTHR];
static void *run_op(void *arg);
static void *thr_main(void *a) { typeof(thr[0][0]) *w = a; for (;;) { sem_wait(&w->go); run_op(w->op); sem_post(&w->done); } }
static void run_on_thread(op_t *op) { typeof(thr[0][0]) *w = &thr[op->p][op->t];
    if (!w->up) { w->up = 1; sem_init(&w->go, 0, 0); sem_init(&w->done, 0, 0);
        int (*cr)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*) = dlsym(RTLD_NEXT, "pthread_create"); if (cr(&w->th, 0, thr_main, w)) abort(); }
    int o = sim_proc; sim_proc = op->p; sim_thr = op->t; w->op = op; sem_post(&w->go); while (sem_wait(&w->done)) ; sim_thr = 0; sim_proc = o; }
static void *run_op(void *arg) {
    op_t *op = arg; int p = op->p; (void)p; xops[p] = op;
    if (!strcmp(op->name, "init")) { /* init ncpus mask(0=NULL) args... */
        char args[512]; snprintf(args, sizeof args, "--shm-key=%s", key); for (int i = 2; i < op->na; i++) { strcat(args, " "); strcat(args, op->a[i]); }
        uint64_t m = strtoull(op->a[1], 0, 0); cpu_set_t s = mk(m); if (!strcmp(op->a[1], "empty")) { m = 1; CPU_ZERO(&s); }
        set_callbacks_pre(p); if (!finder("shmem_barrier__exists")) bar_base = NULL;
        op->ret = CALL(p, int, DLB_Init, I(0), m ? &s : NULL, args); if (op->ret >= 0) { started[p] = 1; bar_start(p); }
        set_callbacks(p); return 0; }
    if (!strcmp(op->name, "tick")) { sim_clock += strtoll(op->a[0], 0, 0) * time_unit; op->ret = 0; return 0; }
    if (!strcmp(op->name, "fin")) { op->ret = CALL(p, int, DLB_Finalize); started[p] = 0; return 0; }
    OPI("enable", DLB_Enable) OPI("disable", DLB_Disable)
    OPI("maxpar", DLB_SetMaxParallelism, I(0)) OPI("unsetmax", DLB_UnsetMaxParallelism)
    OPI("lend", DLB_Lend) OPI("lend_cpu", DLB_LendCpu, I(0)) OPI("lend_cpus", DLB_LendCpus, I(0)) OPI("lend_mask", DLB_LendCpuMask, M(0))
    OPI("reclaim", DLB_Reclaim) OPI("reclaim_cpu", DLB_ReclaimCpu, I(0)) OPI("reclaim_cpus", DLB_ReclaimCpus, I(0)) OPI("reclaim_mask", DLB_ReclaimCpuMask, M(0))
    OPI("acquire_cpu", DLB_AcquireCpu, I(0)) OPI("acquire_cpus", DLB_AcquireCpus, I(0)) OPI("acquire_mask", DLB_AcquireCpuMask, M(0)) OPI("acquire_in", DLB_AcquireCpusInMask, I(0), M(1))
    OPI("borrow", DLB_Borrow) OPI("borrow_cpu", DLB_BorrowCpu, I(0)) OPI("borrow_cpus", DLB_BorrowCpus, I(0)) OPI("borrow_mask", DLB_BorrowCpuMask, M(0)) OPI("borrow_in", DLB_BorrowCpusInMask, I(0), M(1))
    OPI("return", DLB_Return) OPI("return_cpu", DLB_ReturnCpu, I(0)) OPI("return_mask", DLB_ReturnCpuMask, M(0))
    OPI("check", DLB_CheckCpuAvailability, I(0))
    OPI("poll_upd", DLB_PollDROM_Update)
    if (!strcmp(op->name, "poll")) { int n = -1; cpu_set_t m; CPU_ZERO(&m); op->ret = CALL(p, int, DLB_PollDROM, &n, &m); if (op->ret == 0) xout(",\"n\":%d,\"m\":%" PRIu64, n, km(&m)); else xout(",\"n\":-1,\"m\":0"); return 0; }
    if (!strcmp(op->name, "into")) { sim_affinity[p] = *M(0); VCALL(p, into_sync_call, (sync_call_flags_t){.is_mpi=1,.is_blocking=1,.do_lewi=1}); return 0; }
    if (!strcmp(op->name, "outof")) { sim_affinity[p] = *M(0); VCALL(p, out_of_sync_call, (sync_call_flags_t){.is_mpi=1,.is_blocking=1,.do_lewi=1}); return 0; }
    if (!strcmp(op->name, "observer")) { op->ret = CALL(p, int, DLB_SetObserverRole, I(0)); return 0; }
    /* barriers: handle 0 is the default one, k the barrier in the k-th slot */
    if (!strcmp(op->name, "bar")) { sim_affinity[p] = *M(1); op->ret = I(0) ? CALL(p, int, DLB_BarrierNamed, bar_h(I(0))) : CALL(p, int, DLB_Barrier); return 0; }
    if (!strcmp(op->name, "bar_att")) { op->ret = I(0) ? CALL(p, int, DLB_BarrierNamedAttach, bar_h(I(0))) : CALL(p, int, DLB_BarrierAttach); return 0; }
    if (!strcmp(op->name, "bar_det")) { op->ret = I(0) ? CALL(p, int, DLB_BarrierNamedDetach, bar_h(I(0))) : CALL(p, int, DLB_BarrierDetach); return 0; }
    if (!strcmp(op->name, "bar_reg")) { dlb_barrier_t *b = CALL(p, dlb_barrier_t*, DLB_BarrierNamedRegister, op->a[0], I(1));
        int k = b ? bar_k(b) : 0; xout(",\"n\":%d", k); return 0; }
    if (!strcmp(op->name, "drom_attach")) { op->ret = CALL(p, int, DLB_DROM_Attach); if (op->ret >= 0) attached[p]++; return 0; }
    if (!strcmp(op->name, "drom_detach")) { op->ret = CALL(p, int, DLB_DROM_Detach); if (attached[p]) attached[p]--; return 0; }
    OPI("drom_set", DLB_DROM_SetProcessMask, I(0), M(1), I(2))
    OPI("drom_post", DLB_DROM_PostFinalize, I(0), I(1)) OPI("drom_recover", DLB_DROM_RecoverStolenCpus, I(0))
    if (!strcmp(op->name, "drom_preinit")) { char **env = calloc(1, sizeof *env); op->ret = CALL(p, int, DLB_DROM_PreInit, I(0), M(1), I(2), &env);
        char w[64]; snprintf(w, sizeof w, "--preinit-pid=%d ", I(0)); int told = 0; for (char **e = env; *e; e++) if (!strncmp(*e, "DLB_ARGS=", 9) && strstr(*e, w) && strstr(*e, "--drom=1 ")) told++; xout(",\"n\":%d", told); return 0; }
    if (!strcmp(op->name, "preinit")) { char old[256]; snprintf(old, sizeof old, "%s", getenv("DLB_ARGS") ? getenv("DLB_ARGS") : ""); op->ret = CALL(p, int, DLB_PreInit, M(0), NULL); setenv("DLB_ARGS", old, 1); return 0; }
    if (!strcmp(op->name, "drom_get")) { cpu_set_t m; CPU_ZERO(&m); op->ret = CALL(p, int, DLB_DROM_GetProcessMask, I(0), &m, I(1)); op->val = op->ret >= 0 ? km(&m) : 0; if (op->ret >= 0) xout(",\"m\":%" PRIu64, km(&m)); else xout(",\"m\":0"); return 0; }
    if (!strcmp(op->name, "drom_pids")) { int l[64], n = 0; op->ret = CALL(p, int, DLB_DROM_GetPidList, l, &n, 64); xout(",\"l\":["); if (op->ret >= 0) for (int i = 0; i < n; i++) xout("%s%d", i?",":"", l[i]); xout("]"); return 0; }
    if (!strcmp(op->name, "drom_ncpus")) { int n = -1; op->ret = CALL(p, int, DLB_DROM_GetNumCpus, &n); xout(",\"n\":%d", n); return 0; }
    if (!strcmp(op->name, "nop")) { op->ret = 0; return 0; }
    { int r = 0; if (run_extra(op->p, op->name, op->a, op->na, &r)) { op->ret = r; return 0; } }
    printf("{\"badop\":\"%s\"}\n", op->name); fflush(stdout); _exit(5);
}

static op_t *pend_op[MAXP+1]; static fiber_t *pend_f[MAXP+1];
static int parse_op(char *line, op_t *op) { memset(op, 0, sizeof *op); char *sv; snprintf(op->argbuf, sizeof op->argbuf, "%s", line);
    char *t = strtok_r(op->argbuf, " \n", &sv); if (!t) return 0; op->p = atoi(t); if (strchr(t, ':')) op->t = atoi(strchr(t, ':') + 1) % NTHR; t = strtok_r(0, " \n", &sv); if (!t) return 0; snprintf(op->name, 32, "%s", t);
    while ((t = strtok_r(0, " \n", &sv)) && op->na < 12) op->a[op->na++] = t; return 1; }

/* joining or leaving a barrier in which somebody waits is an error of the program: the library aborts */
static const char *DEF[] = {"default", "default (id: 1)"};
static int bar_slot(int p, const char *name) { barrier_t *b = CALL(p, barrier_t*, shmem_barrier__find, name); return b ? bar_k((dlb_barrier_t*)b) : -1; }
static int bar_same(int p, int h, int w) { if (h == w) return 1; if (h && w) return 0;
    for (int i = 0; i < 2; i++) if (bar_slot(p, DEF[i]) == h + w) return 1; return 0; }
static int bar_misuse(op_t *op) {
    static int bid[MAXP+1]; int o0 = op->na ? atoi(op->a[0]) : 0;
    if (!strcmp(op->name, "init")) { bid[op->p] = 0; for (int i = 0; i < op->na; i++) if (!strncmp(op->a[i], "--barrier-id=", 13)) bid[op->p] = atoi(op->a[i] + 13) != 0; }
    /* programs do not know their default barrier as a named one */
    if (bar_base && !strncmp(op->name, "bar", 3) && strcmp(op->name, "bar_reg") && o0 && bar_slot(op->p, DEF[bid[op->p]]) == o0) return 1;
    for (int q = 1; q <= nproc; q++) { if (!pend_op[q] || strcmp(pend_op[q]->name, "bar")) continue; int h = atoi(pend_op[q]->a[0]), o = atoi(op->na ? op->a[0] : "0");
        if (!strcmp(op->name, "init") || !strcmp(op->name, "fin")) return 1;
        if (!strcmp(op->name, "bar_det") && bar_same(q, o, h)) return 1;
        if (!strcmp(op->name, "bar_att") && o == 0 && bar_same(q, o, h)) return 1;
        if (!strcmp(op->name, "bar_reg")) { int k = bar_slot(q, op->a[0]); if (k > 0 && bar_same(q, k, h)) return 1; } }
    return 0; }
static void par_line(char *line);
static void walk_line(char *line) {
    if (line[0] == '#') { /* settings during a walk */ char k[32]; long v; if (sscanf(line+1, "%31s %ld", k, &v) == 2) {
            if (!strcmp(k, "die")) { sim_dead[sim_pid_of[v]] = 1; } else if (!strcmp(k, "helper_auto")) helper_auto = v; else if (!strcmp(k, "clock")) sim_clock += v;
            else if (!strcmp(k, "step")) sim_clock_step = v; else if (!strcmp(k, "sleepclk")) sim_sleepclk = v;
            else if (!strcmp(k, "parent")) { int c; if (sscanf(line+1, "%*s %d %ld", &c, &v) == 2) sim_parent[c] = v; } }
        return; }
    if (strchr(line, ';')) { par_line(line); return; }
    op_t *op = malloc(sizeof *op); if (!parse_op(line, op)) { free(op); return; }
    int p = op->p; cbn = 0; cbb[0] = 0;
    /* a running process only detaches what it attached */
    if (pend_op[p] || (!strcmp(op->name, "drom_detach") && started[p] && !attached[p]) || bar_misuse(op) || (!strcmp(op->name, "drom_post") && atoi(op->a[0]) > 0 && atoi(op->a[0]) <= nproc && started[atoi(op->a[0])])) { out("{\"skip\":1}\n"); flush_out(); free(op); return; }
    if (!strcmp(op->name, "die")) { sim_dead[sim_pid_of[p]] = 1; started[p] = attached[p] = 0; fib_kill(p); out("{\"r\":0,\"cb\":[],\"done\":[],\"st\":"); dump_state(); out("}\n"); flush_out(); free(op); return; }
    if (!strcmp(op->name, "help")) { for (fiber_t *f = fib_list(); f; f = fib_next(f)) if (fib_kind(f) == 1 && fib_proc(f) == p && !fib_blocked(f)) fib_step(f); op->ret = 0; }
    else if (op->t) run_on_thread(op);
    else { fiber_t *f = fib_new(p, run_op, op, 0); pend_op[p] = op; pend_f[p] = f; fib_step(f); }
    fib_quiesce(helper_auto);
    int own_done = pend_op[p] == NULL || fib_done(pend_f[p]);
    if (own_done) out("{\"r\":%d", op->ret); else out("{\"blk\":1,\"r\":0");
    if (own_done) out("%s", op->outx);
    static char dx[8192]; int dxn = 0; dx[0] = 0;
    out(",\"cb\":[%s],\"done\":[", cbb); const char *c = "";
    for (int q = 1; q <= nproc; q++) if (pend_op[q] && fib_done(pend_f[q])) { if (q != p) { out("%s[%d,%d,%" PRIu64 "]", c, q, pend_op[q]->ret, pend_op[q]->val); c = ","; if (pend_op[q]->outx[0]) dxn += snprintf(dx+dxn, sizeof dx-dxn, "%s{\"p\":%d%s}", dxn ? "," : "", q, pend_op[q]->outx); }
        fib_free(pend_f[q]); if (pend_op[q] != op) free(pend_op[q]); else own_done = 2; pend_op[q] = 0; pend_f[q] = 0; }
    out("]"); if (dxn) out(",\"dx\":[%s]", dx);
    out(",\"st\":"); dump_state(); out("}\n"); flush_out();
    if (own_done) free(op);
}

/* two calls at the same time: the first runs up to k1 points, the second up to k2, the first up to k3 more, then both finish
 *   <p> par k1 k2 k3 ; <op of p> ; <op of another process> */
static void runs(fiber_t *f, int k) { while (k-- > 0 && !fib_done(f) && !fib_blocked(f)) fib_step(f); }
static void par_line(char *line) {
    int p, k1, k2, k3; char *la = strchr(line, ';'), *lb = la ? strchr(la + 1, ';') : 0; op_t *o[2] = {malloc(sizeof(op_t)), malloc(sizeof(op_t))};
    if (!lb || sscanf(line, "%d par %d %d %d", &p, &k1, &k2, &k3) != 4) { out("{\"skip\":1}\n"); flush_out(); return; }
    *lb = 0; la++; lb++; cbn = 0; cbb[0] = 0;
    int ok = parse_op(la, o[0]) && parse_op(lb, o[1]) && o[0]->p != o[1]->p; fiber_t *f[2];
    for (int i = 0; ok && i < 2; i++) if (pend_op[o[i]->p] || o[i]->t || bar_misuse(o[i])) ok = 0;
    if (!ok) { out("{\"skip\":1}\n"); flush_out(); return; }
    for (int i = 0; i < 2; i++) { f[i] = fib_new(o[i]->p, run_op, o[i], 0); pend_op[o[i]->p] = o[i]; pend_f[o[i]->p] = f[i]; }
    sim_conc = 1; runs(f[0], k1); runs(f[1], k2); runs(f[0], k3); sim_conc = 0;
    fib_quiesce(helper_auto);
    out("{\"r\":%d,\"r2\":%d,\"blk\":%d,\"blk2\":%d", o[0]->ret, o[1]->ret, !fib_done(f[0]), !fib_done(f[1]));
    out("%s", o[0]->outx); out(",\"x2\":{\"_\":0%s},\"cb\":[%s],\"done\":[", o[1]->outx, cbb);
    const char *c = ""; static char dx[8192]; int dxn = 0; dx[0] = 0;
    for (int q = 1; q <= nproc; q++) if (pend_op[q] && fib_done(pend_f[q])) { op_t *w = pend_op[q];
        if (w != o[0] && w != o[1]) { out("%s[%d,%d,%" PRIu64 "]", c, q, w->ret, w->val); c = ","; if (w->outx[0]) dxn += snprintf(dx+dxn, sizeof dx-dxn, "%s{\"p\":%d%s}", dxn ? "," : "", q, w->outx); }
        fib_free(pend_f[q]); pend_op[q] = 0; pend_f[q] = 0; free(w); }
    out("]"); if (dxn) out(",\"dx\":[%s]", dx);
    out(",\"st\":"); dump_state(); out("}\n"); flush_out();
}

static void on_sig(int s) { char b[64]; int n = snprintf(b, sizeof b, "{\"crash\":%d}\n", s); if (write(1, b, n) < 0) {} _exit(7); }
int sim_nproc(void) { return nproc; } int sim_ncpus(void) { return ncpus; } const char *sim_key(void) { return key; }
int main(int argc, char **argv) {
    /* argv: libdir */
    setvbuf(stdout, 0, _IONBF, 0); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    unsetenv("DLB_ARGS");
    for (int p = 0; p <= MAXP; p++) { sim_pid_of[p] = p ? p : 99; char f[512]; snprintf(f, sizeof f, "%s/libdlb%d.so", argv[1], p);
        lib[p] = dlopen(f, RTLD_NOW|RTLD_LOCAL); if (!lib[p]) { fprintf(stderr, "%s\n", dlerror()); return 2; } }
    for (int i = 100; i < 4096; i++) sim_dead[i] = 1;
    char line[1024]; static char *buf[100000]; FILE *in = fdopen(dup(0), "r");
    while (fgets(line, sizeof line, in)) {
        if (!strncmp(line, "CFG ", 4)) { char k[32], v[128]; if (sscanf(line+4, "%31s %127s", k, v) == 2) {
            if (!strcmp(k, "ncpus")) ncpus = atoi(v); else if (!strcmp(k, "ncores")) ncores = atoi(v); else if (!strcmp(k, "nnodes")) nnodes = atoi(v);
            else if (!strcmp(k, "nproc")) nproc = atoi(v); else if (!strcmp(k, "cbmode")) cbmode = atoi(v); else if (!strcmp(k, "dumps")) snprintf(dumps, sizeof dumps, "%s", strcmp(v, "-") ? v : "");
            else if (!strcmp(k, "helper_auto")) helper_auto = atoi(v); else if (!strcmp(k, "step")) sim_clock_step = atol(v); else if (!strcmp(k, "unit")) time_unit = atoll(v); else if (!strcmp(k, "sleepclk")) sim_sleepclk = atoi(v); } continue; }
        if (strncmp(line, "WALK ", 5)) continue;
        int n = atoi(line+5), k = 0; for (; k < n && fgets(line, sizeof line, in); k++) buf[k] = strdup(line);
        fflush(0); pid_t c = fork();
        if (c == 0) { signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig); signal(SIGALRM, on_sig); alarm(60);
            stack_t ss = {.ss_sp = malloc(65536), .ss_size = 65536}; sigaltstack(&ss, 0); struct sigaction sa = {.sa_handler = on_sig, .sa_flags = SA_ONSTACK}; sigaction(SIGSEGV, &sa, 0);
            freopen("/dev/null", "w", stderr); { char b[128]; snprintf(b, sizeof b, "--shm-key=%s", key); setenv("DLB_ARGS", b, 1); }
            for (int p = 0; p <= nproc; p++) { sim_proc = p; ((void(*)(unsigned,unsigned,unsigned))sym(p, "mu_testing_set_sys"))(ncpus, ncores, nnodes); for (int i = 0; i < ncpus; i++) CPU_SET(i, &sim_affinity[p]); }
            sim_proc = 0;
            for (int i = 0; i < n; i++) walk_line(buf[i]);
            flush_out(); _exit(0); }
        int st; while (waitpid(c, &st, 0) < 0) {}
        printf("END %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); fflush(stdout);
        for (int i = 0; i < k; i++) free(buf[i]);
    }
    return 0;
}
