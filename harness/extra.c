/* Further operations of the driver: monitoring regions (TALP) and a fake OpenMP
 * runtime that feeds the library's OMPT callbacks.  A process' thread t > 0 is a
 * real OS thread, so that the library's thread-local state is the real one. */
#define _GNU_SOURCE
#include "drv.h"
#include "sim.h"
#include "apis/dlb.h"
#include "apis/dlb_talp.h"
#include "apis/dlb_errors.h"
#include "LB_core/spd.h"
#include "LB_core/DLB_kernel.h"
#include "LB_core/DLB_talp.h"
#include "LB_core/talp_types.h"
#include "LB_numThreads/omp-tools.h"
#include "LB_numThreads/omptool.h"
#include <inttypes.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define F(name) ((__typeof__(&name))sym(p, #name))
#define MAXR 64
#define MAXT 8
static dlb_monitor_t *reg[MAXP+1][MAXR+1]; static int nreg[MAXP+1];
static const subprocess_descriptor_t *spd_of(int p) { return *(const subprocess_descriptor_t**)sym(p, "thread_spd"); }
static talp_info_t *talp_of(int p) { const subprocess_descriptor_t *s = spd_of(p); return s ? s->talp_info : NULL; }
static void reg_sync(int p) { talp_info_t *t = talp_of(p); if (!t || !t->monitor) nreg[p] = 0; else if (!nreg[p]) { nreg[p] = 1; reg[p][1] = t->monitor; } }
static int reg_handle(int p, dlb_monitor_t *m) { if (!m) return 0; reg_sync(p);
    for (int i = 1; i <= nreg[p]; i++) if (reg[p][i] == m) return i;
    if (nreg[p] >= MAXR) return -1; reg[p][++nreg[p]] = m; return nreg[p]; }
static dlb_monitor_t *reg_ptr(int p, int h) { if (h == 0) return DLB_GLOBAL_REGION; if (h < 0) return DLB_LAST_OPEN_REGION; return h <= nreg[p] ? reg[p][h] : NULL; }
static const char *region_name(const char *s, char *buf) { if (!strcmp(s, "-")) return NULL; if (!strcmp(s, "%e")) return "";
    int n; char c; if (sscanf(s, "long:%d:%c", &n, &c) == 2) { memset(buf, 'y', n); buf[n-1] = c; buf[n] = 0; return buf; } return s; }
void jname(void (*o)(const char*, ...), const char *s) { int n = strlen(s); if (n > 40) o("\"%.3s..%d..%s\"", s, n, s + n - 3); else o("\"%s\"", s); }
static int ns(double s) { return (int)llround(s * 1e9 / time_unit); }
static int mil(double s) { return isfinite(s) ? (int)llround(s * 1e4) : -1; }
/* durations and dates in units of the walk (-777: not a whole number of them) */
int tu(int64_t d) { return d % time_unit ? -777 : (int)(d / time_unit); }
static int td(int64_t d) { return d ? tu(d - 1000000000) : -1; }

/* ------------------------------------------------------------ fake OpenMP runtime */
typedef struct { ompt_data_t data; int up, level; void *code; } par_t;
typedef struct { ompt_data_t data; ompt_frame_t frame; int par, explicit_; } tsk_t;
static struct { int up; ompt_callback_t cb[64]; par_t par[64]; tsk_t stk[MAXT][32]; int sp[MAXT]; ompt_data_t thr[MAXT]; } rt[MAXP+1];
extern int sim_thr; ompt_start_tool_result_t* ompt_start_tool(unsigned int, const char*);
static ompt_set_result_t fake_set_callback(ompt_callbacks_t ev, ompt_callback_t cb) { rt[sim_proc].cb[ev] = cb; return ompt_set_always; }
static ompt_interface_fn_t fake_lookup(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)fake_set_callback : NULL; }
#define CB(type, ev, ...) do { type f_ = (type)rt[p].cb[ev]; if (f_) f_(__VA_ARGS__); } while (0)
static tsk_t *top(int p, int t) { return &rt[p].stk[t][rt[p].sp[t]]; }
static tsk_t *push(int p, int t) { if (rt[p].sp[t] < 31) rt[p].sp[t]++; memset(top(p, t), 0, sizeof(tsk_t)); return top(p, t); }
static int omp_op(int p, int t, const char *n, char **a, int na) {
    int x = na > 0 ? atoi(a[0]) : 0, y = na > 1 ? atoi(a[1]) : 0, z = na > 2 ? atoi(a[2]) : 0;
    if (x < 0 || x > 63) x = 63; par_t *P = &rt[p].par[x];
    if (!strcmp(n, "tb")) { rt[p].sp[t] = 0; memset(top(p, t), 0, sizeof(tsk_t)); CB(ompt_callback_thread_begin_t, ompt_callback_thread_begin, t ? ompt_thread_worker : ompt_thread_initial, &rt[p].thr[t]); return 1; }
    if (!strcmp(n, "te")) { CB(ompt_callback_thread_end_t, ompt_callback_thread_end, &rt[p].thr[t]); return 1; }
    if (!strcmp(n, "pb")) { tsk_t *k = top(p, t); memset(P, 0, sizeof *P); P->code = (void*)(intptr_t)(0x1000 + x);
        CB(ompt_callback_parallel_begin_t, ompt_callback_parallel_begin, &k->data, &k->frame, &P->data, y, ompt_parallel_invoker_runtime | ompt_parallel_team, P->code); return 1; }
    if (!strcmp(n, "imp")) { tsk_t *k = push(p, t); k->par = x; k->frame.exit_frame.ptr = (void*)8;
        CB(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, &P->data, &k->data, z, y, ompt_task_implicit); return 1; }
    if (!strcmp(n, "ibar")) { tsk_t *k = top(p, t); CB(ompt_callback_sync_region_t, ompt_callback_sync_region, y == 2 ? ompt_sync_region_barrier_implicit_parallel : ompt_sync_region_barrier_implicit, ompt_scope_begin, &P->data, &k->data, y ? P->code : NULL); return 1; }
    if (!strcmp(n, "iend")) { tsk_t *k = top(p, t); CB(ompt_callback_sync_region_t, ompt_callback_sync_region, y == 2 ? ompt_sync_region_barrier_implicit_parallel : ompt_sync_region_barrier_implicit, ompt_scope_end, NULL, &k->data, y ? P->code : NULL);
        CB(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_end, NULL, &k->data, 0, z, ompt_task_implicit); if (rt[p].sp[t]) rt[p].sp[t]--; return 1; }
    if (!strcmp(n, "pe")) { tsk_t *k = top(p, t); CB(ompt_callback_parallel_end_t, ompt_callback_parallel_end, &P->data, &k->data, ompt_parallel_invoker_runtime | ompt_parallel_team, P->code); return 1; }
    if (!strcmp(n, "si") || !strcmp(n, "so")) { tsk_t *k = top(p, t); /* 0 barrier 1 taskwait 2 taskgroup 3 implicit barrier of a workshare */
        static const ompt_sync_region_t K[] = {ompt_sync_region_barrier_explicit, ompt_sync_region_taskwait, ompt_sync_region_taskgroup, ompt_sync_region_barrier_implicit};
        CB(ompt_callback_sync_region_t, ompt_callback_sync_region, K[y & 3], n[1] == 'i' ? ompt_scope_begin : ompt_scope_end, &P->data, &k->data, (void*)0x77); return 1; }
    if (!strcmp(n, "tc")) { tsk_t *k = top(p, t); ompt_data_t nd = {0}; CB(ompt_callback_task_create_t, ompt_callback_task_create, &k->data, &k->frame, &nd, ompt_task_explicit, 0, (void*)0x55); return 1; }
    if (!strcmp(n, "tdone") || !strcmp(n, "tsw")) { tsk_t *k = top(p, t); ompt_data_t nd = {0};
        CB(ompt_callback_task_schedule_t, ompt_callback_task_schedule, &k->data, n[1] == 'd' ? ompt_task_complete : ompt_task_switch, &nd); return 1; }
    return 0; }

int run_extra(int p, const char *name, char **a, int na, int *ret) {
    char b[1024], c[1024]; *ret = 0; int t = sim_thr;
    if (!strcmp(name, "reg")) { dlb_monitor_t *m = F(DLB_MonitoringRegionRegister)(region_name(a[0], b)); int h = reg_handle(p, m); xout(",\"n\":%d", h); return 1; }
    if (!strcmp(name, "glob")) { dlb_monitor_t *m = F(DLB_MonitoringRegionGetGlobal)(); xout(",\"n\":%d", reg_handle(p, m)); return 1; }
    if (!strcmp(name, "rstart") || !strcmp(name, "rstop") || !strcmp(name, "rreset") || !strcmp(name, "rrep")) { int h = atoi(a[0]); if (h > nreg[p] && nreg[p]) { *ret = -99; return 1; }
        dlb_monitor_t *m = reg_ptr(p, h);
        *ret = name[2] == 't' ? (name[3] == 'a' ? F(DLB_MonitoringRegionStart)(m) : F(DLB_MonitoringRegionStop)(m)) : name[3] == 's' ? F(DLB_MonitoringRegionReset)(m) : F(DLB_MonitoringRegionReport)(m); return 1; }
    if (!strcmp(name, "rupd")) { *ret = F(DLB_MonitoringRegionsUpdate)(); return 1; }
    if (!strcmp(name, "sin")) { F(into_sync_call)((sync_call_flags_t){.is_mpi=1,.is_blocking=1,.is_collective=atoi(a[0]),.do_lewi=0}); return 1; }
    if (!strcmp(name, "sout")) { F(out_of_sync_call)((sync_call_flags_t){.is_mpi=1,.is_blocking=1,.is_collective=atoi(a[0]),.do_lewi=0}); return 1; }
    if (!strcmp(name, "mpi_init")) { if (spd_of(p)) F(talp_mpi_init)(spd_of(p)); return 1; }
    if (!strcmp(name, "mpi_fin")) { if (spd_of(p)) F(talp_mpi_finalize)(spd_of(p)); return 1; }
    if (!strcmp(name, "times")) { double m = -1, u = -1; *ret = F(DLB_TALP_GetTimes)(atoi(a[0]), &m, &u); xout(",\"x\":["); if (*ret >= 0) xout("%d,%d", ns(m), ns(u)); xout("]"); return 1; }
    if (!strcmp(name, "ntimes")) { dlb_node_times_t l[64]; int n = 0; *ret = F(DLB_TALP_GetNodeTimes)(region_name(a[0], b), l, &n, atoi(a[1])); xout(",\"x\":["); if (*ret >= 0) for (int i = 0; i < n; i++) xout("%s[%d,%d,%d]", i ? "," : "", l[i].pid, tu(l[i].mpi_time), tu(l[i].useful_time)); xout("]"); return 1; }
    if (!strcmp(name, "query") || !strcmp(name, "collect")) { dlb_node_metrics_t m; memset(&m, 0, sizeof m); int q = name[0] == 'q';
        if (!q && atoi(a[0]) > nreg[p] && nreg[p]) { *ret = -99; return 1; }
        *ret = q ? F(DLB_TALP_QueryPOPNodeMetrics)(region_name(a[0], b), &m) : F(DLB_TALP_CollectPOPNodeMetrics)(reg_ptr(p, atoi(a[0])), &m); xout(",\"x\":[");
        if (*ret >= 0) xout("[%d,%d,%d,%d,%d],[%d,%d,%d]", m.processes_per_node, tu(m.total_useful_time), tu(m.total_mpi_time), tu(m.max_useful_time), tu(m.max_mpi_time), mil(m.parallel_efficiency), mil(m.communication_efficiency), mil(m.load_balance));
        xout("]"); (void)c; if (*ret >= 0) { xout(",\"name\":"); jname(xout, m.name); } return 1; }
    if (!strcmp(name, "tpids")) { int l[64], n = 0; *ret = F(DLB_TALP_GetPidList)(l, &n, atoi(a[0])); xout(",\"x\":["); if (*ret >= 0) for (int i = 0; i < n; i++) xout("%s%d", i ? "," : "", l[i]); xout("]"); return 1; }
    if (!strcmp(name, "tatt")) { *ret = F(DLB_TALP_Attach)(); return 1; }
    if (!strcmp(name, "tdet")) { *ret = F(DLB_TALP_Detach)(); return 1; }
    if (!strcmp(name, "omp_start")) { /* mask args... */ char old[512]; snprintf(old, sizeof old, "%s", getenv("DLB_ARGS") ? getenv("DLB_ARGS") : "");
        snprintf(b, sizeof b, "--shm-key=%s --ompt", sim_key()); for (int i = 1; i < na; i++) { strcat(b, " "); strcat(b, a[i]); }
        setenv("DLB_ARGS", b, 1); extern cpu_set_t sim_affinity[]; sim_affinity[p] = mk(strtoull(a[0], 0, 0));
        memset(&rt[p], 0, sizeof rt[p]); ompt_start_tool_result_t *T = F(ompt_start_tool)(5, "LLVM verif"); *ret = T->initialize(fake_lookup, 0, &T->tool_data); rt[p].up = *ret;
        setenv("DLB_ARGS", old, 1); after_init(p, *ret); return 1; }
    if (!strcmp(name, "omp_stop")) { ompt_start_tool_result_t *T = F(ompt_start_tool)(5, "LLVM verif"); T->finalize(&T->tool_data); rt[p].up = 0; return 1; }
    return omp_op(p, t, name, a, na);
}
static void dump_requests(void) { /* number of CPUs requested by each process */
    out("\"rqs\":["); for (int p = 1; p <= sim_nproc(); p++) { int v = -1;
        for (int q = 1; q <= sim_nproc() && v < 0; q++) if (!sim_dead[sim_pid_of[q]]) { int o = sim_proc; sim_proc = q;
            if (((_Bool(*)(void))sym(q, "shmem_lewi_async__exists"))()) v = ((unsigned(*)(int))sym(q, "shmem_lewi_async__get_num_requests"))(sim_pid_of[p]);
            sim_proc = o; }
        out("%s%d", p > 1 ? "," : "", v); }
    out("]"); }
void dump_extra(char d) {
    if (d == 'w') { dump_requests(); return; }
    if (d != 'r') return;
    out("\"reg\":["); for (int p = 1; p <= sim_nproc(); p++) { if (sim_dead[sim_pid_of[p]]) nreg[p] = 0; else reg_sync(p); out("%s[", p > 1 ? "," : "");
        for (int h = 1; h <= nreg[p]; h++) { dlb_monitor_t *m = reg[p][h]; out("%s[", h > 1 ? "," : ""); jname(out, m->name);
            out(",%d,%d,%d,%d,%d,%d,%d", m->num_cpus, (int)m->avg_cpus, m->num_measurements, m->num_resets, (int)m->num_mpi_calls, (int)m->num_omp_parallels, (int)m->num_omp_tasks);
            out(",%d,%d,%d,%d,%d,%d,%d,%d]", td(m->start_time), td(m->stop_time), tu(m->elapsed_time), tu(m->useful_time), tu(m->mpi_time), tu(m->omp_load_imbalance_time), tu(m->omp_scheduling_time), tu(m->omp_serialization_time)); }
        out("]"); }
    out("]");
}
