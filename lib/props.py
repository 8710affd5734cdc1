"""The properties (source of properties.jsonl and MANIFEST.json; run this file to regenerate both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None),
                  _note=note, _tech=technique or 'TLA+ (TLC): exhaustive model + recorded executions of the library validated step by step against it'))

CPU = 'src/LB_comm/shmem_cpuinfo.c'; LM = 'src/LB_policies/lewi_mask.c'
TBL = [('node_info', 'owner, guest, state and request queue of every CPU', CPU), ('free_cpus / occupied_cores', 'indices over the table', CPU)]
OBS = ['DLB API return codes', 'enable/disable CPU callbacks', 'DLB_PrintShmem']
NOTE = ('model: every operation of 2-3 processes on 2-4 CPUs, exhaustively, to a queue bound; code: guided walks over 12-40 operations in 20+ configurations, each step compared with the '
        'model (results, callbacks, shared table) and judged by the property. Interleavings at the granularity of a critical section.')
W1 = 'Unit tests run fixed scripts of a few calls, with one or two processes sharing one process image; '
prop('C01', 'A CPU is used by one process at a time',
     'While CPUs move between processes (lend, borrow, acquire, reclaim, return, blocking calls, arrival, departure), a CPU is assigned to at most one process, and at most one process believes that it may use it, '
     'except that the owner that reclaims a CPU may start using it while the borrower is being told to leave. A CPU that is assigned to a process is known to that process: no CPU is silently lost.',
     ['histories', 'configurations'], 'all histories of operations by any number of processes, in polling and asynchronous mode, with and without SMT, for any affinity policy',
     W1 + 'they check the outcome of that script and not who believes it can use a CPU after an arbitrary history.',
     [CPU, LM], [('per-CPU owner/guest/state transitions', CPU), ('tasks resolved into callbacks', LM + ':resolve_cpuinfo_tasks')], TBL, OBS, NOTE)
prop('C02', 'A process gets CPUs of others only if they are lent',
     'A process starts using a CPU that it does not own only when that CPU is lent by its owner (or left public) and nobody else is using it; CPUs that are in use, reclaimed or disabled are never granted to it. '
     'Whether a CPU is lent is only changed by its owner.',
     ['histories', 'configurations'], 'all histories of lend/borrow/acquire/check operations, public and private CPUs, every affinity policy',
     W1 + 'a grant from a wrong state needs a specific earlier history.', [CPU, LM],
     [('borrow_cpu / acquire_cpu', CPU), ('find_new_guest', CPU), ('check_cpu_availability', CPU)], TBL, OBS, NOTE)
prop('C03', 'An owner that reclaims its CPUs gets them back',
     'When an owner reclaims a CPU it owns, by any of the reclaim, acquire, disable or end-of-blocking-call operations, an idle CPU is its own again at once, and a CPU in use is marked as reclaimed: the owner is told, '
     'an asynchronous guest is told to leave, and the CPU goes to the owner as soon as the guest returns or lends it. It is never given to anybody else, and a guest that keeps returning CPUs always ends up giving it back.',
     ['histories', 'configurations', 'schedules'], 'all histories that lead to a reclaim, then all continuations (liveness under fairness of the guest)',
     W1 + 'liveness and "every reclaimable CPU is found by the set-based shortcuts" quantify over histories.', [CPU, LM],
     [('reclaim_cpu, reclaim_core', CPU), ('return_cpu, return_async', CPU), ('free_cpus/occupied_cores shortcuts', CPU + ':update_occupied_cores')], TBL, OBS, NOTE)
prop('C04', 'Pending CPU requests are served in order and never lost',
     'In asynchronous mode a request that cannot be satisfied is queued; when an eligible CPU is lent it goes to the first eligible requester, requesters of that specific CPU before others, and a CPU is not left idle while such a requester waits. '
     'A request disappears only by being served, cancelled, or because its process or the CPU leaves, and nobody receives more CPUs than it requested.',
     ['histories', 'configurations'], 'all histories of requests, lends, cancellations and departures in asynchronous mode',
     W1 + 'queue contents depend on arbitrarily long interleavings of several requesters.', [CPU, 'src/support/queue_template.h'],
     [('find_new_guest', CPU), ('queues of pids and of mask requests', 'src/support/queues.c'), ('remove requests on departure', CPU)], [('requests, lewi_mask_requests', 'queues of pending requests', CPU)], OBS, NOTE)
prop('C05', 'Requested amounts and the maximum parallelism are respected',
     'Setting a maximum parallelism leaves the process with at most that many CPUs, and later borrows or acquires of a number or set of CPUs do not take it beyond that limit, counting all the CPUs it uses. '
     'An operation on N CPUs obtains at most N, rounded up to whole cores when cores have several hardware threads.',
     ['histories', 'inputs', 'configurations'], 'all histories, all amounts, masks and limits (grants made later by other processes to queued requests are bounded by the requested amount, see C04)',
     W1 + 'limits interact with masks, affinity and previously borrowed CPUs.', [CPU, LM],
     [('update_max_parallelism', CPU), ('acquire/borrow ncpus_from_cpu_subset', CPU)], [('max_parallelism', 'limit of the process', LM)], OBS, NOTE)
prop('C06', 'Hardware threads of a core are not shared between processes',
     'With SMT, a process is granted a lent CPU only if no other hardware thread of that core is being used, or has been reclaimed, by another process; lending the last used thread of a core makes the whole core available to the waiting processes.',
     ['histories', 'configurations'], 'all histories on nodes with 2 or more hardware threads per core', W1 + 'SMT tests use one fixed topology and script.', [CPU],
     [('core_is_eligible', CPU), ('core wide acquire/borrow/reclaim', CPU), ('siblings attended in lend_cpu', CPU)], TBL, OBS, NOTE)
prop('C07', 'A process that leaves or disables DLB keeps nothing',
     'After a process finalizes, no CPU is owned or used by it and none of its requests remain; its CPUs become public or unavailable as configured, and borrowers are told nothing wrong. Disabling returns all the CPUs it owns to it, releases those it borrowed, '
     'drops its requests, and nothing is granted to it until it enables DLB again.',
     ['histories', 'configurations'], 'all histories ending in a finalization or a disable, followed by any continuation',
     W1 + 'leftovers only show in the continuation of some other process.', [CPU, LM, 'src/LB_core/DLB_kernel.c'],
     [('deregister, reset, finalize', CPU), ('Finish', 'src/LB_core/DLB_kernel.c')], TBL, OBS, NOTE)
prop('C08', 'Blocking calls lend CPUs and recover them',
     'Entering a blocking call lends the CPUs of the thread (all but one core if so configured) and leaves the rest untouched; leaving it recovers the owned ones, borrows again the others if they are still available, '
     'and those that were lost are disabled at once in asynchronous mode or at the next return in polling mode, exactly those and exactly once.',
     ['histories', 'configurations', 'schedules'], 'all histories around the blocking call, in particular what other processes do between both ends', W1 + 'the CPUs lost meanwhile depend on what others did.',
     [LM], [('IntoBlockingCall, OutOfBlockingCall', LM), ('pending_reclaimed_cpus', LM)], [('pending_reclaimed_cpus', 'CPUs lost in a blocking call and not disabled yet', LM)], OBS, NOTE)
prop('C09', 'LeWI results tell what happened; failed operations change nothing',
     'Each LeWI operation returns success only if it obtained or released something, "noted" only if a request was queued or a CPU in use was reclaimed, "no update" only if nothing changed for any process, and an error only if the call had no effect and issued no callback. '
     'Uninitialized, disabled or unsupported use and CPU numbers or owners that are not valid give the documented error.',
     ['histories', 'inputs', 'configurations'], 'all operations with all arguments in all reachable states', W1 + 'they check results in a handful of states.', [CPU, LM, 'src/LB_core/DLB_kernel.c'],
     [('result of the elementary operations combined over sets', CPU), ('gating of the API', 'src/LB_core/DLB_kernel.c')], TBL, OBS, NOTE)

prop('C10', 'Concurrent LeWI calls act as one after another',
     'When two processes call at the same time, whatever the interleaving of their accesses to the shared memory, both results, the state that they leave and the callbacks that are issued are those of one call after the other, in one of the two orders. '
     'This includes initializing and finalizing at the same time: a process never ends up in a shared memory that another one is removing.',
     ['schedules', 'histories', 'configurations'], 'all interleavings, at any access to memory, of any two calls of two processes, in all reachable states', 'Unit tests run the calls of the processes one after another in one process; a race needs a context switch at one point.',
     [CPU, LM, 'src/LB_comm/shmem.c', 'src/LB_comm/shmem_async.c'], [('locked sections of the CPU table', CPU), ('fast paths without lock (timestamps, maximum parallelism)', CPU), ('creation, opening and removal', 'src/LB_comm/shmem.c')],
     TBL, OBS, NOTE + '; concurrency: both processes run in threads that are switched at up to three sampled accesses to memory (compiler instrumentation) or blocking points; the specification has to explain the pair of results, the callbacks and the state in one of the two orders')

NA = []
def na(pid, reason): NA.append(dict(property=pid, reason=reason))

try:
    from props_more import more; more(prop, na)
except ImportError: pass

def write():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    nas = {n['property'] for n in NA}
    m = {'version': 1, 'setup_cmd': 'python3 lib/check.py setup',
         'hooks': {'guard': 'DLB_VERIF', 'enable': 'no hook was needed: the checks compile the unmodified sources of /repo/src (-DDLB_VERIF is defined and unused)', 'source_commits': []},
         'checks': [dict(property=p['id'], quick_cmd='python3 lib/check.py %s quick' % p['id'], thorough_cmd='python3 lib/check.py %s thorough' % p['id'],
                         technique=p['_tech'], level='model_checking', level_note=p['_note']) for p in P if p['id'] not in nas],
         'not_applicable': NA}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': write()
