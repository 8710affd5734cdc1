"""Properties of the rest of the library (see props.py)."""
PI = 'src/LB_comm/shmem_procinfo.c'; CPU = 'src/LB_comm/shmem_cpuinfo.c'; DR = 'src/apis/DLB_interface_drom.c'; KER = 'src/LB_core/DLB_kernel.c'; SPD = 'src/LB_core/spd.c'
REG = [('process list: pid, current mask, future mask, stolen CPUs, dirty', 'registry of the processes of the node', PI), ('free_mask', 'CPUs registered by nobody', PI)]
DO = ['DROM and DLB API return codes and masks', 'process mask callback', 'DLB_PrintShmem', 'environment of a pre-initialized child']
DN = ('model: registration, pre-registration, mask changes (synchronous ones as pending calls that others interleave with), polls, finalizations, post-finalizations and recoveries of 2-3 processes and one '
      'pre-registered child, exhaustive for 2-3 CPUs; code: guided walks with up to 4 processes and external administrators on up to 6 CPUs, every step compared with the model and judged by the property')
WH = 'Unit tests run one script with one or two process ids inside a single process; '

def more(prop, na):
    prop('D01', 'DROM never assigns a CPU to two processes',
         'The masks that DROM has decided for the registered processes (the pending one if there is one) are disjoint, disjoint from the CPUs of nobody, and together they cover the whole node: no CPU is assigned twice or lost. '
         'Two processes may both be using a CPU only while the one that loses it has not been told yet.',
         ['histories', 'configurations'], 'all histories of registration, pre-registration, mask changes with and without stealing, recovery and departure, by the processes and by external administrators',
         WH + 'double assignment or loss needs several processes and steps.', [PI, DR], [('steal_mask, register_mask, unregister_mask', PI), ('setprocessmask', PI)], REG, DO, DN)
    prop('D02', 'A mask change is told to the process exactly once',
         'A mask set for another process is pending until that process polls (or is told by its helper in asynchronous mode); the poll that succeeds gives exactly the last mask that was set, exactly once, with the update callback if requested, and it is the mask that the process has from then on. '
         'Nobody else changes the mask that a process is using before it is told.',
         ['histories', 'schedules'], 'all histories of set/poll/query operations, in polling and asynchronous mode', WH + 'a lost or repeated update depends on when others act.',
         [PI, DR, KER], [('polldrom, getprocessmask of own mask', PI), ('poll_drom_update', KER)], REG, DO, DN)
    prop('D03', 'A failed or timed out mask change leaves nothing behind',
         'An operation that fails leaves every mask and the CPU table as they were and issues no callbacks; in particular, when a synchronous call times out or its target leaves, the CPUs that it took go back to the processes they were taken from (if they are still there) and to nobody else. '
         'A synchronous call ends with success only once its target has taken the change.',
         ['histories', 'schedules', 'faults'], 'all interleavings of a synchronous call with the polls, departures and mask changes of the others, including the timeout at any point',
         WH + 'the undo path depends on what happens while the caller waits.', [PI], [('steal_mask(dry run, sync), undo', PI), ('setprocessmask sync wait', PI), ('drom_preinit rollback', PI)], REG, DO, DN)
    prop('D04', 'Stolen CPUs are remembered, returned and recoverable',
         'CPUs are taken from a process only by an operation that says so, and it is remembered which ones were taken from it. They are given back to that process when whoever has them leaves with the option to return them, and otherwise become free and can be recovered by the process: it recovers exactly those that are free.',
         ['histories', 'configurations'], 'all histories of stealing pre-registrations, departures with and without return, and recoveries', WH + 'the chain steal - leave - recover over several processes is not sampled.',
         [PI, DR], [('stolen_cpus, steal_mask', PI), ('postfinalize return stolen', PI), ('recover_stolen_cpus', PI)], REG, DO, DN)
    prop('D05', 'Registration, pre-registration and attachment are exact',
         'Each running process is registered exactly once; a process started with a pre-registration inherits exactly what was reserved for it (or the part it asks for, leaving the rest), and one that leaves, or fails to start, is no longer listed. '
         'Listing gives exactly the registered processes; queries and changes for processes that are not there give the documented error.',
         ['histories', 'configurations'], 'all histories of init, pre-init, attach, detach, finalize, also failing ones', WH + 'combinations of own and external registration are not sampled.',
         [PI, DR, KER, 'src/apis/DLB_interface.c'], [('procinfo__init with preinit_pid', PI), ('drom_preinit', PI), ('attach/detach/finalize', PI)], REG, DO, DN)
    prop('D06', 'The mask of a process and the ownership of CPUs agree',
         'Once every process has taken its pending masks, the CPUs owned by each process in the sharing table are exactly those of its mask, and no process that left still owns any CPU. '
         'A change of mask while CPUs are lent, borrowed or requested leaves a consistent sharing state: removed CPUs are given up, and new ones are its own or are reclaimed from their guest.',
         ['histories', 'configurations'], 'all interleavings of mask changes with LeWI operations in polling and asynchronous mode',
         WH + 'the two tables are tested separately.', [CPU, PI, 'src/LB_policies/lewi_mask.c'], [('update_ownership', CPU), ('lewi_mask_UpdateOwnershipInfo', 'src/LB_policies/lewi_mask.c'), ('register/deregister', CPU)],
         [('node_info', 'owner, guest, state of every CPU', CPU)] + REG, DO, DN)
    prop('D07', 'What a crashed process had becomes available to the others',
         'When a process dies without finalizing, nothing else changes until another process attaches; that one, and any that joins later, finds none of the masks, CPUs, uses of CPUs or requests of the dead one: its mask is free, its CPUs can be obtained again and the borrowed ones go back to their owners or to those that search for them. '
         'The processes that are alive keep what they had, and the dead process is no longer listed.',
         ['histories', 'crash points', 'configurations'], 'a crash after any history of LeWI and DROM operations of one or several processes, also during a pending synchronous call, followed by any continuation',
         WH + 'no test kills a process that shares CPUs.', [CPU, PI, 'src/LB_comm/shmem.c'], [('cleanup of dead processes when attaching', 'src/LB_comm/shmem.c'), ('cleanup_shmem', CPU), ('cleanup_shmem', PI)],
         [('pidlist', 'processes attached to each shared memory', 'src/LB_comm/shmem.c')] + REG, DO, DN)
    BA = 'src/LB_comm/shmem_barrier.c'; NB = 'src/LB_core/node_barrier.c'
    BN = ('model: 2-3 processes, 2-3 barriers, all histories of joining, leaving, registering names, waiting and sharing CPUs up to two completions of each barrier, exhaustive; code: guided walks with up to 4 processes, '
          'several names and identifiers, with LeWI on and off, every step compared with the model (who waits, who goes on, number of participants and completions) and judged by the property')
    prop('B01', 'A node barrier holds everybody until all have arrived, and then lets everybody go',
         'No process goes on from a barrier before every current participant has entered it, and once the last one enters all of them go on; processes in other barriers, or that left it, neither are waited for nor released. '
         'The participants of a barrier are exactly those that registered or attached and have not detached or finalized, once each, and the calls report that number.',
         ['histories', 'schedules', 'configurations'], 'all histories of register, attach, detach, barrier and finalize over several processes and barriers',
         WH + 'orders of arrival and changing teams over several barriers are not sampled.', [BA, NB, 'src/apis/DLB_interface.c'],
         [('barrier, register, attach, detach', BA), ('node_barrier_*', NB)], [('name, participants, count and completions of each barrier', 'the barriers of the node', BA), ('barriers of the process', 'default one and list', NB)],
         ['return values of the barrier functions', 'who waits and who goes on', 'DLB_PrintShmem'], BN)
    prop('B02', 'A barrier lends CPUs only if told to, and gives them back',
         'A process that waits in a barrier that was set to share lends CPUs of its own only, those of the thread that waits, and when it goes on it has those CPUs again, or has reclaimed them from whoever has them. '
         'Barriers that were not set to share, as selected by the options and by the flags given at registration, and the last process to arrive, change nothing in the sharing of CPUs.',
         ['histories', 'schedules', 'configurations'], 'all histories of barrier and sharing operations with sharing of barriers on, off and selected by name',
         WH + 'sharing in barriers is tested only without other processes borrowing.', [BA, NB, 'src/LB_policies/lewi_mask.c'],
         [('into/out of sync call', BA), ('parse_lewi_barrier', NB), ('lewi_mask_IntoBlockingCall/OutOfBlockingCall', 'src/LB_policies/lewi_mask.c')], [('lewi flag of each barrier', 'whether it shares', BA)],
         ['callbacks', 'state of the CPU table', 'DLB_PrintShmem'], BN)
    TA = 'src/LB_core/DLB_talp.c'; TS = 'src/LB_comm/shmem_talp.c'; DT = 'src/apis/DLB_interface_talp.c'; PM = 'src/support/perf_metrics.h'
    TN = ('model: 1-3 processes, up to 3 threads, named, anonymous and excluded regions, blocking calls, parallel regions (also nested) and tasks, collections and external readers, all histories up to a small bound of the clock, '
          'exhaustive; code: guided walks of the real library on a simulated clock with up to 4 processes and 7 threads, where every value of every region of every process is compared with the model after each call and judged by the property')
    TST = [('region data', 'elapsed, useful, MPI and OpenMP times, counters of each region', TA), ('samples', 'time of each thread not yet added to the regions', TA), ('shared times', 'times of the regions of all the processes of the node', TS)]
    TO = ['values of dlb_monitor_t', 'return values of the DLB_MonitoringRegion and DLB_TALP functions', 'DLB_TALP_GetNodeTimes, DLB_TALP_QueryPOPNodeMetrics']
    prop('T01', 'Monitoring regions have one identity and exact life cycles',
         'A name identifies one region of a process (any spelling of the global one, and names cut to the maximum length, included), unnamed regions are always new, and forbidden names are rejected. '
         'A region is started only if closed and selected, and stopped only if open (the last started by default); each start and stop pair adds exactly its duration to the elapsed time and one to the number of measurements, a reset leaves the region closed and empty, and a call that fails changes nothing.',
         ['histories', 'inputs', 'configurations'], 'all histories of register, start, stop, reset, MPI and OpenMP initialization and finalization, with any name and selection of regions',
         'Unit tests follow one script of a few regions; identity, order of nesting and leftovers after resets or repeated initializations depend on the history.', [TA, DT],
         [('monitoring_region_register/start/stop/reset', TA), ('parse_region_select', TA)], TST, TO, TN)
    prop('T02', 'Measured time is neither lost nor counted twice',
         'From the moment a thread is measured until it ends, each instant is attributed to exactly one state (useful, blocked in MPI, or idle or waiting in OpenMP), and it is added exactly once to every region that is open during that instant, and to no other one. '
         'Times and counters of calls never decrease unless the region is reset.',
         ['histories', 'schedules'], 'all interleavings of the calls of several threads with the starts, stops, resets and updates of nested or overlapping regions',
         'Unit tests check approximate values in fixed sequences on the real clock; conservation quantifies over when threads appear, block and regions open.', [TA],
         [('talp_update_sample / aggregation', TA), ('into/out of sync call', TA), ('region start/stop flush samples', TA)], TST, TO, TN)
    prop('T03', 'OpenMP time is classified by what the team did',
         'When a parallel region ends, the time that every thread of the team waited for the slowest one is added as load imbalance, and what all of them waited at least is added as scheduling; the time of a thread out of parallel regions is added as serialization. '
         'The number of parallel regions and tasks counts each of them once, also in nested parallelism.',
         ['histories', 'schedules'], 'all interleavings of the events of the threads of one or several, possibly nested, parallel regions with tasks and blocking calls',
         'Unit tests replay single sequences of events of one team.', [TA, 'src/LB_numThreads/omptool.c'],
         [('talp_openmp_*', TA), ('OMPT events to TALP', 'src/LB_numThreads/omptool.c')], TST, TO, TN)
    prop('T04', 'Times seen by other processes and collected metrics are those measured',
         'With an external profiler the times of each region that any process of the node reads are those measured so far; what it reads of a process or region that is not there is an error and never the data of another one, and space of processes that left can be used again. '
         'Collecting the metrics of a region gives all the participants the same totals, which are the sums and maxima over the processes that measured it, and the efficiencies derived from them, without altering the regions.',
         ['histories', 'configurations', 'schedules'], 'all histories of several processes with and without external profiler, node summary and barriers, with attached readers',
         'Unit tests read from the same process that writes, and never collect with several processes.', [TS, TA, DT, PM],
         [('shmem_talp register/set/get', TS), ('collect and query of node metrics', TA), ('POP metrics', PM)], TST, TO, TN)
    LL = 'src/LB_policies/lewi.c'; CL = 'src/LB_comm/comm_lend_light.c'; LA = 'src/LB_policies/lewi_async.c'; SL = 'src/LB_comm/shmem_lewi_async.c'; QT = 'src/support/queue_template.h'
    NN = ('model: 2-3 processes with 1-3 own CPUs each, all histories of lending, reclaiming, borrowing, acquiring, blocking, limiting, disabling and finalizing, in the polling, greedy and asynchronous modes, exhaustive; '
          'code: guided walks with up to 4 processes, also with pairs of concurrent calls switched at arbitrary accesses to memory, every result, callback and remaining request compared with the model')
    NST = [('idle CPUs', 'CPUs of the node that were lent and nobody uses (a debt if negative, in polling mode)', CL), ('CPUs in use and own CPUs of each process, requests', 'shared state of the asynchronous mode', SL), ('saved requests', 'what a process had asked for before lending its CPUs', LA)]
    NO = ['number of threads given to each process by its callback', 'return values of the LeWI functions', 'number of requests of each process']
    prop('N01', 'Without CPU binding, numbers of CPUs are conserved',
         'When processes exchange numbers of CPUs instead of particular ones, the CPUs in use by all of them plus those that are idle are always the sum of their own ones, also with calls at the same time and after processes are disabled or leave. '
         'In the asynchronous mode there are never more CPUs in use than the processes have together; in polling mode owners may get ahead, but only by as much as others use in excess and will leave when they next ask for CPUs.',
         ['histories', 'schedules', 'configurations'], 'all histories, sequential and concurrent, of all the operations in the polling, greedy and asynchronous modes',
         'Unit tests run one process, or a script of two; losing or inventing a CPU needs specific histories or races on the shared counter.', [LL, CL, LA, SL],
         [('releaseCpus, acquireCpus, checkIdleCpus', CL), ('lend, reclaim, acquire, borrow, reset', SL), ('lewi_Finalize, lewi_DisableDLB', LL)], NST, NO, NN)
    prop('N02', 'Without CPU binding, a process always recovers its own number of CPUs',
         'A process that reclaims its CPUs, or leaves a blocking call, has at least its own number of them again, and exactly that number when it is disabled; in asynchronous mode they are taken, when there are no idle ones, only from those that use more than their own, evenly, and what is taken from them stays asked for. '
         'In polling mode the borrowers give back what owners took ahead as soon as they ask for CPUs, and nobody is left with less than its own because of others.',
         ['histories', 'schedules', 'configurations'], 'all histories of lending, borrowing and recovering over several processes',
         'The distribution among several borrowers and the debts over several steps are not sampled by tests.', [LL, CL, LA, SL],
         [('reclaim_from_shmem', SL), ('reset_process', SL), ('lewi_Reclaim, lewi_OutOfBlockingCall', LL)], NST, NO, NN)
    prop('N03', 'Without CPU binding, lent CPUs go to those that asked for them, within the limits',
         'CPUs that are lent go first to the processes that asked for them, evenly and never more than they asked for, so that nothing stays idle while somebody is waiting; a borrow gives as many idle CPUs as there are, up to the amount wanted and the maximum parallelism. '
         'Requests are kept while the CPUs are lent or the process is disabled, are attended once, and disappear when deleted or when the process leaves.',
         ['histories', 'schedules', 'configurations'], 'all histories of requests by several processes, lending, disabling and enabling, and limits of parallelism',
         'Queues with several processes in different states, and requests that survive a disable or a blocking call, are not sampled.', [LL, CL, LA, SL, QT],
         [('lend_ncpus_to_shmem', SL), ('queue pop_ncpus', QT), ('prev_requested', LA), ('lewi_BorrowCpus, lewi_SetMaxParallelism', LL)], NST, NO, NN)
    prop('N04', 'Without CPU binding, processes are told the number of CPUs they have, and results are honest',
         'Whenever the number of CPUs of a process changes, by its own call or by that of another, it is told the new number, and it is told nothing else. '
         'Calls that report an error or that there is nothing to update change nothing, success means that something was done, and a call is noted only if something remains requested.',
         ['histories', 'schedules', 'configurations'], 'all histories of all the operations in all the modes', 'Who is told what depends on the state of the others.', [LL, LA, SL, 'src/LB_comm/shmem_async.c'],
         [('set_num_threads notifications', LA), ('helper thread', 'src/LB_comm/shmem_async.c'), ('setThreads_Lend_light', LL)], NST, NO, NN)
