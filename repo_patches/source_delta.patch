From 553b5283f1b860e245b6bfdbaca3fa948f56221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 01/63] fix: do not hand a disabled CPU to a process in the
 request queues

A CPU whose owner left (or was moved away by DROM) is in state DISABLED, but
find_new_guest still popped a queued request and granted it.
---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..7701d94 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -221,7 +221,8 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     if (cpuinfo->state == CPU_BUSY) {
         /* If CPU is claimed, ignore requests and assign owner */
         new_guest = cpuinfo->owner;
-    } else if (shdata->flags.queues_enabled) {
+    } else if (cpuinfo->state == CPU_LENT
+            && shdata->flags.queues_enabled) {
         /* Pop first PID in queue that is eligible for this CPU */
         for (pid_t *it = queue_pid_t_front(&cpuinfo->requests);
                 it != NULL && new_guest == NOBODY;
-- 
2.43.0


From 4f6d50dd359f7cdff894a7f0e1c8bb96c362f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 02/63] fix: do not create a disable task for NOBODY when
 reclaiming a CPU of a shared core

---
 src/LB_comm/shmem_cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 7701d94..fa4e7a5 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -892,7 +892,7 @@ int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restr
                     cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
                 if (cpuid_in_core != cpuid) {
                     const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo->guest != pid) {
+                    if (cpuinfo->guest != pid && cpuinfo->guest != NOBODY) {
                         array_cpuinfo_task_t_push(
                                 tasks,
                                 (const cpuinfo_task_t) {
-- 
2.43.0


From 63b99c4ae21cbb6ac65810dc698c7b59ee0cc07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 03/63] fix: keep the occupied cores up to date when
 CheckCpuAvailability takes a CPU

The CPU given to the process was not added to the set of occupied cores, so
neither the owner's Reclaim nor the guest's Return found it.  Also recheck the
state of the CPU once the lock is held, respect cores in use by another process
and reject CPU ids out of range.
---
 src/LB_comm/shmem_cpuinfo.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index fa4e7a5..fdec75f 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2111,6 +2111,9 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
@@ -2125,9 +2128,12 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
         /* Assign new guest if the CPU is empty */
         shmem_lock(shm_handler);
         {
-            if (cpuinfo->guest == NOBODY) {
+            if (cpuinfo->guest == NOBODY
+                    && (cpuinfo->owner == pid || cpuinfo->state == CPU_LENT)
+                    && core_is_eligible(pid, cpuid)) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(cpuinfo->owner, cpuid);
                 error = DLB_SUCCESS;
             }
         }
-- 
2.43.0


From 0f8b1b3b33d6b1829e611294600dbb82c80a8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 04/63] fix: do not return asynchronously a CPU that the
 process no longer guests

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index fdec75f..68415a6 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1746,8 +1746,9 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
 static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-    ensure(cpuinfo->owner != pid
-            && cpuinfo->guest == pid, "cpuinfo inconsistency in %s", __func__);
+    /* The CPU may have been lent, reclaimed or reassigned by the time the helper
+     * thread attends the disable request, nothing to return in that case */
+    if (cpuinfo->owner == pid || cpuinfo->guest != pid) return;
 
     /* 'cpuid' should only be a guested non-owned CPU */
     if (cpuinfo->state == CPU_BUSY) {
-- 
2.43.0


From 77d38d86397478dcbf2c8b9b43e534f3fba44013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 05/63] fix: drop the ENABLE tasks when leaving a blocking call
 in asynchronous mode

The DISABLE tasks were compacted but the array was not truncated, so the stale
tail (ENABLE tasks included) was resolved too.
---
 src/LB_policies/lewi_mask.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 0e1430c..b10efe6 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -470,7 +470,8 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
              * Only if asynchronous mode, keep DISABLE tasks, otherwise remove all. */
             if (error == DLB_NOTED
                     && spd->options.mode == MODE_ASYNC) {
-                for (size_t i = 0, i_write = 0; i < tasks->count; ++i) {
+                size_t i_write = 0;
+                for (size_t i = 0; i < tasks->count; ++i) {
                     const cpuinfo_task_t *task = &tasks->items[i];
                     if (task->action == DISABLE_CPU) {
                         if (i != i_write) {
@@ -479,6 +480,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                         ++i_write;
                     }
                 }
+                tasks->count = i_write;
                 /* Async: resolve only DISABLE tasks */
                 resolve_cpuinfo_tasks(spd, tasks);
             } else {
-- 
2.43.0


From d5b867d076bb36d3847a1a320a298a5685cc102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 06/63] fix: reject CPU ids out of range in the cpuinfo shared
 memory

---
 src/LB_comm/shmem_cpuinfo.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 68415a6..630fecc 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -669,7 +669,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error = DLB_SUCCESS;
     //DLB_DEBUG( cpu_set_t freed_cpus; )
@@ -721,7 +721,7 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
     shmem_lock(shm_handler);
     {
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
             lend_cpu(pid, cpuid, tasks);
 
@@ -866,7 +866,7 @@ int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     //DLB_DEBUG( cpu_set_t recovered_cpus; )
@@ -1182,7 +1182,7 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
 int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1535,7 +1535,7 @@ static int borrow_cpus_in_cpu_set_t(pid_t pid,
 
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1708,7 +1708,7 @@ int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
 
 int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
-- 
2.43.0


From 21bb5f31dd12cda1c381a9eafafa8d827852aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 07/63] fix: CheckCpuAvailability returns DLB_ERR_NOINIT when
 DLB is not initialized

---
 src/LB_core/DLB_kernel.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 2b23cc7..554eabe 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -786,7 +786,9 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
 
 int check_cpu_availability(const subprocess_descriptor_t *spd, int cpuid) {
     int error = DLB_SUCCESS;
-    if (!spd->options.lewi) {
+    if (!spd->dlb_initialized) {
+        error = DLB_ERR_NOINIT;
+    } else if (!spd->options.lewi) {
         error = DLB_ERR_NOLEWI;
     } else if (!spd->lewi_enabled) {
         error = DLB_ERR_DISBLD;
-- 
2.43.0


From d6676fb3afaec521f9ba8e889818cf033907d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 08/63] fix: count every CPU of the process against the maximum
 parallelism

Borrow and acquire with a mask (or with an affinity that does not cover the
whole node) only counted the CPUs guested within the mask, and exceeded it.
---
 src/LB_comm/shmem_cpuinfo.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 630fecc..18c24b4 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1252,8 +1252,8 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
 
     /* Return immediately if the process has reached the max_parallelism */
     if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
+        /* All the CPUs of the process count, not only those in the array */
+        for (int cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->guest == pid) {
                 --max_parallelism;
@@ -1585,8 +1585,8 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
 
     /* Return immediately if the process has reached the max_parallelism */
     if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
+        /* All the CPUs of the process count, not only those in the array */
+        for (int cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->guest == pid) {
                 --max_parallelism;
-- 
2.43.0


From f27941e826934ba6f726a8917f55e638ba5ea944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 09/63] fix: after a blocking call give up only the CPUs that
 could not be recovered

With several non-owned CPUs, a partial success forgot about the rest of them,
and a CPU granted to the process during the call was disabled while assigned.
---
 src/LB_policies/lewi_mask.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index b10efe6..2f89fcc 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -504,16 +504,27 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             array_cpuinfo_task_t *tasks = get_tasks(spd);
             error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, cpu_subset, tasks);
 
-            if (error != DLB_SUCCESS) {
+            /* Some CPUs may still be, or be again, assigned to the process
+             * (e.g., a previous request was attended while in the blocking call) */
+            cpu_set_t lost_cpus;
+            CPU_ZERO(&lost_cpus);
+            for (int cpuid = mu_get_first_cpu(&non_owned_cpus); cpuid >= 0;
+                    cpuid = mu_get_next_cpu(&non_owned_cpus, cpuid)) {
+                if (shmem_cpuinfo__check_cpu_availability(spd->id, cpuid) != DLB_SUCCESS) {
+                    CPU_SET(cpuid, &lost_cpus);
+                }
+            }
+
+            if (mu_count(&lost_cpus) > 0) {
                 /* Annotate the CPU as pending to bypass the shared memory for the next query */
                 mu_or(&lewi_info->pending_reclaimed_cpus, &lewi_info->pending_reclaimed_cpus,
-                        &non_owned_cpus);
+                        &lost_cpus);
 
                 /* We lost the CPU while in MPI.
                     * In async mode, we can just disable the CPU.
                     * In polling mode, the process needs to call Return */
                 if (spd->options.mode == MODE_ASYNC) {
-                    disable_cpu_set(&spd->pm, &non_owned_cpus);
+                    disable_cpu_set(&spd->pm, &lost_cpus);
                 }
             }
         }
-- 
2.43.0


From f11b6bd94954417d702a589c093c459ffc4f2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 10/63] fix: a CPU assigned again to the process is no longer
 pending to be returned

Otherwise the next Return disabled a CPU that the process had borrowed again
after losing it in a blocking call, and the CPU stayed assigned but unused.
---
 src/LB_policies/lewi_mask.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 2f89fcc..ebac84d 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -227,6 +227,9 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (task->action == ENABLE_CPU) {
+                    /* The CPU is assigned again, it is no longer pending to be returned */
+                    lewi_info_t *lewi_info = spd->lewi_info;
+                    CPU_CLR(task->cpuid, &lewi_info->pending_reclaimed_cpus);
                     enable_cpu(&spd->pm, task->cpuid);
                 }
                 else if (task->action == DISABLE_CPU) {
@@ -260,6 +263,9 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (CPU_COUNT(&cpus_to_enable) > 0) {
+                    lewi_info_t *lewi_info = spd->lewi_info;
+                    mu_substract(&lewi_info->pending_reclaimed_cpus,
+                            &lewi_info->pending_reclaimed_cpus, &cpus_to_enable);
                     enable_cpu_set(&spd->pm, &cpus_to_enable);
                 }
                 if (CPU_COUNT(&cpus_to_disable) > 0) {
@@ -801,7 +807,12 @@ int lewi_mask_ReturnCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 // Others
 
 int lewi_mask_CheckCpuAvailability(const subprocess_descriptor_t *spd, int cpuid) {
-    return shmem_cpuinfo__check_cpu_availability(spd->id, cpuid);
+    int error = shmem_cpuinfo__check_cpu_availability(spd->id, cpuid);
+    if (error == DLB_SUCCESS) {
+        lewi_info_t *lewi_info = spd->lewi_info;
+        CPU_CLR(cpuid, &lewi_info->pending_reclaimed_cpus);
+    }
+    return error;
 }
 
 int lewi_mask_UpdateOwnership(const subprocess_descriptor_t *spd,
-- 
2.43.0


From fcd2f9abe351b8e7b82e1e808d8654fa7e3fdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 11/63] fix: drop the requests of the process when its maximum
 parallelism is set

In asynchronous mode the CPUs lent to satisfy the limit were immediately given
back to the process by its own requests, and then disabled while assigned.
---
 src/LB_comm/shmem_cpuinfo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 18c24b4..62b3544 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1901,6 +1901,15 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
     SMALL_ARRAY(cpuid_t, guested_cpus, node_size);
     shmem_lock(shm_handler);
     {
+        // Remove any request before lending, otherwise they could be attended
+        // with the same CPUs that are being lent
+        if (shdata->flags.queues_enabled) {
+            queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
+            for (int cpuid=0; cpuid<node_size; ++cpuid) {
+                queue_pid_t_remove(&shdata->node_info[cpuid].requests, pid);
+            }
+        }
+
         for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->owner == pid) {
-- 
2.43.0


From cd5ed2da06c1f7b90cad25721d03eb224fbadc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:06 +0000
Subject: [PATCH 12/63] fix: leave the process uninitialized if DLB_Init fails

---
 src/LB_core/DLB_kernel.c | 7 ++++++-
 src/apis/DLB_interface.c | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 554eabe..9f5dcf3 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -149,7 +149,12 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
         // Initialize cpuinfo
         error = shmem_cpuinfo__init(spd->id, spd->options.preinit_pid,
                 &spd->process_mask, spd->options.shm_key, spd->options.lewi_color);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            // Revert process registration
+            shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
+                    spd->options.shm_key);
+            return error;
+        }
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index d748ca4..2fb816d 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -44,7 +44,11 @@
 int DLB_Init(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
     spd_enter_dlb(thread_spd);
     if (__sync_bool_compare_and_swap(&thread_spd->dlb_initialized, false, true) ) {
-        return Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        int error = Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        if (error < DLB_SUCCESS) {
+            thread_spd->dlb_initialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
-- 
2.43.0


From f154c56450b224e1cdacd726259341782277e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:06 +0000
Subject: [PATCH 13/63] fix: mark a core as occupied when its new owner finds
 it in use

---
 src/LB_comm/shmem_cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 62b3544..e7bb37b 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1976,6 +1976,8 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                     cpuinfo->guest = pid;
                     CPU_CLR(cpuid, &shdata->free_cpus);
                     CPU_CLR(cpuid, &shdata->occupied_cores);
+                } else if (cpuinfo->guest != pid) {
+                    update_occupied_cores(pid, cpuid);
                 }
                 if (tasks) {
                     if (cpuinfo->guest != pid) {
-- 
2.43.0


From e69e61d806a7f7edb83a1dcd8f51cef8fc917226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:06 +0000
Subject: [PATCH 14/63] fix: do not abort if a stolen CPU is registered by its
 new owner first

---
 src/LB_comm/shmem_cpuinfo.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e7bb37b..ee1db08 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2025,16 +2025,16 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
             } else {
                 if (cpuinfo->guest == pid
                         && cpuinfo->state == CPU_BUSY) {
-                    /* 'tasks' may be NULL if LeWI is disabled, but if the process
-                     * is guesting an external CPU, LeWI should be enabled */
-                    if (unlikely(tasks == NULL)) {
-                        shmem_unlock(shm_handler);
-                        fatal("tasks pointer is NULL in %s. Please report bug at %s",
-                                __func__, PACKAGE_BUGREPORT);
-                    }
                     // The CPU has been either stolen or reclaimed,
                     // return it anyway
-                    return_cpu(pid, cpuid, tasks);
+                    if (tasks) {
+                        return_cpu(pid, cpuid, tasks);
+                    } else {
+                        /* LeWI is disabled, the new owner of a stolen CPU has
+                         * updated its mask before us */
+                        cpuinfo->guest = cpuinfo->owner;
+                        update_occupied_cores(cpuinfo->owner, cpuid);
+                    }
                 }
             }
         }
-- 
2.43.0


From 57eb312cc81f2698c82283d33734d47f52b58951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 15/63] fix: keep the mask of the process up to date after a
 DROM update

---
 src/LB_core/DLB_kernel.c | 6 ++++--
 src/LB_core/DLB_kernel.h | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 9f5dcf3..33f1e59 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -697,7 +697,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
 
 /* Drom Responsive */
 
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
     int error;
     if (!spd->options.drom) {
         error = DLB_ERR_NOCOMP;
@@ -709,6 +709,7 @@ int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_
 
         error = shmem_procinfo__polldrom(spd->id, new_cpus, mask);
         if (error == DLB_SUCCESS) {
+            memcpy(&spd->process_mask, mask, sizeof(cpu_set_t));
             if (spd->options.lewi) {
                 /* If LeWI, resolve reclaimed CPUs */
                 spd->lb_funcs.update_ownership(spd, mask);
@@ -722,7 +723,7 @@ int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_
     return error;
 }
 
-int poll_drom_update(const subprocess_descriptor_t *spd) {
+int poll_drom_update(subprocess_descriptor_t *spd) {
     cpu_set_t new_mask;
     int error = poll_drom(spd, NULL, &new_mask);
     if (error == DLB_SUCCESS) {
@@ -739,6 +740,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
             && (pid == 0 || pid == thread_spd->id)
             && !(flags & DLB_NO_SYNC)) {
         /* Mask has been successfully set by own process, do like a poll_drom_update */
+        memcpy(&thread_spd->process_mask, mask, sizeof(cpu_set_t));
         if (thread_spd->options.lewi) {
             /* If LeWI, resolve reclaimed CPUs */
             thread_spd->lb_funcs.update_ownership(thread_spd, mask);
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 6b4f3d1..7b66f4b 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -82,8 +82,8 @@ int return_cpu(const subprocess_descriptor_t *spd, int cpuid);
 int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 
 /* DROM Responsive */
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
-int poll_drom_update(const subprocess_descriptor_t *spd);
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
+int poll_drom_update(subprocess_descriptor_t *spd);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
 /* Misc */
-- 
2.43.0


From 0b60b6cb9be7684410325b1a15fbfe1b337463f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 16/63] fix: setting the pending mask of a process must not
 free nor steal CPUs again

---
 src/LB_comm/shmem_procinfo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..f506929 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -833,8 +833,12 @@ static int shmem_procinfo__setprocessmask_self(const cpu_set_t *mask, dlb_drom_f
     pinfo_t *process = my_pinfo;
     shmem_lock(shm_handler);
     {
-        if (!process->dirty || CPU_EQUAL(mask, &process->future_process_mask)) {
+        if (!process->dirty) {
             error = set_new_mask(process, mask, false /* sync */, return_stolen, free_cpu_mask);
+        } else if (CPU_EQUAL(mask, &process->future_process_mask)) {
+            /* The mask was already set, it only needs to be updated */
+            error = DLB_SUCCESS;
+            if (free_cpu_mask) CPU_ZERO(free_cpu_mask);
         } else {
             error = DLB_ERR_PDIRTY;
         }
-- 
2.43.0


From 630f9951f6386b4475a571735c42bbcc33607518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 17/63] fix: look for an already registered process in the
 whole shared memory

---
 src/LB_comm/shmem_procinfo.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index f506929..18a4d24 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -292,11 +292,6 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                 /* This process is already registered */
                 error = DLB_ERR_INIT;
             }
-            if (empty_spot
-                    && ((preinit_pid && preinit_process) || !preinit_pid)) {
-                /* Everything needed is found */
-                break;
-            }
         }
 
         // If it's a new process, initialize structure
@@ -498,7 +493,10 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 // PID already registered
                 error = DLB_ERR_INIT;
                 break;
-            } else if (shdata->process_info[p].pid == NOBODY) {
+            }
+        }
+        for (p = 0; p < max_processes && error == DLB_SUCCESS; p++) {
+            if (shdata->process_info[p].pid == NOBODY) {
                 process = &shdata->process_info[p];
                 *process = (const pinfo_t){
                     .pid = pid,
-- 
2.43.0


From 45deabe73e491d507c448a25b35cf027c1e0c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 18/63] fix: detach from all the shared memories even if one of
 them fails

---
 src/apis/DLB_interface_drom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index c1dff78..1f3bc05 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -51,8 +51,8 @@ int DLB_DROM_Attach(void) {
 
 int DLB_DROM_Detach(void) {
     int error = shmem_cpuinfo_ext__finalize();
-    error = error ? error : shmem_procinfo_ext__finalize();
-    return error;
+    int procinfo_error = shmem_procinfo_ext__finalize();
+    return error ? error : procinfo_error;
 }
 
 int DLB_DROM_GetNumCpus(int *ncpus) {
-- 
2.43.0


From c62607f73de66c369b92aedc48125b1c6065809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 19/63] fix: undo the registration of a process if its
 pre-initialization fails

---
 src/LB_core/DLB_kernel.c      | 8 +++++++-
 src/apis/DLB_interface_drom.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 33f1e59..d6ec56a 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -274,7 +274,13 @@ int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
     error = error ? error : shmem_cpuinfo_ext__init(spd->options.shm_key, spd->options.lewi_color);
     error = error ? error : shmem_procinfo_ext__init(spd->options.shm_key);
     error = error ? error : shmem_procinfo_ext__preinit(spd->id, mask, 0);
-    error = error ? error : shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+        if (error != DLB_SUCCESS) {
+            // Revert process registration
+            shmem_procinfo_ext__postfinalize(spd->id, false);
+        }
+    }
     // Close shmems even if there was an error
     int cpuinfo_finalize_err = shmem_cpuinfo_ext__finalize();
     error = error ? error : cpuinfo_finalize_err;
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index 1f3bc05..cd8cf7e 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -103,7 +103,13 @@ int DLB_DROM_PreInit(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags,
     }
 
     int error = shmem_procinfo_ext__preinit(pid, mask, flags);
-    error = error ? error : shmem_cpuinfo_ext__preinit(pid, mask, flags);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(pid, mask, flags);
+        if (error != DLB_SUCCESS) {
+            // Revert process registration
+            shmem_procinfo_ext__postfinalize(pid, flags & DLB_RETURN_STOLEN);
+        }
+    }
     return error;
 }
 
-- 
2.43.0


From 1e6ac1853a8eac90b83a19c4a17014b84d01f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 20/63] fix: update the ownership of the CPUs when the process
 queries its pending mask

---
 src/LB_core/DLB_kernel.c      | 16 ++++++++++++++++
 src/LB_core/DLB_kernel.h      |  1 +
 src/apis/DLB_interface_drom.c |  5 +++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index d6ec56a..b0dd1d7 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -738,6 +738,22 @@ int poll_drom_update(subprocess_descriptor_t *spd) {
     return error;
 }
 
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
+    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    if (error == DLB_NOTED && thread_spd->dlb_initialized) {
+        /* The current process has updated its own mask, do like a poll_drom */
+        memcpy(&thread_spd->process_mask, mask, sizeof(cpu_set_t));
+        if (thread_spd->options.lewi) {
+            /* If LeWI, resolve reclaimed CPUs */
+            thread_spd->lb_funcs.update_ownership(thread_spd, mask);
+        } else {
+            /* Otherwise, udate owner and guest data */
+            shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
+        }
+    }
+    return error;
+}
+
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
     cpu_set_t free_cpu_mask;
     int error = shmem_procinfo__setprocessmask(pid, mask, flags, &free_cpu_mask);
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 7b66f4b..54a5e45 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -84,6 +84,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 /* DROM Responsive */
 int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
 int poll_drom_update(subprocess_descriptor_t *spd);
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
 /* Misc */
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index cd8cf7e..85195d3 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -65,10 +65,11 @@ int DLB_DROM_GetPidList(int *pidlist, int *nelems, int max_len) {
 }
 
 int DLB_DROM_GetProcessMask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
-    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    spd_enter_dlb(thread_spd);
+    int error = drom_getprocessmask(pid, mask, flags);
     if (error == DLB_ERR_NOSHMEM) {
         DLB_DROM_Attach();
-        error = shmem_procinfo__getprocessmask(pid, mask, flags);
+        error = drom_getprocessmask(pid, mask, flags);
         DLB_DROM_Detach();
     }
     return error;
-- 
2.43.0


From 5f9eb3d4f39999cb7978e8c9f9ca06419df0517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:04 +0000
Subject: [PATCH 21/63] fix: give CPUs back only to the processes they were
 taken from if a synchronous steal fails

---
 src/LB_comm/shmem_procinfo.c | 72 +++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 18a4d24..415505a 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -336,7 +336,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     error = DLB_ERR_PDIRTY;
                 } else {
                     // Register the new CPUs in a placeholder process
-                    pinfo_t new_process;
+                    pinfo_t new_process = {.pid = pid};
                     cpu_set_t new_cpus;
                     CPU_ZERO(&new_cpus);
                     mu_substract(&new_cpus, process_mask, preinit_mask);
@@ -386,7 +386,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     error = DLB_ERR_NOMEM;
                 } else {
                     // Register the new CPUs in a placeholder process
-                    pinfo_t new_process;
+                    pinfo_t new_process = {.pid = pid};
                     cpu_set_t new_cpus;
                     CPU_ZERO(&new_cpus);
                     mu_substract(&new_cpus, process_mask, preinit_mask);
@@ -394,8 +394,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     if (register_error == DLB_SUCCESS) {
                         /* Initialize new spot with the mask provided */
                         process = empty_spot;
-                        process->pid = pid;
-                        process->preregistered = false;
+                        *process = (const pinfo_t) {.pid = pid};
                         memcpy(&process->current_process_mask, process_mask, sizeof(cpu_set_t));
                         memcpy(&process->future_process_mask, process_mask, sizeof(cpu_set_t));
                         /* Remove inherited CPUs from preregistered process */
@@ -512,7 +511,9 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 }
                 if (error) {
                     // Release shared memory spot
-                    process->pid = NOBODY;
+                    if (process->pid == pid) {
+                        *process = (const pinfo_t){0};
+                    }
                     break;
                 }
 
@@ -1375,10 +1376,22 @@ static void update_process_loads(void) {
 
 
 // Steal every CPU in mask from other processes
-static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool dry_run) {
+// If sync, the CPUs in 'needed_cpus' must still be free when all the victims have updated
+static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, const cpu_set_t *needed_cpus,
+        bool sync, bool dry_run) {
     // Return if empty mask
     if (CPU_COUNT(mask) == 0) return DLB_SUCCESS;
 
+    // If sync, keep what is taken from each victim in case it needs to be undone
+    pid_t *victim_pids = NULL;
+    cpu_set_t *taken_cpus = NULL;
+    pinfo_t initial_owner;
+    if (sync && !dry_run) {
+        victim_pids = calloc(max_processes, sizeof(pid_t));
+        taken_cpus = calloc(max_processes, sizeof(cpu_set_t));
+        initial_owner = *new_owner;
+    }
+
     int error = DLB_SUCCESS;
     cpu_set_t cpus_left_to_steal;
     memcpy(&cpus_left_to_steal, mask, sizeof(cpu_set_t));
@@ -1399,6 +1412,10 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
                         mu_substract(&victim->future_process_mask,
                                 &victim->current_process_mask, &target_cpus);
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
+                        if (sync) {
+                            victim_pids[p] = victim->pid;
+                            memcpy(&taken_cpus[p], &target_cpus, sizeof(cpu_set_t));
+                        }
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
                                 mu_to_str(mask), victim->pid);
                     }
@@ -1462,6 +1479,17 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         } while (!done && error == DLB_SUCCESS);
 
         shmem_lock(shm_handler);
+
+        // The new owner may have changed while the lock was released
+        if (new_owner->pid != initial_owner.pid) {
+            error = DLB_ERR_NOPROC;
+        } else if (!error && (new_owner->dirty != initial_owner.dirty
+                    || !CPU_EQUAL(&new_owner->current_process_mask,
+                        &initial_owner.current_process_mask))) {
+            error = DLB_ERR_PDIRTY;
+        } else if (!error && !mu_is_subset(needed_cpus, &shdata->free_mask)) {
+            error = DLB_ERR_PERM;
+        }
     }
 
     if (!error && !dry_run) {
@@ -1471,26 +1499,27 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         new_owner->dirty = true;
     }
 
-    if (error && !dry_run) {
+    if (error && sync && !dry_run) {
         // Some CPUs could not be stolen, roll everything back
         for (p = 0; p < max_processes; ++p) {
+            if (victim_pids[p] == NOBODY) continue;
             pinfo_t *victim = &shdata->process_info[p];
-            if (victim != new_owner && victim->pid != NOBODY) {
-                cpu_set_t cpus_to_return;
-                CPU_AND(&cpus_to_return, &victim->stolen_cpus, mask);
-                if (CPU_COUNT(&cpus_to_return) > 0) {
-                    // warning: we may return some CPU to a wrong process
-                    // if more than one contains that CPU as stolen
-                    CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
-                            &cpus_to_return);
-                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
-                    victim->dirty = !CPU_EQUAL(
-                            &victim->current_process_mask, &victim->future_process_mask);
-                }
+            if (victim->pid == victim_pids[p]) {
+                CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
+                        &taken_cpus[p]);
+                mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &taken_cpus[p]);
+                victim->dirty = !CPU_EQUAL(
+                        &victim->current_process_mask, &victim->future_process_mask);
+            } else {
+                // The victim has finished, nobody has its CPUs
+                CPU_OR(&shdata->free_mask, &shdata->free_mask, &taken_cpus[p]);
             }
         }
     }
 
+    free(victim_pids);
+    free(taken_cpus);
+
     return error;
 }
 
@@ -1533,8 +1562,9 @@ static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
     }
 
     /* Run first a dry run to check if CPUs can be stolen */
-    int error = steal_mask(process, &cpus_to_steal, sync, /* dry_run */ true);
-    error = error ? error : steal_mask(process, &cpus_to_steal, sync, /* dry_run */ false);
+    int error = steal_mask(process, &cpus_to_steal, &cpus_to_acquire, sync, /* dry_run */ true);
+    error = error ? error : steal_mask(process, &cpus_to_steal, &cpus_to_acquire, sync,
+            /* dry_run */ false);
     error = error ? error : register_mask(process, &cpus_to_acquire);
     error = error ? error : unregister_mask(process, &cpus_to_free, return_stolen);
     if (error == DLB_SUCCESS && free_cpu_mask != NULL) {
-- 
2.43.0


From 0798a7c4b95418481e05c913f9dee2fd1b6dec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 22/63] fix: detect that the target process of a synchronous
 DROM call has finished

---
 src/LB_comm/shmem_procinfo.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 415505a..e940874 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -763,6 +763,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
     int error = DLB_SUCCESS;
     bool done = false;
     pinfo_t *process;
+    pid_t process_pid = NOBODY;     // may not be pid if the process is found by its child
 
     shmem_lock(shm_handler);
     {
@@ -771,6 +772,8 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
         if (process == NULL) {
             verbose(VB_DROM, "Getting mask: cannot find process with pid %d", pid);
             error = DLB_ERR_NOPROC;
+        } else {
+            process_pid = process->pid;
         }
 
         if (!error) {
@@ -800,7 +803,12 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             // Polling
             shmem_lock(shm_handler);
             {
-                if (!process->dirty) {
+                if (process->pid != process_pid) {
+                    // process no longer valid
+                    error = DLB_ERR_NOPROC;
+                    done = true;
+                }
+                else if (!process->dirty) {
                     memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
                     done = true;
                 }
@@ -884,12 +892,15 @@ int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *mask, dlb_drom_fl
     bool return_stolen = flags & DLB_RETURN_STOLEN;
     int error = DLB_SUCCESS;
     pinfo_t *process;
+    pid_t process_pid = NOBODY;     // may not be pid if the process is found by its child
     shmem_lock(shm_handler);
     {
         // Find process
         process = get_process(pid);
         if (process == NULL) {
             error = DLB_ERR_NOPROC;
+        } else {
+            process_pid = process->pid;
         }
 
         // Process already dirty
@@ -915,7 +926,7 @@ int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *mask, dlb_drom_fl
             // Poll
             shmem_lock(shm_handler);
             {
-                if (process->pid != pid) {
+                if (process->pid != process_pid) {
                     // process no longer valid
                     error = DLB_ERR_NOPROC;
                     done = true;
-- 
2.43.0


From b2fd44b8a27a943ee46a0ce2c8bb1bb590f61d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:04 +0000
Subject: [PATCH 23/63] fix: release the CPUs of a pre-initialized process that
 finalizes

---
 src/apis/DLB_interface.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index 2fb816d..ff86ac5 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -26,6 +26,7 @@
 #include "LB_core/node_barrier.h"
 #include "LB_core/spd.h"
 #include "LB_core/DLB_kernel.h"
+#include "LB_comm/shmem_cpuinfo.h"
 #include "LB_comm/shmem_procinfo.h"
 #include "support/env.h"
 #include "support/error.h"
@@ -61,8 +62,10 @@ int DLB_Finalize(void) {
     } else if (__sync_bool_compare_and_swap(&thread_spd->dlb_preinitialized, true, false) ) {
         /* This is to support the case when a single process does DLB_PreInit + DLB_Init
          * The first DLB_Finalize must finalize everything except the CPUs not inherited
-         * during DLB_Init, if any. The second finalize must clean up the procinfo shmem.
+         * during DLB_Init, if any. The second finalize must clean up the rest.
          */
+        shmem_cpuinfo__finalize(thread_spd->id,
+                thread_spd->options.shm_key, thread_spd->options.lewi_color);
         shmem_procinfo__finalize(thread_spd->id,
                 thread_spd->options.debug_opts & DBG_RETURNSTOLEN,
                 thread_spd->options.shm_key);
@@ -82,7 +85,11 @@ int DLB_PreInit(const_dlb_cpu_set_t mask, char ***next_environ) {
         snprintf(flag, 32, "--preinit-pid=%d", getpid());
         dlb_setenv("DLB_ARGS", flag, next_environ, ENV_APPEND);
 
-        return PreInitialize(thread_spd, mask, NULL);
+        int error = PreInitialize(thread_spd, mask, NULL);
+        if (error < DLB_SUCCESS) {
+            thread_spd->dlb_preinitialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
-- 
2.43.0


From 4391072de70b49bfa83ae1c8acd19c170e8b8aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 24/63] fix: do not lose CPUs if a pre-initialization that
 steals CPUs fails

---
 src/LB_comm/shmem_procinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e940874..564fd37 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -512,6 +512,11 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 if (error) {
                     // Release shared memory spot
                     if (process->pid == pid) {
+                        if (process->dirty) {
+                            // Another process has given CPUs to this one meanwhile
+                            CPU_OR(&shdata->free_mask, &shdata->free_mask,
+                                    &process->future_process_mask);
+                        }
                         *process = (const pinfo_t){0};
                     }
                     break;
-- 
2.43.0


From bea2b5afb8db0225ac6f77a3bf763aaa089dcd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:53 +0000
Subject: [PATCH 25/63] fix: a process that starts during a synchronous steal
 of its CPUs must be told if they are given back

---
 src/LB_comm/shmem_procinfo.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 564fd37..d97e8ef 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1400,10 +1400,12 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, const cpu_set_t
 
     // If sync, keep what is taken from each victim in case it needs to be undone
     pid_t *victim_pids = NULL;
+    bool *victim_preregistered = NULL;
     cpu_set_t *taken_cpus = NULL;
     pinfo_t initial_owner;
     if (sync && !dry_run) {
         victim_pids = calloc(max_processes, sizeof(pid_t));
+        victim_preregistered = calloc(max_processes, sizeof(bool));
         taken_cpus = calloc(max_processes, sizeof(cpu_set_t));
         initial_owner = *new_owner;
     }
@@ -1430,6 +1432,7 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, const cpu_set_t
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
                         if (sync) {
                             victim_pids[p] = victim->pid;
+                            victim_preregistered[p] = victim->preregistered;
                             memcpy(&taken_cpus[p], &target_cpus, sizeof(cpu_set_t));
                         }
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
@@ -1524,7 +1527,9 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, const cpu_set_t
                 CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
                         &taken_cpus[p]);
                 mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &taken_cpus[p]);
-                victim->dirty = !CPU_EQUAL(
+                // if it has started meanwhile, it did so without these CPUs
+                victim->dirty = victim->preregistered != victim_preregistered[p]
+                    || !CPU_EQUAL(
                         &victim->current_process_mask, &victim->future_process_mask);
             } else {
                 // The victim has finished, nobody has its CPUs
@@ -1534,6 +1539,7 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, const cpu_set_t
     }
 
     free(victim_pids);
+    free(victim_preregistered);
     free(taken_cpus);
 
     return error;
-- 
2.43.0


From a4d2a4b4dc424f56b3c4d2cb120d5303b545275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 26/63] fix: do not keep the pointer to the process data if the
 registration fails

---
 src/LB_comm/shmem_procinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index d97e8ef..714a3e5 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -425,7 +425,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     __FUNCTION__, preinit_pid, preinit_process, error, PACKAGE_BUGREPORT);
         }
 
-        if (process) {
+        if (process && error >= DLB_SUCCESS) {
             // Save pointer for faster access
             my_pinfo = process;
         }
-- 
2.43.0


From f6a77e84686b6890042e169e9b53645e61921ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 27/63] fix: barrier functions must not crash if the process
 has finalized DLB

---
 src/LB_core/node_barrier.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index df967df..b782fb7 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -165,7 +165,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
     if (barrier_name == NULL) return NULL;
 
     barrier_t *barrier = NULL;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         /* The register function cannot know whether the calling process is a new
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
@@ -219,7 +219,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
 
 int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         /* Check whether barrier is valid */
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
@@ -271,7 +271,7 @@ int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier == NULL) {
@@ -329,7 +329,7 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_detach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier != NULL) {
-- 
2.43.0


From 29f3e927c369a62738e19a2fe3f8d512c758d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 28/63] fix: do not let a process register its default barrier
 by name

It would count twice as a participant, and the barrier would never complete.
---
 src/LB_core/node_barrier.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index b782fb7..14701ee 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -170,6 +170,10 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
         barrier_info_t *barrier_info = spd->barrier_info;
+        if (strncmp(barrier_name, barrier_info->default_barrier_name,
+                    BARRIER_NAME_MAX-1) == 0) {
+            return NULL;
+        }
         if (barrier_info->barrier_list[0] != NULL) {
             barrier = shmem_barrier__find(barrier_name);
             if (barrier != NULL) {
-- 
2.43.0


From 066aa6130615618378fe867235c57279dbe01f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 29/63] fix: attaching to the default barrier returns the
 number of participants

It always returned 1.
---
 src/LB_comm/shmem_barrier.c | 7 +++++++
 src/LB_comm/shmem_barrier.h | 1 +
 src/LB_core/node_barrier.c  | 4 +++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..118be30 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -145,6 +145,13 @@ int shmem_barrier__get_max_barriers(void) {
     return max_barriers;
 }
 
+int shmem_barrier__get_num_participants(barrier_t *barrier) {
+    pthread_rwlock_rdlock(&barrier->rwlock);
+    int participants = barrier->participants;
+    pthread_rwlock_unlock(&barrier->rwlock);
+    return participants;
+}
+
 /* Given a barrier_name, find whether the barrier is registered in the shared
  * memory. Note that this function is not thread-safe */
 barrier_t* shmem_barrier__find(const char *barrier_name) {
diff --git a/src/LB_comm/shmem_barrier.h b/src/LB_comm/shmem_barrier.h
index 476190c..b8245d1 100644
--- a/src/LB_comm/shmem_barrier.h
+++ b/src/LB_comm/shmem_barrier.h
@@ -31,6 +31,7 @@ void shmem_barrier__init(const char *shmem_key);
 void shmem_barrier__finalize(const char *shmem_key);
 int  shmem_barrier__get_system_id(void);
 int  shmem_barrier__get_max_barriers(void);
+int  shmem_barrier__get_num_participants(barrier_t *barrier);
 barrier_t* shmem_barrier__find(const char *barrier_name);
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi);
 int  shmem_barrier__attach(barrier_t *barrier);
diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 14701ee..572235f 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -287,7 +287,9 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                         barrier_info->default_barrier_name,
                         lewi_barrier);
                 // return number of participants
-                error = barrier_info->default_barrier ? 1 : DLB_ERR_NOMEM;
+                error = barrier_info->default_barrier
+                    ? shmem_barrier__get_num_participants(barrier_info->default_barrier)
+                    : DLB_ERR_NOMEM;
             } else {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
-- 
2.43.0


From 0d58080297ba1b53ec3f790aaa907705112140a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 30/63] fix: cleaning up a crashed process must not corrupt the
 barriers that are not in use

Their number of participants underflowed, so that they could never be used again.
---
 src/LB_comm/shmem_barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 118be30..e6ccb02 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -71,7 +71,7 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
-        if (--barrier->participants == 0) {
+        if (barrier->participants > 0 && --barrier->participants == 0) {
             *barrier = (const barrier_t){};
         }
     }
-- 
2.43.0


From 83a15db4c0c8c4db55f6026981435d90ddbe9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 31/63] fix: resetting a started region must also close it

---
 src/LB_core/DLB_talp.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..9104679 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -291,20 +291,29 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
-    /* Reset everything except these fields: */
-    *monitor = (const dlb_monitor_t) {
-        .name = monitor->name,
-        .num_resets = monitor->num_resets + 1,
-        ._data = monitor->_data,
-    };
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        /* A started region is also closed */
+        monitor_data_t *monitor_data = monitor->_data;
+        if (monitor_data->flags.started) {
+            monitor_data->flags.started = false;
+            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+        }
 
-    monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+        /* Reset everything except these fields: */
+        *monitor = (const dlb_monitor_t) {
+            .name = monitor->name,
+            .avg_cpus = monitor->avg_cpus,
+            .num_resets = monitor->num_resets + 1,
+            ._data = monitor->_data,
+        };
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 07f09091763fc3b24d3f35226e13a853669e092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 32/63] fix: the samples of a nested parallel region are used
 until its workers are updated

---
 src/LB_core/DLB_talp.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 9104679..6c7be34 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1987,10 +1987,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
             talp_aggregate_samples_parallel(spd,
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
-
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -2006,6 +2002,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        if (parallel_data->level > 1) {
+            /* free local data */
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From 5f5b3cea4f98fbc3d72648bc03a010818ddcf102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 33/63] fix: collecting node metrics must not remove or modify
 the times that others are still reading

---
 src/LB_core/DLB_talp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 6c7be34..d615d2a 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2246,8 +2246,12 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     bool resume_region = monitoring_region_stop(spd, monitor) == DLB_SUCCESS;
 
     /* This functionality needs a shared memory, create a temporary one if needed */
+    bool temporary_shmem = !talp_info->flags.have_shmem
+        && !talp_info->flags.have_minimal_shmem;
+    if (temporary_shmem) {
+        shmem_talp__init(spd->options.shm_key, spd->options.shm_size_multiplier);
+    }
     if (!talp_info->flags.have_shmem) {
-        shmem_talp__init(spd->options.shm_key, 1);
         shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
                 &monitor_data->node_shared_id);
     }
@@ -2263,8 +2267,12 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     /* Compute node metrics for that region name */
     talp_query_pop_node_metrics(monitor->name, node_metrics);
 
+    /* The metrics of this process cannot be removed or modified until everyone
+     * has computed the node metrics */
+    node_barrier(spd, NULL);
+
     /* Remove shared memory if it was a temporary one */
-    if (!talp_info->flags.have_shmem) {
+    if (temporary_shmem) {
         shmem_talp__finalize(spd->id);
     }
 
-- 
2.43.0


From 503649d761a89f336b160449f2f399b791bb5492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 34/63] fix: TALP must not abort if its shared memory cannot be
 used

---
 src/LB_core/DLB_talp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index d615d2a..8584243 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -627,7 +627,11 @@ void talp_init(subprocess_descriptor_t *spd) {
         enum { DEFAULT_REGIONS_PER_PROC = 100 };
         int shmem_size_multiplier = spd->options.shm_size_multiplier
             * (talp_info->flags.have_shmem ? DEFAULT_REGIONS_PER_PROC : 1);
-        shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
+        if (shmem_talp__init(spd->options.shm_key, shmem_size_multiplier) < DLB_SUCCESS) {
+            /* TALP still works but data cannot be shared among processes */
+            talp_info->flags.have_shmem = false;
+            talp_info->flags.have_minimal_shmem = false;
+        }
     }
 
     /* Initialize global region monitor
-- 
2.43.0


From 6b681f0bba3e1bc2ef6f9c3612b1a95c1b772ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 35/63] fix: a region started or stopped by a thread not yet
 measured must use the current time

---
 src/LB_core/DLB_talp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 8584243..997e406 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -331,6 +331,9 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
     monitor_data_t *monitor_data = monitor->_data;
 
     if (!monitor_data->flags.started && monitor_data->flags.enabled) {
+        /* Make sure that this thread has a sample before all of them are updated */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
@@ -338,7 +341,6 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
 
         /* Thread sample was just updated, use timestamp as starting time */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->start_time = thread_sample->last_updated_timestamp;
         monitor->stop_time = 0;
 
@@ -383,11 +385,13 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
     monitor_data_t *monitor_data = monitor->_data;
 
     if (monitor_data->flags.started) {
+        /* Make sure that this thread has a sample before all of them are updated */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
         /* Stop timer */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->stop_time = thread_sample->last_updated_timestamp;
         monitor->elapsed_time += monitor->stop_time - monitor->start_time;
         ++(monitor->num_measurements);
-- 
2.43.0


From 2ca7d64f14b4875872361a6d66fbba1a5ada65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:11 +0000
Subject: [PATCH 36/63] fix: threads must get a new sample if TALP is
 initialized again

---
 src/LB_core/DLB_talp.c   | 18 ++++++++++++------
 src/LB_core/talp_types.h |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 997e406..660deee 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -750,7 +750,13 @@ static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_stat
 /* Get the TLS associated sample */
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated sample, return it */
-    if (likely(_tls_sample != NULL)) return _tls_sample;
+    if (likely(_tls_sample != NULL && !_tls_sample->retired)) return _tls_sample;
+
+    /* The sample belongs to a previous initialization of TALP */
+    if (_tls_sample != NULL) {
+        free(_tls_sample);
+        _tls_sample = NULL;
+    }
 
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
@@ -800,14 +806,14 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 }
 
 static void talp_dealloc_samples(const subprocess_descriptor_t *spd) {
-    /* This only nullifies the current thread pointer, but this function is
-     * only really important when TALP is finalized and then initialized again
-     */
-    _tls_sample = NULL;
-
+    /* Samples are only accessible by their own threads, which will dispose of
+     * them if TALP is initialized again */
     talp_info_t *talp_info = spd->talp_info;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
+        for (int i = 0; i < talp_info->ncpus; ++i) {
+            talp_info->samples[i]->retired = true;
+        }
         free(talp_info->samples);
         talp_info->samples = NULL;
     }
diff --git a/src/LB_core/talp_types.h b/src/LB_core/talp_types.h
index e633c18..a900cf2 100644
--- a/src/LB_core/talp_types.h
+++ b/src/LB_core/talp_types.h
@@ -63,6 +63,7 @@ typedef struct DLB_ALIGN_CACHE talp_sample_t {
         not_useful_omp_in,
         not_useful_omp_out,
     } state;
+    bool retired;   /* TALP was finalized, the owner thread needs a new sample */
 } talp_sample_t;
 
 /* The macrosample is a temporary aggregation of all metrics in samples of all,
-- 
2.43.0


From e6eb2507efd6b5397e06258b9f004ffe560ce5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:11 +0000
Subject: [PATCH 37/63] fix: DLB_TALP_GetTimes may be the first function that a
 thread invokes

---
 src/apis/DLB_interface_talp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 2c89d59..59b45ff 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -81,7 +81,8 @@ int DLB_TALP_GetTimes(int pid, double *mpi_time, double *useful_time) {
 
     int error;
 
-    if (pid == 0 || (thread_spd && thread_spd->id == pid)) {
+    spd_enter_dlb(thread_spd);
+    if (pid == 0 || thread_spd->id == pid) {
         /* Same process */
         const dlb_monitor_t *monitor = monitoring_region_get_global_region(thread_spd);
         if (monitor != NULL) {
-- 
2.43.0


From da029855a4ce83b9ef63c5bf8bad8430db06b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:11 +0000
Subject: [PATCH 38/63] fix: the load balance of a node without useful time is
 not a number

---
 src/support/perf_metrics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/perf_metrics.h b/src/support/perf_metrics.h
index 8ae6a8f..e460ba5 100644
--- a/src/support/perf_metrics.h
+++ b/src/support/perf_metrics.h
@@ -77,7 +77,9 @@ static inline void perf_metrics__infer_mpi_model(
         *metrics = (const perf_metrics_mpi_t) {
             .parallel_efficiency = (float)node_sum_useful / (node_sum_useful + node_sum_mpi),
             .communication_efficiency = (float)max_useful_time / elapsed_time,
-            .load_balance = ((float)node_sum_useful / processes_per_node) / max_useful_time,
+            .load_balance = max_useful_time > 0
+                ? ((float)node_sum_useful / processes_per_node) / max_useful_time
+                : 0.0f,
         };
     } else {
         *metrics = (const perf_metrics_mpi_t) {};
-- 
2.43.0


From eef7213857dcaee274d0e7d0e8ccd91539945c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:11 +0000
Subject: [PATCH 39/63] fix: opening an existing shared memory must not reduce
 its size

---
 src/LB_comm/shmem.c      | 18 +++++++++++++++---
 src/LB_comm/shmem_talp.c | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 9b37f5a..59ea8e8 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -156,9 +156,21 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("shm_open error: %s", strerror(errno));
     }
 
-    /* Truncate the regular file to a precise size */
-    if (ftruncate(fd, handler->shm_size) == -1) {
-        fatal("ftruncate error: %s", strerror(errno));
+    /* Set the size of the file, but never reduce it if another process is
+     * already using a bigger one */
+    int alloc_error;
+    do {
+        alloc_error = posix_fallocate(fd, 0, handler->shm_size);
+    } while (alloc_error == EINTR);
+    if (alloc_error != 0) {
+        fatal("posix_fallocate error: %s", strerror(alloc_error));
+    }
+    struct stat shm_stat;
+    if (fstat(fd, &shm_stat) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    if ((size_t)shm_stat.st_size > handler->shm_size) {
+        handler->shm_size = shm_stat.st_size;
     }
 
     /* Map shared memory object */
diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 0745601..20bd1aa 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -170,7 +170,19 @@ int shmem_talp_ext__init(const char *shmem_key, int shmem_size_multiplier) {
     // Shared memory creation
     open_shmem(shmem_key, shmem_size_multiplier);
 
-    // External processes don't need to initialize anything
+    // External processes don't need to initialize anything, but the existing
+    // shared memory may be bigger than expected
+    pthread_mutex_lock(&mutex);
+    {
+        shmem_lock(shm_handler);
+        {
+            if (shdata->initialized && shdata->max_regions > max_regions) {
+                max_regions = shdata->max_regions;
+            }
+        }
+        shmem_unlock(shm_handler);
+    }
+    pthread_mutex_unlock(&mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 4a7bf73a43022166fe9b552148ba3ef519cd80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 40/63] fix: an external profiler must map all the regions of
 the TALP shared memory

---
 src/LB_comm/shmem_talp.c      | 8 ++++----
 src/LB_comm/shmem_talp.h      | 3 +++
 src/LB_core/DLB_talp.c        | 1 -
 src/apis/DLB_interface_talp.c | 2 +-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 20bd1aa..ae1b4ca 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -286,7 +286,7 @@ int shmem_talp__get_pidlist(pid_t *pidlist, int *nelems, int max_len) {
     *nelems = 0;
     shmem_lock(shm_handler);
     {
-        int num_regions = shdata->num_regions;
+        int num_regions = min_int(shdata->num_regions, max_regions);
         for (int region_id = 0; region_id < num_regions && *nelems < max_len; ++region_id) {
             pid_t pid = shdata->talp_region[region_id].pid;
             if (pid != NOBODY) {
@@ -318,7 +318,7 @@ int shmem_talp__get_region(talp_region_list_t *region, pid_t pid, const char *na
     int error = DLB_ERR_NOPROC;
     shmem_lock(shm_handler);
     {
-        int num_regions = shdata->num_regions;
+        int num_regions = min_int(shdata->num_regions, max_regions);
         for (int region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
             if (talp_region->pid == pid
@@ -348,7 +348,7 @@ int shmem_talp__get_regionlist(talp_region_list_t *region_list, int *nelems,
     *nelems = 0;
     shmem_lock(shm_handler);
     {
-        int num_regions = shdata->num_regions;
+        int num_regions = min_int(shdata->num_regions, max_regions);
         for (int region_id = 0; region_id < num_regions && *nelems < max_len; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
             if (talp_region->pid != NOBODY
@@ -451,7 +451,7 @@ void shmem_talp__print_info(const char *shmem_key, int shmem_size_multiplier) {
     int max_name = 4;       /* 'Name' */
     int max_mpi = 8;        /* 'MPI time' */
     int max_useful = 11;    /* 'Useful time' */
-    int num_regions = shdata_copy->num_regions;
+    int num_regions = min_int(shdata_copy->num_regions, max_regions);
     for (int region_id = 0; region_id < num_regions; ++region_id) {
         talp_region_t *talp_region = &shdata_copy->talp_region[region_id];
         if (talp_region->pid != NOBODY) {
diff --git a/src/LB_comm/shmem_talp.h b/src/LB_comm/shmem_talp.h
index 2aa78c1..99175a2 100644
--- a/src/LB_comm/shmem_talp.h
+++ b/src/LB_comm/shmem_talp.h
@@ -32,6 +32,9 @@ typedef struct talp_region_list_t {
     float avg_cpus;
 } talp_region_list_t;
 
+/* Regions per process allocated in the shared memory if all regions are shared */
+enum { DEFAULT_REGIONS_PER_PROC = 100 };
+
 /* Init */
 int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier);
 int shmem_talp_ext__init(const char *shmem_key, int shmem_size_multiplier);
diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 660deee..c7b1f6c 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -628,7 +628,6 @@ void talp_init(subprocess_descriptor_t *spd) {
          * multiplier times 'system_size' (usually, 1 region per process)
          * Otherwise, we multiply it by DEFAULT_REGIONS_PER_PROC.
          */
-        enum { DEFAULT_REGIONS_PER_PROC = 100 };
         int shmem_size_multiplier = spd->options.shm_size_multiplier
             * (talp_info->flags.have_shmem ? DEFAULT_REGIONS_PER_PROC : 1);
         if (shmem_talp__init(spd->options.shm_key, shmem_size_multiplier) < DLB_SUCCESS) {
diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 59b45ff..468c88a 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -57,7 +57,7 @@ int DLB_TALP_Attach(void) {
     }
     shmem_cpuinfo_ext__init(shm_key_ptr, lewi_color);
     shmem_procinfo_ext__init(shm_key_ptr);
-    shmem_talp_ext__init(shm_key_ptr, shm_size_multiplier);
+    shmem_talp_ext__init(shm_key_ptr, shm_size_multiplier * DEFAULT_REGIONS_PER_PROC);
     return DLB_SUCCESS;
 }
 
-- 
2.43.0


From 937e6aebfd892b4134e97227269428a09fe1d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 41/63] fix: the spots of finalized processes in the TALP
 shared memory can be used again

---
 src/LB_comm/shmem_talp.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index ae1b4ca..6f2c51c 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -238,9 +238,10 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     int error;
     shmem_lock(shm_handler);
     {
-        /* Regions cannot be removed from shmem_talp.
-         * Search is linear, and append if not found. */
+        /* Search is linear. If not found, reuse the first spot of a finalized
+         * process, or append. */
         int region_id;
+        int empty_id = -1;
         int num_regions = shdata->num_regions;
         for (region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
@@ -249,6 +250,9 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
                 /* Region was already registered */
                 break;
             }
+            if (empty_id == -1 && talp_region->pid == NOBODY) {
+                empty_id = region_id;
+            }
         }
 
         if (region_id < num_regions) {
@@ -256,9 +260,14 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
             *node_shared_id = region_id;
             error = DLB_NOUPDT;
         } else {
-            if (num_regions < max_regions) {
-                /* Register new region (region_id points to empty spot) */
-                ++shdata->num_regions;
+            if (empty_id != -1 || num_regions < max_regions) {
+                /* Register new region */
+                if (empty_id != -1) {
+                    region_id = empty_id;
+                } else {
+                    /* (region_id points to empty spot) */
+                    ++shdata->num_regions;
+                }
                 talp_region_t *empty_spot = &shdata->talp_region[region_id];
                 *empty_spot = (const talp_region_t) {.pid = pid, .avg_cpus = avg_cpus};
                 snprintf(empty_spot->name, DLB_MONITOR_NAME_MAX, "%s", name);
-- 
2.43.0


From 37d15cb4ab1056871cda67504956a2b3b0404594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 42/63] fix: collecting node metrics must not use, nor claim to
 have obtained, regions that could not be read

---
 src/LB_core/DLB_talp.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index c7b1f6c..8f42353 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2145,8 +2145,8 @@ int talp_query_pop_node_metrics(const char *name, dlb_node_metrics_t *node_metri
     /* Obtain a list of regions in the node associated with given region */
     int max_procs = mu_get_system_size();
     talp_region_list_t *region_list = malloc(max_procs * sizeof(talp_region_list_t));
-    int nelems;
-    shmem_talp__get_regionlist(region_list, &nelems, max_procs, name);
+    int nelems = 0;
+    error = shmem_talp__get_regionlist(region_list, &nelems, max_procs, name);
 
     /* Count how many processes have started the region */
     int processes_per_node = 0;
@@ -2197,7 +2197,7 @@ int talp_query_pop_node_metrics(const char *name, dlb_node_metrics_t *node_metri
             .load_balance = metrics.load_balance,
         };
         snprintf(node_metrics->name, DLB_MONITOR_NAME_MAX, "%s", name);
-    } else {
+    } else if (error == DLB_SUCCESS) {
         error = DLB_ERR_NOENT;
     }
 
@@ -2260,10 +2260,9 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
 
     /* This functionality needs a shared memory, create a temporary one if needed */
     bool temporary_shmem = !talp_info->flags.have_shmem
-        && !talp_info->flags.have_minimal_shmem;
-    if (temporary_shmem) {
-        shmem_talp__init(spd->options.shm_key, spd->options.shm_size_multiplier);
-    }
+        && !talp_info->flags.have_minimal_shmem
+        && shmem_talp__init(spd->options.shm_key, spd->options.shm_size_multiplier)
+            == DLB_SUCCESS;
     if (!talp_info->flags.have_shmem) {
         shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
                 &monitor_data->node_shared_id);
@@ -2278,7 +2277,7 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     node_barrier(spd, NULL);
 
     /* Compute node metrics for that region name */
-    talp_query_pop_node_metrics(monitor->name, node_metrics);
+    int error = talp_query_pop_node_metrics(monitor->name, node_metrics);
 
     /* The metrics of this process cannot be removed or modified until everyone
      * has computed the node metrics */
@@ -2294,5 +2293,5 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
         monitoring_region_start(spd, monitor);
     }
 
-    return DLB_SUCCESS;
+    return error;
 }
-- 
2.43.0


From c792199ed79a0f25398880e86dd73dc86b02a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 43/63] fix: waiting in consecutive barriers is always a
 blocking call

A process that reached a second barrier before the others left the first
one counted them as already waiting in the second one, so it took itself
for the last one: it did not lend its CPUs while waiting, and the number
of times that the barrier was completed was increased more than once.
---
 src/LB_comm/shmem_barrier.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index e6ccb02..44a91fc 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -410,6 +410,11 @@ void shmem_barrier__barrier(barrier_t *barrier) {
         verbose(VB_BARRIER, "Entering barrier %s%s", barrier->name, last_in ? " (last)" : "");
 
         if (last_in) {
+            // Reset the counter before anyone can leave the barrier, otherwise
+            // the first ones to reach the next barrier would count those that
+            // still have not left this one
+            DLB_ATOMIC_ST(&barrier->count, 0);
+
             // Barrier
             pthread_barrier_wait(&barrier->barrier);
 
@@ -442,17 +447,7 @@ void shmem_barrier__barrier(barrier_t *barrier) {
             }
         }
 
-        unsigned int participants_left = DLB_ATOMIC_SUB_FETCH(&barrier->count, 1);
-        bool last_out = participants_left == 0;
-
-        verbose(VB_BARRIER, "Leaving barrier %s%s", barrier->name, last_out ? " (last)" : "");
-
-        /* WARNING: There may be a race condition with the 'count' value in
-         *          consecutive barriers (A -> B), if one process increases the
-         *          'count' value after entering B, while another process still
-         *          hasn't decreased it in B. Anyway, this is completely harmless
-         *          since it only affects the verbose message.
-         */
+        verbose(VB_BARRIER, "Leaving barrier %s", barrier->name);
     }
     pthread_rwlock_unlock(&barrier->rwlock);
 }
-- 
2.43.0


From 934e96db96d9177c3d8c0e6d37febe29a5817eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 44/63] fix: initialize TALP shared memory with its capacity in
 an attached process

A process that calls DLB_TALP_Attach before having its own TALP shared
memory (a temporary one to collect node metrics, or the one of a process
that is initialized later) opened it with the capacity of the external
profiler, so the later initialization failed because of the size.
---
 src/LB_comm/shmem_talp.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 6f2c51c..3e7b311 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -135,17 +135,22 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
     // Shared memory creation
     open_shmem(shmem_key, shmem_size_multiplier);
 
+    // If this process was already attached, its capacity may be other than requested
+    int requested_regions = mu_get_system_size() * shmem_size_multiplier;
+
     shmem_lock(shm_handler);
     {
         // Initialize some values if this is the 1st process attached to the shmem
-        if (!shdata->initialized) {
+        if (!shdata->initialized && requested_regions <= max_regions) {
             shdata->initialized = true;
             shdata->num_regions = 0;
-            shdata->max_regions = max_regions;
+            shdata->max_regions = requested_regions;
+        }
+
+        if (shdata->max_regions == requested_regions) {
+            max_regions = requested_regions;
         } else {
-            if (shdata->max_regions != max_regions) {
-                error = DLB_ERR_INIT;
-            }
+            error = DLB_ERR_INIT;
         }
     }
     shmem_unlock(shm_handler);
@@ -154,7 +159,7 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
         warning("Cannot attach to TALP shmem because existing size differ."
                 " Existing shmem size: %d, expected: %d."
                 " Check for DLB_ARGS consistency among processes or clean up shared memory.",
-                shdata->max_regions, max_regions);
+                shdata->max_regions, requested_regions);
     }
 
     if (error < DLB_SUCCESS) {
-- 
2.43.0


From 53377345b8a51a64259fcea8cb8bfccd245f6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 45/63] fix: finalize only the shared memories that were
 initialized

A process without LeWI nor DROM never opens the shared memory of CPUs, but
DLB_Finalize closed it, so a process that was attached lost its attachment.
---
 src/LB_core/DLB_kernel.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index b0dd1d7..382f682 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -235,12 +235,15 @@ int Finish(subprocess_descriptor_t *spd) {
         node_barrier_finalize(spd);
         shmem_barrier__finalize(spd->options.shm_key);
     }
-    if (spd->lb_policy == POLICY_LEWI_MASK
+    // Finalize only what was initialized, this process may be still attached to the others
+    bool mask_is_needed = (
+            spd->lb_policy == POLICY_LEWI_MASK
             || spd->options.drom
-            || spd->options.talp
-            || spd->options.ompt
-            || spd->options.preinit_pid) {
+            || spd->options.preinit_pid);
+    if (mask_is_needed) {
         shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+    }
+    if (mask_is_needed || spd->options.talp) {
         shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
                 spd->options.shm_key);
     }
-- 
2.43.0


From ace3f774d7ad27f68cd582420b4b0af129da86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 46/63] fix: collect node metrics also if the existing shared
 memory has other size

Processes without a permanent TALP shared memory could not collect node
metrics if other processes of the node use an external profiler, and left
their region registered if they were attached.
---
 src/LB_core/DLB_talp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 8f42353..4c8bd72 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2258,11 +2258,14 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     /* Stop monitor so that metrics are updated */
     bool resume_region = monitoring_region_stop(spd, monitor) == DLB_SUCCESS;
 
-    /* This functionality needs a shared memory, create a temporary one if needed */
+    /* This functionality needs a shared memory, create a temporary one if needed,
+     * or use the existing one even if its size is not the expected one */
     bool temporary_shmem = !talp_info->flags.have_shmem
         && !talp_info->flags.have_minimal_shmem
-        && shmem_talp__init(spd->options.shm_key, spd->options.shm_size_multiplier)
-            == DLB_SUCCESS;
+        && (shmem_talp__init(spd->options.shm_key, spd->options.shm_size_multiplier)
+                == DLB_SUCCESS
+            || shmem_talp_ext__init(spd->options.shm_key, spd->options.shm_size_multiplier)
+                == DLB_SUCCESS);
     if (!talp_info->flags.have_shmem) {
         shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
                 &monitor_data->node_shared_id);
-- 
2.43.0


From 7f98d423948cd74c00735dd2634e8ca96edd489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:04 +0000
Subject: [PATCH 47/63] fix: update the timestamp of the last lent CPU and the
 last unsuccessful borrow within the lock

---
 src/LB_comm/shmem_cpuinfo.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index ee1db08..a2c3b5b 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -124,6 +124,8 @@ static inline bool is_borrowed(pid_t pid, int cpu) __attribute__((unused));
 static inline bool is_shmem_empty(void);
 
 
+/* Must be called with the shmem locked, otherwise a concurrent unsuccessful
+ * borrow could look newer than a CPU lent that it did not see */
 static void update_shmem_timestamp(void) {
     DLB_ATOMIC_ST_REL(&shdata->timestamp_cpu_lent, get_time_in_ns());
 }
@@ -555,11 +557,10 @@ int shmem_cpuinfo__finalize(pid_t pid, const char *shmem_key, int shmem_color) {
     {
         deregister_process(pid);
         //DLB_INSTR( if (is_idle(cpuid)) idle_count++; )
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     // Shared memory destruction
     close_shmem();
 
@@ -584,11 +585,10 @@ int shmem_cpuinfo_ext__postfinalize(pid_t pid) {
     shmem_lock(shm_handler);
     {
         deregister_process(pid);
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -691,11 +691,10 @@ int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict
                 //DLB_DEBUG( CPU_SET(i, &idle_cpus); )
             //}
         //}
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     //DLB_DEBUG( int size = CPU_COUNT(&freed_cpus); )
     //DLB_DEBUG( int post_size = CPU_COUNT(&idle_cpus); )
     //verbose(VB_SHMEM, "Lending %s", mu_to_str(&freed_cpus));
@@ -731,11 +730,10 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
                 //DLB_DEBUG( CPU_SET(cpu, &idle_cpus); )
             //}
         }
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     //DLB_DEBUG( int size = CPU_COUNT(&freed_cpus); )
     //DLB_DEBUG( int post_size = CPU_COUNT(&idle_cpus); )
     //verbose(VB_SHMEM, "Lending %s", mu_to_str(&freed_cpus));
@@ -1624,13 +1622,13 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
                 error = DLB_SUCCESS;
             }
         }
-    }
-    shmem_unlock(shm_handler);
 
-    /* Update timestamp if borrow did not succeed */
-    if (last_borrow != NULL && error != DLB_SUCCESS) {
-        *last_borrow = get_time_in_ns();
+        /* Update timestamp if borrow did not succeed */
+        if (last_borrow != NULL && error != DLB_SUCCESS) {
+            *last_borrow = get_time_in_ns();
+        }
     }
+    shmem_unlock(shm_handler);
 
     return error;
 }
@@ -1843,11 +1841,10 @@ int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                 }
             }
         }
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -1884,11 +1881,10 @@ int shmem_cpuinfo__reset(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                         });
             }
         }
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -1945,11 +1941,10 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
                         });
             }
         }
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
-- 
2.43.0


From 2cdf8a347d6ba0437484886ea4abc9eb3fa94f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:43 +0000
Subject: [PATCH 48/63] fix: an unsuccessful borrow of some CPUs must not
 prevent from borrowing the others

---
 src/LB_policies/lewi_mask.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index ebac84d..00e6a6a 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -652,7 +652,8 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
         const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
+    /* An unsuccessful query over some CPUs says nothing about the rest */
+    int64_t *last_borrow = async || mask ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
@@ -703,7 +704,8 @@ int lewi_mask_BorrowCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 int lewi_mask_BorrowCpusInMask(const subprocess_descriptor_t *spd, int ncpus, const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
+    /* An unsuccessful query over some CPUs says nothing about the rest */
+    int64_t *last_borrow = async || mask ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
-- 
2.43.0


From 8e0c0e783cf42d67b4b35f982917b5ed1b7e728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:42 +0000
Subject: [PATCH 49/63] fix: do not join a shared memory that is being removed
 by the last process using it

---
 src/LB_comm/shmem.c | 176 +++++++++++++++++++++++++-------------------
 1 file changed, 99 insertions(+), 77 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 59ea8e8..08669a5 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -150,84 +150,106 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     int shmem_color = shmem_props->color;
     get_shmem_filename(handler->shm_filename, shmem_module, shmem_key, shmem_color);
 
-    /* Obtain a file descriptor for the shmem */
-    int fd = shm_open(handler->shm_filename, O_CREAT | O_RDWR, S_IRUSR | S_IWUSR);
-    if (fd == -1) {
-        fatal("shm_open error: %s", strerror(errno));
-    }
-
-    /* Set the size of the file, but never reduce it if another process is
-     * already using a bigger one */
-    int alloc_error;
-    do {
-        alloc_error = posix_fallocate(fd, 0, handler->shm_size);
-    } while (alloc_error == EINTR);
-    if (alloc_error != 0) {
-        fatal("posix_fallocate error: %s", strerror(alloc_error));
-    }
+    const size_t shm_min_size = handler->shm_size;
     struct stat shm_stat;
-    if (fstat(fd, &shm_stat) == -1) {
-        fatal("fstat error: %s", strerror(errno));
-    }
-    if ((size_t)shm_stat.st_size > handler->shm_size) {
-        handler->shm_size = shm_stat.st_size;
-    }
-
-    /* Map shared memory object */
-    handler->shm_addr = mmap(NULL, handler->shm_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
-    if (handler->shm_addr == MAP_FAILED) {
-        fatal("mmap error: %s",  strerror(errno));
-    }
-
-    /* Set the address for both structs */
-    handler->shsync = (shmem_sync_t*) handler->shm_addr;
-    *shdata = handler->shm_addr + shsync_size;
+    bool removed = false;
+    int fd;
+    do {
+        handler->shm_size = shm_min_size;
 
-    if (__sync_bool_compare_and_swap(&handler->shsync->initializing, 0, 1)) {
-        /* Shared Memory creator */
-        verbose(VB_SHMEM, "Initializing Shared Memory (%s)", shmem_module);
+        /* Obtain a file descriptor for the shmem */
+        fd = shm_open(handler->shm_filename, O_CREAT | O_RDWR, S_IRUSR | S_IWUSR);
+        if (fd == -1) {
+            fatal("shm_open error: %s", strerror(errno));
+        }
 
-        /* Init pthread mutex */
-        pthread_mutexattr_t attr;
-        if (pthread_mutexattr_init(&attr) != 0) {
-            fatal("pthread_mutexattr_init error: %s", strerror(errno));
+        /* Set the size of the file, but never reduce it if another process is
+         * already using a bigger one */
+        int alloc_error;
+        do {
+            alloc_error = posix_fallocate(fd, 0, handler->shm_size);
+        } while (alloc_error == EINTR);
+        if (alloc_error != 0) {
+            fatal("posix_fallocate error: %s", strerror(alloc_error));
         }
-        if (pthread_mutexattr_setpshared(&attr, PTHREAD_PROCESS_SHARED) != 0) {
-            fatal("pthread_mutexattr_setpshared error: %s", strerror(errno));
+        if (fstat(fd, &shm_stat) == -1) {
+            fatal("fstat error: %s", strerror(errno));
         }
-        if (pthread_mutex_init(&handler->shsync->shmem_mutex, &attr) != 0) {
-            fatal("pthread_mutex_init error: %s", strerror(errno));
+        if ((size_t)shm_stat.st_size > handler->shm_size) {
+            handler->shm_size = shm_stat.st_size;
         }
-        if (pthread_mutexattr_destroy(&attr) != 0) {
-            fatal("pthread_mutexattr_destroy error: %s", strerror(errno));
+
+        /* Map shared memory object */
+        handler->shm_addr = mmap(NULL, handler->shm_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+        if (handler->shm_addr == MAP_FAILED) {
+            fatal("mmap error: %s",  strerror(errno));
         }
 
-        /* Set Shared Memory version */
-        handler->shsync->shmem_version = shmem_props->version;
-        handler->shsync->shsync_version = SHMEM_SYNC_VERSION;
+        /* Set the address for both structs */
+        handler->shsync = (shmem_sync_t*) handler->shm_addr;
+        *shdata = handler->shm_addr + shsync_size;
 
-        handler->shsync->initialized = 1;
-    } else {
-        /* Shared Memory already created */
-        while(!handler->shsync->initialized) __sync_synchronize();
-        verbose(VB_SHMEM, "Attached to Shared Memory (%s)", shmem_module);
-    }
+        if (__sync_bool_compare_and_swap(&handler->shsync->initializing, 0, 1)) {
+            /* Shared Memory creator */
+            verbose(VB_SHMEM, "Initializing Shared Memory (%s)", shmem_module);
+
+            /* Init pthread mutex */
+            pthread_mutexattr_t attr;
+            if (pthread_mutexattr_init(&attr) != 0) {
+                fatal("pthread_mutexattr_init error: %s", strerror(errno));
+            }
+            if (pthread_mutexattr_setpshared(&attr, PTHREAD_PROCESS_SHARED) != 0) {
+                fatal("pthread_mutexattr_setpshared error: %s", strerror(errno));
+            }
+            if (pthread_mutex_init(&handler->shsync->shmem_mutex, &attr) != 0) {
+                fatal("pthread_mutex_init error: %s", strerror(errno));
+            }
+            if (pthread_mutexattr_destroy(&attr) != 0) {
+                fatal("pthread_mutexattr_destroy error: %s", strerror(errno));
+            }
+
+            /* Set Shared Memory version */
+            handler->shsync->shmem_version = shmem_props->version;
+            handler->shsync->shsync_version = SHMEM_SYNC_VERSION;
+
+            handler->shsync->initialized = 1;
+        } else {
+            /* Shared Memory already created */
+            while(!handler->shsync->initialized) __sync_synchronize();
+            verbose(VB_SHMEM, "Attached to Shared Memory (%s)", shmem_module);
+        }
+
+        /* Check consistency */
+        verbose(VB_SHMEM, "Checking shared memory consistency (%s)", shmem_module);
+        struct timespec timeout;
+        get_time_real(&timeout);
+        timeout.tv_sec += SHMEM_TIMEOUT_SECONDS;
+        int error = pthread_mutex_timedlock(&handler->shsync->shmem_mutex, &timeout);
+        if (error == ETIMEDOUT) {
+            fatal("DLB cannot obtain the lock for the shared memory.\n"
+                    "This may have been caused by a previous process crashing"
+                    " while acquiring the DLB shared memory lock.\n"
+                    "Please, run 'dlb_shm --delete' and try again.\n"
+                    "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
+        } else if (error != 0) {
+            fatal("pthread_mutex_timedlock error: %s", strerror(error));
+        }
+
+        /* The last process using the shared memory may have removed it since it
+         * was opened here, in that case try again with a new one */
+        if (fstat(fd, &shm_stat) == -1) {
+            fatal("fstat error: %s", strerror(errno));
+        }
+        removed = shm_stat.st_nlink == 0;
+        if (removed) {
+            pthread_mutex_unlock(&handler->shsync->shmem_mutex);
+            if (munmap(handler->shm_addr, handler->shm_size) != 0) {
+                fatal("munmap error: %s", strerror(errno));
+            }
+        }
+        close(fd);
+    } while (removed);
 
-    /* Check consistency */
-    verbose(VB_SHMEM, "Checking shared memory consistency (%s)", shmem_module);
-    struct timespec timeout;
-    get_time_real(&timeout);
-    timeout.tv_sec += SHMEM_TIMEOUT_SECONDS;
-    int error = pthread_mutex_timedlock(&handler->shsync->shmem_mutex, &timeout);
-    if (error == ETIMEDOUT) {
-        fatal("DLB cannot obtain the lock for the shared memory.\n"
-                "This may have been caused by a previous process crashing"
-                " while acquiring the DLB shared memory lock.\n"
-                "Please, run 'dlb_shm --delete' and try again.\n"
-                "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
-    } else if (error != 0) {
-        fatal("pthread_mutex_timedlock error: %s", strerror(error));
-    }
     shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
     shmem_consistency_check_version(handler->shsync->shmem_version, shmem_props->version);
     shmem_consistency_check_pids(handler->shsync->pidlist, pid, shmem_props->cleanup_fn, *shdata);
@@ -246,7 +268,15 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
     shmem_lock(handler);
     bool is_empty = is_empty_fn ? is_empty_fn() : true;
     bool is_last_one = shmem_consistency_remove_pid(handler->shsync->pidlist, getpid());
-    bool delete_shmem = is_empty && is_last_one;
+
+    /* Only the last process unlinks shmem, within the lock so that no process
+     * can join a shared memory that is about to disappear */
+    if (is_empty && is_last_one) {
+        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
+        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
+            fatal("shm_unlink error: %s", strerror(errno));
+        }
+    }
     shmem_unlock(handler);
 
     /* Here we should destroy the pthread mutex but another process may open
@@ -258,14 +288,6 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
         fatal("munmap error: %s", strerror(errno));
     }
 
-    /* Only the last process unlinks shmem */
-    if (delete_shmem) {
-        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
-        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
-            fatal("shm_unlink error: %s", strerror(errno));
-        }
-    }
-
     free(handler);
 }
 
-- 
2.43.0


From 6cd41c70d16f073ebf517ef1e21afe9095883ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:57 +0000
Subject: [PATCH 50/63] fix: count the CPUs of the process against the maximum
 parallelism within the lock

---
 src/LB_comm/shmem_cpuinfo.c | 80 +++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index a2c3b5b..6a5f280 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1248,26 +1248,6 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
         }
     }
 
-    /* Return immediately if the process has reached the max_parallelism */
-    if (max_parallelism != 0) {
-        /* All the CPUs of the process count, not only those in the array */
-        for (int cpuid=0; cpuid<node_size; ++cpuid) {
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
-                --max_parallelism;
-            }
-        }
-        if (max_parallelism <= 0) {
-            return DLB_NOUPDT;
-        }
-    }
-
-    /* Compute the max number of CPUs to acquire */
-    int ncpus = requested_ncpus ? *requested_ncpus : node_size;
-    if (max_parallelism > 0) {
-        ncpus = min_int(ncpus, max_parallelism);
-    }
-
     /* Arrays for temporary CPU priority (lazy initialized and always used within the lock) */
     static array_cpuid_t owned_idle = {};
     static array_cpuid_t owned_non_idle = {};
@@ -1276,6 +1256,27 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
     int error = DLB_NOUPDT;
     shmem_lock(shm_handler);
     {
+        /* Return immediately if the process has reached the max_parallelism */
+        if (max_parallelism != 0) {
+            /* All the CPUs of the process count, not only those in the array */
+            for (int cpuid=0; cpuid<node_size; ++cpuid) {
+                const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+                if (cpuinfo->guest == pid) {
+                    --max_parallelism;
+                }
+            }
+            if (max_parallelism <= 0) {
+                shmem_unlock(shm_handler);
+                return DLB_NOUPDT;
+            }
+        }
+
+        /* Compute the max number of CPUs to acquire */
+        int ncpus = requested_ncpus ? *requested_ncpus : node_size;
+        if (max_parallelism > 0) {
+            ncpus = min_int(ncpus, max_parallelism);
+        }
+
         /* Lazy init first time, clear afterwards */
         if (likely(owned_idle.items != NULL)) {
             array_cpuid_t_clear(&owned_idle);
@@ -1581,29 +1582,30 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
         return DLB_NOUPDT;
     }
 
-    /* Return immediately if the process has reached the max_parallelism */
-    if (max_parallelism != 0) {
-        /* All the CPUs of the process count, not only those in the array */
-        for (int cpuid=0; cpuid<node_size; ++cpuid) {
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
-                --max_parallelism;
+    int error = DLB_NOUPDT;
+    shmem_lock(shm_handler);
+    {
+        /* Return immediately if the process has reached the max_parallelism */
+        if (max_parallelism != 0) {
+            /* All the CPUs of the process count, not only those in the array */
+            for (int cpuid=0; cpuid<node_size; ++cpuid) {
+                const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+                if (cpuinfo->guest == pid) {
+                    --max_parallelism;
+                }
+            }
+            if (max_parallelism <= 0) {
+                shmem_unlock(shm_handler);
+                return DLB_NOUPDT;
             }
         }
-        if (max_parallelism <= 0) {
-            return DLB_NOUPDT;
-        }
-    }
 
-    /* Compute the max number of CPUs to borrow */
-    int ncpus = requested_ncpus ? *requested_ncpus : node_size;
-    if (max_parallelism > 0) {
-        ncpus = min_int(ncpus, max_parallelism);
-    }
+        /* Compute the max number of CPUs to borrow */
+        int ncpus = requested_ncpus ? *requested_ncpus : node_size;
+        if (max_parallelism > 0) {
+            ncpus = min_int(ncpus, max_parallelism);
+        }
 
-    int error = DLB_NOUPDT;
-    shmem_lock(shm_handler);
-    {
         /* Skip borrow if no CPUs in the free_cpus mask */
         if (CPU_COUNT(&shdata->free_cpus) == 0) {
             ncpus = 0;
-- 
2.43.0


From d74fedfbc4fec46318208f8d3c28d0f21f7270e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:40 +0000
Subject: [PATCH 51/63] fix: borrowing any CPU searches them all, keep its
 unsuccessful timestamp

---
 src/LB_policies/lewi_mask.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 00e6a6a..ff1dc6c 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -679,9 +679,7 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
 /*********************************************************************************/
 
 int lewi_mask_Borrow(const subprocess_descriptor_t *spd) {
-    cpu_set_t system_mask;
-    mu_get_system_mask(&system_mask);
-    return lewi_mask_BorrowCpusInMask(spd, 0, &system_mask);
+    return lewi_mask_BorrowCpusInMask(spd, 0, NULL);
 }
 
 int lewi_mask_BorrowCpu(const subprocess_descriptor_t *spd, int cpuid) {
-- 
2.43.0


From ba0234ccdfecf3c7476992956791871b7431becc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:35 +0000
Subject: [PATCH 52/63] fix: a CPU still assigned to the process is not lost in
 a blocking call

---
 src/LB_comm/shmem_cpuinfo.c | 6 ++++++
 src/LB_comm/shmem_cpuinfo.h | 1 +
 src/LB_policies/lewi_mask.c | 8 +++++---
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 6a5f280..013a463 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2156,6 +2156,12 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
     return error;
 }
 
+/* Whether the CPU is assigned to the process, even if its owner has reclaimed it */
+bool shmem_cpuinfo__is_guest(pid_t pid, int cpuid) {
+    if (cpuid < 0 || cpuid >= node_size) return false;
+    return shdata->node_info[cpuid].guest == pid;
+}
+
 bool shmem_cpuinfo__exists(void) {
     return shm_handler != NULL;
 }
diff --git a/src/LB_comm/shmem_cpuinfo.h b/src/LB_comm/shmem_cpuinfo.h
index f82598e..619f22c 100644
--- a/src/LB_comm/shmem_cpuinfo.h
+++ b/src/LB_comm/shmem_cpuinfo.h
@@ -107,6 +107,7 @@ int shmem_cpuinfo__get_thread_binding(pid_t pid, int thread_num);
 int shmem_cpuinfo__get_nth_non_owned_cpu(pid_t pid, int nth_cpu);
 int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid);
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpu);
+bool shmem_cpuinfo__is_guest(pid_t pid, int cpuid);
 bool shmem_cpuinfo__exists(void);
 void shmem_cpuinfo__enable_request_queues(void);
 void shmem_cpuinfo__remove_requests(pid_t pid);
diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index ff1dc6c..37cc0bf 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -510,13 +510,15 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             array_cpuinfo_task_t *tasks = get_tasks(spd);
             error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, cpu_subset, tasks);
 
-            /* Some CPUs may still be, or be again, assigned to the process
-             * (e.g., a previous request was attended while in the blocking call) */
+            /* Some CPUs may still be, or be again, assigned to the process (e.g.,
+             * a previous request was attended while in the blocking call), and if
+             * their owner reclaims them they are returned as any other CPU */
             cpu_set_t lost_cpus;
             CPU_ZERO(&lost_cpus);
             for (int cpuid = mu_get_first_cpu(&non_owned_cpus); cpuid >= 0;
                     cpuid = mu_get_next_cpu(&non_owned_cpus, cpuid)) {
-                if (shmem_cpuinfo__check_cpu_availability(spd->id, cpuid) != DLB_SUCCESS) {
+                if (shmem_cpuinfo__check_cpu_availability(spd->id, cpuid) != DLB_SUCCESS
+                        && !shmem_cpuinfo__is_guest(spd->id, cpuid)) {
                     CPU_SET(cpuid, &lost_cpus);
                 }
             }
-- 
2.43.0


From b4a9925b06afdb56975d314fb5d7ebf602446080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 53/63] fix: CPUs returned or released may let others borrow,
 update the timestamp

---
 src/LB_comm/shmem_cpuinfo.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 013a463..080dd96 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1666,6 +1666,9 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
     // Possibly clear CPU from occupies cores set
     update_occupied_cores(cpuinfo->owner, cpuinfo->id);
 
+    // The CPU, or others in the same core, may have become available
+    update_shmem_timestamp();
+
     // current subprocess to disable cpu
     array_cpuinfo_task_t_push(
             tasks,
@@ -2037,6 +2040,9 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
         }
     }
 
+    // CPUs in the same core as those released may have become available
+    update_shmem_timestamp();
+
     shmem_unlock(shm_handler);
 }
 
-- 
2.43.0


From e2d99f53f058e3927d3e74d18faeaed2d71635d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 54/63] fix: a process that finalizes returns the borrowed
 number of CPUs, or takes back the lent ones

---
 src/LB_policies/lewi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index e19ea93..c8652bd 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -70,6 +70,8 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 }
 
 int lewi_Finalize(subprocess_descriptor_t *spd) {
+    /* Return the borrowed CPUs, or take back the lent ones */
+    releaseCpus(myCPUS - default_cpus);
     finalize_comm();
     return DLB_SUCCESS;
 }
-- 
2.43.0


From ba472071012cb0504e987f139ba54144d1b440c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 55/63] fix: disabling DLB takes back the lent CPUs without
 assigning idle ones

---
 src/LB_policies/lewi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index c8652bd..b1d2f77 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -85,7 +85,8 @@ int lewi_EnableDLB(const subprocess_descriptor_t *spd) {
 int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
     if (enabled && !single) {
         verbose(VB_MICROLB, "ResetDLB");
-        acquireCpus(myCPUS);
+        /* Do not use acquireCpus, it may also assign idle CPUs */
+        releaseCpus(myCPUS - default_cpus);
         setThreads_Lend_light(&spd->pm, default_cpus);
     }
     enabled = 0;
-- 
2.43.0


From 2cc3c993ea2e59a0ccabb7e7787a6fba7faa8e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 56/63] fix: the greedy acquisition of idle CPUs does not
 assign the same CPU twice

---
 src/LB_comm/comm_lend_light.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..4d59ad7 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -129,8 +129,16 @@ int acquireCpus(int current_cpus) {
 
 //I don't care if there aren't enough cpus
 
-    if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
+    int idle = __sync_sub_and_fetch (&(shdata->idleCpus), cpus);
+    if (greedy) {
+        while (idle > 0) {
+            int seen = __sync_val_compare_and_swap(&(shdata->idleCpus), idle, 0);
+            if (seen == idle) {
+                cpus += idle;
+                break;
+            }
+            idle = seen;
+        }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
-- 
2.43.0


From 17f3cb78623f558cf3fb664e7262d979b644e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 57/63] fix: the number of idle CPUs to borrow is read and
 taken atomically

---
 src/LB_comm/comm_lend_light.c | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index 4d59ad7..803850c 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -153,26 +153,22 @@ that are assigned
 */
 int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
+    int idle;
     int cpus;
-    int aux;
-//WARNING//
-    //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
-        cpus=min_int(abs(aux), myCpus-defaultCPUS);
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
-            myCpus-=cpus;
-        }
-
-        //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
-        if(aux>maxResources) { aux=maxResources; }
-
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
-            myCpus+=aux;
+    do {
+        idle = *(volatile int*)&shdata->idleCpus;
+        if (idle < 0 && myCpus > defaultCPUS) {
+            //if more CPUS than the availables are used release some
+            cpus = -min_int(-idle, myCpus-defaultCPUS);
+        } else if (idle > 0 && maxResources > 0) {
+            //if there are idle CPUS use them
+            cpus = min_int(idle, maxResources);
+        } else {
+            cpus = 0;
         }
-    }
+    } while (cpus != 0
+            && !__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle-cpus));
+    myCpus += cpus;
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
     verbose(VB_SHMEM, "Using %d CPUS... %d Idle", myCpus, shdata->idleCpus);
-- 
2.43.0


From f9a99995a7c9122d11b6e599226c540488146bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 58/63] fix: an invalid maximum parallelism has no effect, and
 is not kept from a previous execution

---
 src/LB_policies/lewi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index b1d2f77..6569043 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -46,6 +46,7 @@ int lewi_Init(subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "LeWI Init");
 
     default_cpus = spd->lewi_ncpus;
+    max_parallelism = 0;
 
     setThreads_Lend_light(&spd->pm, default_cpus);
 
@@ -94,6 +95,8 @@ int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_SetMaxParallelism(const subprocess_descriptor_t *spd, int max) {
+    if (max <= 0) return DLB_SUCCESS;
+
     if (myCPUS>max){
         releaseCpus(myCPUS-max);
         setThreads_Lend_light(&spd->pm, max);
-- 
2.43.0


From 4553670358df9b3963b4f6f2ceadc9470899698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 59/63] fix: saved requests are not counted twice when enabling
 LeWI again

---
 src/LB_policies/lewi_async.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..9585954 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -130,10 +130,13 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 
     /* Restore previously requested CPUs */
     lewi_info_t *lewi_info = spd->lewi_info;
-    if (lewi_info->prev_requested > 0) {
-        error = lewi_async_AcquireCpus(spd, lewi_info->prev_requested);
-        if (error == DLB_SUCCESS || error == DLB_NOTED) {
-            lewi_info->prev_requested = 0;
+    unsigned int prev_requested = lewi_info->prev_requested;
+    if (prev_requested > 0) {
+        /* AcquireCpus adds the saved request, reset it first */
+        lewi_info->prev_requested = 0;
+        error = lewi_async_AcquireCpus(spd, prev_requested);
+        if (error != DLB_SUCCESS && error != DLB_NOTED) {
+            lewi_info->prev_requested = prev_requested;
         }
     }
 
-- 
2.43.0


From ceb4b0763a3dfc600e411fea647d68ce7f317813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:02 +0000
Subject: [PATCH 60/63] fix: disabling LeWI keeps the requests of the process
 only for the next time that it is enabled

---
 src/LB_comm/shmem_lewi_async.c | 20 +++++++++++++++++---
 src/LB_comm/shmem_lewi_async.h |  4 ++++
 src/LB_policies/lewi_async.c   |  7 ++++---
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..205307d 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -699,9 +699,9 @@ int shmem_lewi_async__borrow_cpus(pid_t pid, unsigned int ncpus,
 /*  Reset (Lend or Reclaim)                                                      */
 /*********************************************************************************/
 
-int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
+static int reset(pid_t pid, unsigned int *new_ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
-        unsigned int *prev_requested) {
+        unsigned int *prev_requested, bool force) {
 
     if (unlikely(shm_handler == NULL)) return DLB_ERR_NOSHMEM;
 
@@ -717,7 +717,7 @@ int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
     unsigned int idle_cpus;
     shmem_lock(shm_handler);
     {
-        if (process->initial_ncpus != process->current_ncpus) {
+        if (force || process->initial_ncpus != process->current_ncpus) {
             error = reset_process(process, requests, nreqs, maxreqs, prev_requested);
         }
 
@@ -733,3 +733,17 @@ int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
 
     return error;
 }
+
+int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
+        lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
+        unsigned int *prev_requested) {
+    return reset(pid, new_ncpus, requests, nreqs, maxreqs, prev_requested, false);
+}
+
+/* Same as reset, but the requests are removed even if the process does not
+ * need to lend or reclaim any CPU */
+int shmem_lewi_async__disable(pid_t pid, unsigned int *new_ncpus,
+        lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
+        unsigned int *prev_requested) {
+    return reset(pid, new_ncpus, requests, nreqs, maxreqs, prev_requested, true);
+}
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 804a6b3..2b2d409 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -60,4 +60,8 @@ int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
         unsigned int *prev_requested);
 
+int shmem_lewi_async__disable(pid_t pid, unsigned int *new_ncpus,
+        lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
+        unsigned int *prev_requested);
+
 #endif /* SHMEM_LEWI_ASYNC_H */
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 9585954..d5c5672 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -150,17 +150,18 @@ int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     unsigned int num_requests;
     unsigned int prev_requested;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
-    int error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
+    int error = shmem_lewi_async__disable(spd->id, &new_ncpus, requests,
             &num_requests, node_size, &prev_requested);
 
-    if (error == DLB_SUCCESS) {
-
+    if (error == DLB_SUCCESS || error == DLB_NOUPDT) {
         /* Save previously requested CPUs to push request again later */
         if (prev_requested > 0 ) {
             lewi_info_t *lewi_info = spd->lewi_info;
             lewi_info->prev_requested = prev_requested;
         }
+    }
 
+    if (error == DLB_SUCCESS) {
         /* Set num_threads = new_ncpus */
         lewi_async_set_num_threads(&spd->pm, new_ncpus);
 
-- 
2.43.0


From 4803b211c9f38315311172ac78966ba15f812b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 61/63] fix: remove the pending requests of a crashed process,
 and let others search for the CPUs that it had

---
 src/LB_comm/shmem_cpuinfo.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 080dd96..38690c9 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -327,6 +327,14 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    /* Remove any previous global request */
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
+
+    /* The CPUs of the process may be available now */
+    update_shmem_timestamp();
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From 73bae8c7a623e7deb295ce0ab45de7688b43b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 62/63] fix: a process uses the spot of a crashed one in the
 list of processes attached to the shared memory

---
 src/LB_comm/shmem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 08669a5..8dd9349 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -72,7 +72,9 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
                             "DLB is cleaning up the shared memory. If it fails,"
                             " please run 'dlb_shm --delete' and try again.", pidlist[i]);
                     cleanup_fn(shdata, pidlist[i]);
-                    pidlist[i] = 0;
+                    /* The spot may be the only one available */
+                    pidlist[i] = registered ? 0 : pid;
+                    registered = true;
                 } else {
                     verbose(VB_SHMEM, "Process %d attached to shmem not found, "
                             "you may want to run \"dlb_shm -d\"", pidlist[i]);
-- 
2.43.0


From 3d5f8a72ca80a755af33d0bd19f8c87df0339567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:55 +0000
Subject: [PATCH 63/63] fix: printing the state of the CPUs does not change how
 they are released later

---
 src/LB_comm/shmem_cpuinfo.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 38690c9..b2c9b52 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2287,10 +2287,10 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
     int rows = (node_size+columns-1) / columns;
     int cpus_per_column = rows;
 
-    /* Update flag here in case this is an external process */
-    if (thread_spd && !thread_spd->options.lewi_respect_cpuset) {
-        respect_cpuset = false;
-    }
+    /* This may be an external process, check also its options, but do not update
+     * the flag because it affects how CPUs are released */
+    bool print_disabled = respect_cpuset
+        && !(thread_spd && !thread_spd->options.lewi_respect_cpuset);
 
     int row;
     for (row=0; row<rows; ++row) {
@@ -2309,7 +2309,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
                 cpu_state_t state = cpuinfo->state;
                 if (color) {
                     const char *code_color =
-                        state == CPU_DISABLED && respect_cpuset ? ANSI_COLOR_RESET :
+                        state == CPU_DISABLED && print_disabled ? ANSI_COLOR_RESET :
                         state == CPU_BUSY && guest == owner     ? ANSI_COLOR_RED :
                         state == CPU_BUSY                       ? ANSI_COLOR_YELLOW :
                         guest == NOBODY                         ? ANSI_COLOR_GREEN :
-- 
2.43.0

