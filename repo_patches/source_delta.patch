From a9554e78040142bdcadb70555bbbb51b785ec21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 001/136] fix: do not skip a borrow because a previous one
 limited to other CPUs failed

A failed borrow or acquire of a CPU mask updated last_borrow, so that later
queries for different CPUs were skipped although there were idle CPUs.
---
 src/LB_policies/lewi_mask.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 0e1430c..34cb29c 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -633,12 +633,16 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
         const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* The timestamp of the last unsuccessful borrow is only meaningful if all
+     * the CPUs in the priority array are considered */
+    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count;
+    int64_t *last_borrow = async || !all_cpus ? NULL : &lewi_info->last_borrow;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
@@ -684,12 +688,16 @@ int lewi_mask_BorrowCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 int lewi_mask_BorrowCpusInMask(const subprocess_descriptor_t *spd, int ncpus, const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* The timestamp of the last unsuccessful borrow is only meaningful if all
+     * the CPUs in the priority array are considered */
+    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count;
+    int64_t *last_borrow = async || !all_cpus ? NULL : &lewi_info->last_borrow;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
-- 
2.43.0


From 1ab4568a80f1974bf2b3d564782e4ba327929e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 002/136] fix: register as occupied a CPU obtained with
 CheckCpuAvailability

Otherwise neither the owner's Reclaim nor the guest's Return see the CPU.
---
 src/LB_comm/shmem_cpuinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..2ca48a3 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2127,6 +2127,7 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
             if (cpuinfo->guest == NOBODY) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(cpuinfo->owner, cpuid);
                 error = DLB_SUCCESS;
             }
         }
-- 
2.43.0


From aa530a06f7a19b1d14574ef36400742d50934848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 003/136] fix: ReturnCpuMask reports success if any CPU was
 returned

The result of the last CPU in the mask overwrote the previous ones.
---
 src/LB_comm/shmem_cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 2ca48a3..fc4bc64 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1735,7 +1735,7 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
                 cpuid >= 0;
                 cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
             int local_error = return_cpu(pid, cpuid, tasks);
-            error = (error < 0) ? error : local_error;
+            error = (error == DLB_NOUPDT) ? local_error : error;
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 0afea92b10335c408b4e34324d3bd0881cdd0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 004/136] fix: count all the CPUs in use when limiting by
 max_parallelism

Only the CPUs in the requested subset were counted, so borrowing or acquiring
from a mask could exceed the maximum.
---
 src/LB_comm/shmem_cpuinfo.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index fc4bc64..90d0361 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1251,10 +1251,8 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
 
     /* Return immediately if the process has reached the max_parallelism */
     if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
+        for (int cpuid = 0; cpuid < node_size; ++cpuid) {
+            if (shdata->node_info[cpuid].guest == pid) {
                 --max_parallelism;
             }
         }
@@ -1584,10 +1582,8 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
 
     /* Return immediately if the process has reached the max_parallelism */
     if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
+        for (int cpuid = 0; cpuid < node_size; ++cpuid) {
+            if (shdata->node_info[cpuid].guest == pid) {
                 --max_parallelism;
             }
         }
-- 
2.43.0


From 81789ddbb345747f91a91a4e053c7279f944c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 005/136] fix: a returned CPU may enable borrowing other CPUs
 in the core

Without updating the timestamp, a process whose last borrow failed because the
core was occupied would not try again.
---
 src/LB_comm/shmem_cpuinfo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 90d0361..4794b09 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1661,6 +1661,9 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
     // Possibly clear CPU from occupies cores set
     update_occupied_cores(cpuinfo->owner, cpuinfo->id);
 
+    // The rest of CPUs in the core may be eligible now
+    update_shmem_timestamp();
+
     // current subprocess to disable cpu
     array_cpuinfo_task_t_push(
             tasks,
-- 
2.43.0


From f69a707fbc686c705c6250416ab05735b2f80e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 006/136] fix: do not count twice the CPUs of a partially idle
 core when acquiring

---
 src/LB_comm/shmem_cpuinfo.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 4794b09..69fe37c 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1308,6 +1308,24 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
             if (error != DLB_NOTED) error = local_error;
         }
 
+        /* If SMT is enabled, acquiring an idle CPU also acquires the rest of the
+         * CPUs in the core. Skip those ones to not count them twice. */
+        if (shdata->flags.hw_has_smt) {
+            unsigned int count = 0;
+            for (unsigned int i = 0; i < owned_non_idle.count; ++i) {
+                cpuid_t core_id = shdata->node_info[owned_non_idle.items[i]].core_id;
+                bool core_acquired = false;
+                for (unsigned int j = 0; j < owned_idle.count && !core_acquired; ++j) {
+                    const cpuinfo_t *cpuinfo = &shdata->node_info[owned_idle.items[j]];
+                    core_acquired = cpuinfo->core_id == core_id && cpuinfo->guest == pid;
+                }
+                if (!core_acquired) {
+                    owned_non_idle.items[count++] = owned_non_idle.items[i];
+                }
+            }
+            owned_non_idle.count = count;
+        }
+
         /* Acquire the rest of owned CPUs */
         local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_non_idle, &ncpus, tasks);
         if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
-- 
2.43.0


From 4017a0b41d2ad7330b5c5e515682d1d9acda64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 007/136] fix: do not give away disabled CPUs when somebody
 lends them

Lending CPUs that no process owns (e.g. DLB_Lend, which lends the system mask)
assigned them to processes with pending requests.
---
 src/LB_comm/shmem_cpuinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 69fe37c..a677f5e 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -221,7 +221,8 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     if (cpuinfo->state == CPU_BUSY) {
         /* If CPU is claimed, ignore requests and assign owner */
         new_guest = cpuinfo->owner;
-    } else if (shdata->flags.queues_enabled) {
+    } else if (cpuinfo->state == CPU_LENT
+            && shdata->flags.queues_enabled) {
         /* Pop first PID in queue that is eligible for this CPU */
         for (pid_t *it = queue_pid_t_front(&cpuinfo->requests);
                 it != NULL && new_guest == NOBODY;
@@ -658,7 +659,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
     }
 
     // Add CPU to the appropriate CPU sets
-    if (cpuinfo->guest == NOBODY) {
+    if (cpuinfo->guest == NOBODY && cpuinfo->state == CPU_LENT) {
         CPU_SET(cpuid, &shdata->free_cpus);
     }
 
-- 
2.43.0


From 5aebf6757f1bb38a150c92cca61b0e458151c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 008/136] fix: a failed acquire does not mean that no NUMA node
 is free (spread-ifempty)

---
 src/LB_policies/lewi_mask.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 34cb29c..4db3388 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -639,8 +639,10 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
     /* The timestamp of the last unsuccessful borrow is only meaningful if all
-     * the CPUs in the priority array are considered */
-    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count;
+     * the CPUs in the priority array are considered, and if a borrow would not
+     * consider any other (acquiring does not look for free NUMA nodes) */
+    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count
+        && spd->options.lewi_affinity != LEWI_AFFINITY_SPREAD_IFEMPTY;
     int64_t *last_borrow = async || !all_cpus ? NULL : &lewi_info->last_borrow;
 
     /* Provide a number of requested CPUs only if needed */
-- 
2.43.0


From 91e87d25b1b8fa2d2b3ab2da391218f747d712d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 009/136] fix: serve pending requests for the rest of the core
 when its last CPU is lent

With SMT, the pending requests for the other CPUs in the core were only
examined if the lent CPU itself was assigned. Also keep free_cpus and
occupied_cores updated for the CPUs assigned that way.
---
 src/LB_comm/shmem_cpuinfo.c | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index a677f5e..b8add13 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -629,29 +629,31 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
                         .pid = new_guest,
                         .cpuid = cpuid,
                     });
+            CPU_CLR(cpuid, &shdata->free_cpus);
+        }
 
-            // If SMT is enabled, this CPU could have been the last lent
-            // CPU in core, allowing find_new_guest to find new guests for
-            // the rest of CPUs in the core. Iterate the rest of cpus now:
-            const mu_cpuset_t *core_mask = mu_get_core_mask(cpuid);
-            for (int cpuid_in_core = core_mask->first_cpuid;
-                    cpuid_in_core >= 0;
-                    cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
-                if (cpuid_in_core != cpuid) {
-                    cpuinfo_t *cpuinfo_in_core = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo_in_core->guest == NOBODY) {
-                        new_guest = find_new_guest(cpuinfo_in_core);
-                        if (new_guest != NOBODY) {
-                            cpuinfo_in_core->guest = new_guest;
-                            array_cpuinfo_task_t_push(
-                                    tasks,
-                                    (const cpuinfo_task_t) {
-                                    .action = ENABLE_CPU,
-                                    .pid = new_guest,
-                                    .cpuid = cpuid_in_core,
-                                    });
-                            CPU_CLR(cpuid_in_core, &shdata->free_cpus);
-                        }
+        // If SMT is enabled, this CPU could have been the last lent
+        // CPU in core, allowing find_new_guest to find new guests for
+        // the rest of CPUs in the core. Iterate the rest of cpus now:
+        const mu_cpuset_t *core_mask = mu_get_core_mask(cpuid);
+        for (int cpuid_in_core = core_mask->first_cpuid;
+                cpuid_in_core >= 0;
+                cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
+            if (cpuid_in_core != cpuid) {
+                cpuinfo_t *cpuinfo_in_core = &shdata->node_info[cpuid_in_core];
+                if (cpuinfo_in_core->guest == NOBODY) {
+                    new_guest = find_new_guest(cpuinfo_in_core);
+                    if (new_guest != NOBODY) {
+                        cpuinfo_in_core->guest = new_guest;
+                        array_cpuinfo_task_t_push(
+                                tasks,
+                                (const cpuinfo_task_t) {
+                                .action = ENABLE_CPU,
+                                .pid = new_guest,
+                                .cpuid = cpuid_in_core,
+                                });
+                        CPU_CLR(cpuid_in_core, &shdata->free_cpus);
+                        update_occupied_cores(cpuinfo_in_core->owner, cpuid_in_core);
                     }
                 }
             }
-- 
2.43.0


From 7881561856755ff84d2bc74960b6f83e654c985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 010/136] fix: do not ask nobody to return the idle CPUs of a
 reclaimed core

---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index b8add13..efb7fce 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -894,7 +894,8 @@ int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restr
                     cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
                 if (cpuid_in_core != cpuid) {
                     const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo->guest != pid) {
+                    if (cpuinfo->guest != pid
+                            && cpuinfo->guest != NOBODY) {
                         array_cpuinfo_task_t_push(
                                 tasks,
                                 (const cpuinfo_task_t) {
-- 
2.43.0


From 88bce0f4e5276309c45994d15f2e587ca9cedef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:33 +0000
Subject: [PATCH 011/136] fix: do not take a CPU from its new user when its
 former guest already lent it

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index efb7fce..e1b7992 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1766,8 +1766,9 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
 static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-    ensure(cpuinfo->owner != pid
-            && cpuinfo->guest == pid, "cpuinfo inconsistency in %s", __func__);
+    /* The guest may have lent the CPU, and even other process may have obtained
+     * it, since the CPU was reclaimed */
+    if (cpuinfo->guest != pid || cpuinfo->owner == pid) return;
 
     /* 'cpuid' should only be a guested non-owned CPU */
     if (cpuinfo->state == CPU_BUSY) {
-- 
2.43.0


From 860e4fecee16d501a185184af8fbefb75dc7d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 012/136] fix: do not attach to a shared memory that is being
 removed, nor leak its descriptor

---
 src/LB_comm/shmem.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 9b37f5a..8933584 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -150,7 +150,8 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     int shmem_color = shmem_props->color;
     get_shmem_filename(handler->shm_filename, shmem_module, shmem_key, shmem_color);
 
-    /* Obtain a file descriptor for the shmem */
+attach:
+    ; /* Obtain a file descriptor for the shmem */
     int fd = shm_open(handler->shm_filename, O_CREAT | O_RDWR, S_IRUSR | S_IWUSR);
     if (fd == -1) {
         fatal("shm_open error: %s", strerror(errno));
@@ -216,6 +217,18 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     } else if (error != 0) {
         fatal("pthread_mutex_timedlock error: %s", strerror(error));
     }
+
+    /* The last process attached may have unlinked the file after it was opened
+     * here, in which case no other process will see this shared memory */
+    struct stat shm_stat;
+    bool unlinked = fstat(fd, &shm_stat) == 0 && shm_stat.st_nlink == 0;
+    close(fd);
+    if (unlinked) {
+        pthread_mutex_unlock(&handler->shsync->shmem_mutex);
+        munmap(handler->shm_addr, handler->shm_size);
+        goto attach;
+    }
+
     shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
     shmem_consistency_check_version(handler->shsync->shmem_version, shmem_props->version);
     shmem_consistency_check_pids(handler->shsync->pidlist, pid, shmem_props->cleanup_fn, *shdata);
@@ -235,6 +248,15 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
     bool is_empty = is_empty_fn ? is_empty_fn() : true;
     bool is_last_one = shmem_consistency_remove_pid(handler->shsync->pidlist, getpid());
     bool delete_shmem = is_empty && is_last_one;
+
+    /* Only the last process unlinks shmem. It needs to be done with the lock, so that
+     * any process attaching at this moment can detect it. */
+    if (delete_shmem) {
+        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
+        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
+            fatal("shm_unlink error: %s", strerror(errno));
+        }
+    }
     shmem_unlock(handler);
 
     /* Here we should destroy the pthread mutex but another process may open
@@ -246,14 +268,6 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
         fatal("munmap error: %s", strerror(errno));
     }
 
-    /* Only the last process unlinks shmem */
-    if (delete_shmem) {
-        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
-        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
-            fatal("shm_unlink error: %s", strerror(errno));
-        }
-    }
-
     free(handler);
 }
 
-- 
2.43.0


From 80310a09829b9adbfc4a9a989be6827312b0f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 013/136] fix: wait for the helper thread before resetting the
 callbacks at finalization

---
 src/LB_comm/shmem_async.c | 14 +++++++++++---
 src/LB_comm/shmem_async.h |  1 +
 src/LB_core/DLB_kernel.c  |  5 +++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 467632c..ba717fe 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -294,10 +294,10 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
     return error;
 }
 
-int shmem_async_finalize(pid_t pid) {
-    verbose(VB_ASYNC, "Finalizing helper thread for pid: %d", pid);
+/* Reject further messages and wait for the helper thread to deliver the pending ones */
+void shmem_async_join(pid_t pid) {
     helper_t *helper = get_helper(pid);
-    if (helper) {
+    if (helper && !helper->joinable) {
         /* Enqueue JOIN message  */
         message_t message = { .action = ACTION_JOIN };
         enqueue_message(helper, &message);
@@ -305,6 +305,14 @@ int shmem_async_finalize(pid_t pid) {
         /* Wait helper thread to finish */
         pthread_join(helper->pth, NULL);
         verbose(VB_ASYNC, "Helper thread joined");
+    }
+}
+
+int shmem_async_finalize(pid_t pid) {
+    verbose(VB_ASYNC, "Finalizing helper thread for pid: %d", pid);
+    helper_t *helper = get_helper(pid);
+    if (helper) {
+        shmem_async_join(pid);
 
         /* Clear helper data */
         shmem_lock(shm_handler);
diff --git a/src/LB_comm/shmem_async.h b/src/LB_comm/shmem_async.h
index c076f9d..ed3309a 100644
--- a/src/LB_comm/shmem_async.h
+++ b/src/LB_comm/shmem_async.h
@@ -27,6 +27,7 @@ struct pm_interface;
 
 int shmem_async_init(pid_t pid, const struct pm_interface *pm,
         const cpu_set_t *process_mask, const char *shmem_key);
+void shmem_async_join(pid_t pid);
 int shmem_async_finalize(pid_t pid);
 
 void shmem_async_enable_cpu(pid_t pid, int cpuid);
diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 2b23cc7..c6c74c0 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -217,6 +217,11 @@ int Finish(subprocess_descriptor_t *spd) {
 
     spd->lewi_enabled = false;
 
+    /* The helper thread uses the callbacks, wait for it before resetting them */
+    if (spd->options.mode == MODE_ASYNC) {
+        shmem_async_join(spd->id);
+    }
+
     pm_finalize(&spd->pm);
 
     if (spd->options.talp) {
-- 
2.43.0


From 2cff5beb19e4ca344d7340b741386793f69a5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 014/136] fix: initialize the descriptor of a new subprocess

---
 src/apis/DLB_interface_sp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_sp.c b/src/apis/DLB_interface_sp.c
index 7e2336b..04a0f0d 100644
--- a/src/apis/DLB_interface_sp.c
+++ b/src/apis/DLB_interface_sp.c
@@ -39,7 +39,7 @@ static int get_atomic_spid(void) {
 /* Status */
 
 dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
-    subprocess_descriptor_t *spd = malloc(sizeof(subprocess_descriptor_t));
+    subprocess_descriptor_t *spd = calloc(1, sizeof(subprocess_descriptor_t));
     spd->dlb_initialized = true;
     spd_register(spd);
     spd_enter_dlb(spd);
-- 
2.43.0


From 408ea475b0a756caa49f94a151c423ff87fa1204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 015/136] fix: order the times of the failed borrows and of the
 CPUs lent

The time of a failed borrow was taken after releasing the lock, so a CPU lent
in between was considered older and the following borrows skipped it.
---
 src/LB_comm/shmem_cpuinfo.c | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e1b7992..1629335 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -124,6 +124,8 @@ static inline bool is_borrowed(pid_t pid, int cpu) __attribute__((unused));
 static inline bool is_shmem_empty(void);
 
 
+/* To be called with the lock held, so that the timestamp follows the order of
+ * the CPUs lent and it can be compared with that of the last failed borrow */
 static void update_shmem_timestamp(void) {
     DLB_ATOMIC_ST_REL(&shdata->timestamp_cpu_lent, get_time_in_ns());
 }
@@ -555,11 +557,11 @@ int shmem_cpuinfo__finalize(pid_t pid, const char *shmem_key, int shmem_color) {
     {
         deregister_process(pid);
         //DLB_INSTR( if (is_idle(cpuid)) idle_count++; )
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     // Shared memory destruction
     close_shmem();
 
@@ -584,11 +586,11 @@ int shmem_cpuinfo_ext__postfinalize(pid_t pid) {
     shmem_lock(shm_handler);
     {
         deregister_process(pid);
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -693,11 +695,11 @@ int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict
                 //DLB_DEBUG( CPU_SET(i, &idle_cpus); )
             //}
         //}
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     //DLB_DEBUG( int size = CPU_COUNT(&freed_cpus); )
     //DLB_DEBUG( int post_size = CPU_COUNT(&idle_cpus); )
     //verbose(VB_SHMEM, "Lending %s", mu_to_str(&freed_cpus));
@@ -733,11 +735,11 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
                 //DLB_DEBUG( CPU_SET(cpu, &idle_cpus); )
             //}
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     //DLB_DEBUG( int size = CPU_COUNT(&freed_cpus); )
     //DLB_DEBUG( int post_size = CPU_COUNT(&idle_cpus); )
     //verbose(VB_SHMEM, "Lending %s", mu_to_str(&freed_cpus));
@@ -1641,13 +1643,13 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
                 error = DLB_SUCCESS;
             }
         }
-    }
-    shmem_unlock(shm_handler);
 
-    /* Update timestamp if borrow did not succeed */
-    if (last_borrow != NULL && error != DLB_SUCCESS) {
-        *last_borrow = get_time_in_ns();
+        /* Update timestamp if borrow did not succeed */
+        if (last_borrow != NULL && error != DLB_SUCCESS) {
+            *last_borrow = get_time_in_ns();
+        }
     }
+    shmem_unlock(shm_handler);
 
     return error;
 }
@@ -1863,11 +1865,11 @@ int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                 }
             }
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -1904,11 +1906,11 @@ int shmem_cpuinfo__reset(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                         });
             }
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -1956,11 +1958,11 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
                         });
             }
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
-- 
2.43.0


From 54ef2d328b771018d83a00480a8ca607ed41e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:54 +0000
Subject: [PATCH 016/136] fix: do not request twice the saved CPUs when LeWI
 async is enabled again

---
 src/LB_policies/lewi_async.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..004a675 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -131,9 +131,12 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
     /* Restore previously requested CPUs */
     lewi_info_t *lewi_info = spd->lewi_info;
     if (lewi_info->prev_requested > 0) {
-        error = lewi_async_AcquireCpus(spd, lewi_info->prev_requested);
-        if (error == DLB_SUCCESS || error == DLB_NOTED) {
-            lewi_info->prev_requested = 0;
+        /* AcquireCpus also adds the saved requests, do not count them twice */
+        unsigned int prev_requested = lewi_info->prev_requested;
+        lewi_info->prev_requested = 0;
+        error = lewi_async_AcquireCpus(spd, prev_requested);
+        if (error != DLB_SUCCESS && error != DLB_NOTED) {
+            lewi_info->prev_requested = prev_requested;
         }
     }
 
-- 
2.43.0


From fcee5f0208fd01c77f9d0c328658cd8832713b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:54 +0000
Subject: [PATCH 017/136] fix: remove the requests of a process that disables
 LeWI async

They were only removed if the process had more or less CPUs than initially, so
a disabled process could receive CPUs later.
---
 src/LB_comm/shmem_lewi_async.c |  9 ++++++---
 src/LB_comm/shmem_lewi_async.h |  2 +-
 src/LB_policies/lewi_async.c   | 16 ++++++++++------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..c75ac96 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -113,13 +113,16 @@ size_t shmem_lewi_async__size(void) {
 /*  Queue management                                                             */
 /*********************************************************************************/
 
-void shmem_lewi_async__remove_requests(pid_t pid) {
-    if (unlikely(shm_handler == NULL)) return;
+/* Remove the requests of a process, return how many CPUs were requested */
+unsigned int shmem_lewi_async__remove_requests(pid_t pid) {
+    if (unlikely(shm_handler == NULL)) return 0;
+    unsigned int num_requests;
     shmem_lock(shm_handler);
     {
-        queue_lewi_reqs_remove(&shdata->requests, pid);
+        num_requests = queue_lewi_reqs_remove(&shdata->requests, pid);
     }
     shmem_unlock(shm_handler);
+    return num_requests;
 }
 
 /* Only for testing purposes */
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 804a6b3..5200118 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -28,7 +28,7 @@ int shmem_lewi_async__version(void);
 
 size_t shmem_lewi_async__size(void);
 
-void shmem_lewi_async__remove_requests(pid_t pid);
+unsigned int shmem_lewi_async__remove_requests(pid_t pid);
 
 unsigned int shmem_lewi_async__get_num_requests(pid_t pid);
 
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 004a675..e223a36 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -150,16 +150,20 @@ int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     unsigned int num_requests;
     unsigned int prev_requested;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
+    /* Remove requests even if the process already has its initial CPUs */
+    unsigned int removed_requests = shmem_lewi_async__remove_requests(spd->id);
+
     int error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
             &num_requests, node_size, &prev_requested);
+    prev_requested += removed_requests;
 
-    if (error == DLB_SUCCESS) {
+    /* Save previously requested CPUs to push request again later */
+    if ((error == DLB_SUCCESS || error == DLB_NOUPDT) && prev_requested > 0 ) {
+        lewi_info_t *lewi_info = spd->lewi_info;
+        lewi_info->prev_requested = prev_requested;
+    }
 
-        /* Save previously requested CPUs to push request again later */
-        if (prev_requested > 0 ) {
-            lewi_info_t *lewi_info = spd->lewi_info;
-            lewi_info->prev_requested = prev_requested;
-        }
+    if (error == DLB_SUCCESS) {
 
         /* Set num_threads = new_ncpus */
         lewi_async_set_num_threads(&spd->pm, new_ncpus);
-- 
2.43.0


From 65259d13f5d540521d1409a5f4d2b069a78cc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:54 +0000
Subject: [PATCH 018/136] fix: do not borrow all the idle CPUs if asked for a
 negative number

---
 src/LB_policies/lewi_async.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index e223a36..3e82945 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -302,6 +302,8 @@ int lewi_async_Borrow(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_async_BorrowCpus(const subprocess_descriptor_t *spd, int ncpus) {
+    if (ncpus <= 0) return DLB_NOUPDT;
+
     unsigned int new_ncpus;
     int error = shmem_lewi_async__borrow_cpus(spd->id, ncpus, &new_ncpus);
     if (error == DLB_SUCCESS) {
-- 
2.43.0


From 807c8b307756b2a517162e0f8f0da56796e92a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 019/136] fix: do not create nor lose CPUs when several
 processes use the pool of LeWI

The number of idle CPUs was read several times around the compare and swap, and
its result was added even if the swap had failed.
---
 src/LB_comm/comm_lend_light.c | 46 +++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..604dad6 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -129,8 +129,17 @@ int acquireCpus(int current_cpus) {
 
 //I don't care if there aren't enough cpus
 
-    if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
+    int idle = __sync_sub_and_fetch(&(shdata->idleCpus), cpus);
+    if (greedy) {
+        // get the idle CPUs only if no other process gets them before
+        while (idle > 0) {
+            int old_idle = __sync_val_compare_and_swap(&(shdata->idleCpus), idle, 0);
+            if (old_idle == idle) {
+                cpus += idle;
+                break;
+            }
+            idle = old_idle;
+        }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
@@ -145,25 +154,26 @@ that are assigned
 */
 int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
-    int cpus;
-    int aux;
-//WARNING//
-    //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
-        cpus=min_int(abs(aux), myCpus-defaultCPUS);
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
-            myCpus-=cpus;
+    int idle = shdata->idleCpus;
+    bool done = false;
+    while (!done) {
+        int cpus;
+        if (idle < 0 && myCpus > defaultCPUS) {
+            //if more CPUS than the availables are used release some
+            cpus = max_int(idle, defaultCPUS - myCpus);
+        } else if (idle > 0 && maxResources > 0) {
+            //if there are idle CPUS use them
+            cpus = min_int(idle, maxResources);
+        } else {
+            break;
         }
 
-        //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
-        if(aux>maxResources) { aux=maxResources; }
-
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
-            myCpus+=aux;
+        int old_idle = __sync_val_compare_and_swap(&(shdata->idleCpus), idle, idle-cpus);
+        if (old_idle == idle) {
+            myCpus += cpus;
+            done = true;
         }
+        idle = old_idle;
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
-- 
2.43.0


From 2e6baf257aaeae607b8d9fe6550400306c60eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 020/136] fix: do not lose the idle CPUs when disabling LeWI in
 greedy mode

---
 src/LB_policies/lewi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index e19ea93..bf8bd2a 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -83,7 +83,8 @@ int lewi_EnableDLB(const subprocess_descriptor_t *spd) {
 int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
     if (enabled && !single) {
         verbose(VB_MICROLB, "ResetDLB");
-        acquireCpus(myCPUS);
+        // lend or recover CPUs, without taking more idle CPUs even if greedy
+        releaseCpus(myCPUS - default_cpus);
         setThreads_Lend_light(&spd->pm, default_cpus);
     }
     enabled = 0;
-- 
2.43.0


From fd68d967606b2a2594f5173c2da8ccc6a19a7bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 021/136] fix: return the CPUs of a process that finalizes LeWI

The CPUs that it had lent stayed in the pool forever, and the borrowed ones were
lost. The maximum parallelism also survived until the next initialization.
---
 src/LB_policies/lewi.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index bf8bd2a..588d1b6 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -46,6 +46,7 @@ int lewi_Init(subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "LeWI Init");
 
     default_cpus = spd->lewi_ncpus;
+    max_parallelism = 0;
 
     setThreads_Lend_light(&spd->pm, default_cpus);
 
@@ -70,6 +71,12 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 }
 
 int lewi_Finalize(subprocess_descriptor_t *spd) {
+    // leave the CPUs in the pool as if this process had never been there
+    if (enabled) {
+        releaseCpus(myCPUS - default_cpus);
+        setThreads_Lend_light(&spd->pm, default_cpus);
+    }
+    enabled = 0;
     finalize_comm();
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 543bd20b18252e0b570216bfb99aca83ac218f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 022/136] fix: ignore a non-positive maximum parallelism, as
 LeWI with mask does

---
 src/LB_policies/lewi.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 588d1b6..47bff4d 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -99,11 +99,13 @@ int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_SetMaxParallelism(const subprocess_descriptor_t *spd, int max) {
-    if (myCPUS>max){
-        releaseCpus(myCPUS-max);
-        setThreads_Lend_light(&spd->pm, max);
+    if (max > 0) {
+        if (myCPUS>max){
+            releaseCpus(myCPUS-max);
+            setThreads_Lend_light(&spd->pm, max);
+        }
+        max_parallelism = max;
     }
-    max_parallelism = max;
     return DLB_SUCCESS;
 }
 
-- 
2.43.0


From 58329e636dd8018f077db4e70af036b17bc15cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:51 +0000
Subject: [PATCH 023/136] fix: CPU orderings were inconsistent for CPUs sharing
 the first owned core

---
 src/support/mask_utils.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index bed6b9e..21c9873 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1235,13 +1235,8 @@ int mu_cmp_cpuids_by_ownership(const void *cpuid1, const void *cpuid2, void *mas
         } else {
             /* none is owned */
             int first_cpu = mu_get_first_cpu(process_mask);
-            int first_core = mu_get_core_id(first_cpu);
-            int cpu1_core_id = mu_get_core_id(_cpuid1);
-            int cpu2_core_id = mu_get_core_id(_cpuid2);
-            if ((cpu1_core_id > first_core
-                        && cpu2_core_id > first_core)
-                    || (cpu1_core_id < first_core
-                        && cpu2_core_id < first_core)) {
+            if ((cmp_cpuids(_cpuid1, first_cpu) > 0)
+                    == (cmp_cpuids(_cpuid2, first_cpu) > 0)) {
                 /* Both CPUs are either before or after the process mask */
                 return cmp_cpuids(_cpuid1, _cpuid2);
             } else {
@@ -1297,13 +1292,8 @@ int mu_cmp_cpuids_by_affinity(const void *cpuid1, const void *cpuid2, void *affi
     if (cpu1_level == 1) {
         cpu_set_t *level0_mask = _affinity;
         int first_cpu = mu_get_first_cpu(level0_mask);
-        int first_core = mu_get_core_id(first_cpu);
-        int cpu1_core_id = mu_get_core_id(_cpuid1);
-        int cpu2_core_id = mu_get_core_id(_cpuid2);
-        if ((cpu1_core_id > first_core
-                    && cpu2_core_id > first_core)
-                || (cpu1_core_id < first_core
-                    && cpu2_core_id < first_core)) {
+        if ((cmp_cpuids(_cpuid1, first_cpu) > 0)
+                == (cmp_cpuids(_cpuid2, first_cpu) > 0)) {
             /* Both CPUs are either before or after the process mask */
             return cmp_cpuids(_cpuid1, _cpuid2);
         } else {
-- 
2.43.0


From 264d309a1193ebcce0f24d840afcd56c78ae745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:51 +0000
Subject: [PATCH 024/136] fix: buffer of the Slurm mask was too short when the
 machine size is not a multiple of 4

---
 src/support/mask_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 21c9873..72ce782 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1169,8 +1169,9 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
 }
 
 char * mu_parse_to_slurm_format(const cpu_set_t *mask) {
-    char *str = malloc((mu_cpuset_setsize >> 2) + 3);
-    if (str < 0)
+    /* "0x", one digit per 4 CPUs of the highest CPU that the mask may contain, and '\0' */
+    char *str = malloc(mu_cpuset_alloc_size * 2 + 3);
+    if (str == NULL)
         return NULL;
     unsigned int offset = 2;
     unsigned long long val = 0;
-- 
2.43.0


From 5398af632483d5555348cfc39e742a45bbda570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 025/136] fix: mask text with one-CPU ranges or more than 1024
 characters was not read

---
 src/support/mask_utils.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 72ce782..a3fea02 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -972,16 +972,18 @@ static void parse_64_bits_mask(cpu_set_t *mask, unsigned int offset, const char
 }
 
 void mu_parse_mask( const char *str, cpu_set_t *mask ) {
+    CPU_ZERO( mask );
     if (!str) return;
 
-    size_t str_len = strnlen(str, CPU_SETSIZE+1);
-    if ( str_len == 0 || str_len > CPU_SETSIZE) return;
+    /* A binary mask, or a list of alternate CPUs, need more than CPU_SETSIZE characters */
+    enum { MAX_MASK_STR_LEN = CPU_SETSIZE * 2 - 1 };
+    size_t str_len = strnlen(str, MAX_MASK_STR_LEN+1);
+    if ( str_len == 0 || str_len > MAX_MASK_STR_LEN) return;
 
     regex_t regex_bitmask;
     regex_t regex_hexmask;
     regex_t regex_range;
     regex_t old_regex_bitmask;
-    CPU_ZERO( mask );
 
     /* Compile regular expressions */
     if ( regcomp(&regex_bitmask, "^0[bB][0-1]+$", REG_EXTENDED|REG_NOSUB) ) {
@@ -1086,7 +1088,7 @@ void mu_parse_mask( const char *str, cpu_set_t *mask ) {
                 ptr = endptr;
 
                 // Valid range
-                if ( end > start ) {
+                if ( end >= start ) {
                     for ( unsigned long i=start; i<=end && i<mu_cpuset_setsize; i++ ) {
                         CPU_SET( i, mask );
                     }
-- 
2.43.0


From 7eb818a18a25cd50df13c0ed4138d76a3d9da18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 026/136] fix: core lookups accepted the CPU or core just
 beyond the machine

---
 src/support/mask_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index a3fea02..957ea56 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -552,7 +552,7 @@ int mu_get_num_cores(void) {
 
 int mu_get_core_id(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return -1;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return -1;
 
     for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
         if (CPU_ISSET_S(cpuid, mu_cpuset_alloc_size,
@@ -566,14 +566,14 @@ int mu_get_core_id(int cpuid) {
 
 const mu_cpuset_t* mu_get_core_mask(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return NULL;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return NULL;
 
     return sys.core_masks_by_cpuid[cpuid];
 }
 
 const mu_cpuset_t* mu_get_core_mask_by_coreid(int core_id) {
 
-    if (core_id < 0 || (unsigned)core_id > sys.num_cores) return NULL;
+    if (core_id < 0 || (unsigned)core_id >= sys.num_cores) return NULL;
 
     return &sys.core_masks_by_coreid[core_id];
 }
-- 
2.43.0


From 6abf0309e042b9926c191b24e43efef99c344499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 027/136] fix: topology tables were leaked at every
 finalization

---
 src/support/mask_utils.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 957ea56..c907f26 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -517,11 +517,12 @@ void mu_finalize( void ) {
         CPU_FREE(sys.core_masks_by_coreid[i].set);
     }
 
-    sys = (const mu_system_loc_t) {};
+    free(sys.node_masks);
+    free(sys.core_masks_by_coreid);
+    free(sys.core_masks_by_cpuid);
+
+    init_mu_struct();
     mu_initialized = false;
-    mu_cpuset_setsize = CPU_SETSIZE;
-    mu_cpuset_alloc_size = CPU_ALLOC_SIZE(CPU_SETSIZE);
-    mu_cpuset_num_ulongs = CPU_ALLOC_SIZE(CPU_SETSIZE) / sizeof(unsigned long);
 }
 
 int mu_get_system_size( void ) {
-- 
2.43.0


From b5f602bd5adc76eba9dac8151cc9b0e4cfcb2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 028/136] fix: hwloc topologies with CPU-less cores or nodes,
 or more nodes than cores, corrupted memory

---
 src/support/mask_utils.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index c907f26..715aefe 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -238,8 +238,8 @@ static int parse_hwloc(void) {
     for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
         hwloc_obj_t obj = hwloc_get_obj_by_type(topology, core, core_id);
         if (!hwloc_bitmap_iszero(obj->cpuset)) {
-            ++num_valid_cores;
-            mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[core_id];
+            /* Only cores with a valid mask are saved, in consecutive positions */
+            mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[num_valid_cores++];
             mu_cpuset_from_hwloc_bitmap(core_cpuset, obj->cpuset, topology);
             for (int cpuid = core_cpuset->first_cpuid;
                     cpuid >= 0;
@@ -255,18 +255,19 @@ static int parse_hwloc(void) {
     if (sys.num_cores != num_valid_cores) {
         verbose(VB_AFFINITY, "HWLOC found %d cores but only %d with a valid mask",
                 sys.num_cores, num_valid_cores);
+        sys.num_cores = num_valid_cores;
     }
 
     /*** NUMA Nodes ***/
     hwloc_obj_type_t node = HWLOC_OBJ_NODE;
     sys.num_nodes = hwloc_get_nbobjs_by_type(topology, node);
-    sys.node_masks = calloc(sys.num_cores, sizeof(mu_cpuset_t));
+    sys.node_masks = calloc(sys.num_nodes, sizeof(mu_cpuset_t));
     unsigned int num_valid_nodes = 0;
     for (unsigned int node_id = 0; node_id < sys.num_nodes; ++node_id) {
         hwloc_obj_t obj = hwloc_get_obj_by_type(topology, node, node_id);
         if (!hwloc_bitmap_iszero(obj->cpuset)) {
-            ++num_valid_nodes;
-            mu_cpuset_from_hwloc_bitmap(&sys.node_masks[node_id],
+            /* Only nodes with CPUs are saved, in consecutive positions */
+            mu_cpuset_from_hwloc_bitmap(&sys.node_masks[num_valid_nodes++],
                     obj->cpuset, topology);
         }
     }
@@ -276,6 +277,7 @@ static int parse_hwloc(void) {
     if (sys.num_nodes != num_valid_nodes) {
         verbose(VB_AFFINITY, "HWLOC found %d nodes but only %d with a valid mask",
                 sys.num_nodes, num_valid_nodes);
+        sys.num_nodes = num_valid_nodes;
     }
 
     hwloc_topology_destroy(topology);
-- 
2.43.0


From f19684a25d7134e150dadd28f6aefd2433dbf3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 029/136] fix: /sys topologies with non-consecutive core or
 node ids corrupted memory

---
 src/support/mask_utils.c | 54 ++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 715aefe..fe7747b 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -113,6 +113,9 @@ static bool mu_initialized = false;
 
 static void init_mu_struct(void) {
     sys = (const mu_system_loc_t) {};
+    mu_cpuset_setsize = CPU_SETSIZE;
+    mu_cpuset_alloc_size = CPU_ALLOC_SIZE(CPU_SETSIZE);
+    mu_cpuset_num_ulongs = CPU_ALLOC_SIZE(CPU_SETSIZE) / sizeof(unsigned long);
 }
 
 /* This function (re-)initializes 'sys' with the given cpu sets.
@@ -330,6 +333,7 @@ static int parse_int_from_file(const char *filename) {
 static void parse_system_files(void) {
     /*** System ***/
     cpu_set_t system_mask;
+    CPU_ZERO(&system_mask);
     parse_mask_from_file(PATH_SYSTEM_MASK, &system_mask);
     sys.num_cpus = mu_get_last_cpu(&system_mask) + 1;
     mu_cpuset_setsize = sys.num_cpus;
@@ -342,7 +346,6 @@ static void parse_system_files(void) {
     // number of cores yet
     sys.core_masks_by_coreid = calloc(sys.num_cpus, sizeof(mu_cpuset_t));
     sys.core_masks_by_cpuid = calloc(sys.num_cpus, sizeof(mu_cpuset_t*));
-    int num_cores = 0;
     DIR *dir = opendir(PATH_SYSTEM_CPUS);
     if (dir) {
         struct dirent *d;
@@ -355,6 +358,9 @@ static void parse_system_files(void) {
                 int cpu_id = strtol(d->d_name+3, NULL, 10);
                 fatal_cond(cpu_id < 0 || cpu_id > 1024, "Error parsing cpu_id");
 
+                /* Skip CPUs not present */
+                if ((unsigned)cpu_id >= sys.num_cpus) continue;
+
                 /* Get core CPUs list */
                 cpu_set_t core_mask;
                 CPU_ZERO(&core_mask);
@@ -363,18 +369,23 @@ static void parse_system_files(void) {
                         "/%.8s/topology/thread_siblings_list", d->d_name);
                 parse_mask_from_file(filename, &core_mask);
 
+                /* Skip CPUs without topology information, e.g., offline */
+                if (CPU_COUNT(&core_mask) == 0) continue;
+
                 /* Get core id, in some architectures this value may not be reliable */
                 snprintf(filename, 64, PATH_SYSTEM_CPUS "/%.8s/topology/core_id",
                         d->d_name);
                 int core_id = parse_int_from_file(filename);
 
                 /* Try to respect parsed core_id */
-                if (core_id >= 0 && core_id < 1024) {
+                if (core_id >= 0 && (unsigned)core_id >= sys.num_cpus) {
+                    core_id = -1;
+                }
+                if (core_id >= 0) {
                     mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[core_id];
                     if (core_cpuset->set == NULL) {
                         /* Save core mask */
                         mu_cpuset_from_glibc_sched_affinity(core_cpuset, &core_mask);
-                        ++num_cores;
                     } else if (CPU_EQUAL_S(mu_cpuset_alloc_size, core_cpuset->set, &core_mask)) {
                         /* Core mask already saved */
                     } else {
@@ -389,7 +400,6 @@ static void parse_system_files(void) {
                     if (core_cpuset->set == NULL) {
                         /* Save core mask */
                         mu_cpuset_from_glibc_sched_affinity(core_cpuset, &core_mask);
-                        ++num_cores;
                         core_id = i;
                     } else if (CPU_EQUAL_S(mu_cpuset_alloc_size, core_cpuset->set, &core_mask)) {
                         /* Core mask already saved */
@@ -405,7 +415,21 @@ static void parse_system_files(void) {
         }
         closedir(dir);
     }
-    sys.num_cores = num_cores;
+
+    /* Core ids may not be consecutive, move masks to consecutive positions */
+    for (unsigned int i = 0; i < sys.num_cpus; ++i) {
+        if (sys.core_masks_by_coreid[i].set != NULL) {
+            mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[sys.num_cores++];
+            if (core_cpuset != &sys.core_masks_by_coreid[i]) {
+                *core_cpuset = sys.core_masks_by_coreid[i];
+                sys.core_masks_by_coreid[i] = (const mu_cpuset_t) {};
+                for (int cpuid = mu_get_first_cpu(core_cpuset->set); cpuid >= 0;
+                        cpuid = mu_get_next_cpu(core_cpuset->set, cpuid)) {
+                    sys.core_masks_by_cpuid[cpuid] = core_cpuset;
+                }
+            }
+        }
+    }
 
     /*** NUMA Nodes ***/
     int num_nodes = 0;
@@ -430,17 +454,27 @@ static void parse_system_files(void) {
 
                 /* Save node mask */
                 if (CPU_COUNT(&node_mask) > 0) {
-                    num_nodes = max_int(num_nodes, node_id + 1);
-                    mu_cpuset_t *p = realloc(sys.node_masks, num_nodes*sizeof(mu_cpuset_t));
-                    fatal_cond(!p, "realloc failed");
-                    sys.node_masks = p;
+                    if (node_id >= num_nodes) {
+                        mu_cpuset_t *p = realloc(sys.node_masks,
+                                (node_id+1)*sizeof(mu_cpuset_t));
+                        fatal_cond(!p, "realloc failed");
+                        memset(&p[num_nodes], 0, (node_id+1-num_nodes)*sizeof(mu_cpuset_t));
+                        sys.node_masks = p;
+                        num_nodes = node_id + 1;
+                    }
                     mu_cpuset_from_glibc_sched_affinity(&sys.node_masks[node_id], &node_mask);
                 }
             }
         }
         closedir(dir);
     }
-    sys.num_nodes = num_nodes;
+
+    /* Node ids may not be consecutive, move masks to consecutive positions */
+    for (int i = 0; i < num_nodes; ++i) {
+        if (sys.node_masks[i].set != NULL) {
+            sys.node_masks[sys.num_nodes++] = sys.node_masks[i];
+        }
+    }
 
     /* Fallback if some info could not be parsed */
     if (sys.sys_mask.count == 0) {
-- 
2.43.0


From 4f87274a626ef8bdcec2b0b68b1c2b05a0afc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:13 +0000
Subject: [PATCH 030/136] fix: on machines with more than 256 CPUs, the type
 for CPU ids only held 256

---
 src/support/types.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/support/types.h b/src/support/types.h
index 4095eee..418f5af 100644
--- a/src/support/types.h
+++ b/src/support/types.h
@@ -28,13 +28,9 @@
 #include <stdbool.h>
 #include <stdint.h>
 
-#if NCPUS_AT_CONFIGURE_TIME > 256
-typedef uint8_t cpuid_t;
-#define PRICPUID PRIu8
-#else
+/* The size at configure time does not bound the CPU ids used at run time */
 typedef uint16_t cpuid_t;
 #define PRICPUID PRIu16
-#endif
 
 typedef enum VerboseOptions {
     VB_CLEAR    = 0,
-- 
2.43.0


From 2fda09b02e9a0dc91229c729a9b8e60b0940c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 031/136] fix: printing an integer option of 8 or more
 characters overflowed a static buffer

---
 src/support/options.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index c3f3da6..3f29eea 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -621,14 +621,14 @@ static int set_value(option_type_t type, void *option, const char *str_value) {
 }
 
 static const char * get_value(option_type_t type, const void *option) {
-    static char int_value[8];
+    static char int_value[16];
     switch(type) {
         case OPT_BOOL_T:
             return *(bool*)option ? "yes" : "no";
         case OPT_NEG_BOOL_T:
             return *(bool*)option ? "no" : "yes";
         case OPT_INT_T:
-            sprintf(int_value, "%d", *(int*)option);
+            snprintf(int_value, sizeof(int_value), "%d", *(int*)option);
             return int_value;
         case OPT_STR_T:
             return (char*)option;
-- 
2.43.0


From 5d33976f9aaedc41ac446587c3e08964e85458a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 032/136] fix: --talp-output-file given both by API and
 DLB_ARGS dereferenced the text as a pointer

---
 src/support/options.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index 3f29eea..81df362 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -673,8 +673,7 @@ static bool values_are_equivalent(option_type_t type, const char *value1, const
         case OPT_STR_T:
             return strcmp(value1, value2) == 0;
         case OPT_PTR_PATH_T:
-            return *(const char**)value1 && *(const char**)value2
-                && strcmp(*(const char**)value1, *(const char**)value2) == 0;
+            return strcmp(value1, value2) == 0;
         case OPT_VB_T:
             return equivalent_verbose_opts(value1, value2);
         case OPT_VBFMT_T:
-- 
2.43.0


From 741162595ff744023318f3709712ba9834cea1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 033/136] fix: tabs or newlines in DLB_ARGS made the parser
 remove the wrong text and write out of bounds

---
 src/support/options.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index 81df362..8b7965b 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -761,13 +761,14 @@ static void copy_value(option_type_t type, void *dest, const char *src) {
 /* Parse DLB_ARGS and remove argument if found */
 static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value, size_t arg_max_len) {
     *arg_value = 0;
-    /* Tokenize a copy of dlb_args with " "(blank) delimiter */
+    /* Tokenize a copy of dlb_args with any blank as delimiter (as in isspace) */
+    const char *delim = " \t\n\v\f\r";
     char *progress = dlb_args;
     char *end_space = NULL;
     size_t len = strlen(dlb_args) + 1;
     char *dlb_args_copy = malloc(sizeof(char)*len);
     strcpy(dlb_args_copy, dlb_args);
-    char *token = strtok_r(dlb_args_copy, " ", &end_space);
+    char *token = strtok_r(dlb_args_copy, delim, &end_space);
     while (token) {
         /* Each token is a complete string representing an option */
 
@@ -818,7 +819,7 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
         }
 
         /* next token */
-        token = strtok_r(NULL, " ", &end_space);
+        token = strtok_r(NULL, delim, &end_space);
     }
     free(dlb_args_copy);
 }
-- 
2.43.0


From b2003b7cd1e2a4dfe83c0ff83fb5b4f05b709e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 034/136] fix: option values containing '=' were truncated, and
 a token starting with '=' crashed the parser

---
 src/support/options.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index 8b7965b..00d375d 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -778,14 +778,15 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
         /* progress pointer must be updated each iteration to skip spaces */
         while(isspace((unsigned char)*progress)) progress++;
 
-        if (strchr(token, '=')) {
-            /* Option is of the form --argument=value */
-            char *end_equal;
-            char *argument = strtok_r(token, "=", &end_equal);
+        char *equal = strchr(token, '=');
+        if (equal) {
+            /* Option is of the form --argument=value, the value may contain more '=' */
+            *equal = '\0';
+            char *argument = token;
             if (strcmp(argument, arg_name) == 0) {
                 /* Obtain value */
-                char *value = strtok_r(NULL, "=", &end_equal);
-                if (value) {
+                const char *value = equal + 1;
+                if (*value) {
                     snprintf(arg_value, arg_max_len, "%s", value);
                 } else {
                     warning("Bad format parsing of DLB_ARGS. Option %s with empty value", token);
-- 
2.43.0


From d597020d514d7cda7c04b91becfe0023c57f4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 035/136] fix: printbuffer_append overflowed its buffer with a
 line longer than twice the buffer

---
 src/support/debug.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/debug.c b/src/support/debug.c
index 32f6a2a..366dc14 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -399,7 +399,9 @@ void printbuffer_append(print_buffer_t *buffer, const char *line) {
     size_t line_len = strlen(line) + 2; /* + '\n\0' */
     size_t buffer_len = strlen(buffer->addr);
     if (buffer_len + line_len > buffer->size) {
-        buffer->size *= 2;
+        do {
+            buffer->size *= 2;
+        } while (buffer_len + line_len > buffer->size);
         void *p = realloc(buffer->addr, buffer->size*sizeof(char));
         if (p) {
             buffer->addr = p;
-- 
2.43.0


From 5fb8f1e87cd0b57a1dfb3c96e9d3501ad483f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 036/136] fix: printing the options aborted with a long path or
 string value

---
 src/support/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/options.c b/src/support/options.c
index 00d375d..8c8491a 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -1080,7 +1080,7 @@ void options_print_variables(const options_t *options, bool print_extended) {
     printbuffer_init(&buffer);
 
     /* Set up intermediate buffer per entry */
-    enum { MAX_ENTRY_LEN = 256 };
+    enum { MAX_ENTRY_LEN = PATH_MAX + 512 };
     char entry_buffer[MAX_ENTRY_LEN];
 
     /* Header (last \n is not needed) */
-- 
2.43.0


From 10935f40f118d4ac61e6ad6a34179fa2dbb93baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 037/136] fix: malformed and out of range integer options were
 accepted with another value

---
 src/support/types.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/support/types.c b/src/support/types.c
index 961747b..76e89e0 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -77,9 +77,10 @@ bool equivalent_negated_bool(const char *str1, const char *str2) {
 
 int parse_int(const char *str, int *value) {
     char *endptr;
+    errno = 0;
     long val = strtol(str, &endptr, 0);
-    if ((val == 0 && endptr == str)
-            || ((val == LONG_MIN || val == LONG_MAX) && errno == ERANGE)) {
+    if (endptr == str || *endptr != '\0' || errno == ERANGE
+            || val < INT_MIN || val > INT_MAX) {
         debug_warning("Error parsing integer. str: %s, strlen: %lu, val: %ld, "
                 "errno: %d, strptr: %p, endptr: %p", str, strlen(str), val,
                 errno, str, endptr);
-- 
2.43.0


From 52fd59db635fea40459b1c086496f3b302e814f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 038/136] fix: empty list options were printed as the
 previously printed value

---
 src/support/types.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/support/types.c b/src/support/types.c
index 76e89e0..034a10f 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -220,6 +220,7 @@ int parse_verbose_fmt(const char *str, verbose_fmt_t *value) {
 const char* verbose_fmt_tostr(verbose_fmt_t value) {
     static char str[sizeof(verbose_fmt_choices_str)] = "";
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<verbose_fmt_nelems; ++i) {
         if (value & verbose_fmt_values[i]) {
@@ -354,6 +355,7 @@ int parse_debug_opts(const char *str, debug_opts_t *value) {
 const char* debug_opts_tostr(debug_opts_t value) {
     static char str[sizeof(debug_opts_choices_str)] = "";
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<debug_opts_nelems; ++i) {
         if (value & debug_opts_values[i]) {
@@ -729,6 +731,7 @@ int parse_omptool_opts(const char *str, omptool_opts_t *value) {
 const char* omptool_opts_tostr(omptool_opts_t value) {
     static char str[sizeof(omptool_opts_choices_str)] = "";
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<omptool_opts_nelems; ++i) {
         if (value & omptool_opts_values[i]) {
-- 
2.43.0


From 02242a550a0b593912e73d8258fc4dd22caa5f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 039/136] fix: printing --talp-summary with all its deprecated
 values overflowed a static buffer

---
 src/support/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/types.c b/src/support/types.c
index 034a10f..15c537f 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -508,7 +508,7 @@ const char* talp_summary_tostr(talp_summary_t value) {
         return "all";
     }
 
-    static char str[sizeof(talp_summary_choices_str)] = "";
+    static char str[sizeof("pop-metrics:pop-raw:node:process")] = "";
     char *p = str;
     int i;
     for (i=2; i<talp_summary_nelems; ++i) {
-- 
2.43.0


From 8149ee02ee332c8dd2e3c8cbb610cc1818b1641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:11 +0000
Subject: [PATCH 040/136] fix: long option values were truncated without notice

---
 src/support/options.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/support/options.c b/src/support/options.c
index 8c8491a..77ac489 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -787,7 +787,10 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
                 /* Obtain value */
                 const char *value = equal + 1;
                 if (*value) {
-                    snprintf(arg_value, arg_max_len, "%s", value);
+                    if (snprintf(arg_value, arg_max_len, "%s", value) >= (int)arg_max_len) {
+                        warning("Value of option %s is too long and has been truncated to %s",
+                                argument, arg_value);
+                    }
                 } else {
                     warning("Bad format parsing of DLB_ARGS. Option %s with empty value", token);
                 }
-- 
2.43.0


From 0558ed559aa69a8589e0376a0e719319a864f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 041/136] fix: DLB_ARGS="--silent=" made the first warning
 recurse until the stack overflowed

---
 src/support/debug.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/support/debug.c b/src/support/debug.c
index 366dc14..2b77555 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -167,7 +167,10 @@ void fatal0(const char *fmt, ...) {
 static void vwarning(const char *fmt, va_list list) {
     /* Parse --silent option if warning() was invoked before init */
     if (unlikely(vb_opts == VB_UNDEF)) {
+        /* Parsing --silent may emit another warning, avoid recursion */
+        vb_opts = VB_CLEAR;
         options_parse_entry("--silent", &silent);
+        vb_opts = VB_UNDEF;
     }
 
     if (!silent) {
-- 
2.43.0


From a785e9ac4f756fe5f7ba64b0df8d74b0bb85cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 042/136] fix: after DLB_Finalize_sp or a failed DLB_Init_sp
 the calling thread kept using the freed descriptor

---
 src/apis/DLB_interface_sp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/apis/DLB_interface_sp.c b/src/apis/DLB_interface_sp.c
index 04a0f0d..79c6cb5 100644
--- a/src/apis/DLB_interface_sp.c
+++ b/src/apis/DLB_interface_sp.c
@@ -45,6 +45,7 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
     spd_enter_dlb(spd);
     int error = Initialize(spd, get_atomic_spid(), ncpus, mask, dlb_args);
     if (error != DLB_SUCCESS) {
+        spd_enter_dlb(NULL);
         spd_unregister(spd);
         free(spd);
         return NULL;
@@ -55,6 +56,7 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
 int DLB_Finalize_sp(dlb_handler_t handler) {
     spd_enter_dlb(handler);
     int error = Finish(handler);
+    spd_enter_dlb(NULL);
     spd_unregister(handler);
     free(handler);
     return error;
-- 
2.43.0


From 8613f278386b68b2f8e99bf13cccbdda7241428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:16 +0000
Subject: [PATCH 043/136] fix: changing --talp with DLB_SetVariable made
 DLB_Finalize crash or leave processes registered

---
 src/LB_core/DLB_kernel.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index c6c74c0..098e0de 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -224,7 +224,9 @@ int Finish(subprocess_descriptor_t *spd) {
 
     pm_finalize(&spd->pm);
 
-    if (spd->options.talp) {
+    /* The user may have changed --talp since DLB_Init, check what was initialized */
+    const bool talp_initialized = spd->talp_info != NULL;
+    if (talp_initialized) {
         talp_finalize(spd);
     }
     if (spd->lb_funcs.finalize) {
@@ -237,7 +239,7 @@ int Finish(subprocess_descriptor_t *spd) {
     }
     if (spd->lb_policy == POLICY_LEWI_MASK
             || spd->options.drom
-            || spd->options.talp
+            || talp_initialized
             || spd->options.ompt
             || spd->options.preinit_pid) {
         shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
-- 
2.43.0


From ec4e9841d21bdd780c5bcdc6cb98fe3dba65fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 044/136] fix: keep accepting an integer followed by other text

---
 src/support/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/types.c b/src/support/types.c
index 15c537f..d34bc34 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -79,7 +79,7 @@ int parse_int(const char *str, int *value) {
     char *endptr;
     errno = 0;
     long val = strtol(str, &endptr, 0);
-    if (endptr == str || *endptr != '\0' || errno == ERANGE
+    if (endptr == str || errno == ERANGE
             || val < INT_MIN || val > INT_MAX) {
         debug_warning("Error parsing integer. str: %s, strlen: %lu, val: %ld, "
                 "errno: %d, strptr: %p, endptr: %p", str, strlen(str), val,
-- 
2.43.0


From c0bc83cb5aa94cfc4fe0bd1c26f40b5d750503c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 045/136] fix: DLB_Finalize detached from shared memories not
 attached in DLB_Init

---
 src/LB_core/DLB_kernel.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 098e0de..9e66eba 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -237,12 +237,14 @@ int Finish(subprocess_descriptor_t *spd) {
         node_barrier_finalize(spd);
         shmem_barrier__finalize(spd->options.shm_key);
     }
-    if (spd->lb_policy == POLICY_LEWI_MASK
+    const bool mask_is_needed = (
+            spd->lb_policy == POLICY_LEWI_MASK
             || spd->options.drom
-            || talp_initialized
-            || spd->options.ompt
-            || spd->options.preinit_pid) {
+            || spd->options.preinit_pid);
+    if (mask_is_needed) {
         shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+    }
+    if (mask_is_needed || talp_initialized) {
         shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
                 spd->options.shm_key);
     }
-- 
2.43.0


From 5f2a2f4b9ae6245c6540556a43f1e2d42f5e4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 046/136] fix: in consecutive crossings of a barrier no
 process, or too many, were considered the last one

The last one does not lend its CPUs, and counts the times completed.
---
 src/LB_comm/shmem_barrier.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..eec2176 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -400,6 +400,12 @@ void shmem_barrier__barrier(barrier_t *barrier) {
         unsigned int participant_number = DLB_ATOMIC_ADD_FETCH(&barrier->count, 1);
         bool last_in = participant_number == barrier->participants;
 
+        /* The last one resets the counter before releasing anyone, so that the
+         * next crossing of this barrier starts counting from 0 */
+        if (last_in) {
+            DLB_ATOMIC_ST(&barrier->count, 0);
+        }
+
         verbose(VB_BARRIER, "Entering barrier %s%s", barrier->name, last_in ? " (last)" : "");
 
         if (last_in) {
@@ -435,17 +441,7 @@ void shmem_barrier__barrier(barrier_t *barrier) {
             }
         }
 
-        unsigned int participants_left = DLB_ATOMIC_SUB_FETCH(&barrier->count, 1);
-        bool last_out = participants_left == 0;
-
-        verbose(VB_BARRIER, "Leaving barrier %s%s", barrier->name, last_out ? " (last)" : "");
-
-        /* WARNING: There may be a race condition with the 'count' value in
-         *          consecutive barriers (A -> B), if one process increases the
-         *          'count' value after entering B, while another process still
-         *          hasn't decreased it in B. Anyway, this is completely harmless
-         *          since it only affects the verbose message.
-         */
+        verbose(VB_BARRIER, "Leaving barrier %s", barrier->name);
     }
     pthread_rwlock_unlock(&barrier->rwlock);
 }
-- 
2.43.0


From 49dcbef01749b8aadc8d17fc023217ca2ac0e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 047/136] fix: cleaning up a dead process made every unused
 barrier unusable

---
 src/LB_comm/shmem_barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index eec2176..b5d7f83 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -71,7 +71,7 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
-        if (--barrier->participants == 0) {
+        if (barrier->participants > 0 && --barrier->participants == 0) {
             *barrier = (const barrier_t){};
         }
     }
-- 
2.43.0


From a2c7ee742e9a5812f08ce95b33c164f62ce0714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 048/136] fix: DLB_BarrierAttach always returned 1 instead of
 the number of participants

---
 src/LB_comm/shmem_barrier.c | 8 ++++++++
 src/LB_comm/shmem_barrier.h | 2 ++
 src/LB_core/node_barrier.c  | 8 ++++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index b5d7f83..35b23e7 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -171,6 +171,11 @@ barrier_t* shmem_barrier__find(const char *barrier_name) {
  *   lewi: whether this barrier does lewi
  */
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
+    return shmem_barrier__register_with_participants(barrier_name, lewi, NULL);
+}
+
+barrier_t* shmem_barrier__register_with_participants(const char *barrier_name, bool lewi,
+        int *num_participants) {
     if (shm_handler == NULL) return NULL;
     if (barrier_name == NULL) return NULL;
 
@@ -268,6 +273,9 @@ barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
         /* Attach if needed and print number of participants */
         verbose(VB_BARRIER, "Attached to barrier %s. Participants: %d",
                 barrier->name, participants);
+        if (num_participants != NULL) {
+            *num_participants = participants;
+        }
     }
 
     return barrier;
diff --git a/src/LB_comm/shmem_barrier.h b/src/LB_comm/shmem_barrier.h
index 476190c..503f9ff 100644
--- a/src/LB_comm/shmem_barrier.h
+++ b/src/LB_comm/shmem_barrier.h
@@ -33,6 +33,8 @@ int  shmem_barrier__get_system_id(void);
 int  shmem_barrier__get_max_barriers(void);
 barrier_t* shmem_barrier__find(const char *barrier_name);
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi);
+barrier_t* shmem_barrier__register_with_participants(const char *barrier_name, bool lewi,
+        int *num_participants);
 int  shmem_barrier__attach(barrier_t *barrier);
 int  shmem_barrier__detach(barrier_t *barrier);
 void shmem_barrier__barrier(barrier_t *barrier);
diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index df967df..8311794 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -279,11 +279,11 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                 bool lewi_barrier = parse_lewi_barrier(default_barrier_name,
                         spd->options.lewi_barrier,
                         spd->options.lewi_barrier_select, 0);
-                barrier_info->default_barrier = shmem_barrier__register(
+                int participants = 0;
+                barrier_info->default_barrier = shmem_barrier__register_with_participants(
                         barrier_info->default_barrier_name,
-                        lewi_barrier);
-                // return number of participants
-                error = barrier_info->default_barrier ? 1 : DLB_ERR_NOMEM;
+                        lewi_barrier, &participants);
+                error = barrier_info->default_barrier ? participants : DLB_ERR_NOMEM;
             } else {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
-- 
2.43.0


From ea994c30778ffa437860fdd859e2598923e9fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 049/136] fix: registering a barrier named as the default one
 added the process twice to it

---
 src/LB_core/node_barrier.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 8311794..50db09c 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -166,6 +166,12 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
 
     barrier_t *barrier = NULL;
     if (spd->options.barrier) {
+        /* Registering the default barrier again would add this process twice */
+        if (strncmp(barrier_name, ((barrier_info_t*)spd->barrier_info)->default_barrier_name,
+                    BARRIER_NAME_MAX-1) == 0) {
+            return NULL;
+        }
+
         /* The register function cannot know whether the calling process is a new
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
-- 
2.43.0


From b53aec04bf8e385d9be0249d9b4fb14fbb52a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 050/136] fix: registering a barrier again while another thread
 detaches from one could attach the process twice

---
 src/LB_core/node_barrier.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 50db09c..7cbb4bb 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -180,14 +180,21 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
             barrier = shmem_barrier__find(barrier_name);
             if (barrier != NULL) {
                 /* Barrier is found in shmem, check if it's registered within the spd. */
+                bool registered = false;
                 int i;
                 int max_barriers = barrier_info->max_barriers;
-                for (i=0; i<max_barriers; ++i) {
-                    if (barrier_info->barrier_list[i] == barrier) {
-                        /* Barrier already registered in spd */
-                        return barrier;
+                pthread_mutex_lock(&mutex);
+                {
+                    for (i=0; i<max_barriers; ++i) {
+                        if (barrier_info->barrier_list[i] == barrier) {
+                            registered = true;
+                            break;
+                        }
                     }
                 }
+                pthread_mutex_unlock(&mutex);
+                /* Barrier already registered in spd */
+                if (registered) return barrier;
                 /* Barrier is not registered within this spd */
                 barrier = NULL;
             }
-- 
2.43.0


From fdcdd21f682a24047e1a7886ee091ce2cdb16176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:52 +0000
Subject: [PATCH 051/136] fix: leaving a blocking call in asynchronous mode
 sent enable or repeated disable orders

---
 src/LB_policies/lewi_mask.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 4db3388..3443506 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -470,7 +470,8 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
              * Only if asynchronous mode, keep DISABLE tasks, otherwise remove all. */
             if (error == DLB_NOTED
                     && spd->options.mode == MODE_ASYNC) {
-                for (size_t i = 0, i_write = 0; i < tasks->count; ++i) {
+                size_t i_write = 0;
+                for (size_t i = 0; i < tasks->count; ++i) {
                     const cpuinfo_task_t *task = &tasks->items[i];
                     if (task->action == DISABLE_CPU) {
                         if (i != i_write) {
@@ -479,6 +480,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                         ++i_write;
                     }
                 }
+                tasks->count = i_write;
                 /* Async: resolve only DISABLE tasks */
                 resolve_cpuinfo_tasks(spd, tasks);
             } else {
-- 
2.43.0


From f5558484e10e31e0a4d4fff4532d072783c99472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 052/136] fix: a failed DLB_Init left the process registered
 and could not be retried

---
 src/LB_comm/shmem_async.c | 11 +++++++++++
 src/LB_core/DLB_kernel.c  | 41 ++++++++++++++++++++++++++++++++++-----
 src/apis/DLB_interface.c  |  6 +++++-
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index ba717fe..d8c64b7 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -289,6 +289,17 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
     if (helper == NULL) {
         error = DLB_ERR_NOMEM;
         warn_error(DLB_ERR_NOMEM);
+
+        /* The subprocess could not be registered, detach from the shared memory */
+        pthread_mutex_lock(&mutex);
+        {
+            if (--subprocesses_attached == 0) {
+                shmem_finalize(shm_handler, NULL /* do not check if empty */);
+                shm_handler = NULL;
+                shdata = NULL;
+            }
+        }
+        pthread_mutex_unlock(&mutex);
     }
 
     return error;
diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 9e66eba..a549c11 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -60,6 +60,10 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
         const cpu_set_t *mask, const char *lb_args) {
 
     int error = DLB_SUCCESS;
+    bool procinfo_initialized = false;
+    bool cpuinfo_initialized = false;
+    bool barrier_initialized = false;
+    bool async_initialized = false;
 
     // Set it to false in case one thread is an observer but then Initializes DLB
     thread_is_observer = false;
@@ -102,7 +106,8 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
             (spd->lb_policy == POLICY_LEWI || spd->lb_policy == POLICY_LEWI_ASYNC)) {
         warning("Classic LeWI support with no cpuset binding is not compatible"
                 " with newer DLB modules. DLB_Init cannot continue.");
-        return DLB_ERR_NOCOMP;
+        error = DLB_ERR_NOCOMP;
+        goto init_error;
     }
 
     // Initialize the rest of the subprocess descriptor
@@ -144,30 +149,35 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
                     &spd->process_mask, spd->options.shm_key);
         }
 
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) goto init_error;
+        procinfo_initialized = true;
 
         // Initialize cpuinfo
         error = shmem_cpuinfo__init(spd->id, spd->options.preinit_pid,
                 &spd->process_mask, spd->options.shm_key, spd->options.lewi_color);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) goto init_error;
+        cpuinfo_initialized = true;
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
         error = shmem_procinfo__init_with_cpu_sharing(spd->id, spd->options.preinit_pid,
                 &spd->process_mask, spd->options.shm_key);
+        procinfo_initialized = error >= DLB_SUCCESS;
     }
     if (spd->options.barrier) {
         shmem_barrier__init(spd->options.shm_key);
         node_barrier_init(spd);
+        barrier_initialized = true;
     }
     if (spd->options.mode == MODE_ASYNC) {
         error = shmem_async_init(spd->id, &spd->pm, &spd->process_mask, spd->options.shm_key);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) goto init_error;
+        async_initialized = true;
     }
 
     // Initialise LeWI
     error = spd->lb_funcs.init(spd);
-    if (error != DLB_SUCCESS) return error;
+    if (error != DLB_SUCCESS) goto init_error;
 
     // Initialize TALP
     if  (spd->options.talp) {
@@ -203,6 +213,27 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
     instrument_event(DLB_MODE_EVENT, EVENT_ENABLED, EVENT_BEGIN);
 
     return error;
+
+init_error:
+    /* Undo everything that was initialized so far */
+    if (async_initialized) {
+        shmem_async_finalize(spd->id);
+    }
+    if (barrier_initialized) {
+        node_barrier_finalize(spd);
+        shmem_barrier__finalize(spd->options.shm_key);
+    }
+    if (cpuinfo_initialized) {
+        shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+    }
+    if (procinfo_initialized) {
+        shmem_procinfo__finalize(spd->id, false, spd->options.shm_key);
+    }
+    timer_finalize();
+    instrument_event(RUNTIME_EVENT, EVENT_INIT, EVENT_END);
+    instrument_finalize();
+    options_finalize(&spd->options);
+    return error;
 }
 
 int Finish(subprocess_descriptor_t *spd) {
diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index d748ca4..2fb816d 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -44,7 +44,11 @@
 int DLB_Init(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
     spd_enter_dlb(thread_spd);
     if (__sync_bool_compare_and_swap(&thread_spd->dlb_initialized, false, true) ) {
-        return Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        int error = Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        if (error < DLB_SUCCESS) {
+            thread_spd->dlb_initialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
-- 
2.43.0


From 26a57d75ccaeddf50e4722577005efa6925dd9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:20 +0000
Subject: [PATCH 053/136] fix: a failed pre-registration left the process
 registered in the DROM shared memory

---
 src/LB_core/DLB_kernel.c      | 8 +++++++-
 src/apis/DLB_interface.c      | 6 +++++-
 src/apis/DLB_interface_drom.c | 8 +++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index a549c11..0296dac 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -309,7 +309,13 @@ int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
     error = error ? error : shmem_cpuinfo_ext__init(spd->options.shm_key, spd->options.lewi_color);
     error = error ? error : shmem_procinfo_ext__init(spd->options.shm_key);
     error = error ? error : shmem_procinfo_ext__preinit(spd->id, mask, 0);
-    error = error ? error : shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+        if (error < DLB_SUCCESS) {
+            /* Do not leave the process half registered */
+            shmem_procinfo_ext__postfinalize(spd->id, false);
+        }
+    }
     // Close shmems even if there was an error
     int cpuinfo_finalize_err = shmem_cpuinfo_ext__finalize();
     error = error ? error : cpuinfo_finalize_err;
diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index 2fb816d..f91c122 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -82,7 +82,11 @@ int DLB_PreInit(const_dlb_cpu_set_t mask, char ***next_environ) {
         snprintf(flag, 32, "--preinit-pid=%d", getpid());
         dlb_setenv("DLB_ARGS", flag, next_environ, ENV_APPEND);
 
-        return PreInitialize(thread_spd, mask, NULL);
+        int error = PreInitialize(thread_spd, mask, NULL);
+        if (error < DLB_SUCCESS) {
+            thread_spd->dlb_preinitialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index c1dff78..2c9aceb 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -103,7 +103,13 @@ int DLB_DROM_PreInit(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags,
     }
 
     int error = shmem_procinfo_ext__preinit(pid, mask, flags);
-    error = error ? error : shmem_cpuinfo_ext__preinit(pid, mask, flags);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(pid, mask, flags);
+        if (error < DLB_SUCCESS) {
+            /* Do not leave the process half registered */
+            shmem_procinfo_ext__postfinalize(pid, flags & DLB_RETURN_STOLEN);
+        }
+    }
     return error;
 }
 
-- 
2.43.0


From 285e0d14b78428d57aff82184bb6719c1cba7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:20 +0000
Subject: [PATCH 054/136] fix: reset the callbacks when DLB_Init fails

---
 src/LB_core/DLB_kernel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 0296dac..50da982 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -216,6 +216,7 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
 
 init_error:
     /* Undo everything that was initialized so far */
+    pm_finalize(&spd->pm);
     if (async_initialized) {
         shmem_async_finalize(spd->id);
     }
-- 
2.43.0


From 769cbaf69974b3e15f042413b90cc2c2571ca68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 055/136] fix: registering a process twice in the DROM shared
 memory was not always detected

---
 src/LB_comm/shmem_procinfo.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..1e1d248 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -292,11 +292,6 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                 /* This process is already registered */
                 error = DLB_ERR_INIT;
             }
-            if (empty_spot
-                    && ((preinit_pid && preinit_process) || !preinit_pid)) {
-                /* Everything needed is found */
-                break;
-            }
         }
 
         // If it's a new process, initialize structure
@@ -399,8 +394,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     if (register_error == DLB_SUCCESS) {
                         /* Initialize new spot with the mask provided */
                         process = empty_spot;
-                        process->pid = pid;
-                        process->preregistered = false;
+                        *process = (const pinfo_t) {.pid = pid};
                         memcpy(&process->current_process_mask, process_mask, sizeof(cpu_set_t));
                         memcpy(&process->future_process_mask, process_mask, sizeof(cpu_set_t));
                         /* Remove inherited CPUs from preregistered process */
-- 
2.43.0


From 9f28e99d9adabeb6f750376d7c25e09ad835f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 056/136] fix: pre-registering a process that is already
 registered was not always detected

---
 src/LB_comm/shmem_procinfo.c | 43 +++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 1e1d248..8a5efd8 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -492,32 +492,35 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 // PID already registered
                 error = DLB_ERR_INIT;
                 break;
-            } else if (shdata->process_info[p].pid == NOBODY) {
+            } else if (process == NULL
+                    && shdata->process_info[p].pid == NOBODY) {
+                // First empty spot
                 process = &shdata->process_info[p];
-                *process = (const pinfo_t){
-                    .pid = pid,
-                    .preregistered = true};
-
-                // Register process mask into the system
-                if (!steal) {
-                    // If no stealing, register as usual
-                    error = register_mask(process, mask);
-                } else {
-                    // Otherwise, steal CPUs if necessary
-                    error = set_new_mask(process, mask, sync, return_stolen, NULL);
-                }
-                if (error) {
-                    // Release shared memory spot
-                    process->pid = NOBODY;
-                    break;
-                }
+            }
+        }
+
+        if (!error && process != NULL) {
+            *process = (const pinfo_t){
+                .pid = pid,
+                .preregistered = true};
 
+            // Register process mask into the system
+            if (!steal) {
+                // If no stealing, register as usual
+                error = register_mask(process, mask);
+            } else {
+                // Otherwise, steal CPUs if necessary
+                error = set_new_mask(process, mask, sync, return_stolen, NULL);
+            }
+
+            if (!error) {
                 // Set process initial values
                 memcpy(&process->current_process_mask, mask, sizeof(cpu_set_t));
                 memcpy(&process->future_process_mask, mask, sizeof(cpu_set_t));
                 process->dirty = false;
-
-                break;
+            } else if (process->pid == pid && process->preregistered) {
+                // Release shared memory spot
+                *process = (const pinfo_t){0};
             }
         }
     }
-- 
2.43.0


From 5aba68f2f322031d04a5c481c0e34cc89f654b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 057/136] fix: DROM could assign a CPU to several processes
 when setting a pending mask or when a synchronous theft failed

---
 src/LB_comm/shmem_procinfo.c | 111 ++++++++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 33 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 8a5efd8..9123619 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1369,12 +1369,45 @@ static void update_process_loads(void) {
 #endif
 
 
-// Steal every CPU in mask from other processes
-static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool dry_run) {
+// CPUs that a single operation has stolen from a process
+typedef struct stolen_info_t {
+    pid_t pid;
+    cpu_set_t cpus;
+} stolen_info_t;
+
+// Give the CPUs stolen by a failed operation back to their owners
+static void return_stolen_cpus(stolen_info_t *stolen_info) {
+    int p;
+    for (p = 0; p < max_processes; ++p) {
+        cpu_set_t *cpus = &stolen_info[p].cpus;
+        if (CPU_COUNT(cpus) == 0) continue;
+
+        pinfo_t *victim = &shdata->process_info[p];
+        if (victim->pid == stolen_info[p].pid) {
+            cpu_set_t cpus_to_return;
+            CPU_AND(&cpus_to_return, &victim->stolen_cpus, cpus);
+            CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
+                    &cpus_to_return);
+            mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
+            victim->dirty = !CPU_EQUAL(
+                    &victim->current_process_mask, &victim->future_process_mask);
+            mu_substract(cpus, cpus, &cpus_to_return);
+        }
+
+        // CPUs of a process that is no longer registered become free
+        CPU_OR(&shdata->free_mask, &shdata->free_mask, cpus);
+    }
+}
+
+// Steal every CPU in mask from other processes, CPUs are not assigned to new_owner yet
+// (if stolen_info is NULL, only check whether the CPUs could be stolen)
+static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync,
+        stolen_info_t *stolen_info) {
     // Return if empty mask
     if (CPU_COUNT(mask) == 0) return DLB_SUCCESS;
 
     int error = DLB_SUCCESS;
+    bool dry_run = stolen_info == NULL;
     cpu_set_t cpus_left_to_steal;
     memcpy(&cpus_left_to_steal, mask, sizeof(cpu_set_t));
 
@@ -1394,6 +1427,8 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
                         mu_substract(&victim->future_process_mask,
                                 &victim->current_process_mask, &target_cpus);
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
+                        stolen_info[p].pid = victim->pid;
+                        stolen_info[p].cpus = target_cpus;
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
                                 mu_to_str(mask), victim->pid);
                     }
@@ -1459,33 +1494,6 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         shmem_lock(shm_handler);
     }
 
-    if (!error && !dry_run) {
-        /* Assign stolen CPUs to the new owner */
-        CPU_OR(&new_owner->future_process_mask, &new_owner->future_process_mask, mask);
-        mu_substract(&new_owner->stolen_cpus, &new_owner->stolen_cpus, mask);
-        new_owner->dirty = true;
-    }
-
-    if (error && !dry_run) {
-        // Some CPUs could not be stolen, roll everything back
-        for (p = 0; p < max_processes; ++p) {
-            pinfo_t *victim = &shdata->process_info[p];
-            if (victim != new_owner && victim->pid != NOBODY) {
-                cpu_set_t cpus_to_return;
-                CPU_AND(&cpus_to_return, &victim->stolen_cpus, mask);
-                if (CPU_COUNT(&cpus_to_return) > 0) {
-                    // warning: we may return some CPU to a wrong process
-                    // if more than one contains that CPU as stolen
-                    CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
-                            &cpus_to_return);
-                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
-                    victim->dirty = !CPU_EQUAL(
-                            &victim->current_process_mask, &victim->future_process_mask);
-                }
-            }
-        }
-    }
-
     return error;
 }
 
@@ -1507,6 +1515,11 @@ static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
     CPU_ZERO(&cpus_to_steal);
     CPU_ZERO(&cpus_to_free);
 
+    // If the process has not resolved yet a previous change, its CPUs are those in the future mask
+    const cpu_set_t *process_mask = process->dirty
+        ? &process->future_process_mask
+        : &process->current_process_mask;
+
     int c;
     for (c = 0; c < max_cpus; c++) {
         if (CPU_ISSET(c, mask)) {
@@ -1514,13 +1527,13 @@ static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
                 // CPU is not being used
                 CPU_SET(c, &cpus_to_acquire);
             } else {
-                if (!CPU_ISSET(c, &process->current_process_mask)) {
+                if (!CPU_ISSET(c, process_mask)) {
                     // CPU is being used by other process
                     CPU_SET(c, &cpus_to_steal);
                 }
             }
         } else {
-            if (CPU_ISSET(c, &process->current_process_mask)) {
+            if (CPU_ISSET(c, process_mask)) {
                 // CPU no longer used by this process
                 CPU_SET(c, &cpus_to_free);
             }
@@ -1528,8 +1541,40 @@ static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
     }
 
     /* Run first a dry run to check if CPUs can be stolen */
-    int error = steal_mask(process, &cpus_to_steal, sync, /* dry_run */ true);
-    error = error ? error : steal_mask(process, &cpus_to_steal, sync, /* dry_run */ false);
+    int error = steal_mask(process, &cpus_to_steal, sync, /* stolen_info */ NULL);
+    if (!error && CPU_COUNT(&cpus_to_steal) > 0) {
+        const pinfo_t process_copy = *process;
+        stolen_info_t *stolen_info = calloc(max_processes, sizeof(stolen_info_t));
+
+        error = steal_mask(process, &cpus_to_steal, sync, stolen_info);
+
+        if (!error && sync) {
+            // The lock has been released while waiting, check that the operation is still valid
+            if (process->pid != process_copy.pid) {
+                error = DLB_ERR_NOPROC;
+            } else if (process->dirty != process_copy.dirty) {
+                error = DLB_ERR_PDIRTY;
+            } else if (process->preregistered != process_copy.preregistered
+                    || !CPU_EQUAL(&process->current_process_mask,
+                        &process_copy.current_process_mask)
+                    || !CPU_EQUAL(&process->future_process_mask,
+                        &process_copy.future_process_mask)
+                    || !mu_is_subset(&cpus_to_acquire, &shdata->free_mask)) {
+                error = DLB_ERR_PERM;
+            }
+        }
+
+        if (!error) {
+            // Assign stolen CPUs to the new owner
+            CPU_OR(&process->future_process_mask, &process->future_process_mask, &cpus_to_steal);
+            mu_substract(&process->stolen_cpus, &process->stolen_cpus, &cpus_to_steal);
+            process->dirty = true;
+        } else {
+            // Some CPUs could not be stolen, roll everything back
+            return_stolen_cpus(stolen_info);
+        }
+        free(stolen_info);
+    }
     error = error ? error : register_mask(process, &cpus_to_acquire);
     error = error ? error : unregister_mask(process, &cpus_to_free, return_stolen);
     if (error == DLB_SUCCESS && free_cpu_mask != NULL) {
-- 
2.43.0


From fa96080f327599bfd6bc98aa9bd8ce4f1a0a876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 058/136] fix: a synchronous DROM query returned a mask of a
 process that is no longer registered

---
 src/LB_comm/shmem_procinfo.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 9123619..2dccce8 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -761,12 +761,15 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
     int error = DLB_SUCCESS;
     bool done = false;
     pinfo_t *process;
+    pid_t process_pid = NOBODY;
 
     shmem_lock(shm_handler);
     {
         // Find process
         process = get_process(pid);
-        if (process == NULL) {
+        if (process != NULL) {
+            process_pid = process->pid;
+        } else {
             verbose(VB_DROM, "Getting mask: cannot find process with pid %d", pid);
             error = DLB_ERR_NOPROC;
         }
@@ -798,7 +801,11 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             // Polling
             shmem_lock(shm_handler);
             {
-                if (!process->dirty) {
+                if (process->pid != process_pid) {
+                    // process no longer valid
+                    error = DLB_ERR_NOPROC;
+                    done = true;
+                } else if (!process->dirty) {
                     memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
                     done = true;
                 }
@@ -878,12 +885,15 @@ int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *mask, dlb_drom_fl
     bool return_stolen = flags & DLB_RETURN_STOLEN;
     int error = DLB_SUCCESS;
     pinfo_t *process;
+    pid_t process_pid = NOBODY;
     shmem_lock(shm_handler);
     {
         // Find process
         process = get_process(pid);
         if (process == NULL) {
             error = DLB_ERR_NOPROC;
+        } else {
+            process_pid = process->pid;
         }
 
         // Process already dirty
@@ -909,7 +919,7 @@ int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *mask, dlb_drom_fl
             // Poll
             shmem_lock(shm_handler);
             {
-                if (process->pid != pid) {
+                if (process->pid != process_pid) {
                     // process no longer valid
                     error = DLB_ERR_NOPROC;
                     done = true;
-- 
2.43.0


From ea91b1da318056b07f704780f479fdcadcb7a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 059/136] fix: DLB_PollDROM could report an update that had
 been undone

---
 src/LB_comm/shmem_procinfo.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 2dccce8..19b6d5e 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -972,17 +972,22 @@ int shmem_procinfo__polldrom(pid_t pid, int *new_cpus, cpu_set_t *new_mask) {
         } else {
             shmem_lock(shm_handler);
             {
-                // Update output parameters
-                memcpy(new_mask, &process->future_process_mask, sizeof(cpu_set_t));
-                if (new_cpus != NULL) *new_cpus = CPU_COUNT(&process->future_process_mask);
-
-                // Upate local info
-                memcpy(&process->current_process_mask, &process->future_process_mask,
-                        sizeof(cpu_set_t));
-                process->dirty = false;
+                // The process may have been updated by others before acquiring the lock
+                if (process->dirty) {
+                    // Update output parameters
+                    memcpy(new_mask, &process->future_process_mask, sizeof(cpu_set_t));
+                    if (new_cpus != NULL) *new_cpus = CPU_COUNT(&process->future_process_mask);
+
+                    // Upate local info
+                    memcpy(&process->current_process_mask, &process->future_process_mask,
+                            sizeof(cpu_set_t));
+                    process->dirty = false;
+                    error = DLB_SUCCESS;
+                } else {
+                    error = DLB_NOUPDT;
+                }
             }
             shmem_unlock(shm_handler);
-            error = DLB_SUCCESS;
         }
     }
     return error;
-- 
2.43.0


From d5964bf343e5ef30f19093d6da3715fc63bdfb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 060/136] fix: DLB_DROM_GetProcessMask did not update the CPU
 ownership when it gave a new mask

---
 src/LB_core/DLB_kernel.c      | 17 +++++++++++++++++
 src/LB_core/DLB_kernel.h      |  1 +
 src/apis/DLB_interface_drom.c |  5 +++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 50da982..0f46c4e 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -773,6 +773,23 @@ int poll_drom_update(const subprocess_descriptor_t *spd) {
     return error;
 }
 
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
+    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    if (error == DLB_NOTED
+            && thread_spd->dlb_initialized
+            && (pid == 0 || pid == thread_spd->id)) {
+        /* The process has been given a new mask, do like a poll_drom */
+        if (thread_spd->options.lewi) {
+            /* If LeWI, resolve reclaimed CPUs */
+            thread_spd->lb_funcs.update_ownership(thread_spd, mask);
+        } else {
+            /* Otherwise, udate owner and guest data */
+            shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
+        }
+    }
+    return error;
+}
+
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
     cpu_set_t free_cpu_mask;
     int error = shmem_procinfo__setprocessmask(pid, mask, flags, &free_cpu_mask);
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 6b4f3d1..5284ff0 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -84,6 +84,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 /* DROM Responsive */
 int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
 int poll_drom_update(const subprocess_descriptor_t *spd);
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
 /* Misc */
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index 2c9aceb..ea0bc54 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -65,10 +65,11 @@ int DLB_DROM_GetPidList(int *pidlist, int *nelems, int max_len) {
 }
 
 int DLB_DROM_GetProcessMask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
-    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    spd_enter_dlb(thread_spd);
+    int error = drom_getprocessmask(pid, mask, flags);
     if (error == DLB_ERR_NOSHMEM) {
         DLB_DROM_Attach();
-        error = shmem_procinfo__getprocessmask(pid, mask, flags);
+        error = drom_getprocessmask(pid, mask, flags);
         DLB_DROM_Detach();
     }
     return error;
-- 
2.43.0


From e8a32b0ec6ad0e89bcbef4fae0247afe50fd86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 061/136] fix: finalizing a process that is not registered
 removed its parent from the DROM shared memory

---
 src/LB_comm/shmem_procinfo.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 19b6d5e..7c8ca9e 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -118,7 +118,7 @@ static pid_t get_parent_pid(pid_t pid) {
     return parent_pid;
 }
 
-static pinfo_t* get_process(pid_t pid) {
+static pinfo_t* get_registered_process(pid_t pid) {
     if (shdata) {
         /* Check first if pid is this process */
         if (my_pinfo != NULL
@@ -133,6 +133,15 @@ static pinfo_t* get_process(pid_t pid) {
                 return &shdata->process_info[p];
             }
         }
+    }
+    return NULL;
+}
+
+/* Same as above, but fallback to the parent process if pid is not registered */
+static pinfo_t* get_process(pid_t pid) {
+    if (shdata) {
+        pinfo_t *process = get_registered_process(pid);
+        if (process) return process;
 
         /* Try parent PID */
         pid_t parent_pid = get_parent_pid(pid);
@@ -618,7 +627,7 @@ int shmem_procinfo__finalize(pid_t pid, bool return_stolen, const char *shmem_ke
     }
 
     // Check that pid exists
-    pinfo_t *process = get_process(pid);
+    pinfo_t *process = get_registered_process(pid);
     if (unlikely(process == NULL)) {
         error = DLB_ERR_NOPROC;
     }
@@ -668,7 +677,7 @@ int shmem_procinfo_ext__postfinalize(pid_t pid, bool return_stolen) {
     int error = DLB_SUCCESS;
     shmem_lock(shm_handler);
     {
-        pinfo_t *process = get_process(pid);
+        pinfo_t *process = get_registered_process(pid);
         if (process == NULL) {
             verbose(VB_DROM, "Cannot finalize process %d", pid);
             error = DLB_ERR_NOPROC;
-- 
2.43.0


From 63432c4a0c60ee081475d7136b8ed2d6122f6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 062/136] fix: a process without LeWI aborted or kept using a
 CPU taken by DROM if the new owner updated its mask first

---
 src/LB_comm/shmem_cpuinfo.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 1629335..66bb55c 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2034,15 +2034,19 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                     verbose(VB_SHMEM, "Releasing ownership of CPU %d", cpuid);
                 }
             } else {
-                if (cpuinfo->guest == pid
-                        && cpuinfo->state == CPU_BUSY) {
-                    /* 'tasks' may be NULL if LeWI is disabled, but if the process
-                     * is guesting an external CPU, LeWI should be enabled */
-                    if (unlikely(tasks == NULL)) {
-                        shmem_unlock(shm_handler);
-                        fatal("tasks pointer is NULL in %s. Please report bug at %s",
-                                __func__, PACKAGE_BUGREPORT);
+                if (cpuinfo->guest == pid && tasks == NULL) {
+                    // LeWI is disabled so the CPU was owned by this process, but the
+                    // new owner has already updated its mask. Leave the CPU to it.
+                    if (cpuinfo->state == CPU_BUSY) {
+                        cpuinfo->guest = cpuinfo->owner;
+                    } else {
+                        cpuinfo->guest = NOBODY;
+                        if (cpuinfo->state == CPU_LENT) {
+                            CPU_SET(cpuid, &shdata->free_cpus);
+                        }
                     }
+                } else if (cpuinfo->guest == pid
+                        && cpuinfo->state == CPU_BUSY) {
                     // The CPU has been either stolen or reclaimed,
                     // return it anyway
                     return_cpu(pid, cpuid, tasks);
-- 
2.43.0


From e56e3471111ca03dfbf6f78e03db246b75238266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 063/136] fix: LeWI did not reclaim the CPUs assigned by DROM
 after the initialization

---
 src/LB_policies/lewi_mask.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 3443506..effc517 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -58,6 +58,7 @@ typedef struct LeWI_mask_info {
     GSList *cpuid_arrays;                   /* thread-private pointers to free at finalize */
     GSList *cpuinfo_task_arrays;            /* thread-private pointers to free at finalize */
     pthread_mutex_t mutex;                  /* Mutex to protect lewi_info */
+    cpu_set_t process_mask;
 } lewi_info_t;
 
 
@@ -92,6 +93,9 @@ static void lewi_mask_UpdateOwnershipInfo(const subprocess_descriptor_t *spd,
     lewi_info_t *lewi_info = spd->lewi_info;
     lewi_affinity_t lewi_affinity = spd->options.lewi_affinity;
 
+    /* Keep the current set of owned CPUs, it may have been changed by DROM */
+    memcpy(&lewi_info->process_mask, process_mask, sizeof(cpu_set_t));
+
     cpu_set_t affinity_mask;
     mu_get_nodes_intersecting_with_cpuset(&affinity_mask, process_mask);
 
@@ -454,7 +458,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
 
         /* If there are owned CPUs to reclaim: */
         cpu_set_t owned_cpus;
-        mu_and(&owned_cpus, &cpu_set, &spd->process_mask);
+        mu_and(&owned_cpus, &cpu_set, &lewi_info->process_mask);
         if (mu_count(&owned_cpus) > 0) {
 
             /* Construct a CPU array from owned_cpus */
@@ -492,7 +496,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
         /* If there are ONLY non-owned CPUs to reclaim:
          * (if some owned CPU was already reclaimed, we forget about non-owned) */
         cpu_set_t non_owned_cpus;
-        mu_substract(&non_owned_cpus, &cpu_set, &spd->process_mask);
+        mu_substract(&non_owned_cpus, &cpu_set, &lewi_info->process_mask);
         if (mu_count(&non_owned_cpus) > 0
                 && mu_count(&owned_cpus) == 0) {
 
@@ -573,7 +577,8 @@ int lewi_mask_LendCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m
 int lewi_mask_Reclaim(const subprocess_descriptor_t *spd) {
     /* Even though shmem_cpuinfo__reclaim_all exists,
      * iterating the mask should be more efficient */
-    return lewi_mask_ReclaimCpuMask(spd, &spd->process_mask);
+    const lewi_info_t *lewi_info = spd->lewi_info;
+    return lewi_mask_ReclaimCpuMask(spd, &lewi_info->process_mask);
 }
 
 int lewi_mask_ReclaimCpu(const subprocess_descriptor_t *spd, int cpuid) {
-- 
2.43.0


From fd4630afb76514549c44a80d8a3546a6f9ead19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 064/136] fix: CPUs reserved for a process that failed to start
 were never released

---
 src/LB_comm/shmem_cpuinfo.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 66bb55c..b51ea49 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -460,6 +460,18 @@ int shmem_cpuinfo__init(pid_t pid, pid_t preinit_pid, const cpu_set_t *process_m
 
         // Register process_mask, with stealing = false always in normal Init()
         error = register_process(pid, preinit_pid, process_mask, /* steal */ false);
+
+        // If the process cannot start, the CPUs that were reserved for it become free
+        if (error != DLB_SUCCESS && preinit_pid != 0) {
+            for (int cpuid = mu_get_first_cpu(process_mask);
+                    cpuid >= 0;
+                    cpuid = mu_get_next_cpu(process_mask, cpuid)) {
+                cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+                if (cpuinfo->owner == preinit_pid) {
+                    deregister_cpu(cpuinfo, preinit_pid);
+                }
+            }
+        }
     }
     shmem_unlock(shm_handler);
 
-- 
2.43.0


From da071f5d66ec0ec07e86e9abd9458b62a081369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 065/136] fix: a process that failed to register in the DROM
 shared memory could be taken for another one

---
 src/LB_comm/shmem_procinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 7c8ca9e..705f9d3 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -434,7 +434,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     __FUNCTION__, preinit_pid, preinit_process, error, PACKAGE_BUGREPORT);
         }
 
-        if (process) {
+        if (process && error >= DLB_SUCCESS) {
             // Save pointer for faster access
             my_pinfo = process;
         }
-- 
2.43.0


From ba51b4d6f78845b23092569a37eb63bff5d1c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 066/136] fix: CPUs removed from a reservation before the
 process started were never released

---
 src/LB_comm/shmem_procinfo.c | 12 ++++++++++++
 src/LB_comm/shmem_procinfo.h |  1 +
 src/LB_core/DLB_kernel.c     |  9 +++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 705f9d3..ae368cf 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1328,6 +1328,18 @@ void shmem_procinfo__print_info(const char *shmem_key) {
     free(shdata_copy);
 }
 
+bool shmem_procinfo__is_registered(pid_t pid) {
+    if (shm_handler == NULL) return false;
+
+    bool registered;
+    shmem_lock(shm_handler);
+    {
+        registered = get_registered_process(pid) != NULL;
+    }
+    shmem_unlock(shm_handler);
+    return registered;
+}
+
 bool shmem_procinfo__exists(void) {
     return shm_handler != NULL;
 }
diff --git a/src/LB_comm/shmem_procinfo.h b/src/LB_comm/shmem_procinfo.h
index c7cd63c..4f1dd24 100644
--- a/src/LB_comm/shmem_procinfo.h
+++ b/src/LB_comm/shmem_procinfo.h
@@ -64,6 +64,7 @@ int  shmem_procinfo__setcpuavgusage(pid_t pid, double new_avg_usage);
 
 /* Misc */
 void shmem_procinfo__print_info(const char *shmem_key);
+bool shmem_procinfo__is_registered(pid_t pid);
 bool shmem_procinfo__exists(void);
 int  shmem_procinfo__version(void);
 size_t shmem_procinfo__size(void);
diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 0f46c4e..0b64809 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -157,6 +157,15 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
                 &spd->process_mask, spd->options.shm_key, spd->options.lewi_color);
         if (error != DLB_SUCCESS) goto init_error;
         cpuinfo_initialized = true;
+
+        // CPUs that were removed from the pre-registered process before this one inherited it
+        // are still registered under the old PID, nobody else can release them
+        if (spd->options.preinit_pid == spd->id) {
+            shmem_cpuinfo__update_ownership(spd->id, &spd->process_mask, NULL);
+        } else if (spd->options.preinit_pid != 0
+                && !shmem_procinfo__is_registered(spd->options.preinit_pid)) {
+            shmem_cpuinfo_ext__postfinalize(spd->options.preinit_pid);
+        }
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
-- 
2.43.0


From 1fde891a8799ff21a895e3298f51f0ff192e7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:55 +0000
Subject: [PATCH 067/136] fix: undo a failed pre-registration without returning
 CPUs to other processes

---
 src/apis/DLB_interface_drom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index ea0bc54..e881f86 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -108,7 +108,7 @@ int DLB_DROM_PreInit(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags,
         error = shmem_cpuinfo_ext__preinit(pid, mask, flags);
         if (error < DLB_SUCCESS) {
             /* Do not leave the process half registered */
-            shmem_procinfo_ext__postfinalize(pid, flags & DLB_RETURN_STOLEN);
+            shmem_procinfo_ext__postfinalize(pid, false);
         }
     }
     return error;
-- 
2.43.0


From 02a8cb9a0bb5d8e4cd86c2f2597213546e9e4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:55 +0000
Subject: [PATCH 068/136] fix: release the whole reservation of a process that
 failed to start

---
 src/LB_core/DLB_kernel.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 0b64809..3ca6dbe 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -237,6 +237,14 @@ init_error:
         shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
     }
     if (procinfo_initialized) {
+        // If the process had inherited a whole reservation, release all its CPUs
+        if (mask_is_needed
+                && spd->options.preinit_pid != 0
+                && !shmem_procinfo__is_registered(spd->options.preinit_pid)) {
+            shmem_cpuinfo_ext__init(spd->options.shm_key, spd->options.lewi_color);
+            shmem_cpuinfo_ext__postfinalize(spd->options.preinit_pid);
+            shmem_cpuinfo_ext__finalize();
+        }
         shmem_procinfo__finalize(spd->id, false, spd->options.shm_key);
     }
     timer_finalize();
-- 
2.43.0


From 9f2d484214f28dcaa0aa316cd9e1c178b0236b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:07 +0000
Subject: [PATCH 069/136] fix: CPUs assigned to a process while its synchronous
 pre-registration timed out were lost

---
 src/LB_comm/shmem_procinfo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index ae368cf..ad1d519 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -91,6 +91,7 @@ static pinfo_t *my_pinfo = NULL;
 
 static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
         bool return_stolen, cpu_set_t *free_cpu_mask);
+static int unregister_mask(pinfo_t *owner, const cpu_set_t *mask, bool return_stolen);
 static void close_shmem(void);
 
 static pid_t get_parent_pid(pid_t pid) {
@@ -528,7 +529,9 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 memcpy(&process->future_process_mask, mask, sizeof(cpu_set_t));
                 process->dirty = false;
             } else if (process->pid == pid && process->preregistered) {
-                // Release shared memory spot
+                // Release shared memory spot, and any CPU assigned by others in the meantime
+                unregister_mask(process, process->dirty ? &process->future_process_mask
+                        : &process->current_process_mask, false);
                 *process = (const pinfo_t){0};
             }
         }
-- 
2.43.0


From e31311cb4ea594b37df40e8ee8289ed476813c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 070/136] fix: registering a monitoring region could destroy
 another one with the same name

---
 src/LB_core/DLB_talp.c | 62 ++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..3d6ecf6 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -245,45 +245,41 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
         global_region = true;
     }
 
-    /* Found monitor if already registered */
-    if (!anonymous_region) {
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
-            monitor = g_tree_lookup(talp_info->regions, name);
-        }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
-
-        if (monitor != NULL) {
-            return monitor;
+    /* The whole registration is done with the lock acquired. Otherwise, another
+     * thread could register the same name in between. */
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        /* Construct name if anonymous region, skip names already registered */
+        char monitor_name[DLB_MONITOR_NAME_MAX];
+        if (anonymous_region) {
+            name = monitor_name;
+            do {
+                snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
+                        get_new_anonymous_id());
+            } while (g_tree_lookup(talp_info->regions, name) != NULL);
         }
-    }
 
-    /* Otherwise, create new monitoring region */
-    monitor = malloc(sizeof(dlb_monitor_t));
-    fatal_cond(!monitor, "Could not register a new monitoring region."
-            " Please report at "PACKAGE_BUGREPORT);
+        /* Found monitor if already registered */
+        monitor = g_tree_lookup(talp_info->regions, name);
 
-    /* Determine the initial number of assigned CPUs for the region */
-    float avg_cpus = CPU_COUNT(&spd->process_mask);
+        /* Otherwise, create new monitoring region */
+        if (monitor == NULL) {
+            monitor = malloc(sizeof(dlb_monitor_t));
+            fatal_cond(!monitor, "Could not register a new monitoring region."
+                    " Please report at "PACKAGE_BUGREPORT);
 
-    /* Construct name if anonymous region */
-    char monitor_name[DLB_MONITOR_NAME_MAX];
-    if (anonymous_region) {
-        snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
-                get_new_anonymous_id());
-        name = monitor_name;
-    }
+            /* Determine the initial number of assigned CPUs for the region */
+            float avg_cpus = CPU_COUNT(&spd->process_mask);
 
-    /* Initialize values */
-    bool have_shmem = talp_info->flags.have_shmem
-        || (talp_info->flags.have_minimal_shmem && global_region);
-    monitoring_region_initialize(monitor, get_new_monitor_id(), name,
-            spd->id, avg_cpus, spd->options.talp_region_select, have_shmem);
+            /* Initialize values */
+            bool have_shmem = talp_info->flags.have_shmem
+                || (talp_info->flags.have_minimal_shmem && global_region);
+            monitoring_region_initialize(monitor, get_new_monitor_id(), name,
+                    spd->id, avg_cpus, spd->options.talp_region_select, have_shmem);
 
-    /* Finally, insert */
-    pthread_mutex_lock(&talp_info->regions_mutex);
-    {
-        g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
+            /* Finally, insert */
+            g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
+        }
     }
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
-- 
2.43.0


From 4e30f0d893387da670062544839b0460bc18b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 071/136] fix: a monitoring region that is reset while open
 kept being updated

---
 src/LB_core/DLB_talp.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 3d6ecf6..7a538f7 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -287,20 +287,26 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
-    /* Reset everything except these fields: */
-    *monitor = (const dlb_monitor_t) {
-        .name = monitor->name,
-        .num_resets = monitor->num_resets + 1,
-        ._data = monitor->_data,
-    };
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        /* Reset everything except these fields: */
+        *monitor = (const dlb_monitor_t) {
+            .name = monitor->name,
+            .num_resets = monitor->num_resets + 1,
+            ._data = monitor->_data,
+        };
 
-    monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+        /* A region that was open is not updated anymore */
+        monitor_data_t *monitor_data = monitor->_data;
+        monitor_data->flags.started = false;
+        talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From d72c03ff92faaa62c18063181f6e8db81cb6e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 072/136] fix: a thread that had not used TALP started and
 stopped regions at a wrong time, and regions were not started and stopped
 atomically

---
 src/LB_core/DLB_talp.c | 143 ++++++++++++++++++++++++-----------------
 1 file changed, 83 insertions(+), 60 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 7a538f7..cefffeb 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -59,6 +59,7 @@ static void talp_dealloc_samples(const subprocess_descriptor_t *spd);
 static void talp_record_monitor(const subprocess_descriptor_t *spd,
         const dlb_monitor_t *monitor);
 static void talp_aggregate_samples(const subprocess_descriptor_t *spd);
+static int64_t talp_aggregate_samples_locked(const subprocess_descriptor_t *spd);
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd);
 
 #if MPI_LIB
@@ -323,24 +324,28 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
     int error;
     monitor_data_t *monitor_data = monitor->_data;
 
-    if (!monitor_data->flags.started && monitor_data->flags.enabled) {
-        /* Gather samples from all threads and update regions */
-        talp_aggregate_samples(spd);
+    /* If the thread does not have a sample yet, allocate it before all of them
+     * are updated */
+    talp_sample_t *thread_sample = talp_get_thread_sample(spd);
 
-        verbose(VB_TALP, "Starting region %s", monitor->name);
-        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    bool start_region = !monitor_data->flags.started && monitor_data->flags.enabled;
+    if (start_region) {
+        /* Gather samples from all threads and update regions */
+        int64_t timestamp = talp_aggregate_samples_locked(spd);
 
-        /* Thread sample was just updated, use timestamp as starting time */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->start_time = thread_sample->last_updated_timestamp;
+        /* Samples were just updated, use timestamp as starting time */
+        monitor->start_time = timestamp;
         monitor->stop_time = 0;
 
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
-            monitor_data->flags.started = true;
-            talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
-        }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
+        monitor_data->flags.started = true;
+        talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
+
+    if (start_region) {
+        verbose(VB_TALP, "Starting region %s", monitor->name);
+        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
 
         /* Normally, the sample state will be 'useful' at this point, but on
          * certain cases where neither talp_mpi_init nor talp_openmp_init have
@@ -364,34 +369,40 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
     talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
         monitor = talp_info->monitor;
-    } else if (monitor == DLB_LAST_OPEN_REGION) {
+    }
+
+    /* If the thread does not have a sample yet, allocate it before all of them
+     * are updated */
+    talp_get_thread_sample(spd);
+
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    if (monitor == DLB_LAST_OPEN_REGION) {
         if (talp_info->open_regions != NULL) {
             monitor = talp_info->open_regions->data;
         } else {
+            pthread_mutex_unlock(&talp_info->regions_mutex);
             return DLB_ERR_NOENT;
         }
     }
 
     int error;
     monitor_data_t *monitor_data = monitor->_data;
-
-    if (monitor_data->flags.started) {
+    bool stop_region = monitor_data->flags.started;
+    if (stop_region) {
         /* Gather samples from all threads and update regions */
-        talp_aggregate_samples(spd);
+        int64_t timestamp = talp_aggregate_samples_locked(spd);
 
         /* Stop timer */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->stop_time = thread_sample->last_updated_timestamp;
+        monitor->stop_time = timestamp;
         monitor->elapsed_time += monitor->stop_time - monitor->start_time;
         ++(monitor->num_measurements);
 
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
-            monitor_data->flags.started = false;
-            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
-        }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
+        monitor_data->flags.started = false;
+        talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
+    if (stop_region) {
         verbose(VB_TALP, "Stopping region %s", monitor->name);
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
         error = DLB_SUCCESS;
@@ -438,48 +449,44 @@ int monitoring_regions_force_update(const subprocess_descriptor_t *spd) {
     return DLB_SUCCESS;
 }
 
-/* Update all monitoring regions with the macrosample */
+/* Update all monitoring regions with the macrosample (regions_mutex must be acquired) */
 static void monitoring_regions_update_all(const subprocess_descriptor_t *spd,
         const talp_macrosample_t *macrosample, int num_cpus) {
     talp_info_t *talp_info = spd->talp_info;
 
     /* Update all open regions */
-    pthread_mutex_lock(&talp_info->regions_mutex);
-    {
-        for (GSList *node = talp_info->open_regions;
-                node != NULL;
-                node = node->next) {
-            dlb_monitor_t *monitor = node->data;
-            monitor_data_t *monitor_data = monitor->_data;
+    for (GSList *node = talp_info->open_regions;
+            node != NULL;
+            node = node->next) {
+        dlb_monitor_t *monitor = node->data;
+        monitor_data_t *monitor_data = monitor->_data;
 
-            /* Update number of CPUs if needed */
-            monitor->num_cpus = max_int(monitor->num_cpus, num_cpus);
+        /* Update number of CPUs if needed */
+        monitor->num_cpus = max_int(monitor->num_cpus, num_cpus);
 
-            /* Timers */
-            monitor->useful_time += macrosample->timers.useful;
-            monitor->mpi_time += macrosample->timers.not_useful_mpi;
-            monitor->omp_load_imbalance_time += macrosample->timers.not_useful_omp_in_lb;
-            monitor->omp_scheduling_time += macrosample->timers.not_useful_omp_in_sched;
-            monitor->omp_serialization_time += macrosample->timers.not_useful_omp_out;
+        /* Timers */
+        monitor->useful_time += macrosample->timers.useful;
+        monitor->mpi_time += macrosample->timers.not_useful_mpi;
+        monitor->omp_load_imbalance_time += macrosample->timers.not_useful_omp_in_lb;
+        monitor->omp_scheduling_time += macrosample->timers.not_useful_omp_in_sched;
+        monitor->omp_serialization_time += macrosample->timers.not_useful_omp_out;
 #ifdef PAPI_LIB
-            /* Counters */
-            monitor->cycles += macrosample->counters.cycles;
-            monitor->instructions += macrosample->counters.instructions;
+        /* Counters */
+        monitor->cycles += macrosample->counters.cycles;
+        monitor->instructions += macrosample->counters.instructions;
 #endif
-            /* Stats */
-            monitor->num_mpi_calls += macrosample->stats.num_mpi_calls;
-            monitor->num_omp_parallels += macrosample->stats.num_omp_parallels;
-            monitor->num_omp_tasks += macrosample->stats.num_omp_tasks;
-
-            /* Update shared memory only if requested */
-            if (talp_info->flags.external_profiler) {
-                shmem_talp__set_times(monitor_data->node_shared_id,
-                        monitor->mpi_time,
-                        monitor->useful_time);
-            }
+        /* Stats */
+        monitor->num_mpi_calls += macrosample->stats.num_mpi_calls;
+        monitor->num_omp_parallels += macrosample->stats.num_omp_parallels;
+        monitor->num_omp_tasks += macrosample->stats.num_omp_tasks;
+
+        /* Update shared memory only if requested */
+        if (talp_info->flags.external_profiler) {
+            shmem_talp__set_times(monitor_data->node_shared_id,
+                    monitor->mpi_time,
+                    monitor->useful_time);
         }
     }
-    pthread_mutex_unlock(&talp_info->regions_mutex);
 }
 
 /* Update all open nested regions (so, excluding the innermost) and add the
@@ -897,10 +904,13 @@ static inline void talp_aggregate_sample(talp_sample_t *sample,
         DLB_ATOMIC_EXCH_RLX(&sample->stats.num_omp_tasks, 0);
 }
 
-/* Accumulate values from samples of all threads and update regions */
-static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
+/* Accumulate values from samples of all threads and update regions. Return the
+ * time of the update. The regions_mutex must be acquired, so that the values
+ * are accumulated only to the regions open while they were measured. */
+static int64_t talp_aggregate_samples_locked(const subprocess_descriptor_t *spd) {
 
     int num_cpus;
+    int64_t timestamp;
     talp_info_t *talp_info = spd->talp_info;
 
     /* Accumulate samples from all threads */
@@ -910,7 +920,7 @@ static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
         num_cpus = talp_info->ncpus;
 
         /* Force-update and aggregate all samples */
-        int64_t timestamp = get_time_in_ns();
+        timestamp = get_time_in_ns();
         for (int i = 0; i < num_cpus; ++i) {
             talp_update_sample(talp_info->samples[i], talp_info->flags.papi, timestamp);
             talp_aggregate_sample(talp_info->samples[i], &macrosample);
@@ -920,6 +930,17 @@ static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
 
     /* Update all started regions */
     monitoring_regions_update_all(spd, &macrosample, num_cpus);
+
+    return timestamp;
+}
+
+static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
+    talp_info_t *talp_info = spd->talp_info;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        talp_aggregate_samples_locked(spd);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 }
 
 /* Accumulate samples from only a subset of samples of a parallel region.
@@ -929,6 +950,7 @@ static void talp_aggregate_samples_parallel(const subprocess_descriptor_t *spd,
 
     talp_info_t *talp_info = spd->talp_info;
     talp_macrosample_t macrosample = (const talp_macrosample_t) {};
+    pthread_mutex_lock(&talp_info->regions_mutex);
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         /* Iterate first to force-update all samples and compute the minimum
@@ -959,6 +981,7 @@ static void talp_aggregate_samples_parallel(const subprocess_descriptor_t *spd,
 
     /* Update all started regions */
     monitoring_regions_update_all(spd, &macrosample, nelems);
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 }
 
 
-- 
2.43.0


From 3cd111fd90471a3ae720b2eb529f443b3c933cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 073/136] fix: the sample of a new thread was accessible to
 other threads before being initialized

---
 src/LB_core/DLB_talp.c | 48 +++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index cefffeb..028fcc2 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -749,39 +749,43 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 
     /* Otherwise, allocate */
     talp_info_t *talp_info = spd->talp_info;
-    pthread_mutex_lock(&talp_info->samples_mutex);
-    {
-        int ncpus = ++talp_info->ncpus;
-        void *samples = realloc(talp_info->samples, sizeof(talp_sample_t*)*ncpus);
-        if (samples) {
-            talp_info->samples = samples;
-            void *new_sample;
-            if (posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
-                _tls_sample = new_sample;
-                talp_info->samples[ncpus-1] = new_sample;
-            }
-        }
-    }
-    pthread_mutex_unlock(&talp_info->samples_mutex);
-
-    fatal_cond(_tls_sample == NULL, "TALP: could not allocate thread sample");
+    void *new_sample;
+    fatal_cond(posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) != 0,
+            "TALP: could not allocate thread sample");
 
     /* If a thread is created mid-region, its initial time is that of the
      * innermost open region, otherwise it is the current time */
     int64_t last_updated_timestamp;
-    if (talp_info->open_regions) {
-        const dlb_monitor_t *monitor = talp_info->open_regions->data;
-        last_updated_timestamp = monitor->start_time;
-    } else {
-        last_updated_timestamp = get_time_in_ns();
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (talp_info->open_regions) {
+            const dlb_monitor_t *monitor = talp_info->open_regions->data;
+            last_updated_timestamp = monitor->start_time;
+        } else {
+            last_updated_timestamp = get_time_in_ns();
+        }
     }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
+    _tls_sample = new_sample;
     *_tls_sample = (const talp_sample_t) {
         .last_updated_timestamp = last_updated_timestamp,
     };
 
     set_sample_state(_tls_sample, disabled, talp_info->flags.papi);
 
+    /* Add the sample to the list only once it's initialized, other threads may
+     * be already reading it */
+    pthread_mutex_lock(&talp_info->samples_mutex);
+    {
+        void *samples = realloc(talp_info->samples,
+                sizeof(talp_sample_t*)*(talp_info->ncpus+1));
+        fatal_cond(!samples, "TALP: could not allocate thread sample");
+        talp_info->samples = samples;
+        talp_info->samples[talp_info->ncpus++] = _tls_sample;
+    }
+    pthread_mutex_unlock(&talp_info->samples_mutex);
+
 #ifdef INSTRUMENTATION_VERSION
     unsigned events[] = {MONITOR_CYCLES, MONITOR_INSTR};
     long long papi_values[] = {0, 0};
@@ -838,7 +842,7 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
 #ifdef PAPI_LIB
     if (papi) {
         /* Only read counters if we are updating this thread's sample */
-        if (sample == talp_get_thread_sample(thread_spd)) {
+        if (sample == _tls_sample) {
             if (sample->state == useful) {
                 /* Read */
                 long long papi_values[2];
-- 
2.43.0


From 4db0d3e0c98d208214a1c2a3a64921b30a9732c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 074/136] fix: threads kept using the sample of a finalized
 TALP after it is initialized again

---
 src/LB_core/DLB_talp.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 028fcc2..3d999b9 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -722,6 +722,12 @@ void talp_finalize(subprocess_descriptor_t *spd) {
 
 static __thread talp_sample_t* _tls_sample = NULL;
 
+/* Samples do not outlive the TALP instance that was initialized when they were
+ * allocated. The pointers of the rest of the threads are invalidated by
+ * increasing this number. */
+static atomic_uint samples_generation = 0;
+static __thread unsigned int _tls_sample_generation = 0;
+
 /* WARNING: this function may only be called when updating own thread's sample */
 static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_state state,
         bool papi) {
@@ -742,7 +748,10 @@ static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_stat
 /* Get the TLS associated sample */
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated sample, return it */
-    if (likely(_tls_sample != NULL)) return _tls_sample;
+    if (likely(_tls_sample != NULL
+                && _tls_sample_generation == DLB_ATOMIC_LD_RLX(&samples_generation))) {
+        return _tls_sample;
+    }
 
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
@@ -768,6 +777,7 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
     _tls_sample = new_sample;
+    _tls_sample_generation = DLB_ATOMIC_LD_RLX(&samples_generation);
     *_tls_sample = (const talp_sample_t) {
         .last_updated_timestamp = last_updated_timestamp,
     };
@@ -796,16 +806,19 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 }
 
 static void talp_dealloc_samples(const subprocess_descriptor_t *spd) {
-    /* This only nullifies the current thread pointer, but this function is
-     * only really important when TALP is finalized and then initialized again
-     */
+    /* Invalidate the pointers of all threads, TALP may be initialized again */
     _tls_sample = NULL;
+    DLB_ATOMIC_ADD_RLX(&samples_generation, 1);
 
     talp_info_t *talp_info = spd->talp_info;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
+        for (int i = 0; i < talp_info->ncpus; ++i) {
+            free(talp_info->samples[i]);
+        }
         free(talp_info->samples);
         talp_info->samples = NULL;
+        talp_info->ncpus = 0;
     }
     pthread_mutex_unlock(&talp_info->samples_mutex);
 }
-- 
2.43.0


From f0d3aa0606ff56c887e210751ee6a3c18b390e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 075/136] fix: invalid access at the end of nested parallel
 regions

---
 src/LB_core/DLB_talp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 3d999b9..da635cb 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2021,9 +2021,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
 
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -2039,6 +2036,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        /* free local data */
+        if (parallel_data->level > 1) {
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From c9189d13a1a505ae4f4b5aef7aff8f92de3bf609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:17 +0000
Subject: [PATCH 076/136] fix: data of nested parallel regions was not aligned
 as its type requires

---
 src/LB_numThreads/omptool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LB_numThreads/omptool.c b/src/LB_numThreads/omptool.c
index 010631c..f2f732d 100644
--- a/src/LB_numThreads/omptool.c
+++ b/src/LB_numThreads/omptool.c
@@ -151,7 +151,10 @@ static void omptool_callback__parallel_begin(
             omptool_parallel_data = &omptool_parallel_data_level1;
         } else if (encountering_task_data->value > 0) {
             /* Allocate new data */
-            omptool_parallel_data = malloc(sizeof(omptool_parallel_data_t));
+            void *ptr;
+            fatal_cond(posix_memalign(&ptr, DLB_CACHE_LINE, sizeof(omptool_parallel_data_t)) != 0,
+                    "posix_memalign failed in %s", __func__);
+            omptool_parallel_data = ptr;
             omptool_parallel_data->level = encountering_task_data->value + 1;
         }
 
-- 
2.43.0


From 6cc0770979df047373980ff72c6b45a77a5b82c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:17 +0000
Subject: [PATCH 077/136] fix: concurrent parallel regions of several initial
 threads shared the same data

---
 src/LB_core/DLB_talp.c      | 9 ++++++---
 src/LB_numThreads/omptool.c | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index da635cb..8624ee7 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1890,9 +1890,9 @@ void talp_out_of_sync_call(const subprocess_descriptor_t *spd, bool is_blocking_
 /*    TALP OpenMP functions                                                      */
 /*********************************************************************************/
 
-/* samples involved in parallel level 1 */
-static talp_sample_t** parallel_samples_l1 = NULL;
-static unsigned int parallel_samples_l1_capacity = 0;
+/* samples involved in parallel level 1 (one array per initial thread) */
+static __thread talp_sample_t** parallel_samples_l1 = NULL;
+static __thread unsigned int parallel_samples_l1_capacity = 0;
 
 void talp_openmp_init(pid_t pid, const options_t* options) {
     ensure(!thread_is_observer, "An observer thread cannot call talp_openmp_init");
@@ -1957,6 +1957,9 @@ void talp_openmp_thread_end(void) {
         /* Update state */
         set_sample_state(sample, disabled, talp_info->flags.papi);
     }
+
+    /* This is also invoked by initial threads */
+    talp_openmp_finalize();
 }
 
 void talp_openmp_parallel_begin(omptool_parallel_data_t *parallel_data) {
diff --git a/src/LB_numThreads/omptool.c b/src/LB_numThreads/omptool.c
index f2f732d..8b6d891 100644
--- a/src/LB_numThreads/omptool.c
+++ b/src/LB_numThreads/omptool.c
@@ -132,8 +132,9 @@ static void omptool_callback__thread_end(
 
 
 /* Parallel data storage from level 1 will be reused, other levels will be
- * allocated on demand */
-static omptool_parallel_data_t omptool_parallel_data_level1 = {.level = 1};
+ * allocated on demand. There may be more than one initial thread, each one
+ * with its own parallel region at the same time. */
+static __thread omptool_parallel_data_t omptool_parallel_data_level1 = {.level = 1};
 
 static void omptool_callback__parallel_begin(
         ompt_data_t *encountering_task_data,
-- 
2.43.0


From a1f235ca08352f142cda9c58981acb94b5dfb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:49 +0000
Subject: [PATCH 078/136] fix: debug library aborted if regions were updated
 during a parallel region

---
 src/LB_core/DLB_talp.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 8624ee7..968f2ae 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -899,10 +899,9 @@ static inline void talp_aggregate_sample(talp_sample_t *sample,
         DLB_ATOMIC_EXCH_RLX(&sample->timers.not_useful_mpi, 0);
     macrosample->timers.not_useful_omp_out +=
         DLB_ATOMIC_EXCH_RLX(&sample->timers.not_useful_omp_out, 0);
-    /* timers.not_useful_omp_in is not flushed here, make sure struct is empty */
-    ensure(DLB_ATOMIC_LD_RLX(&sample->timers.not_useful_omp_in) == 0,
-                "Inconsistency in TALP sample metric not_useful_omp_in."
-                " Please, report bug at " PACKAGE_BUGREPORT);
+    /* timers.not_useful_omp_in is not flushed here. It may contain the time that
+     * the thread has already waited in a parallel region still not finished, and
+     * it will be classified at its end. */
 
 #ifdef PAPI_LIB
     /* Counters */
-- 
2.43.0


From fd68c92cbb0d4fd02fe850d9b073e4606784ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 079/136] fix: invalid access if a task outside of parallel
 regions creates a parallel region

---
 src/LB_numThreads/omptool.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LB_numThreads/omptool.c b/src/LB_numThreads/omptool.c
index 8b6d891..1ba6320 100644
--- a/src/LB_numThreads/omptool.c
+++ b/src/LB_numThreads/omptool.c
@@ -147,10 +147,12 @@ static void omptool_callback__parallel_begin(
         /* Obtain the nesting level of the generating parallel region and save
          * some info in parallel_data */
         omptool_parallel_data_t *omptool_parallel_data = NULL;
-        if (encountering_task_frame->exit_frame.ptr == NULL) {
-            /* No exit frame means inital task, so this parallel is level 1 */
+        if (encountering_task_frame->exit_frame.ptr == NULL
+                || encountering_task_data->value == 0) {
+            /* No exit frame means inital task, and no level means an explicit
+             * task outside of any parallel region, so this parallel is level 1 */
             omptool_parallel_data = &omptool_parallel_data_level1;
-        } else if (encountering_task_data->value > 0) {
+        } else {
             /* Allocate new data */
             void *ptr;
             fatal_cond(posix_memalign(&ptr, DLB_CACHE_LINE, sizeof(omptool_parallel_data_t)) != 0,
-- 
2.43.0


From 9420b692f82deafa5873d89f40b01c8aa7eb2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 080/136] fix: threads were considered not useful after
 executing an undeferred OpenMP task

---
 src/LB_numThreads/omptool.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/LB_numThreads/omptool.c b/src/LB_numThreads/omptool.c
index 1ba6320..6871390 100644
--- a/src/LB_numThreads/omptool.c
+++ b/src/LB_numThreads/omptool.c
@@ -136,6 +136,14 @@ static void omptool_callback__thread_end(
  * with its own parallel region at the same time. */
 static __thread omptool_parallel_data_t omptool_parallel_data_level1 = {.level = 1};
 
+/* The data of each task contains its nesting level and this flag, set for tasks
+ * executed immediately by the thread that creates them */
+enum { OMPTOOL_TASK_UNDEFERRED = 1 << 30 };
+
+static inline uint64_t get_task_level(const ompt_data_t *task_data) {
+    return task_data->value & ~(uint64_t)OMPTOOL_TASK_UNDEFERRED;
+}
+
 static void omptool_callback__parallel_begin(
         ompt_data_t *encountering_task_data,
         const ompt_frame_t *encountering_task_frame,
@@ -148,7 +156,7 @@ static void omptool_callback__parallel_begin(
          * some info in parallel_data */
         omptool_parallel_data_t *omptool_parallel_data = NULL;
         if (encountering_task_frame->exit_frame.ptr == NULL
-                || encountering_task_data->value == 0) {
+                || get_task_level(encountering_task_data) == 0) {
             /* No exit frame means inital task, and no level means an explicit
              * task outside of any parallel region, so this parallel is level 1 */
             omptool_parallel_data = &omptool_parallel_data_level1;
@@ -158,7 +166,7 @@ static void omptool_callback__parallel_begin(
             fatal_cond(posix_memalign(&ptr, DLB_CACHE_LINE, sizeof(omptool_parallel_data_t)) != 0,
                     "posix_memalign failed in %s", __func__);
             omptool_parallel_data = ptr;
-            omptool_parallel_data->level = encountering_task_data->value + 1;
+            omptool_parallel_data->level = get_task_level(encountering_task_data) + 1;
         }
 
         ensure(omptool_parallel_data != NULL, "Unhandled case in %s",__func__);
@@ -210,7 +218,10 @@ static void omptool_callback__task_create(
         const void *codeptr_ra) {
     if (flags & ompt_task_explicit) {
         /* Pass nesting level */
-        new_task_data->value = encountering_task_data->value;
+        new_task_data->value = get_task_level(encountering_task_data);
+        if (flags & ompt_task_undeferred) {
+            new_task_data->value |= OMPTOOL_TASK_UNDEFERRED;
+        }
 
         if (talp_funcs.task_create) {
             talp_funcs.task_create();
@@ -227,7 +238,13 @@ static void omptool_callback__task_schedule(
         ompt_data_t *next_task_data) {
     if (prior_task_status == ompt_task_complete) {
         if (talp_funcs.task_complete) {
-            talp_funcs.task_complete();
+            if (prior_task_data->value & OMPTOOL_TASK_UNDEFERRED) {
+                /* The thread was not waiting and it continues executing the
+                 * task that created this one */
+                if (talp_funcs.task_switch) talp_funcs.task_switch();
+            } else {
+                talp_funcs.task_complete();
+            }
         }
         if (omptm_funcs.task_complete) {
             omptm_funcs.task_complete();
-- 
2.43.0


From 2f00ae410dee1558265bab02e6c0aeda6509027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:47 +0000
Subject: [PATCH 081/136] fix: attaching to a shared memory with a smaller size
 truncated it while in use

---
 src/LB_comm/shmem.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 8933584..da52ed4 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -143,7 +143,6 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
      */
     size_t shsync_size = shmem_shsync__size();
     size_t shdata_size = shmem_props->size;
-    handler->shm_size = shsync_size + shdata_size;
 
     /* Get /dev/shm/ file names to create */
     const char *shmem_key = shmem_props->key;
@@ -157,8 +156,13 @@ attach:
         fatal("shm_open error: %s", strerror(errno));
     }
 
-    /* Truncate the regular file to a precise size */
-    if (ftruncate(fd, handler->shm_size) == -1) {
+    /* Set the size of the regular file, but never reduce it: another process
+     * may have it mapped with a bigger size */
+    struct stat shm_stat;
+    handler->shm_size = shsync_size + shdata_size;
+    if (fstat(fd, &shm_stat) == 0 && (size_t)shm_stat.st_size > handler->shm_size) {
+        handler->shm_size = shm_stat.st_size;
+    } else if (ftruncate(fd, handler->shm_size) == -1) {
         fatal("ftruncate error: %s", strerror(errno));
     }
 
@@ -220,7 +224,6 @@ attach:
 
     /* The last process attached may have unlinked the file after it was opened
      * here, in which case no other process will see this shared memory */
-    struct stat shm_stat;
     bool unlinked = fstat(fd, &shm_stat) == 0 && shm_stat.st_nlink == 0;
     close(fd);
     if (unlinked) {
-- 
2.43.0


From 0a91d1e54f282fbb675a4744d2faae0c46f4d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 082/136] fix: TALP administrators accessed regions beyond
 their mapping or missed them

---
 src/LB_comm/shmem_talp.c | 41 ++++++++++++++++++++++++++++------------
 src/LB_comm/shmem_talp.h |  3 +++
 src/LB_core/DLB_talp.c   |  5 ++---
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 0745601..a367df8 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -86,8 +86,14 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     }
 }
 
+/* Number of regions that this process can access. The process that created the
+ * shared memory may have used a bigger size than the one mapped here. */
+static int get_num_regions(void) {
+    return min_int(shdata->num_regions, max_regions);
+}
+
 static bool is_shmem_empty(void) {
-    int num_regions = shdata->num_regions;
+    int num_regions = get_num_regions();
     for (int region_id = 0; region_id < num_regions; ++region_id) {
         if (shdata->talp_region[region_id].pid != NOBODY) {
             return false;
@@ -167,10 +173,21 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
 }
 
 int shmem_talp_ext__init(const char *shmem_key, int shmem_size_multiplier) {
-    // Shared memory creation
-    open_shmem(shmem_key, shmem_size_multiplier);
+    // Shared memory creation. The number of regions of the processes that may
+    // attach later is not known yet, so use the biggest of the default sizes.
+    open_shmem(shmem_key, shmem_size_multiplier * SHMEM_TALP_REGIONS_PER_PROC);
 
-    // External processes don't need to initialize anything
+    // External processes don't need to initialize anything, but they need to
+    // know the capacity of an existing shared memory
+    shmem_lock(shm_handler);
+    {
+        if (shdata->initialized) {
+            int capacity = (shm_handler->shm_size - shmem_shsync__size()
+                    - sizeof(shdata_t)) / sizeof(talp_region_t);
+            max_regions = min_int(shdata->max_regions, capacity);
+        }
+    }
+    shmem_unlock(shm_handler);
 
     return DLB_SUCCESS;
 }
@@ -185,7 +202,7 @@ int shmem_talp__finalize(pid_t pid) {
     // Remove all regions associated with pid
     shmem_lock(shm_handler);
     {
-        int num_regions = shdata->num_regions;
+        int num_regions = get_num_regions();
         for (int region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
             if (talp_region->pid == pid) {
@@ -229,7 +246,7 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
         /* Regions cannot be removed from shmem_talp.
          * Search is linear, and append if not found. */
         int region_id;
-        int num_regions = shdata->num_regions;
+        int num_regions = get_num_regions();
         for (region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
             if (talp_region->pid == pid
@@ -274,7 +291,7 @@ int shmem_talp__get_pidlist(pid_t *pidlist, int *nelems, int max_len) {
     *nelems = 0;
     shmem_lock(shm_handler);
     {
-        int num_regions = shdata->num_regions;
+        int num_regions = get_num_regions();
         for (int region_id = 0; region_id < num_regions && *nelems < max_len; ++region_id) {
             pid_t pid = shdata->talp_region[region_id].pid;
             if (pid != NOBODY) {
@@ -306,7 +323,7 @@ int shmem_talp__get_region(talp_region_list_t *region, pid_t pid, const char *na
     int error = DLB_ERR_NOPROC;
     shmem_lock(shm_handler);
     {
-        int num_regions = shdata->num_regions;
+        int num_regions = get_num_regions();
         for (int region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
             if (talp_region->pid == pid
@@ -336,7 +353,7 @@ int shmem_talp__get_regionlist(talp_region_list_t *region_list, int *nelems,
     *nelems = 0;
     shmem_lock(shm_handler);
     {
-        int num_regions = shdata->num_regions;
+        int num_regions = get_num_regions();
         for (int region_id = 0; region_id < num_regions && *nelems < max_len; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
             if (talp_region->pid != NOBODY
@@ -362,7 +379,7 @@ int shmem_talp__get_regionlist(talp_region_list_t *region_list, int *nelems,
 int shmem_talp__get_times(int region_id, int64_t *mpi_time, int64_t *useful_time) {
     if (unlikely(shm_handler == NULL)) return DLB_ERR_NOSHMEM;
     if (unlikely(region_id >= max_regions)) return DLB_ERR_NOMEM;
-    if (unlikely(region_id >= shdata->num_regions)) return DLB_ERR_NOENT;
+    if (unlikely(region_id >= get_num_regions())) return DLB_ERR_NOENT;
     if (unlikely(region_id < 0)) return DLB_ERR_NOENT;
 
     talp_region_t *talp_region = &shdata->talp_region[region_id];
@@ -382,7 +399,7 @@ int shmem_talp__get_times(int region_id, int64_t *mpi_time, int64_t *useful_time
 int shmem_talp__set_times(int region_id, int64_t mpi_time, int64_t useful_time) {
     if (unlikely(shm_handler == NULL)) return DLB_ERR_NOSHMEM;
     if (unlikely(region_id >= max_regions)) return DLB_ERR_NOMEM;
-    if (unlikely(region_id >= shdata->num_regions)) return DLB_ERR_NOENT;
+    if (unlikely(region_id >= get_num_regions())) return DLB_ERR_NOENT;
     if (unlikely(region_id < 0)) return DLB_ERR_NOENT;
 
     talp_region_t *talp_region = &shdata->talp_region[region_id];
@@ -397,7 +414,7 @@ int shmem_talp__set_times(int region_id, int64_t mpi_time, int64_t useful_time)
 int shmem_talp__set_avg_cpus(int region_id, float avg_cpus) {
     if (unlikely(shm_handler == NULL)) return DLB_ERR_NOSHMEM;
     if (unlikely(region_id >= max_regions)) return DLB_ERR_NOMEM;
-    if (unlikely(region_id >= shdata->num_regions)) return DLB_ERR_NOENT;
+    if (unlikely(region_id >= get_num_regions())) return DLB_ERR_NOENT;
     if (unlikely(region_id < 0)) return DLB_ERR_NOENT;
 
     talp_region_t *talp_region = &shdata->talp_region[region_id];
diff --git a/src/LB_comm/shmem_talp.h b/src/LB_comm/shmem_talp.h
index 2aa78c1..2fe9020 100644
--- a/src/LB_comm/shmem_talp.h
+++ b/src/LB_comm/shmem_talp.h
@@ -24,6 +24,9 @@
 #include <stdbool.h>
 #include <stdint.h>
 
+/* Number of regions per process if regions are shared with other processes */
+enum { SHMEM_TALP_REGIONS_PER_PROC = 100 };
+
 typedef struct talp_region_list_t {
     pid_t pid;
     int region_id;
diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 968f2ae..170fe0b 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -622,11 +622,10 @@ void talp_init(subprocess_descriptor_t *spd) {
     if (talp_info->flags.have_shmem || talp_info->flags.have_minimal_shmem) {
         /* If we only need a minimal shmem, its size will be the user-provided
          * multiplier times 'system_size' (usually, 1 region per process)
-         * Otherwise, we multiply it by DEFAULT_REGIONS_PER_PROC.
+         * Otherwise, we multiply it by SHMEM_TALP_REGIONS_PER_PROC.
          */
-        enum { DEFAULT_REGIONS_PER_PROC = 100 };
         int shmem_size_multiplier = spd->options.shm_size_multiplier
-            * (talp_info->flags.have_shmem ? DEFAULT_REGIONS_PER_PROC : 1);
+            * (talp_info->flags.have_shmem ? SHMEM_TALP_REGIONS_PER_PROC : 1);
         shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
     }
 
-- 
2.43.0


From b04f710f8a918e96408da9b3f48877c79cc63c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 083/136] fix: the space of the TALP regions of finalized
 processes was never used again

---
 src/LB_comm/shmem_talp.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index a367df8..28bd1f3 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -243,9 +243,10 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     int error;
     shmem_lock(shm_handler);
     {
-        /* Regions cannot be removed from shmem_talp.
-         * Search is linear, and append if not found. */
+        /* Search is linear. If not found, use the first empty spot (from
+         * processes that already finalized), or append. */
         int region_id;
+        int empty_id = -1;
         int num_regions = get_num_regions();
         for (region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
@@ -254,6 +255,9 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
                 /* Region was already registered */
                 break;
             }
+            if (empty_id < 0 && talp_region->pid == NOBODY) {
+                empty_id = region_id;
+            }
         }
 
         if (region_id < num_regions) {
@@ -261,9 +265,13 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
             *node_shared_id = region_id;
             error = DLB_NOUPDT;
         } else {
-            if (num_regions < max_regions) {
-                /* Register new region (region_id points to empty spot) */
-                ++shdata->num_regions;
+            if (empty_id >= 0 || num_regions < max_regions) {
+                /* Register new region */
+                if (empty_id >= 0) {
+                    region_id = empty_id;
+                } else {
+                    ++shdata->num_regions;
+                }
                 talp_region_t *empty_spot = &shdata->talp_region[region_id];
                 *empty_spot = (const talp_region_t) {.pid = pid, .avg_cpus = avg_cpus};
                 snprintf(empty_spot->name, DLB_MONITOR_NAME_MAX, "%s", name);
-- 
2.43.0


From 6913412bc2ff679fb207368e4ab8c46f4c7caa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 084/136] fix: fatal error if a process could not attach to the
 TALP shared memory

---
 src/LB_core/DLB_talp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 170fe0b..fb4f550 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -626,7 +626,12 @@ void talp_init(subprocess_descriptor_t *spd) {
          */
         int shmem_size_multiplier = spd->options.shm_size_multiplier
             * (talp_info->flags.have_shmem ? SHMEM_TALP_REGIONS_PER_PROC : 1);
-        shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
+        if (shmem_talp__init(spd->options.shm_key, shmem_size_multiplier) < DLB_SUCCESS) {
+            /* Already warned. Regions will not be shared with other processes. */
+            talp_info->flags.have_shmem = false;
+            talp_info->flags.have_minimal_shmem = false;
+            talp_info->flags.external_profiler = false;
+        }
     }
 
     /* Initialize global region monitor
-- 
2.43.0


From b0f5ce424b6afd742b848d8da8270009ac104e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 085/136] fix: node metrics were lost with the node summary, or
 computed while other processes removed theirs

---
 src/LB_comm/shmem_talp.c | 18 ++++++++++++++++++
 src/LB_comm/shmem_talp.h |  1 +
 src/LB_core/DLB_talp.c   | 27 +++++++++++++++++++++------
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 28bd1f3..bd13e7a 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -288,6 +288,24 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     return error;
 }
 
+/* Remove the region with the given id, only if registered by pid */
+int shmem_talp__unregister(pid_t pid, int region_id) {
+    if (shm_handler == NULL) return DLB_ERR_NOSHMEM;
+
+    int error = DLB_ERR_NOENT;
+    shmem_lock(shm_handler);
+    {
+        if (region_id >= 0 && region_id < get_num_regions()
+                && shdata->talp_region[region_id].pid == pid) {
+            shdata->talp_region[region_id] = (const talp_region_t){};
+            error = DLB_SUCCESS;
+        }
+    }
+    shmem_unlock(shm_handler);
+
+    return error;
+}
+
 /*********************************************************************************/
 /*  Getters                                                                      */
 /*********************************************************************************/
diff --git a/src/LB_comm/shmem_talp.h b/src/LB_comm/shmem_talp.h
index 2fe9020..0e1ed38 100644
--- a/src/LB_comm/shmem_talp.h
+++ b/src/LB_comm/shmem_talp.h
@@ -44,6 +44,7 @@ int shmem_talp__finalize(pid_t pid);
 int shmem_talp_ext__finalize(void);
 
 /* Register */
+int shmem_talp__unregister(pid_t pid, int region_id);
 int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_shared_id);
 
 /* Getters */
diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index fb4f550..a5d633d 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2286,8 +2286,13 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     bool resume_region = monitoring_region_stop(spd, monitor) == DLB_SUCCESS;
 
     /* This functionality needs a shared memory, create a temporary one if needed */
-    if (!talp_info->flags.have_shmem) {
-        shmem_talp__init(spd->options.shm_key, 1);
+    bool temporary_shmem = !talp_info->flags.have_shmem && !talp_info->flags.have_minimal_shmem;
+    bool have_shmem = !temporary_shmem
+        || shmem_talp__init(spd->options.shm_key, 1) == DLB_SUCCESS;
+
+    /* Not all regions are registered in the shared memory */
+    bool temporary_region = monitor_data->node_shared_id < 0;
+    if (have_shmem && temporary_region) {
         shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
                 &monitor_data->node_shared_id);
     }
@@ -2301,10 +2306,20 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     node_barrier(spd, NULL);
 
     /* Compute node metrics for that region name */
-    talp_query_pop_node_metrics(monitor->name, node_metrics);
+    int error = have_shmem
+        ? talp_query_pop_node_metrics(monitor->name, node_metrics)
+        : DLB_ERR_NOSHMEM;
+
+    /* Perform another node barrier to ensure that everyone has read the metrics
+     * before they are updated or removed */
+    node_barrier(spd, NULL);
 
-    /* Remove shared memory if it was a temporary one */
-    if (!talp_info->flags.have_shmem) {
+    /* Remove region and shared memory if they were temporary */
+    if (have_shmem && temporary_region) {
+        shmem_talp__unregister(spd->id, monitor_data->node_shared_id);
+        monitor_data->node_shared_id = -1;
+    }
+    if (have_shmem && temporary_shmem) {
         shmem_talp__finalize(spd->id);
     }
 
@@ -2313,5 +2328,5 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
         monitoring_region_start(spd, monitor);
     }
 
-    return DLB_SUCCESS;
+    return error;
 }
-- 
2.43.0


From 746ce334ae71845cfc4e17a5deebe52b399aa703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 086/136] fix: node load balance was not a number if there was
 no useful time

---
 src/support/perf_metrics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/perf_metrics.h b/src/support/perf_metrics.h
index 8ae6a8f..e460ba5 100644
--- a/src/support/perf_metrics.h
+++ b/src/support/perf_metrics.h
@@ -77,7 +77,9 @@ static inline void perf_metrics__infer_mpi_model(
         *metrics = (const perf_metrics_mpi_t) {
             .parallel_efficiency = (float)node_sum_useful / (node_sum_useful + node_sum_mpi),
             .communication_efficiency = (float)max_useful_time / elapsed_time,
-            .load_balance = ((float)node_sum_useful / processes_per_node) / max_useful_time,
+            .load_balance = max_useful_time > 0
+                ? ((float)node_sum_useful / processes_per_node) / max_useful_time
+                : 0.0f,
         };
     } else {
         *metrics = (const perf_metrics_mpi_t) {};
-- 
2.43.0


From d4446da1ad369e34f597ea3fef6756989c4a689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 087/136] fix: node metrics ignored processes beyond the number
 of CPUs

---
 src/LB_core/DLB_talp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index a5d633d..7162c7c 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2170,9 +2170,9 @@ int talp_query_pop_node_metrics(const char *name, dlb_node_metrics_t *node_metri
     int64_t max_useful_time = 0;
 
     /* Obtain a list of regions in the node associated with given region */
-    int max_procs = mu_get_system_size();
+    int max_procs = shmem_talp__get_max_regions();
     talp_region_list_t *region_list = malloc(max_procs * sizeof(talp_region_list_t));
-    int nelems;
+    int nelems = 0;
     shmem_talp__get_regionlist(region_list, &nelems, max_procs, name);
 
     /* Count how many processes have started the region */
-- 
2.43.0


From 80e5b9ded7661946e7e33b3840376e9f42a36227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 088/136] fix: invalid access getting the times of a process
 that has not called DLB yet

---
 src/apis/DLB_interface_talp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 2c89d59..59b45ff 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -81,7 +81,8 @@ int DLB_TALP_GetTimes(int pid, double *mpi_time, double *useful_time) {
 
     int error;
 
-    if (pid == 0 || (thread_spd && thread_spd->id == pid)) {
+    spd_enter_dlb(thread_spd);
+    if (pid == 0 || thread_spd->id == pid) {
         /* Same process */
         const dlb_monitor_t *monitor = monitoring_region_get_global_region(thread_spd);
         if (monitor != NULL) {
-- 
2.43.0


From 87a6cf4bdd0f79b2a1f2ce8b91e128cad86841ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 089/136] fix: invalid allocation getting node times with a
 negative length

---
 src/apis/DLB_interface_talp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 59b45ff..953b8ec 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -118,6 +118,9 @@ int DLB_TALP_GetNodeTimes(const char *name, dlb_node_times_t *node_times_list,
         if (max_len > shmem_max_regions) {
             max_len = shmem_max_regions;
         }
+        if (max_len < 0) {
+            max_len = 0;
+        }
         if (name == DLB_GLOBAL_REGION) {
             name = monitoring_region_get_global_region_name();
         }
-- 
2.43.0


From f0f5be6b4177d4866deccd4ecf51cc94d9a9461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:27 +0000
Subject: [PATCH 090/136] fix: getting a list of processes with no space wrote
 beyond it

---
 src/LB_comm/shmem_procinfo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index ad1d519..975355b 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1011,14 +1011,11 @@ int shmem_procinfo__getpidlist(pid_t *pidlist, int *nelems, int max_len) {
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             pid_t pid = shdata->process_info[p].pid;
             if (pid != NOBODY) {
                 pidlist[(*nelems)++] = pid;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1068,13 +1065,10 @@ void shmem_procinfo__getcpuusage_list(double *usagelist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 usagelist[(*nelems)++] = shdata->process_info[p].cpu_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1086,13 +1080,10 @@ void shmem_procinfo__getcpuavgusage_list(double *avgusagelist, int *nelems, int
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 avgusagelist[(*nelems)++] = shdata->process_info[p].cpu_avg_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1155,13 +1146,10 @@ void shmem_procinfo__getactivecpus_list(pid_t *cpuslist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 cpuslist[(*nelems)++] = shdata->process_info[p].active_cpus;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 3dfb6826425cb2e6bf6d75a3a0965d3efbe7760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:25 +0000
Subject: [PATCH 091/136] fix: shared memory deleted while in use if more
 processes than CPUs were attached

---
 src/LB_comm/shmem.c | 56 ++++++++++++++++++++++++++-------------------
 src/LB_comm/shmem.h |  1 +
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index da52ed4..8d2348f 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -57,42 +57,48 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
     bool registered = false;
     int i;
     for(i=0; i<mu_get_system_size(); ++i) {
-        if (pidlist[i] == 0) {
-            if (!registered) {
-                pidlist[i] = pid;
-                registered = true;
-            }
-        } else {
-            if (kill(pidlist[i], 0) == -1) {
-                /* Process pidlist[i] is registered and does not exist */
-                if (cleanup_fn) {
-                    verbose(VB_SHMEM,
-                            "Process %d is registered in DLB but does not exist, probably"
-                            " due to a bad termination of such process.\n"
-                            "DLB is cleaning up the shared memory. If it fails,"
-                            " please run 'dlb_shm --delete' and try again.", pidlist[i]);
-                    cleanup_fn(shdata, pidlist[i]);
-                    pidlist[i] = 0;
-                } else {
-                    verbose(VB_SHMEM, "Process %d attached to shmem not found, "
-                            "you may want to run \"dlb_shm -d\"", pidlist[i]);
-                }
+        if (pidlist[i] != 0 && kill(pidlist[i], 0) == -1) {
+            /* Process pidlist[i] is registered and does not exist */
+            if (cleanup_fn) {
+                verbose(VB_SHMEM,
+                        "Process %d is registered in DLB but does not exist, probably"
+                        " due to a bad termination of such process.\n"
+                        "DLB is cleaning up the shared memory. If it fails,"
+                        " please run 'dlb_shm --delete' and try again.", pidlist[i]);
+                cleanup_fn(shdata, pidlist[i]);
+                pidlist[i] = 0;
+            } else {
+                verbose(VB_SHMEM, "Process %d attached to shmem not found, "
+                        "you may want to run \"dlb_shm -d\"", pidlist[i]);
             }
         }
+        if (pidlist[i] == 0 && !registered) {
+            pidlist[i] = pid;
+            registered = true;
+        }
     }
     return registered;
 }
 
-static bool shmem_consistency_remove_pid(pid_t *pidlist, pid_t pid) {
+static bool shmem_consistency_remove_pid(shmem_sync_t *shsync, pid_t pid) {
+    pid_t *pidlist = shsync->pidlist;
+    bool registered = false;
     bool last_one = true;
     int i;
     for(i=0; i<mu_get_system_size(); ++i) {
         if (pidlist[i] == pid) {
             pidlist[i] = 0;
+            registered = true;
         } else if (pidlist[i] != 0) {
             last_one = false;
         }
     }
+    if (!registered && shsync->num_unlisted > 0) {
+        --shsync->num_unlisted;
+    }
+    if (shsync->num_unlisted > 0) {
+        last_one = false;
+    }
     return last_one;
 }
 
@@ -234,7 +240,11 @@ attach:
 
     shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
     shmem_consistency_check_version(handler->shsync->shmem_version, shmem_props->version);
-    shmem_consistency_check_pids(handler->shsync->pidlist, pid, shmem_props->cleanup_fn, *shdata);
+    if (!shmem_consistency_check_pids(handler->shsync->pidlist, pid,
+                shmem_props->cleanup_fn, *shdata)) {
+        /* There are more processes than CPUs attached to the shared memory */
+        ++handler->shsync->num_unlisted;
+    }
     pthread_mutex_unlock(&handler->shsync->shmem_mutex);
 
     return handler;
@@ -249,7 +259,7 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
 
     shmem_lock(handler);
     bool is_empty = is_empty_fn ? is_empty_fn() : true;
-    bool is_last_one = shmem_consistency_remove_pid(handler->shsync->pidlist, getpid());
+    bool is_last_one = shmem_consistency_remove_pid(handler->shsync, getpid());
     bool delete_shmem = is_empty && is_last_one;
 
     /* Only the last process unlinks shmem. It needs to be done with the lock, so that
diff --git a/src/LB_comm/shmem.h b/src/LB_comm/shmem.h
index f375422..39fc323 100644
--- a/src/LB_comm/shmem.h
+++ b/src/LB_comm/shmem.h
@@ -38,6 +38,7 @@ typedef struct {
     int                 initializing;   // Only the first process sets 0 -> 1
     int                 initialized;    // Only the first process sets 0 -> 1
     shmem_state_t       state;          // Shared memory state
+    unsigned int        num_unlisted;   // Number of attached processes not fitting in pidlist
     pthread_mutex_t     shmem_mutex;    // Mutex to grant exclusive access to the shmem
     pid_t               pidlist[];      // Array of attached PIDs
 } shmem_sync_t;
-- 
2.43.0


From 016a3bd1de8aed05987dec11053c81157e7fd1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 092/136] fix: process rows of the TALP CSV report had no
 separators between them

---
 src/support/talp_output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 2ef4173..d787057 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1105,7 +1105,7 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%d,"           /* NodeId */
                     "%s,"           /* Hostname */
                     "%s,"           /* CpuSet */
-                    "%d"            /* NumCpus */
+                    "%d,"           /* NumCpus */
                     "%.1f,"         /* AvgCpus */
                     "%"PRId64","    /* Cycles */
                     "%"PRId64","    /* Instructions */
@@ -1119,7 +1119,7 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%"PRId64","    /* MPITime */
                     "%"PRId64","    /* OMPLoadImbalance */
                     "%"PRId64","    /* OMPSchedulingTime */
-                    "%"PRId64",",   /* OMPSerializationTime */
+                    "%"PRId64"\n",  /* OMPSerializationTime */
                     region_record->name,
                     process_record->rank,
                     process_record->pid,
-- 
2.43.0


From 28588e827a3b466a9f5d693511cd6691a043139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 093/136] fix: TALP report changed the locale of the thread,
 and leaked memory if there was nothing to write

---
 src/support/talp_output.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index d787057..94b044d 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1442,11 +1442,9 @@ void talp_output_finalize(const char *output_file) {
 
     /* If the process has changed the locale, temporarily push the C locale to
      * print floats with the expected notation (a comma as a decimal separator
-     * will break CSV and JSON files). The object associated with the locale
-     * can be safely freed after it has been set. */
+     * will break CSV and JSON files). */
     locale_t new_locale = newlocale(LC_ALL, "C", 0);
-    uselocale(new_locale);
-    freelocale(new_locale);
+    locale_t old_locale = uselocale(new_locale);
 
     if (output_file == NULL) {
         /* No output file, just print all records */
@@ -1457,7 +1455,7 @@ void talp_output_finalize(const char *output_file) {
         /* Do not open file if process has no data */
         if (pop_metrics_records == NULL
                 && node_records == NULL
-                && region_records == NULL) return;
+                && region_records == NULL) goto finalize;
 
         /* Check file extension */
         typedef enum Extension {
@@ -1619,8 +1617,10 @@ void talp_output_finalize(const char *output_file) {
         }
     }
 
+finalize:
     // Restore locale
-    uselocale(LC_GLOBAL_LOCALE);
+    uselocale(old_locale);
+    freelocale(new_locale);
 
     // De-allocate all records
     common_finalize();
-- 
2.43.0


From ca3f65001e6c358b46b0cf8c8db68069a244d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 094/136] fix: file names of the split TALP CSV reports were
 not freed

---
 src/support/talp_output.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 94b044d..364bb8f 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1512,6 +1512,7 @@ void talp_output_finalize(const char *output_file) {
                     pop_metrics_to_csv(pop_file, append_to_csv);
                     fclose(pop_file);
                 }
+                free(pop_filename);
             }
 
             /* Node */
@@ -1535,6 +1536,7 @@ void talp_output_finalize(const char *output_file) {
                     node_to_csv(node_file, append_to_csv);
                     fclose(node_file);
                 }
+                free(node_filename);
             }
 
             /* Process */
@@ -1558,6 +1560,7 @@ void talp_output_finalize(const char *output_file) {
                     process_to_csv(process_file, append_to_csv);
                     fclose(process_file);
                 }
+                free(process_filename);
             }
         }
 
-- 
2.43.0


From ccc1043b11d3a2d27734c08406931cbf9166b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 095/136] fix: TALP report contained the resources of a
 previous execution

---
 src/support/talp_output.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 364bb8f..83d8f9f 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1278,6 +1278,10 @@ void talp_output_record_resources(int num_cpus, int num_nodes, int num_mpi_ranks
     };
 }
 
+static void resources_finalize(void) {
+    resources_record = (const talp_resources_record_t) {};
+}
+
 static void resources_to_json(FILE *out_file) {
     fprintf(out_file,
                     "  \"resources\": {\n"
@@ -1630,4 +1634,5 @@ finalize:
     pop_metrics_finalize();
     node_finalize();
     process_finalize();
+    resources_finalize();
 }
-- 
2.43.0


From f82eddd7b1299f72194ee2b45180465fc1ec89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:07 +0000
Subject: [PATCH 096/136] fix: TALP JSON, XML and CSV reports were not valid if
 a region name had special characters

---
 src/support/talp_output.c | 108 +++++++++++++++++++++++++++++++++++---
 1 file changed, 101 insertions(+), 7 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 83d8f9f..dcc2f15 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -48,6 +48,94 @@ static float sanitized_ipc(float instructions, float cycles) {
 }
 
 
+/*********************************************************************************/
+/*    Region names                                                               */
+/*********************************************************************************/
+
+/* Region names are chosen by the user and may contain any character, they need
+ * to be escaped in order to generate valid JSON, XML and CSV files. */
+enum { ESCAPED_NAME_MAX = DLB_MONITOR_NAME_MAX * 6 };
+
+/* Length of the valid UTF-8 character at the beginning of the string, or 0 */
+static int utf8_char_len(const unsigned char *c) {
+    int len = c[0] < 0x80 ? 1
+        : c[0] >= 0xC2 && c[0] < 0xE0 ? 2
+        : c[0] >= 0xE0 && c[0] < 0xF0 ? 3
+        : c[0] >= 0xF0 && c[0] < 0xF5 ? 4 : 0;
+    for (int i = 1; i < len; ++i) {
+        if ((c[i] & 0xC0) != 0x80) return 0;
+    }
+    if ((c[0] == 0xE0 && c[1] < 0xA0)               /* overlong */
+            || (c[0] == 0xF0 && c[1] < 0x90)        /* overlong */
+            || (c[0] == 0xED && c[1] >= 0xA0)       /* surrogate */
+            || (c[0] == 0xF4 && c[1] >= 0x90)) {    /* > U+10FFFF */
+        return 0;
+    }
+    return len;
+}
+
+static const char* json_name(const char *name, char *escaped) {
+    char *out = escaped;
+    const unsigned char *c = (const unsigned char*)name;
+    while (*c != '\0') {
+        int len = utf8_char_len(c);
+        if (len == 0) {
+            out += sprintf(out, "\\ufffd");
+            len = 1;
+        } else if (*c == '"' || *c == '\\') {
+            out += sprintf(out, "\\%c", *c);
+        } else if (*c < 0x20) {
+            out += sprintf(out, "\\u%04x", *c);
+        } else {
+            out += sprintf(out, "%.*s", len, (const char*)c);
+        }
+        c += len;
+    }
+    *out = '\0';
+    return escaped;
+}
+
+static const char* xml_name(const char *name, char *escaped) {
+    char *out = escaped;
+    const unsigned char *c = (const unsigned char*)name;
+    while (*c != '\0') {
+        int len = utf8_char_len(c);
+        if (*c == '&') {
+            out += sprintf(out, "&amp;");
+        } else if (*c == '<') {
+            out += sprintf(out, "&lt;");
+        } else if (*c == '>') {
+            out += sprintf(out, "&gt;");
+        } else if (*c == '\r') {
+            out += sprintf(out, "&#13;");
+        } else if (len == 0
+                || (*c < 0x20 && *c != '\t' && *c != '\n')
+                || (len == 3 && c[0] == 0xEF && c[1] == 0xBF && c[2] >= 0xBE)) {
+            /* Not allowed in XML, not even as a reference */
+            out += sprintf(out, "\xEF\xBF\xBD");
+            len = len == 0 ? 1 : len;
+        } else {
+            out += sprintf(out, "%.*s", len, (const char*)c);
+        }
+        c += len;
+    }
+    *out = '\0';
+    return escaped;
+}
+
+static const char* csv_name(const char *name, char *escaped) {
+    char *out = escaped;
+    for (const char *c = name; *c != '\0'; ++c) {
+        if (*c == '"') {
+            *(out++) = '"';
+        }
+        *(out++) = *c;
+    }
+    *out = '\0';
+    return escaped;
+}
+
+
 /*********************************************************************************/
 /*    Monitoring Region                                                          */
 /*********************************************************************************/
@@ -174,6 +262,7 @@ static void pop_metrics_to_json(FILE *out_file) {
                 node = node->next) {
 
             dlb_pop_metrics_t *record = node->data;
+            char name[ESCAPED_NAME_MAX];
 
             fprintf(out_file,
                     "    \"%s\": {\n"
@@ -209,7 +298,7 @@ static void pop_metrics_to_json(FILE *out_file) {
                     "      \"ompSchedulingEfficiency\": %.2f,\n"
                     "      \"ompSerializationEfficiency\": %.2f\n"
                     "    }%s\n",
-                    record->name,
+                    json_name(record->name, name),
                     record->num_cpus,
                     record->num_mpi_ranks,
                     record->num_nodes,
@@ -255,6 +344,7 @@ static void pop_metrics_to_xml(FILE *out_file) {
             node = node->next) {
 
         dlb_pop_metrics_t *record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "  <Application>\n"
@@ -291,7 +381,7 @@ static void pop_metrics_to_xml(FILE *out_file) {
                 "    <ompSchedulingEfficiency>%.2f</ompSchedulingEfficiency>\n"
                 "    <ompSerializationEfficiency>%.2f</ompSerializationEfficiency>\n"
                 "  </Application>\n",
-                record->name,
+                xml_name(record->name, name),
                 record->num_cpus,
                 record->num_mpi_ranks,
                 record->num_nodes,
@@ -461,6 +551,7 @@ static void pop_metrics_to_csv(FILE *out_file, bool append) {
             node = node->next) {
 
         dlb_pop_metrics_t *record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "\"%s\","    /* name */
@@ -495,7 +586,7 @@ static void pop_metrics_to_csv(FILE *out_file, bool append) {
                 "%.2f,"      /* ompLoadBalance */
                 "%.2f,"      /* ompSchedulingEfficiency */
                 "%.2f\n",    /* ompSerializationEfficiency */
-                record->name,
+                csv_name(record->name, name),
                 record->num_cpus,
                 record->num_mpi_ranks,
                 record->num_nodes,
@@ -930,10 +1021,11 @@ static void process_to_json(FILE *out_file) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "    \"%s\": [\n",
-                region_record->name);
+                json_name(region_record->name, name));
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
@@ -999,11 +1091,12 @@ static void process_to_xml(FILE *out_file) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "  <Process>\n"
                 "    <name>%s</name>\n",
-                region_record->name);
+                xml_name(region_record->name, name));
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
@@ -1093,13 +1186,14 @@ static void process_to_csv(FILE *out_file, bool append) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
             process_record_t *process_record = &region_record->process_records[i];
 
             fprintf(out_file,
-                    "%s,"           /* Region */
+                    "\"%s\","       /* Region */
                     "%d,"           /* Rank */
                     "%d,"           /* PID */
                     "%d,"           /* NodeId */
@@ -1120,7 +1214,7 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%"PRId64","    /* OMPLoadImbalance */
                     "%"PRId64","    /* OMPSchedulingTime */
                     "%"PRId64"\n",  /* OMPSerializationTime */
-                    region_record->name,
+                    csv_name(region_record->name, name),
                     process_record->rank,
                     process_record->pid,
                     process_record->node_id,
-- 
2.43.0


From f4cde4f4d1bfd00ebf9d677eec567685bd5f83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:26 +0000
Subject: [PATCH 097/136] fix: quoted CPU lists that do not fit were not
 closed, and had wrong separators

---
 src/support/mask_utils.c | 44 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index fe7747b..7180c68 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1167,38 +1167,26 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
         int distance = next_unset > 0 ? next_unset - 1 - cpuid
             : mu_get_last_cpu(mask) - cpuid;
 
-        /* Add ',' separator for subsequent entries */
-        if (entry_made) {
-            if (bytes+1 < namelen) {
-                *(b++) = ',';
-                ++bytes;
-            }
-        } else {
-            entry_made = true;
-        }
-
-        /* Write element, pair or range */
+        /* Write element, pair or range, with a ',' separator for subsequent entries */
+        char entry[32];
+        int len;
+        const char *separator = entry_made ? "," : "";
         if (distance == 0) {
-            int len = snprintf(NULL, 0, "%d", cpuid);
-            if (bytes+len < namelen) {
-                b += sprintf(b, "%d", cpuid);
-                bytes += len;
-            }
+            len = snprintf(entry, sizeof(entry), "%s%d", separator, cpuid);
         } else if (distance == 1) {
-            int len = snprintf(NULL, 0, "%d,%d", cpuid, cpuid+1);
-            if (bytes+len < namelen) {
-                b += sprintf(b, "%d,%d", cpuid, cpuid+1);
-                bytes += len;
-                ++cpuid;
-            }
+            len = snprintf(entry, sizeof(entry), "%s%d,%d", separator, cpuid, cpuid+1);
         } else {
-            int len = snprintf(NULL, 0, "%d-%d", cpuid, cpuid+distance);
-            if (bytes+len < namelen) {
-                b += sprintf(b, "%d-%d", cpuid, cpuid+distance);
-                bytes += len;
-                cpuid += distance;
-            }
+            len = snprintf(entry, sizeof(entry), "%s%d-%d", separator, cpuid, cpuid+distance);
         }
+
+        /* Stop if there is not enough space for the entry, the closing '"' and '\0' */
+        if (bytes + len + 2 > namelen) break;
+
+        memcpy(b, entry, len);
+        b += len;
+        bytes += len;
+        entry_made = true;
+        cpuid += distance;
     }
     if (bytes+1 < namelen) {
         *(b++) = '"';
-- 
2.43.0


From 3c946e12472d33871af8e8d6e31a0e7d36cb460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:19 +0000
Subject: [PATCH 098/136] fix: single CPU changes were not notified if only the
 CPU set callbacks were registered

---
 src/LB_numThreads/numThreads.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/LB_numThreads/numThreads.c b/src/LB_numThreads/numThreads.c
index 2405a27..f7ec152 100644
--- a/src/LB_numThreads/numThreads.c
+++ b/src/LB_numThreads/numThreads.c
@@ -227,11 +227,13 @@ int add_process_mask(const pm_interface_t *pm, const cpu_set_t *cpu_set) {
 int enable_cpu(const pm_interface_t *pm, int cpuid) {
     /* fallback case */
     if (pm->dlb_callback_enable_cpu_ptr == NULL
-            && pm->dlb_callback_add_active_mask_ptr) {
+            && (pm->dlb_callback_enable_cpu_set_ptr
+                || pm->dlb_callback_add_active_mask_ptr)) {
         cpu_set_t cpu_set;
         CPU_ZERO(&cpu_set);
         CPU_SET(cpuid, &cpu_set);
-        return enable_cpu_set(pm, &cpu_set);
+        return pm->dlb_callback_enable_cpu_set_ptr ?
+            enable_cpu_set(pm, &cpu_set) : add_mask(pm, &cpu_set);
     }
 
     if (pm->dlb_callback_enable_cpu_ptr == NULL) {
@@ -266,6 +268,14 @@ int enable_cpu_set(const pm_interface_t *pm, const cpu_set_t *cpu_set) {
 
 int disable_cpu(const pm_interface_t *pm, int cpuid) {
     /* fallback case */
+    if (pm->dlb_callback_disable_cpu_ptr == NULL
+            && pm->dlb_callback_disable_cpu_set_ptr) {
+        cpu_set_t cpu_set;
+        CPU_ZERO(&cpu_set);
+        CPU_SET(cpuid, &cpu_set);
+        return disable_cpu_set(pm, &cpu_set);
+    }
+
     if (pm->dlb_callback_disable_cpu_ptr == NULL
             && pm->dlb_callback_set_active_mask_ptr) {
         cpu_set_t cpu_set;
-- 
2.43.0


From aa459276c28d12cb217a9a19a42319d6e0f43325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:50 +0000
Subject: [PATCH 099/136] fix: node barrier calls crashed after DLB_Finalize,
 or between DLB_PreInit and DLB_Init

---
 src/LB_core/node_barrier.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 7cbb4bb..443181f 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -165,7 +165,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
     if (barrier_name == NULL) return NULL;
 
     barrier_t *barrier = NULL;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         /* Registering the default barrier again would add this process twice */
         if (strncmp(barrier_name, ((barrier_info_t*)spd->barrier_info)->default_barrier_name,
                     BARRIER_NAME_MAX-1) == 0) {
@@ -232,7 +232,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
 
 int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         /* Check whether barrier is valid */
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
@@ -284,7 +284,7 @@ int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier == NULL) {
@@ -342,7 +342,7 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_detach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier != NULL) {
-- 
2.43.0


From 5fb269bdb1148ec126100e001c37090850a63189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:53 +0000
Subject: [PATCH 100/136] fix: invalid accesses given CPU identifiers that do
 not exist

---
 src/LB_comm/shmem_cpuinfo.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index b51ea49..6efe944 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -685,7 +685,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error = DLB_SUCCESS;
     //DLB_DEBUG( cpu_set_t freed_cpus; )
@@ -882,7 +882,7 @@ int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     //DLB_DEBUG( cpu_set_t recovered_cpus; )
@@ -1199,7 +1199,7 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
 int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1568,7 +1568,7 @@ static int borrow_cpus_in_cpu_set_t(pid_t pid,
 
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1742,7 +1742,7 @@ int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
 
 int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -2150,6 +2150,8 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-- 
2.43.0


From a3b5395991ef34b2d05530e7c088b1c691a4bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:30 +0000
Subject: [PATCH 101/136] fix: invalid access through a pointer to a procinfo
 shared memory that is no longer mapped

---
 src/LB_comm/shmem_procinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 975355b..f356fd8 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -609,6 +609,7 @@ static void close_shmem(void) {
             shmem_finalize(shm_handler, is_shmem_empty);
             shm_handler = NULL;
             shdata = NULL;
+            my_pinfo = NULL;
         }
     }
     pthread_mutex_unlock(&mutex);
-- 
2.43.0


From e3eafbda4429587750f30ca53825bae8d16a77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:30 +0000
Subject: [PATCH 102/136] fix: DLB_Finalize left the CPUs registered if the
 process only called DLB_PreInit

---
 src/apis/DLB_interface.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index f91c122..99005d2 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -26,6 +26,7 @@
 #include "LB_core/node_barrier.h"
 #include "LB_core/spd.h"
 #include "LB_core/DLB_kernel.h"
+#include "LB_comm/shmem_cpuinfo.h"
 #include "LB_comm/shmem_procinfo.h"
 #include "support/env.h"
 #include "support/error.h"
@@ -61,11 +62,16 @@ int DLB_Finalize(void) {
     } else if (__sync_bool_compare_and_swap(&thread_spd->dlb_preinitialized, true, false) ) {
         /* This is to support the case when a single process does DLB_PreInit + DLB_Init
          * The first DLB_Finalize must finalize everything except the CPUs not inherited
-         * during DLB_Init, if any. The second finalize must clean up the procinfo shmem.
+         * during DLB_Init, if any. The second finalize must clean up the shmems.
          */
-        shmem_procinfo__finalize(thread_spd->id,
-                thread_spd->options.debug_opts & DBG_RETURNSTOLEN,
-                thread_spd->options.shm_key);
+        const options_t *options = &thread_spd->options;
+        shmem_cpuinfo_ext__init(options->shm_key, options->lewi_color);
+        shmem_procinfo_ext__init(options->shm_key);
+        shmem_procinfo_ext__postfinalize(thread_spd->id,
+                options->debug_opts & DBG_RETURNSTOLEN);
+        shmem_cpuinfo_ext__postfinalize(thread_spd->id);
+        shmem_cpuinfo_ext__finalize();
+        shmem_procinfo_ext__finalize();
         return DLB_SUCCESS;
     }
     return DLB_NOUPDT;
-- 
2.43.0


From f9cbb196b605361403a78981cc3fc741ff8960c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:26 +0000
Subject: [PATCH 103/136] fix: invalid accesses when lending CPUs that do not
 exist with DLB_LendCpuMask

---
 src/LB_comm/shmem_cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 6efe944..f1326e3 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -737,7 +737,7 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
     shmem_lock(shm_handler);
     {
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
             lend_cpu(pid, cpuid, tasks);
 
-- 
2.43.0


From 165059d68621e7bfeff7c9d1576945ed3f5d9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:53 +0000
Subject: [PATCH 104/136] fix: CPU sharing of finalized processes was kept in
 the shared memory if it was still attached

---
 src/LB_comm/shmem_procinfo.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index f356fd8..5397f3b 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -194,6 +194,16 @@ static bool is_shmem_empty(void) {
     return true;
 }
 
+/* Remove process. If it was the last one, the next process to be registered
+ * decides again whether CPU sharing is allowed */
+static void remove_process(pinfo_t *process) {
+    *process = (const pinfo_t){0};
+    if (is_shmem_empty()) {
+        shdata->flags.allow_cpu_sharing = false;
+        shdata->flags.cpu_sharing_unknown = true;
+    }
+}
+
 static void open_shmem(const char *shmem_key) {
     pthread_mutex_lock(&mutex);
     {
@@ -647,7 +657,7 @@ int shmem_procinfo__finalize(pid_t pid, bool return_stolen, const char *shmem_ke
             }
 
             // Clear process fields
-            *process = (const pinfo_t){0};
+            remove_process(process);
 
             // Clear local pointer
             my_pinfo = NULL;
@@ -694,7 +704,7 @@ int shmem_procinfo_ext__postfinalize(pid_t pid, bool return_stolen) {
             }
 
             // Clear process fields
-            *process = (const pinfo_t){0};
+            remove_process(process);
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From ea7430d2b8706cc8885784a42665bc27bfc812ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:37 +0000
Subject: [PATCH 105/136] fix: processes with different long keys used the same
 shared memory, names were truncated

---
 src/LB_comm/shmem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem.h b/src/LB_comm/shmem.h
index 39fc323..14e5c35 100644
--- a/src/LB_comm/shmem.h
+++ b/src/LB_comm/shmem.h
@@ -45,7 +45,7 @@ typedef struct {
 
 enum { SHMEM_SYNC_VERSION = 3 };
 
-enum { SHM_NAME_LENGTH = 64 };
+enum { SHM_NAME_LENGTH = 128 };
 
 typedef struct {
     size_t          shm_size;
-- 
2.43.0


From ed417e998b010c6aeca5f763673b823969cbfe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:30 +0000
Subject: [PATCH 106/136] fix: the requests of a killed process were not
 removed from the cpuinfo shared memory

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index f1326e3..b5928cf 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -327,6 +327,11 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    // Remove any previous global request
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From 31287581de1e52d7209693d417e16cc32182e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:30 +0000
Subject: [PATCH 107/136] fix: a killed process kept its CPUs and requests in
 the LeWI async shared memory

---
 src/LB_comm/shmem_lewi_async.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index c75ac96..4db6849 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -69,8 +69,24 @@ static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
 
 static void cleanup_shmem(void *shdata_ptr, int pid) {
     lewi_async_shdata_t *shared_data = shdata_ptr;
-    if (shared_data->attached_nprocs > 0) {
-        --shared_data->attached_nprocs;
+    for (unsigned int p = 0; p < shared_data->proc_list_head; ++p) {
+        lewi_process_t *process = &shared_data->processes[p];
+        if (process->pid == pid) {
+            // Remove requests
+            queue_lewi_reqs_remove(&shared_data->requests, pid);
+
+            // The borrowed CPUs become idle, and the lent ones are no longer available
+            if (process->current_ncpus > process->initial_ncpus) {
+                shared_data->idle_cpus += process->current_ncpus - process->initial_ncpus;
+            } else {
+                shared_data->idle_cpus -= min_uint(shared_data->idle_cpus,
+                        process->initial_ncpus - process->current_ncpus);
+            }
+
+            // Remove process data
+            *process = (const lewi_process_t) {};
+            --shared_data->attached_nprocs;
+        }
     }
 }
 
-- 
2.43.0


From 844e4448d384dad80c219811f8f7766ebc82b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:49 +0000
Subject: [PATCH 108/136] fix: the LeWI shared memory was not removed if a
 process was killed while initializing or finalizing

---
 src/LB_comm/comm_lend_light.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index 604dad6..fcaa306 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -45,10 +45,6 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     __sync_fetch_and_sub(&shared_data->attached_nprocs, 1);
 }
 
-static bool is_shmem_empty(void) {
-    return shdata && shdata->attached_nprocs == 0;
-}
-
 static void open_shmem(const char *shmem_key) {
     pthread_mutex_lock(&mutex);
     {
@@ -93,7 +89,7 @@ static void close_shmem(void) {
     pthread_mutex_lock(&mutex);
     {
         if (--subprocesses_attached == 0) {
-            shmem_finalize(shm_handler, is_shmem_empty);
+            shmem_finalize(shm_handler, NULL /* do not check if empty */);
             shm_handler = NULL;
             shdata = NULL;
         }
-- 
2.43.0


From 2a7533e96f5e2ceb50aba3a667baa0f8b60633bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:28 +0000
Subject: [PATCH 109/136] fix: crash in LeWI finalization if some thread that
 used it had already finished

---
 src/LB_policies/lewi_mask.c | 51 ++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index effc517..2bb47f8 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -28,6 +28,7 @@
 #include "support/mask_utils.h"
 #include "support/small_array.h"
 #include "support/types.h"
+#include "support/atomic.h"
 
 #include <sched.h>
 #include <stdlib.h>
@@ -149,54 +150,67 @@ static void lewi_mask_UpdateOwnershipInfo(const subprocess_descriptor_t *spd,
 /*    Thread-local pointers for temporary storage during LeWI calls              */
 /*********************************************************************************/
 
+/* The arrays are allocated in the heap because the thread may have finished, and
+ * its TLS may not exist, when LeWI finalizes. The pointers of the rest of the
+ * threads are invalidated by increasing this number. */
+static atomic_uint arrays_generation = 0;
+
 /* Array of eligible CPUs. Usually a subset of the CPUs priority array. */
-static __thread array_cpuid_t _cpu_subset = {};
+static __thread array_cpuid_t *_cpu_subset = NULL;
+static __thread unsigned int _cpu_subset_generation = 0;
 
 static inline array_cpuid_t* get_cpu_subset(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated array, return it */
-    if (likely(_cpu_subset.items != NULL)) {
-        array_cpuid_t_clear(&_cpu_subset);
-        return &_cpu_subset;
+    if (likely(_cpu_subset != NULL
+                && _cpu_subset_generation == DLB_ATOMIC_LD_RLX(&arrays_generation))) {
+        array_cpuid_t_clear(_cpu_subset);
+        return _cpu_subset;
     }
 
     /* Otherwise, allocate */
-    array_cpuid_t_init(&_cpu_subset, node_size);
+    _cpu_subset = malloc(sizeof(array_cpuid_t));
+    _cpu_subset_generation = DLB_ATOMIC_LD_RLX(&arrays_generation);
+    array_cpuid_t_init(_cpu_subset, node_size);
 
     /* Add pointer to lewi_info to deallocate later */
     lewi_info_t *lewi_info = spd->lewi_info;
     pthread_mutex_lock(&lewi_info->mutex);
     {
         lewi_info->cpuid_arrays =
-            g_slist_prepend(lewi_info->cpuid_arrays, &_cpu_subset);
+            g_slist_prepend(lewi_info->cpuid_arrays, _cpu_subset);
     }
     pthread_mutex_unlock(&lewi_info->mutex);
 
-    return &_cpu_subset;
+    return _cpu_subset;
 }
 
 /* Array of cpuinfo tasks. For enabling or disabling CPUs. */
-static __thread array_cpuinfo_task_t _tasks = {};
+static __thread array_cpuinfo_task_t *_tasks = NULL;
+static __thread unsigned int _tasks_generation = 0;
 
 static inline array_cpuinfo_task_t* get_tasks(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated array, return it */
-    if (likely(_tasks.items != NULL)) {
-        array_cpuinfo_task_t_clear(&_tasks);
-        return &_tasks;
+    if (likely(_tasks != NULL
+                && _tasks_generation == DLB_ATOMIC_LD_RLX(&arrays_generation))) {
+        array_cpuinfo_task_t_clear(_tasks);
+        return _tasks;
     }
 
     /* Otherwise, allocate */
-    array_cpuinfo_task_t_init(&_tasks, node_size*2);
+    _tasks = malloc(sizeof(array_cpuinfo_task_t));
+    _tasks_generation = DLB_ATOMIC_LD_RLX(&arrays_generation);
+    array_cpuinfo_task_t_init(_tasks, node_size*2);
 
     /* Add pointer to lewi_info to deallocate later */
     lewi_info_t *lewi_info = spd->lewi_info;
     pthread_mutex_lock(&lewi_info->mutex);
     {
         lewi_info->cpuinfo_task_arrays =
-            g_slist_prepend(lewi_info->cpuinfo_task_arrays, &_tasks);
+            g_slist_prepend(lewi_info->cpuinfo_task_arrays, _tasks);
     }
     pthread_mutex_unlock(&lewi_info->mutex);
 
-    return &_tasks;
+    return _tasks;
 }
 
 
@@ -320,7 +334,8 @@ int lewi_mask_Finalize(subprocess_descriptor_t *spd) {
         resolve_cpuinfo_tasks(spd, tasks);
     }
 
-    /* Deallocate thread private arrays */
+    /* Deallocate thread private arrays and invalidate the pointers of all threads */
+    DLB_ATOMIC_ADD_RLX(&arrays_generation, 1);
     lewi_info_t *lewi_info = spd->lewi_info;
     pthread_mutex_lock(&lewi_info->mutex);
     {
@@ -329,14 +344,16 @@ int lewi_mask_Finalize(subprocess_descriptor_t *spd) {
                 node = node->next) {
             array_cpuid_t *array = node->data;
             array_cpuid_t_destroy(array);
+            free(array);
         }
         g_slist_free(lewi_info->cpuid_arrays);
 
         for (GSList *node = lewi_info->cpuinfo_task_arrays;
                 node != NULL;
                 node = node->next) {
-            array_cpuid_t *array = node->data;
-            array_cpuid_t_destroy(array);
+            array_cpuinfo_task_t *array = node->data;
+            array_cpuinfo_task_t_destroy(array);
+            free(array);
         }
         g_slist_free(lewi_info->cpuinfo_task_arrays);
     }
-- 
2.43.0


From 166c2c6af298dee7dd367baa81a5e2d46f225f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:22 +0000
Subject: [PATCH 110/136] fix: data races in LeWI mask when several threads
 lend, borrow and poll DROM

---
 src/LB_policies/lewi_mask.c | 148 +++++++++++++++++++++++-------------
 1 file changed, 95 insertions(+), 53 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 2bb47f8..7d0e1df 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -87,7 +87,37 @@ static inline void cpu_array_from_cpuset(array_cpuid_t *result,
 }
 
 
-/* Construct a priority list of CPUs considering the topology and the affinity mask */
+/* Remove the CPUs in mask from the set of pending reclaimed CPUs (mask may be NULL,
+ * meaning all the CPUs). Return the removed ones. */
+static cpu_set_t remove_pending_reclaimed_cpus(lewi_info_t *lewi_info,
+        const cpu_set_t *mask) {
+    cpu_set_t removed;
+    pthread_mutex_lock(&lewi_info->mutex);
+    {
+        removed = lewi_info->pending_reclaimed_cpus;
+        if (mask != NULL) {
+            mu_and(&removed, &removed, mask);
+        }
+        mu_substract(&lewi_info->pending_reclaimed_cpus,
+                &lewi_info->pending_reclaimed_cpus, &removed);
+    }
+    pthread_mutex_unlock(&lewi_info->mutex);
+    return removed;
+}
+
+/* The process mask may be updated by other thread */
+static cpu_set_t get_process_mask(lewi_info_t *lewi_info) {
+    cpu_set_t process_mask;
+    pthread_mutex_lock(&lewi_info->mutex);
+    {
+        process_mask = lewi_info->process_mask;
+    }
+    pthread_mutex_unlock(&lewi_info->mutex);
+    return process_mask;
+}
+
+/* Construct a priority list of CPUs considering the topology and the affinity mask.
+ * (lewi_info mutex must be acquired) */
 static void lewi_mask_UpdateOwnershipInfo(const subprocess_descriptor_t *spd,
         const cpu_set_t *process_mask) {
 
@@ -316,7 +346,11 @@ int lewi_mask_Init(subprocess_descriptor_t *spd) {
         .mutex = PTHREAD_MUTEX_INITIALIZER,
     };
     array_cpuid_t_init(&lewi_info->cpus_priority_array, node_size);
-    lewi_mask_UpdateOwnershipInfo(spd, &spd->process_mask);
+    pthread_mutex_lock(&lewi_info->mutex);
+    {
+        lewi_mask_UpdateOwnershipInfo(spd, &spd->process_mask);
+    }
+    pthread_mutex_unlock(&lewi_info->mutex);
 
     /* Enable request queues only in async mode */
     if (spd->options.mode == MODE_ASYNC) {
@@ -474,8 +508,9 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
         verbose(VB_MICROLB, "Out of blocking call, acquiring %s", mu_to_str(&cpu_set));
 
         /* If there are owned CPUs to reclaim: */
+        const cpu_set_t process_mask = get_process_mask(lewi_info);
         cpu_set_t owned_cpus;
-        mu_and(&owned_cpus, &cpu_set, &lewi_info->process_mask);
+        mu_and(&owned_cpus, &cpu_set, &process_mask);
         if (mu_count(&owned_cpus) > 0) {
 
             /* Construct a CPU array from owned_cpus */
@@ -513,7 +548,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
         /* If there are ONLY non-owned CPUs to reclaim:
          * (if some owned CPU was already reclaimed, we forget about non-owned) */
         cpu_set_t non_owned_cpus;
-        mu_substract(&non_owned_cpus, &cpu_set, &lewi_info->process_mask);
+        mu_substract(&non_owned_cpus, &cpu_set, &process_mask);
         if (mu_count(&non_owned_cpus) > 0
                 && mu_count(&owned_cpus) == 0) {
 
@@ -527,8 +562,12 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
 
             if (error != DLB_SUCCESS) {
                 /* Annotate the CPU as pending to bypass the shared memory for the next query */
-                mu_or(&lewi_info->pending_reclaimed_cpus, &lewi_info->pending_reclaimed_cpus,
-                        &non_owned_cpus);
+                pthread_mutex_lock(&lewi_info->mutex);
+                {
+                    mu_or(&lewi_info->pending_reclaimed_cpus,
+                            &lewi_info->pending_reclaimed_cpus, &non_owned_cpus);
+                }
+                pthread_mutex_unlock(&lewi_info->mutex);
 
                 /* We lost the CPU while in MPI.
                     * In async mode, we can just disable the CPU.
@@ -564,8 +603,10 @@ int lewi_mask_LendCpu(const subprocess_descriptor_t *spd, int cpuid) {
         }
 
         /* Clear possible pending reclaimed CPUs */
-        lewi_info_t *lewi_info = spd->lewi_info;
-        CPU_CLR(cpuid, &lewi_info->pending_reclaimed_cpus);
+        cpu_set_t mask;
+        CPU_ZERO(&mask);
+        CPU_SET(cpuid, &mask);
+        remove_pending_reclaimed_cpus(spd->lewi_info, &mask);
     }
     return error;
 }
@@ -579,9 +620,7 @@ int lewi_mask_LendCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m
         }
 
         /* Clear possible pending reclaimed CPUs */
-        lewi_info_t *lewi_info = spd->lewi_info;
-        mu_substract(&lewi_info->pending_reclaimed_cpus,
-                &lewi_info->pending_reclaimed_cpus, mask);
+        remove_pending_reclaimed_cpus(spd->lewi_info, mask);
     }
     return error;
 }
@@ -594,8 +633,8 @@ int lewi_mask_LendCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m
 int lewi_mask_Reclaim(const subprocess_descriptor_t *spd) {
     /* Even though shmem_cpuinfo__reclaim_all exists,
      * iterating the mask should be more efficient */
-    const lewi_info_t *lewi_info = spd->lewi_info;
-    return lewi_mask_ReclaimCpuMask(spd, &lewi_info->process_mask);
+    const cpu_set_t process_mask = get_process_mask(spd->lewi_info);
+    return lewi_mask_ReclaimCpuMask(spd, &process_mask);
 }
 
 int lewi_mask_ReclaimCpu(const subprocess_descriptor_t *spd, int cpuid) {
@@ -660,13 +699,18 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
-    cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
+    bool all_cpus;
+    pthread_mutex_lock(&lewi_info->mutex);
+    {
+        cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
-    /* The timestamp of the last unsuccessful borrow is only meaningful if all
-     * the CPUs in the priority array are considered, and if a borrow would not
-     * consider any other (acquiring does not look for free NUMA nodes) */
-    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count
-        && spd->options.lewi_affinity != LEWI_AFFINITY_SPREAD_IFEMPTY;
+        /* The timestamp of the last unsuccessful borrow is only meaningful if all
+         * the CPUs in the priority array are considered, and if a borrow would not
+         * consider any other (acquiring does not look for free NUMA nodes) */
+        all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count
+            && spd->options.lewi_affinity != LEWI_AFFINITY_SPREAD_IFEMPTY;
+    }
+    pthread_mutex_unlock(&lewi_info->mutex);
     int64_t *last_borrow = async || !all_cpus ? NULL : &lewi_info->last_borrow;
 
     /* Provide a number of requested CPUs only if needed */
@@ -717,11 +761,16 @@ int lewi_mask_BorrowCpusInMask(const subprocess_descriptor_t *spd, int ncpus, co
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
-    cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
+    bool all_cpus;
+    pthread_mutex_lock(&lewi_info->mutex);
+    {
+        cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
-    /* The timestamp of the last unsuccessful borrow is only meaningful if all
-     * the CPUs in the priority array are considered */
-    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count;
+        /* The timestamp of the last unsuccessful borrow is only meaningful if all
+         * the CPUs in the priority array are considered */
+        all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count;
+    }
+    pthread_mutex_unlock(&lewi_info->mutex);
     int64_t *last_borrow = async || !all_cpus ? NULL : &lewi_info->last_borrow;
 
     /* Provide a number of requested CPUs only if needed */
@@ -755,14 +804,10 @@ int lewi_mask_Return(const subprocess_descriptor_t *spd) {
     resolve_cpuinfo_tasks(spd, tasks);
 
     /* Check possible pending reclaimed CPUs */
-    lewi_info_t *lewi_info = spd->lewi_info;
-    int cpuid = mu_get_first_cpu(&lewi_info->pending_reclaimed_cpus);
-    if (cpuid >= 0) {
-        do {
-            disable_cpu(&spd->pm, cpuid);
-            cpuid = mu_get_next_cpu(&lewi_info->pending_reclaimed_cpus, cpuid);
-        } while (cpuid >= 0);
-        CPU_ZERO(&lewi_info->pending_reclaimed_cpus);
+    cpu_set_t pending_cpus = remove_pending_reclaimed_cpus(spd->lewi_info, NULL);
+    for (int cpuid = mu_get_first_cpu(&pending_cpus); cpuid >= 0;
+            cpuid = mu_get_next_cpu(&pending_cpus, cpuid)) {
+        disable_cpu(&spd->pm, cpuid);
         error = DLB_SUCCESS;
     }
 
@@ -781,9 +826,11 @@ int lewi_mask_ReturnCpu(const subprocess_descriptor_t *spd, int cpuid) {
         resolve_cpuinfo_tasks(spd, tasks);
     } else if (error == DLB_ERR_PERM) {
         /* Check possible pending reclaimed CPUs */
-        lewi_info_t *lewi_info = spd->lewi_info;
-        if (CPU_ISSET(cpuid, &lewi_info->pending_reclaimed_cpus)) {
-            CPU_CLR(cpuid, &lewi_info->pending_reclaimed_cpus);
+        cpu_set_t mask;
+        CPU_ZERO(&mask);
+        CPU_SET(cpuid, &mask);
+        cpu_set_t pending_cpus = remove_pending_reclaimed_cpus(spd->lewi_info, &mask);
+        if (CPU_ISSET(cpuid, &pending_cpus)) {
             disable_cpu(&spd->pm, cpuid);
             error = DLB_SUCCESS;
         }
@@ -802,16 +849,10 @@ int lewi_mask_ReturnCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
     resolve_cpuinfo_tasks(spd, tasks);
 
     /* Check possible pending reclaimed CPUs */
-    lewi_info_t *lewi_info = spd->lewi_info;
-    if (CPU_COUNT(&lewi_info->pending_reclaimed_cpus) > 0) {
-        cpu_set_t cpus_to_return;
-        CPU_AND(&cpus_to_return, &lewi_info->pending_reclaimed_cpus, mask);
-        for (int cpuid = mu_get_first_cpu(&cpus_to_return); cpuid >= 0;
-                cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
-            disable_cpu(&spd->pm, cpuid);
-        }
-        mu_substract(&lewi_info->pending_reclaimed_cpus,
-                &lewi_info->pending_reclaimed_cpus, &cpus_to_return);
+    cpu_set_t cpus_to_return = remove_pending_reclaimed_cpus(spd->lewi_info, mask);
+    for (int cpuid = mu_get_first_cpu(&cpus_to_return); cpuid >= 0;
+            cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
+        disable_cpu(&spd->pm, cpuid);
         error = DLB_SUCCESS;
     }
 
@@ -828,7 +869,12 @@ int lewi_mask_CheckCpuAvailability(const subprocess_descriptor_t *spd, int cpuid
 int lewi_mask_UpdateOwnership(const subprocess_descriptor_t *spd,
         const cpu_set_t *process_mask) {
     /* Update priority array */
-    lewi_mask_UpdateOwnershipInfo(spd, process_mask);
+    lewi_info_t *lewi_info = spd->lewi_info;
+    pthread_mutex_lock(&lewi_info->mutex);
+    {
+        lewi_mask_UpdateOwnershipInfo(spd, process_mask);
+    }
+    pthread_mutex_unlock(&lewi_info->mutex);
 
     /* Update cpuinfo data and return reclaimed CPUs */
     array_cpuinfo_task_t *tasks = get_tasks(spd);
@@ -836,14 +882,10 @@ int lewi_mask_UpdateOwnership(const subprocess_descriptor_t *spd,
     resolve_cpuinfo_tasks(spd, tasks);
 
     /* Check possible pending reclaimed CPUs */
-    lewi_info_t *lewi_info = spd->lewi_info;
-    int cpuid = mu_get_first_cpu(&lewi_info->pending_reclaimed_cpus);
-    if (cpuid >= 0) {
-        do {
-            disable_cpu(&spd->pm, cpuid);
-            cpuid = mu_get_next_cpu(&lewi_info->pending_reclaimed_cpus, cpuid);
-        } while (cpuid >= 0);
-        CPU_ZERO(&lewi_info->pending_reclaimed_cpus);
+    cpu_set_t pending_cpus = remove_pending_reclaimed_cpus(lewi_info, NULL);
+    for (int cpuid = mu_get_first_cpu(&pending_cpus); cpuid >= 0;
+            cpuid = mu_get_next_cpu(&pending_cpus, cpuid)) {
+        disable_cpu(&spd->pm, cpuid);
     }
 
     return DLB_SUCCESS;
-- 
2.43.0


From 0d446d583f8937876ef13c072413c0b57e019735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:17 +0000
Subject: [PATCH 111/136] fix: asynchronous requests could be delivered to a
 process other than the one they were sent to, while it finalizes

---
 src/LB_comm/shmem_async.c | 66 +++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index d8c64b7..6078ed8 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -102,14 +102,16 @@ static helper_t* get_helper(pid_t pid) {
     return NULL;
 }
 
-static void enqueue_message(helper_t *helper, const message_t *message) {
+/* Return false if the message could not be enqueued because the queue is full */
+static bool enqueue_message(helper_t *helper, const message_t *message) {
+    pthread_mutex_lock(&helper->q_lock);
+
     /* Discard message if helper does not accept new inputs */
     if (helper->joinable) {
-        return;
+        pthread_mutex_unlock(&helper->q_lock);
+        return true;
     }
 
-    pthread_mutex_lock(&helper->q_lock);
-
     /* If ACTION_JOIN, flag helper to reject further messages */
     if (message->action == ACTION_JOIN) {
         helper->joinable = true;
@@ -119,7 +121,7 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     unsigned int next_head = (helper->q_head + 1) % QUEUE_SIZE;
     if (__builtin_expect((next_head == helper->q_tail), 0)) {
         pthread_mutex_unlock(&helper->q_lock);
-        fatal("Max petitions requested for asynchronous thread");
+        return false;
     }
 
     /* Enqueue message and update head */
@@ -131,6 +133,22 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     pthread_cond_signal(&helper->q_wait_data);
 
     pthread_mutex_unlock(&helper->q_lock);
+    return true;
+}
+
+/* Look up the helper and enqueue the message with the shared memory locked, otherwise the
+ * helper could be cleared, or assigned to other process, before the message is enqueued */
+static void send_message(pid_t pid, const message_t *message) {
+    bool enqueued = true;
+    shmem_lock(shm_handler);
+    {
+        helper_t *helper = get_helper(pid);
+        if (helper) {
+            enqueued = enqueue_message(helper, message);
+        }
+    }
+    shmem_unlock(shm_handler);
+    fatal_cond(!enqueued, "Max petitions requested for asynchronous thread");
 }
 
 static void dequeue_message(helper_t *helper, message_t *message) {
@@ -311,7 +329,8 @@ void shmem_async_join(pid_t pid) {
     if (helper && !helper->joinable) {
         /* Enqueue JOIN message  */
         message_t message = { .action = ACTION_JOIN };
-        enqueue_message(helper, &message);
+        fatal_cond(!enqueue_message(helper, &message),
+                "Max petitions requested for asynchronous thread");
 
         /* Wait helper thread to finish */
         pthread_join(helper->pth, NULL);
@@ -352,49 +371,34 @@ int shmem_async_finalize(pid_t pid) {
 
 void shmem_async_enable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_enable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_set_num_cpus(pid_t pid, int ncpus) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, set num CPUs %d", pid, ncpus);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
+    send_message(pid, &message);
 }
 
 int shmem_async__version(void) {
-- 
2.43.0


From 6facf00e6c4c0f9c42bb810d4ffb5b7b9b78733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:23 +0000
Subject: [PATCH 112/136] fix: DLB could be initialized twice if two threads
 called DLB_Init at the same time

---
 src/LB_core/DLB_kernel.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 3ca6dbe..4f3a7a1 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -46,6 +46,7 @@
 
 #include <limits.h>
 #include <sched.h>
+#include <stddef.h>
 #include <string.h>
 
 
@@ -69,11 +70,11 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
     thread_is_observer = false;
 
     // Initialize common modules (spd->id and instrumentation module ASAP)
-    *spd = (const subprocess_descriptor_t) {
-        .id = id,
-        .dlb_initialized = spd->dlb_initialized,
-        .dlb_preinitialized = spd->dlb_preinitialized,
-    };
+    // The flags dlb_initialized and dlb_preinitialized must be kept, other threads may be
+    // checking them at any moment
+    const size_t offset = offsetof(subprocess_descriptor_t, lewi_enabled);
+    spd->id = id;
+    memset((char*)spd + offset, 0, sizeof(*spd) - offset);
     options_init(&spd->options, lb_args);
     debug_init(&spd->options);
     init_tracing(&spd->options);
-- 
2.43.0


From 6a7bb7dcaf04c71392e2eb7fdc7f89d1760a473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:29 +0000
Subject: [PATCH 113/136] fix: CheckCpuAvailability could assign a CPU that had
 just been disabled

---
 src/LB_comm/shmem_cpuinfo.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index b5928cf..2d00a5d 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2171,7 +2171,9 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
         /* Assign new guest if the CPU is empty */
         shmem_lock(shm_handler);
         {
-            if (cpuinfo->guest == NOBODY) {
+            /* The CPU may have been reclaimed or disabled before acquiring the lock */
+            if (cpuinfo->guest == NOBODY
+                    && (cpuinfo->owner == pid || cpuinfo->state == CPU_LENT)) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
                 update_occupied_cores(cpuinfo->owner, cpuid);
-- 
2.43.0


From 5459836948f19ee3de33192ebf386ce3790bf624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:26 +0000
Subject: [PATCH 114/136] fix: a CPU acquired with DROM while it was used by
 other process could not be returned with DLB_Return

---
 src/LB_comm/shmem_cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 2d00a5d..c76b8ae 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2005,8 +2005,8 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                 if (cpuinfo->guest == NOBODY) {
                     cpuinfo->guest = pid;
                     CPU_CLR(cpuid, &shdata->free_cpus);
-                    CPU_CLR(cpuid, &shdata->occupied_cores);
                 }
+                update_occupied_cores(pid, cpuid);
                 if (tasks) {
                     if (cpuinfo->guest != pid) {
                         array_cpuinfo_task_t_push(
-- 
2.43.0


From 5ead1c9f675b8645e4a81e9a9e2d04dd05a10425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:51 +0000
Subject: [PATCH 115/136] fix: processes had a wrong MPI node id if nodes had
 different numbers of processes

---
 src/LB_MPI/process_MPI.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LB_MPI/process_MPI.c b/src/LB_MPI/process_MPI.c
index 461c59a..8a9010b 100644
--- a/src/LB_MPI/process_MPI.c
+++ b/src/LB_MPI/process_MPI.c
@@ -97,6 +97,13 @@ static void get_mpi_info(void) {
     PMPI_Comm_split(mpi_comm_world, _process_id, 0 /* key */, &mpi_comm_internode);
     PMPI_Comm_rank(mpi_comm_internode, &_node_id);
     PMPI_Comm_size(mpi_comm_internode, &_num_nodes);
+
+    /* The number of processes may differ among nodes, only the communicator among
+     * the first process of each node provides the actual node id and total number */
+    int node_info[2] = {_node_id, _num_nodes};
+    PMPI_Bcast(node_info, 2, MPI_INT, 0, mpi_comm_node);
+    _node_id = node_info[0];
+    _num_nodes = node_info[1];
 #else
     char hostname[HOST_NAME_MAX] = {'\0'};
     char (*recvData)[HOST_NAME_MAX] = malloc(_mpi_size * sizeof(char[HOST_NAME_MAX]));
-- 
2.43.0


From 72b405431d942072b7773cc97f77d051261bd2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:51 +0000
Subject: [PATCH 116/136] fix: collecting POP metrics counted as an MPI call of
 the application

---
 src/LB_core/DLB_talp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 7162c7c..be63169 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1546,7 +1546,7 @@ static void talp_reduce_pop_metrics_app_reduction(app_reduction_t *app_reduction
 
     /* Define MPI operation */
     MPI_Op app_reduction_op;
-    MPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
+    PMPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
 
     /* MPI reduction */
     if (!all_to_all) {
-- 
2.43.0


From 956c9affba5ff6c5ce2ffa58bed9fa0b3740d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:51 +0000
Subject: [PATCH 117/136] fix: the maximum useful time per node was truncated
 to an integer in the MPI reduction

---
 src/LB_core/DLB_talp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index be63169..f93befb 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1461,8 +1461,9 @@ static void talp_mpi_reduction_fn(void *invec, void *inoutvec, int *len,
         inout[i].omp_load_imbalance_time += in[i].omp_load_imbalance_time;
         inout[i].omp_scheduling_time     += in[i].omp_scheduling_time;
         inout[i].omp_serialization_time  += in[i].omp_serialization_time;
-        inout[i].max_useful_normd_node  =
-            max_int64(inout[i].max_useful_normd_node, in[i].max_useful_normd_node);
+        if (in[i].max_useful_normd_node > inout[i].max_useful_normd_node) {
+            inout[i].max_useful_normd_node = in[i].max_useful_normd_node;
+        }
         if (in[i].max_useful_normd_proc > inout[i].max_useful_normd_proc) {
             inout[i].max_useful_normd_proc = in[i].max_useful_normd_proc;
             inout[i].mpi_normd_of_max_useful = in[i].mpi_normd_of_max_useful;
-- 
2.43.0


From 2295b000149965c9bf654fff5b15b3cf6457bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:51 +0000
Subject: [PATCH 118/136] fix: the TALP node summary was wrong if nodes had
 different numbers of processes

---
 src/LB_core/DLB_talp.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index f93befb..ad4f646 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1090,6 +1090,7 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
 
     node_record_t *node_summary = NULL;
     size_t node_summary_size = 0;
+    int max_nelems = 0;
 
     /* Perform a barrier so that all processes in the node have arrived at the
      * MPI_Finalize */
@@ -1103,9 +1104,14 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
         int nelems;
         shmem_talp__get_regionlist(region_list, &nelems, max_procs, global_region_name);
 
+        /* All nodes must send the same amount of data, even if the number of processes
+         * is not the same */
+        PMPI_Allreduce(&nelems, &max_nelems, 1, MPI_INT, MPI_MAX, getInterNodeComm());
+
         /* Allocate and initialize node summary structure */
-        node_summary_size = sizeof(node_record_t) + sizeof(process_in_node_record_t) * nelems;
-        node_summary = malloc(node_summary_size);
+        node_summary_size = sizeof(node_record_t)
+            + sizeof(process_in_node_record_t) * max_nelems;
+        node_summary = calloc(1, node_summary_size);
         *node_summary = (const node_record_t) {
             .node_id = _node_id,
             .nelems = nelems,
@@ -1167,7 +1173,7 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
         MPI_Datatype mpi_node_record_type;;
         {
             int count = 7;
-            int blocklengths[] = {1, 1, 1, 1, 1, 1, node_summary->nelems};
+            int blocklengths[] = {1, 1, 1, 1, 1, 1, max_nelems};
             MPI_Aint displacements[] = {
                 offsetof(node_record_t, node_id),
                 offsetof(node_record_t, nelems),
-- 
2.43.0


From d72d4c18577835b9394dd7701e816455f6d7830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:59 +0000
Subject: [PATCH 119/136] fix: Fortran 2008 MPI_Alltoallw and similar passed to
 MPI a copy of only the first datatype

---
 scripts/pygen.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/scripts/pygen.py b/scripts/pygen.py
index 1e3639d..1863ac9 100755
--- a/scripts/pygen.py
+++ b/scripts/pygen.py
@@ -131,6 +131,12 @@ def variable_is_assumed_size_array(variable, f08par):
     return False
 
 
+""" Return true if the provided declaration contains an assumed size array of a derived type
+"""
+def line_has_derived_assumed_size_array(line):
+    return 'type(mpi_' in line.lower() and '(*)' in line.split('::')[-1]
+
+
 """ Return true is the provided variable is a Fortran procedure type
 """
 def variable_is_procedure_type(variable, f08par):
@@ -257,6 +263,7 @@ def enrich_f08_par_decl(f08par):
     and adds an integer at the end of the parameter declaration. The variables names are
     obtained from 'f_args'.
     PROCEDURE types are changed to TYPE(c_funptr), VALUE.
+    Assumed size arrays of a derived type keep their type, its only component is the integer.
 """
 def enrich_f_c_par_decl(f08par, f_args):
     decl_block = ''
@@ -275,6 +282,14 @@ def enrich_f_c_par_decl(f08par, f_args):
     if 'procedure' in f08par.lower():
         decl_block += 'use, intrinsic :: ISO_C_BINDING, only : C_FUNPTR' + newline
 
+    # Add dependency of the derived types used in assumed size arrays
+    assumed_size_types = set()
+    for line in f08par.split(';'):
+        if line_has_derived_assumed_size_array(line):
+            assumed_size_types.update(re.findall(r'type\((mpi_\w+)\)', line, re.IGNORECASE))
+    for mpi_type in sorted(assumed_size_types):
+        decl_block += 'IMPORT :: {0}'.format(mpi_type) + newline
+
     decl_block += 'IMPLICIT NONE'
 
     # Python <2.7 re.sub does not accept a flags parameter, use a re object:
@@ -299,7 +314,8 @@ def enrich_f_c_par_decl(f08par, f_args):
             decl_block += decl
         else:
             decl = line.strip()
-            decl = match_derived_type.sub('INTEGER', decl)
+            if not line_has_derived_assumed_size_array(line):
+                decl = match_derived_type.sub('INTEGER', decl)
             decl = match_optional.sub('', decl)
             decl_block += decl
 
@@ -340,8 +356,8 @@ def enrich_f08_precall_stmts(f08par):
         str, comm%MPI_VAL, c_ierror, len(str)
 
     If a parameter is an assumed size array of a derived type, the argument will
-    be transformed to `var_name(1:1)%MPI_VAL. Some older Fortran compilers complain
-    otherwise.
+    be the array itself. The compiler may pass a temporary copy of an array section,
+    and the number of elements is not known.
     Parameters of PROCEDURE type will use the local variable cfunptr_{par_name}
 """
 def enrich_f08_to_c_arg_list(fpar, f08par, name):
@@ -356,7 +372,7 @@ def enrich_f08_to_c_arg_list(fpar, f08par, name):
             var_name = match_var_name.search(arg).group(1)
             if variable_is_derived_type(var_name, f08par):
                 if variable_is_assumed_size_array(var_name, f08par):
-                    args.append('{0}(1:1)%MPI_VAL'.format(var_name))
+                    args.append(var_name)
                 else:
                     args.append('{0}%MPI_VAL'.format(var_name))
             elif variable_is_procedure_type(var_name, f08par):
-- 
2.43.0


From 29b572585c1c033f2733bae37ba3a2fbdff97dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:45 +0000
Subject: [PATCH 120/136] fix: dlb_taskset --borrow returns the stolen CPUs
 when the application ends

The boolean was used as a flag (DLB_STEAL_CPUS) and the CPUs of an application that
does not use DLB were never returned to their owners.
---
 src/utils/dlb_taskset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index 12c0d40..a735441 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -203,7 +203,7 @@ static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
     } else {
         wait(NULL);
         DLB_DROM_Attach();
-        int error = DLB_DROM_PostFinalize(pid, borrow);
+        int error = DLB_DROM_PostFinalize(pid, borrow ? DLB_RETURN_STOLEN : 0);
         if (error != DLB_SUCCESS && error != DLB_ERR_NOPROC) {
             // DLB_ERR_NOPROC must be ignored here
             dlb_check(error, pid, __FUNCTION__);
-- 
2.43.0


From bf3ea8728ed2371e280bd1794b3f02b109cbb376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:45 +0000
Subject: [PATCH 121/136] fix: dlb_taskset ends with the exit status of the
 application

It ended with success even if the application could not be executed or registered.
---
 src/utils/dlb_taskset.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index a735441..adf03ce 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -116,6 +116,7 @@
 #include <string.h>
 #include <getopt.h>
 #include <ctype.h>
+#include <errno.h>
 #include <regex.h>
 #include <stdbool.h>
 
@@ -184,7 +185,8 @@ static void set_affinity(pid_t pid, const cpu_set_t *new_mask, bool borrow, bool
     fprintf(stdout, "PID %d's affinity set to: %s\n", pid, mu_to_str(new_mask));
 }
 
-static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
+static void __attribute__((__noreturn__)) execute(char **argv, const cpu_set_t *new_mask,
+        bool borrow) {
     sched_setaffinity(0, sizeof(cpu_set_t), new_mask);
     pid_t pid = fork();
     if (pid < 0) {
@@ -201,7 +203,8 @@ static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
         fprintf(stderr, "Failed to execute %s\n", argv[0]);
         exit(EXIT_FAILURE);
     } else {
-        wait(NULL);
+        int status;
+        while (waitpid(pid, &status, 0) < 0 && errno == EINTR);
         DLB_DROM_Attach();
         int error = DLB_DROM_PostFinalize(pid, borrow ? DLB_RETURN_STOLEN : 0);
         if (error != DLB_SUCCESS && error != DLB_ERR_NOPROC) {
@@ -209,6 +212,7 @@ static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
             dlb_check(error, pid, __FUNCTION__);
         }
         DLB_DROM_Detach();
+        exit(WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status));
     }
 }
 
-- 
2.43.0


From d7af2ec27e4a387107ec001766c2aa6a31e3f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:45 +0000
Subject: [PATCH 122/136] fix: dlb_taskset rejects invalid pids

Any text that is not a number was taken as 0, which means all the processes.
---
 src/utils/dlb_taskset.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index adf03ce..d913848 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -174,6 +174,17 @@ static void __attribute__((__noreturn__)) usage(const char *program, FILE *out)
     exit(out == stderr ? EXIT_FAILURE : EXIT_SUCCESS);
 }
 
+static pid_t parse_pid(const char *arg) {
+    char *end;
+    errno = 0;
+    long value = strtol(arg, &end, 10);
+    if (errno != 0 || end == arg || *end != '\0' || value <= 0 || value > INT_MAX) {
+        fprintf(stderr, "Invalid pid: %s\n", arg);
+        exit(EXIT_FAILURE);
+    }
+    return value;
+}
+
 static void set_affinity(pid_t pid, const cpu_set_t *new_mask, bool borrow, bool free_slurm) {
     DLB_DROM_Attach();
     dlb_drom_flags_t flags = borrow ? DLB_RETURN_STOLEN : 0;
@@ -371,7 +382,7 @@ int main(int argc, char *argv[]) {
                 process_pseudo_id = strtoul(optarg, NULL, 10);
                 break;
             case 'p':
-                pid = strtoul(optarg, NULL, 10);
+                pid = parse_pid(optarg);
                 break;
             case 'b':
                 borrow = true;
-- 
2.43.0


From 90c6cf15810ed4d7bb73efc3ddddca21a1a1805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:45 +0000
Subject: [PATCH 123/136] fix: dlb_taskset rejects CPU lists that cannot be
 parsed

They were taken as an empty list, and all the CPUs of the process were removed.
---
 src/utils/dlb_taskset.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index d913848..ee9b2e5 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -185,6 +185,14 @@ static pid_t parse_pid(const char *arg) {
     return value;
 }
 
+static void parse_cpu_list(const char *arg, cpu_set_t *cpu_list) {
+    mu_parse_mask(arg, cpu_list);
+    if (CPU_COUNT(cpu_list) == 0) {
+        fprintf(stderr, "Invalid CPU list: %s\n", arg);
+        exit(EXIT_FAILURE);
+    }
+}
+
 static void set_affinity(pid_t pid, const cpu_set_t *new_mask, bool borrow, bool free_slurm) {
     DLB_DROM_Attach();
     dlb_drom_flags_t flags = borrow ? DLB_RETURN_STOLEN : 0;
@@ -371,11 +379,11 @@ int main(int argc, char *argv[]) {
             case 'c':
             case 's':
                 do_set = true;
-                mu_parse_mask(optarg, &cpu_list);
+                parse_cpu_list(optarg, &cpu_list);
                 break;
             case 'r':
                 do_remove = true;
-                mu_parse_mask(optarg, &cpu_list);
+                parse_cpu_list(optarg, &cpu_list);
                 break;
             case 'g':
                 do_getpid = true;
-- 
2.43.0


From d6ba2b78773ebb6b63dc2fadeb2c2e15b897ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:45 +0000
Subject: [PATCH 124/136] fix: dlb_taskset --remove does not set the mask of
 processes that do not own the CPUs

---
 src/utils/dlb_taskset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index ee9b2e5..666d35f 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -247,7 +247,7 @@ static void remove_affinity_of_one(pid_t pid, const cpu_set_t *cpus_to_remove, b
     // Remove cpus from the PID's mask
     bool mask_dirty = false;
     for (i=0; i<sys_size; ++i) {
-        if (CPU_ISSET(i, cpus_to_remove)) {
+        if (CPU_ISSET(i, cpus_to_remove) && CPU_ISSET(i, &pid_mask)) {
             CPU_CLR(i, &pid_mask);
             mask_dirty = true;
         }
-- 
2.43.0


From 03b8204f1a6c3bbf3f9a5ae2b18edf69f0749209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 125/136] fix: dlb_run ends with the exit status of the
 application

It ended with success even if the application could not be executed.
---
 src/utils/dlb_run.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utils/dlb_run.c b/src/utils/dlb_run.c
index 700bbe3..d9c3648 100644
--- a/src/utils/dlb_run.c
+++ b/src/utils/dlb_run.c
@@ -106,10 +106,13 @@ static void __attribute__((__noreturn__)) usage(const char *program, FILE *out)
     exit(out == stderr ? EXIT_FAILURE : EXIT_SUCCESS);
 }
 
-/* Wait for child process to finalize, print status if needed, and finalize DLB */
-static void wait_child(void) {
+/* Wait for child process to finalize, print status if needed, and finalize DLB.
+ * Return the exit status of the child */
+static int wait_child(void) {
     int status;
-    wait(&status);
+    if (wait(&status) < 0) {
+        status = 0;
+    }
     if (WIFEXITED(status) && verbose){
         dlb_run_info(stdout, "Child ended normally, return code: %d\n", WEXITSTATUS(status));
     }
@@ -124,6 +127,8 @@ static void wait_child(void) {
         // DLB_ERR_NOPROC must be ignored here
         dlb_check(error, __FUNCTION__);
     }
+
+    return WIFSIGNALED(status) ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
 }
 
 /* This signal handler is called after X seconds while trying to correctly
@@ -192,9 +197,7 @@ static void __attribute__((__noreturn__)) execute(char **argv) {
         exit(EXIT_FAILURE);
     }
 
-    wait_child();
-
-    exit(EXIT_SUCCESS);
+    exit(wait_child());
 }
 
 
-- 
2.43.0


From e41d5269fe74a4f0aaa8e72758572a930f06fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 126/136] fix: the child that runs scontrol went on as a copy
 of the process if it could not be executed

---
 src/LB_core/DLB_kernel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 4f3a7a1..6c4216a 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -852,6 +852,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
         } else if (res_pid == 0) {
             verbose(VB_DROM, "%s %s %s %s", args[0], args[1], args[2], args[3]);
             execvp("scontrol", args);
+            _exit(EXIT_FAILURE);
         }
 
         for (int i = 0; i < 5; ++i) {
-- 
2.43.0


From a215f1655fc790f32201605b21dd9536a414c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:46 +0000
Subject: [PATCH 127/136] fix: dlb_taskset --borrow returns the stolen CPUs of
 applications that crash

---
 src/utils/dlb_taskset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index 666d35f..aaa3a96 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -222,9 +222,11 @@ static void __attribute__((__noreturn__)) execute(char **argv, const cpu_set_t *
         fprintf(stderr, "Failed to execute %s\n", argv[0]);
         exit(EXIT_FAILURE);
     } else {
+        /* Attach first, otherwise DLB would clean up an application that crashes
+         * as any other process, without returning its CPUs */
+        DLB_DROM_Attach();
         int status;
         while (waitpid(pid, &status, 0) < 0 && errno == EINTR);
-        DLB_DROM_Attach();
         int error = DLB_DROM_PostFinalize(pid, borrow ? DLB_RETURN_STOLEN : 0);
         if (error != DLB_SUCCESS && error != DLB_ERR_NOPROC) {
             // DLB_ERR_NOPROC must be ignored here
-- 
2.43.0


From ab5dfcd738ce44ff3d24a82199d6b4f8d8b5bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:44 +0000
Subject: [PATCH 128/136] fix: the evolution page of OpenMP runs could not be
 drawn

---
 .../talp_pages/plots/time_series_html_plot.py | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/talp-pages/talp_pages/plots/time_series_html_plot.py b/talp-pages/talp_pages/plots/time_series_html_plot.py
index 16d47c3..62f328a 100644
--- a/talp-pages/talp_pages/plots/time_series_html_plot.py
+++ b/talp-pages/talp_pages/plots/time_series_html_plot.py
@@ -301,45 +301,51 @@ class TimeSeriesHtmlPlot:
             or execution_mode == ExecutionMode.HYBRID
         ):
             #'ompSchedulingEfficiency','ompLoadBalance','ompSerializationEfficiency',
+            # These rows follow the MPI ones, if any
+            if execution_mode == ExecutionMode.HYBRID:
+                omp_row, omp_axis = 6, 9
+            else:
+                omp_row, omp_axis = 4, 6
+
             metric = "ompParallelEfficiency"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=1,
-                    row=6,
+                    row=omp_row,
                 )
-            fig["layout"]["yaxis9"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis9=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{omp_axis}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{omp_axis}"]["range"] = [0, 1]
 
             metric = "ompSchedulingEfficiency"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=1,
-                    row=7,
+                    row=omp_row + 1,
                 )
-            fig["layout"]["yaxis10"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis10=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{omp_axis + 1}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{omp_axis + 1}"]["range"] = [0, 1]
 
             metric = "ompLoadBalance"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=3,
-                    row=7,
+                    row=omp_row + 1,
                 )
-            fig["layout"]["yaxis11"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis11=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{omp_axis + 2}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{omp_axis + 2}"]["range"] = [0, 1]
 
             metric = "ompSerializationEfficiency"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=5,
-                    row=7,
+                    row=omp_row + 1,
                 )
-            fig["layout"]["yaxis12"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis12=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{omp_axis + 3}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{omp_axis + 3}"]["range"] = [0, 1]
 
         fig.update_traces(mode="markers+lines")
         return fig
-- 
2.43.0


From 35fc2f9689bf9aa92900fe6c3d39c969f722beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:04 +0000
Subject: [PATCH 129/136] fix: scaling metrics were lost if regions had
 different positions in the JSON files

---
 talp-pages/talp_pages/analysis/scaling_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/analysis/scaling_analysis.py b/talp-pages/talp_pages/analysis/scaling_analysis.py
index c5f6182..9578f0b 100644
--- a/talp-pages/talp_pages/analysis/scaling_analysis.py
+++ b/talp-pages/talp_pages/analysis/scaling_analysis.py
@@ -103,7 +103,9 @@ class ScalingAnalysis:
 
         clean_df.loc[:, "scalingMode"] = scaling_mode.value
 
-        reference_case = df_datapoints[0]
+        # A single row, otherwise the operations below would only match the runs
+        # where the region has the same position in the JSON
+        reference_case = df_datapoints[0].iloc[0]
 
         if scaling_mode == ScalingMode.STRONG:
             # Assume instructions stay constant
-- 
2.43.0


From 6e675091d7029c98761bcb2eeafd8e8c0bb17049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:04 +0000
Subject: [PATCH 130/136] fix: the newest run of the evolution page was not a
 single run

---
 talp-pages/talp_pages/io/dataframe_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/talp-pages/talp_pages/io/dataframe_handling.py b/talp-pages/talp_pages/io/dataframe_handling.py
index e0364fc..5b6a3cf 100644
--- a/talp-pages/talp_pages/io/dataframe_handling.py
+++ b/talp-pages/talp_pages/io/dataframe_handling.py
@@ -148,13 +148,13 @@ def get_dfs(
             dfs_inner.append(df)
 
         # Now combine the inner semantically clustered jsons and add to list
-        df_of_run_folder = pd.concat(dfs_inner)
+        df_of_run_folder = pd.concat(dfs_inner, ignore_index=True)
         dfs_outer.append(df_of_run_folder)
 
     if as_list:
         return dfs_outer
     else:
-        return pd.concat(dfs_outer)
+        return pd.concat(dfs_outer, ignore_index=True)
 
 
 def get_ressource_combinations(run_folder: RunFolder):
-- 
2.43.0


From ece907e52376979a4c0f09cb0e98b4c4f389abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:04 +0000
Subject: [PATCH 131/136] fix: the last update shown was the one with the
 greatest commit, not the newest

---
 talp-pages/talp_pages/analysis/scaling_analysis.py | 7 +------
 talp-pages/talp_pages/html/scaling_result_site.py  | 2 +-
 talp-pages/talp_pages/reports/ci_report.py         | 2 +-
 3 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/talp-pages/talp_pages/analysis/scaling_analysis.py b/talp-pages/talp_pages/analysis/scaling_analysis.py
index 9578f0b..557d40d 100644
--- a/talp-pages/talp_pages/analysis/scaling_analysis.py
+++ b/talp-pages/talp_pages/analysis/scaling_analysis.py
@@ -164,17 +164,12 @@ class ScalingAnalysis:
                 self.__compute_scaling_metrics(region)
             )
             execution_modes = [df["executionMode"].to_numpy() for df in list_of_dfs]
-            latest_date = None
             latest_change = None
             for df in list_of_dfs:
                 date = pd.to_datetime(df["timestamp"].to_numpy().squeeze())
                 git_commit = str(df["gitCommitShort"].to_numpy().squeeze())
 
-                try:
-                    if date > latest_date:
-                        latest_date = date
-                        latest_change = (date, git_commit)
-                except TypeError:
+                if latest_change is None or date > latest_change[0]:
                     latest_change = (date, git_commit)
 
             results.append(
diff --git a/talp-pages/talp_pages/html/scaling_result_site.py b/talp-pages/talp_pages/html/scaling_result_site.py
index 5b936c2..32832c5 100644
--- a/talp-pages/talp_pages/html/scaling_result_site.py
+++ b/talp-pages/talp_pages/html/scaling_result_site.py
@@ -14,7 +14,7 @@ class ScalingResultSite(HTMLChildPage):
         )
         self.results = results
         self.latest_change = max(
-            [result.latest_change for result in self.results], key=itemgetter(1)
+            [result.latest_change for result in self.results], key=itemgetter(0)
         )  # Get newest change
 
     def get_content(self):
diff --git a/talp-pages/talp_pages/reports/ci_report.py b/talp-pages/talp_pages/reports/ci_report.py
index dec18a5..db143ff 100644
--- a/talp-pages/talp_pages/reports/ci_report.py
+++ b/talp-pages/talp_pages/reports/ci_report.py
@@ -76,7 +76,7 @@ class CIReport:
                         site.latest_change
                         for site in [scaling_result_site, *time_series_sites]
                     ],
-                    key=itemgetter(1),
+                    key=itemgetter(0),
                 ),  # Get newest across subsites
             }
             # Write out the things
-- 
2.43.0


From 2820164d84848d2831533641c1ad67c978a673fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:04 +0000
Subject: [PATCH 132/136] fix: ci-report failed if a selected region was
 missing in one of the folders

---
 talp-pages/talp_pages/analysis/scaling_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/talp-pages/talp_pages/analysis/scaling_analysis.py b/talp-pages/talp_pages/analysis/scaling_analysis.py
index 557d40d..e50cfd2 100644
--- a/talp-pages/talp_pages/analysis/scaling_analysis.py
+++ b/talp-pages/talp_pages/analysis/scaling_analysis.py
@@ -160,6 +160,11 @@ class ScalingAnalysis:
         # Returns a result for every region
         results = []
         for region in regions:
+            if not (self.df["regionName"] == region).any():
+                logging.warning(
+                    f"Region {region} not available in {self.run_folder.relative_path}. Skipping that region..."
+                )
+                continue
             scaling_table, list_of_dfs, scaling_mode, ressource_combinations = (
                 self.__compute_scaling_metrics(region)
             )
@@ -184,4 +189,7 @@ class ScalingAnalysis:
                 )
             )
 
+        if not results:
+            raise ValueError("Region not available")
+
         return results
-- 
2.43.0


From 1c74c288056a9cd204932312fe4998eb2588d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:01 +0000
Subject: [PATCH 133/136] fix: talp metadata failed without a CI timestamp, and
 --git-timestamp was ignored

---
 talp-pages/talp_pages/cli/metadata.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/talp-pages/talp_pages/cli/metadata.py b/talp-pages/talp_pages/cli/metadata.py
index f02598b..9fb4441 100755
--- a/talp-pages/talp_pages/cli/metadata.py
+++ b/talp-pages/talp_pages/cli/metadata.py
@@ -78,13 +78,18 @@ class Metadata:
     is_merge_request: bool
 
     def dict(self) -> dict:
-        return {
+        metadata = {
             "gitCommit": self.git_commit,
             "gitBranch": self.git_branch,
-            "gitTimestamp": self.git_timestamp.replace(tzinfo=None).isoformat(),
             "defaultGitBranch": self.default_git_branch,
             "isMergeRequest": self.is_merge_request,
         }
+        # The timestamp of the commit is not always known
+        if self.git_timestamp:
+            metadata["gitTimestamp"] = self.git_timestamp.replace(
+                tzinfo=None
+            ).isoformat()
+        return metadata
 
 
 UNKNOWN_METADATA = Metadata(
@@ -114,6 +119,10 @@ def get_metadata(args: Union[argparse.Namespace, None]) -> Metadata:
             metadata.git_branch = args.git_branch
             set_from_cli = True
 
+        if args.git_timestamp:
+            metadata.git_timestamp = parse_date(args.git_timestamp)
+            set_from_cli = True
+
         if args.is_merge_request:
             metadata.is_merge_request = args.is_merge_request
             set_from_cli = True
@@ -131,9 +140,8 @@ def get_metadata(args: Union[argparse.Namespace, None]) -> Metadata:
         metadata.git_branch = os.environ.get(
             "CI_MERGE_REQUEST_SOURCE_BRANCH_NAME", UNKNOWN_METADATA.git_branch
         )
-        metadata.git_timestamp = parse_date(
-            os.environ.get("CI_COMMIT_TIMESTAMP", UNKNOWN_METADATA.git_timestamp)
-        )
+        if "CI_COMMIT_TIMESTAMP" in os.environ:
+            metadata.git_timestamp = parse_date(os.environ["CI_COMMIT_TIMESTAMP"])
         metadata.default_git_branch = os.environ.get(
             "CI_DEFAULT_BRANCH", UNKNOWN_METADATA.default_git_branch
         )
@@ -149,9 +157,8 @@ def get_metadata(args: Union[argparse.Namespace, None]) -> Metadata:
         metadata.git_branch = os.environ.get(
             "CI_COMMIT_BRANCH", UNKNOWN_METADATA.git_branch
         )
-        metadata.git_timestamp = parse_date(
-            os.environ.get("CI_COMMIT_TIMESTAMP", UNKNOWN_METADATA.git_timestamp)
-        )
+        if "CI_COMMIT_TIMESTAMP" in os.environ:
+            metadata.git_timestamp = parse_date(os.environ["CI_COMMIT_TIMESTAMP"])
         metadata.is_merge_request = False
         logging.info("Auto detected Metadata from GITLAB normal pipeline")
         return metadata
-- 
2.43.0


From de10e17390078994c846950b3fa8eefc0450264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:14 +0000
Subject: [PATCH 134/136] fix: ci-report failed if only some of the runs of a
 folder have metadata

---
 talp-pages/talp_pages/analysis/scaling_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/analysis/scaling_analysis.py b/talp-pages/talp_pages/analysis/scaling_analysis.py
index e50cfd2..3e3cf6a 100644
--- a/talp-pages/talp_pages/analysis/scaling_analysis.py
+++ b/talp-pages/talp_pages/analysis/scaling_analysis.py
@@ -151,8 +151,10 @@ class ScalingAnalysis:
                 clean_df[clean_df["ressourceLabel"] == combination]
                 .sort_values(by=["timestamp"], ascending=False)
                 .head(1)
-                .fillna(np.inf)
             )
+            # Only metrics, there may be other missing values (e.g.: gitTimestamp)
+            metrics = datapoint.select_dtypes(include="number").columns
+            datapoint = datapoint.fillna({metric: np.inf for metric in metrics})
             df_datapoints.append(datapoint)
         return (pd.DataFrame(), df_datapoints, scaling_mode, ressource_combinations)
 
-- 
2.43.0


From 9e9e766e576ec5272a1ee9dfe7431fbdfe442ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:14 +0000
Subject: [PATCH 135/136] fix: ci-report failed if the region for the badge was
 missing in a run

---
 talp-pages/talp_pages/svg/badge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/svg/badge.py b/talp-pages/talp_pages/svg/badge.py
index 39c5cdb..c3c7c36 100644
--- a/talp-pages/talp_pages/svg/badge.py
+++ b/talp-pages/talp_pages/svg/badge.py
@@ -9,7 +9,7 @@ class Badge:
         self.file_name = f"badge_{rc}.svg"
 
     def get_content(self):
-        if not self.result.parallel_eff:
+        if self.result.parallel_eff is None:
             raise ValueError("Empty result passed to Badge")
         parallel_efficiency = round(self.result.parallel_eff, 2)
         if self.result.parallel_eff < 0.6:
-- 
2.43.0


From 90c19d865fd4fd865ac725930b958f8acc6628f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:14 +0000
Subject: [PATCH 136/136] fix: names of regions and folders were not escaped in
 the HTML pages

---
 talp-pages/talp_pages/html/site.py                     | 4 +++-
 talp-pages/talp_pages/html/templates/scaling.jinja     | 2 +-
 talp-pages/talp_pages/html/templates/time_series.jinja | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/talp-pages/talp_pages/html/site.py b/talp-pages/talp_pages/html/site.py
index 6425abd..3583e9d 100644
--- a/talp-pages/talp_pages/html/site.py
+++ b/talp-pages/talp_pages/html/site.py
@@ -15,7 +15,9 @@ class HTMLSite:
                 "home": "../index.html",
             }
         }
-        self.jinja_env = Environment(loader=FileSystemLoader(TALP_PAGES_TEMPLATE_PATH))
+        self.jinja_env = Environment(
+            loader=FileSystemLoader(TALP_PAGES_TEMPLATE_PATH), autoescape=True
+        )
         self.template_name = template_name
         self.template = self.jinja_env.get_template(self.template_name)
         self.file_name = file_name
diff --git a/talp-pages/talp_pages/html/templates/scaling.jinja b/talp-pages/talp_pages/html/templates/scaling.jinja
index cba1e6b..40dfc13 100644
--- a/talp-pages/talp_pages/html/templates/scaling.jinja
+++ b/talp-pages/talp_pages/html/templates/scaling.jinja
@@ -23,7 +23,7 @@
   <div class="row py-2">
     <h3 class="mx-4" id="{{region.name}}">Region: <span class="font-monospace">{{region.name}}</span></h3>
     <div class="col-md-12">
-      {{ region.figure }}
+      {{ region.figure | safe }}
       <div class="mx-4">
         <h4>Raw-data used to generate the above table:</h4>
         <table class="table table-sm">
diff --git a/talp-pages/talp_pages/html/templates/time_series.jinja b/talp-pages/talp_pages/html/templates/time_series.jinja
index 5ea740b..0c1e199 100644
--- a/talp-pages/talp_pages/html/templates/time_series.jinja
+++ b/talp-pages/talp_pages/html/templates/time_series.jinja
@@ -9,7 +9,7 @@
     </div>
     <div class="row mt-3 mx-5">
       <div class="col-md-12 px-5">
-          {{ figure }}
+          {{ figure | safe }}
       </div>
     </div>
   </div>
-- 
2.43.0

