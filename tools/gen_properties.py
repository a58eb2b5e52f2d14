#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CPU = "src/LB_comm/shmem_cpuinfo.c"; LM = "src/LB_policies/lewi_mask.c"; PRI = "src/LB_comm/shmem_procinfo.c"
KER = "src/LB_core/DLB_kernel.c"; TALP = "src/LB_core/DLB_talp.c"; API = "src/apis/DLB_interface.c"
SHM = "src/LB_comm/shmem.c"; MU = "src/support/mask_utils.c"; OPT = "src/support/options.c"

p("L01", "LeWI never lets two processes use the same CPU",
  "Whatever sequence of lend, reclaim, acquire, borrow and return calls (in all their CPU, count and mask forms), disable/enable, maximum-parallelism changes and finalizations the processes of a node make, a CPU is handed to a process that does not own it only when nobody uses it: when that process is told to enable it, every process that was told to use it before has already lent it, returned it, been told to disable it, or finalized. Only the owner may be told to enable a CPU that a guest still uses (it is taking it back: the guest is told to disable it at once in asynchronous mode, and at its next Return or CheckCpuAvailability otherwise). A CPU that no process registered is never handed out. This holds when the calls of different processes run concurrently.",
  ["histories", "schedules", "configurations"],
  "All call histories and interleavings of up to N processes sharing a node, with and without hardware threads, polling and async modes.",
  "The tests drive a handful of two-process scripts sequentially; exclusivity must hold for every history and interleaving, and no test tracks who uses each CPU.",
  [CPU, LM, "src/LB_comm/shmem_async.c"],
  [("guest/owner/state transitions under the shared lock", CPU), ("enable/disable callbacks after the lock is released", LM)],
  ["enable_cpu / disable_cpu callbacks and the calls' return codes"])

p("L02", "A CPU's owner always gets it back from LeWI",
  "After a process reclaims CPUs it owns, every idle one is enabled to it at once, and no other process can obtain any of them until the owner lends it again: their current users see them as no longer available (CheckCpuAvailability returns not-permitted, Return gives them up and asks to disable them; in asynchronous mode they are told to disable them without asking). Once every current user has returned or lent them, the owner's next reclaim, acquire or borrow of those CPUs succeeds and enables exactly the ones it was missing. When a process disables DLB or finalizes, it keeps no borrowed CPU, and CPUs it owned are not left lent out when it only disables.",
  ["histories", "schedules"],
  "All histories of lends and borrows preceding a reclaim, for every subset of owned CPUs reclaimed (all, one, a count, a mask), in polling and async modes.",
  "Tests reclaim a CPU or two after one fixed lend/borrow prefix; the guarantee is about every history, including several borrowers, partial reclaims, and reclaim while queued requests exist.",
  [CPU, LM],
  [("reclaim marks the CPU busy and forbids new guests", CPU), ("return hands the CPU back", CPU)],
  ["DLB_Reclaim*, DLB_Return*, DLB_CheckCpuAvailability"])

p("L03", "LeWI calls report and deliver exactly the CPUs they move",
  "In polling mode each lend, reclaim, acquire, borrow and return call with a CPU mask enables and disables exactly the CPUs whose assignment it changed, returns success when it changed something for the caller, 'noted' when the CPU will come later, 'no update' when there was nothing to do, and 'not permitted' or 'disabled' where the interface says so. Count-limited and mask-limited variants never deliver more CPUs than asked or outside the mask (with several hardware threads per core, whole cores are taken, so only the rest of the last core may exceed them), borrowing takes only idle lent CPUs, never a CPU whose owner is using it, and never leaves an eligible idle CPU untaken while returning fewer than requested. Setting a maximum parallelism N gives up the CPUs above N, and with it the count, mask and all-CPUs forms of borrow and acquire never take a process above N.",
  ["histories", "inputs", "configurations"],
  "All call histories with all CPU ids, counts and masks, on machines with one or several hardware threads per core and the different affinity preferences.",
  "Tests check particular return codes on 2 to 8 CPUs; agreement between codes, callbacks and the resulting assignment has to hold for each call in each history.",
  [CPU, LM], [("tasks built under the lock and resolved afterwards", LM), ("core eligibility", CPU)],
  ["return codes, callbacks, DLB_CheckCpuAvailability"])

p("L04", "Asynchronous LeWI requests are served in order and never lost",
  "In asynchronous mode a CPU request that cannot be served immediately stays pending until it is served, cancelled by its process, or the process disables DLB or finalizes: whenever a CPU becomes idle and some pending request accepts it, it is given to the oldest such request (requests for one specific CPU before general ones) and the requester is told to enable it. A process never receives more CPUs than it requested, and is never given a CPU because of a request that it cancelled. A request that does not fit in the bounded queue of its CPU is reported to the caller. The guest of a reclaimed CPU is told to disable it and its request for that CPU is queued again. Each process sees its enable and disable orders in the order they were issued.",
  ["histories", "schedules"],
  "All interleavings of requests, lends, cancellations, reclaims and exits of several processes in async mode.",
  "Async tests queue one or two requests; loss, duplication or misordering shows only with several pending requests, wrap-around of the queues and interleaved cancellation.",
  [CPU, LM, "src/LB_comm/shmem_async.c", "src/support/queues.c", "src/support/queue_template.h"],
  [("per-CPU and global request queues", CPU), ("per-process message queue and helper thread", "src/LB_comm/shmem_async.c")],
  ["enable_cpu / disable_cpu callbacks in async mode"])

p("L05", "Classic LeWI neither creates nor loses CPUs",
  "With LeWI and no CPU mask, the CPUs held by all the processes plus the ones left in the pool always equal the sum of the CPUs they registered with, whatever the interleaving of blocking calls, lends, borrows, reclaims, maximum-parallelism changes, disables and finalizations of several processes, also in greedy mode. Borrow never takes more CPUs than were idle or asked for, nor exceeds the maximum parallelism, so with lends and borrows alone the CPUs in use never exceed the existing ones; a process that reclaims or leaves a blocking call always gets back at least its own CPUs (others give back the excess in their next borrow), and when everybody is back to its own CPUs or has finalized nothing is left in the pool. Every change is announced by a set-num-threads callback with the new count, which is at least one and at most the machine size.",
  ["schedules", "histories"],
  "All interleavings of up to N processes each entering and leaving blocking calls, lending, borrowing and reclaiming.",
  "Tests run two processes in lock step; over-allocation needs racing compare-and-swap loops.",
  ["src/LB_policies/lewi.c", "src/LB_comm/comm_lend_light.c"],
  [("atomic idle CPU counter", "src/LB_comm/comm_lend_light.c"), ("per-process count", "src/LB_policies/lewi.c")],
  ["set_num_threads callback"])

p("L06", "Count-based asynchronous LeWI conserves CPUs among processes",
  "With LeWI in asynchronous mode and no CPU mask, the number of idle CPUs plus the CPUs held by all processes always equals the sum of their initial CPUs; pending requests are served from lent CPUs, evenly and without exceeding what each process asked for, and never to a disabled process; a reclaim brings a process back to its initial count by using idle CPUs and taking the rest only from processes above theirs (whose request stays pending); enabling again asks for exactly what had been given up. Removing requests, disabling or finalizing a process leaves no CPU lost or duplicated. Every process is told its new number of threads each time it changes.",
  ["histories", "schedules"],
  "All histories of lend, acquire, borrow, reclaim, reset and finalize by several processes, sequential and concurrent.",
  "Tests use two or three processes and a few calls; conservation is a sum over the complete history.",
  ["src/LB_comm/shmem_lewi_async.c", "src/LB_policies/lewi_async.c", "src/support/queues.c"],
  [("idle/current/initial counters under lock", "src/LB_comm/shmem_lewi_async.c")],
  ["set_num_threads callback"])

p("D01", "DROM process masks stay disjoint and change atomically",
  "Processes registered without CPU sharing always have pairwise disjoint current-or-future masks. A mask change that is refused (unknown process, target or previous owner with a change still pending, CPUs outside the machine or that may not be taken) or that times out while it waits for the previous owners leaves every process' mask as it was, and one that succeeds makes the target own exactly the requested CPUs and takes exactly the ones that others had, at once and from all of them, or from none. A CPU is never taken by a registration, a pre-registration without the steal flag, or an inheritance. The masks reported by GetProcessMask, the list of processes and the CPUs nobody owns always add up to the same machine.",
  ["histories", "inputs", "schedules"],
  "All sequences of register, pre-register, set mask (with every flag combination), poll and unregister over all masks.",
  "Tests use a few fixed masks on a small machine; atomic failure and disjointness quantify over all masks, flags and orders.",
  [PRI, KER, "src/apis/DLB_interface_drom.c"],
  [("dry-run then apply under the shared lock", PRI), ("future mask plus dirty flag", PRI)],
  ["DLB_DROM_GetProcessMask, DLB_DROM_GetPidList, DLB_DROM_SetProcessMask"])

p("D02", "A DROM mask change reaches its target exactly once and completely",
  "When an administrator changes a process' mask, the next poll by that process reports exactly that mask once (later polls report no update), after which its current mask equals it; a synchronous change or query returns success only after the target has polled, and otherwise reports a timeout. In a polled update the process' mask callback is invoked with the new mask, and CPU ownership for LeWI follows: afterwards the process can reclaim exactly the CPUs of its new mask.",
  ["histories", "schedules"],
  "All interleavings of administrator changes, target polls and LeWI activity.",
  "Tests deliver one change to a process polling in lock step; exactly-once delivery and LeWI hand-over concern every interleaving.",
  [PRI, KER, CPU, "src/LB_core/DLB_kernel.c"],
  [("dirty flag cleared under the lock at poll", PRI), ("update of CPU ownership", CPU)],
  ["DLB_PollDROM, DLB_PollDROM_Update, set_process_mask callback"])

p("D03", "Pre-registered CPUs are inherited, and stolen CPUs are returned",
  "A process started through DROM or DLB pre-initialization begins with exactly the mask reserved for it (or its own narrower mask, with the remaining reserved CPUs staying available for sibling processes), no other process can take reserved CPUs meanwhile except by stealing, and cancelling the reservation frees them. When a process that stole CPUs with the return-stolen flag ends, each CPU goes back to a process it was taken from if that process still exists and the CPU has not been given elsewhere, and otherwise becomes free; without the flag they become free.",
  ["histories", "configurations"],
  "All combinations of reservation masks, steal flags, fork/exec children, victim exits and orders of finalization.",
  "Tests cover one preinit and one steal-and-return script.",
  [PRI, KER, "src/apis/DLB_interface_drom.c", API, "src/utils/dlb_run.c", "src/utils/dlb_taskset.c"],
  [("pre-registration and inheritance", PRI), ("stolen CPU bookkeeping", PRI)],
  ["DLB_DROM_PreInit, DLB_DROM_PostFinalize, DLB_PreInit, DLB_Init"])

p("S01", "Shared memory appears with the first process and vanishes with the last",
  "However processes and threads interleave initialization and finalization (repeatedly, partially enabling modules, failing some initializations, or attaching as DROM/TALP administrators), all concurrent users of one shared-memory key see the same data, and once the last one has detached no DLB file remains in shared memory and the process holds no leftover mapping or file descriptor. Processes using different keys or different users never see each other's data, and an initialization that fails leaves nothing registered, so that it can be retried.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of attach/detach by several processes, all subsets of modules, all failing initializations.",
  "Tests check that files vanish after a sequential run; creation/removal races, administrators attaching in the middle and failed initializations are not reached.",
  [SHM, KER, "src/LB_core/spd.c", "src/apis/DLB_interface_drom.c", "src/apis/DLB_interface_talp.c"],
  [("pid list and last-detacher unlink", SHM), ("rollback in initialization", KER)],
  ["/dev/shm contents, /proc/self/maps, /proc/self/fd, return codes"])

p("S02", "A crashed process' resources become usable again",
  "If a process is killed at any point outside a shared-memory critical section, the next process that attaches can initialize, the dead process disappears from the process list, its CPUs can be registered, borrowed or acquired again, its pending requests no longer receive CPUs, and, if nobody was already waiting inside, the barriers it was attached to stop waiting for it; surviving processes keep all their own CPUs, masks and registered regions unchanged and can still finalize normally.",
  ["crash_points", "histories"],
  "Every point between (and inside, outside the lock) DLB calls at which a process may be killed, with survivors in every state.",
  "One test kills a process once right after initialization.",
  [SHM, CPU, PRI, "src/LB_comm/shmem_barrier.c", "src/LB_comm/shmem_talp.c", "src/LB_comm/shmem_lewi_async.c"],
  [("consistency check of the pid list at attach with per-module cleanup", SHM)],
  ["results of API calls by survivors and newcomers after a SIGKILL"])

p("B01", "DLB barriers release nobody before every participant has arrived",
  "For each barrier, no participant leaves its k-th crossing before every process attached at that time has entered it, no participant is left behind, and crossings of differently named barriers do not affect each other, for any arrival order, delay, and repeated use. A process that is not attached gets 'no update' without blocking. While waiting in a barrier with LeWI enabled, a process lends its CPUs and gets them back on leaving; with the LeWI-off barrier flag it does not.",
  ["schedules", "histories"],
  "All arrival orders, delays, participant counts and interleaved barriers.",
  "Tests cross a barrier a fixed number of times with equal timing.",
  ["src/LB_core/node_barrier.c", "src/LB_comm/shmem_barrier.c", "src/LB_core/DLB_kernel.c"],
  [("process-shared pthread barrier sized to participants", "src/LB_comm/shmem_barrier.c")],
  ["DLB_Barrier, DLB_BarrierNamed, DLB_BarrierNamedRegister"])

p("B02", "Barrier attach, detach and registration keep the participant count right",
  "Registering a name returns the same barrier to every process and the same handle when repeated; a detached process is never waited for, attaching again makes it awaited again, and attach reports the resulting number of participants while detach and repeated attach/detach report errors as documented. Ending a process removes it from all its barriers, a barrier nobody uses any more can be reused under another name, exceeding the number of barriers yields no barrier instead of damaging existing ones, and none of this disturbs the other barriers.",
  ["histories", "inputs"],
  "All sequences of register/attach/detach/barrier/finalize over several names and processes.",
  "Tests register two or three names once.",
  ["src/LB_core/node_barrier.c", "src/LB_comm/shmem_barrier.c", API],
  [("participants counter and slot search under lock", "src/LB_comm/shmem_barrier.c")],
  ["DLB_BarrierAttach, DLB_BarrierDetach, DLB_BarrierNamed*"])

p("T01", "TALP attributes every nanosecond and event to exactly the open regions",
  "For every monitoring region, elapsed time is the sum of its start-to-stop intervals, and useful, MPI and OpenMP times are the time each participating thread spent in that state while the region was open, so that they are never negative and add up to the region's CPU time; counts of measurements, MPI calls and OpenMP parallel regions and tasks equal the events that happened while it was open. Nested and overlapping regions account independently, a stopped or reset region does not change until started again, and disabled observer threads contribute nothing.",
  ["histories", "inputs", "schedules"],
  "All sequences of region start/stop/reset/update/report and MPI enter/leave events, nesting depth and thread count.",
  "Tests check a few regions with fixed sleeps and mostly non-zero-ness.",
  [TALP, "src/LB_core/talp_types.h"],
  [("per-thread samples flushed into all open regions", TALP)],
  ["dlb_monitor_t fields"])

p("T02", "Monitoring region names, handles and start/stop states are consistent",
  "Registering the same name always yields the same region and different names different ones; reserved names are refused or map to the global region, unnamed regions get fresh names, and names too long are truncated consistently. Start succeeds only on a stopped region and stop only on an open one, the 'last open' and 'global' selectors act on the innermost open and on the global region, and a region excluded by the region selection never accumulates anything while an included one always does. These rules hold when several threads register and use regions concurrently.",
  ["histories", "inputs", "configurations", "schedules"],
  "All names, all call orders, all region-select specifications, concurrent registration.",
  "Tests use a dozen fixed names sequentially.",
  [TALP, "src/apis/DLB_interface_talp.c", "src/support/types.c", "src/support/gtree.c"],
  [("region tree keyed by name", TALP), ("open-regions list", TALP)],
  ["DLB_MonitoringRegion* return codes and fields"])

p("T03", "TALP data read by other processes and node metrics match the owners' data",
  "With the external profiler or node summaries enabled, the times an attached administrator or another process reads for a process and region are those the owner last published, never those of another process or region, and disappear when the owner ends. Node metrics combine exactly the processes that registered the region: totals, averages and maxima agree with the individual values; parallel efficiency and load balance lie between 0 and 1, parallel efficiency is the product of load balance and communication efficiency, and they never divide by zero.",
  ["histories", "inputs", "configurations"],
  "All numbers of processes, regions and time values, including zero and very large ones, and all attach orders.",
  "Tests compare one or two processes with fixed times.",
  ["src/LB_comm/shmem_talp.c", TALP, "src/apis/DLB_interface_talp.c", "src/support/perf_metrics.h"],
  [("per-region entries in shared memory", "src/LB_comm/shmem_talp.c"), ("POP metric formulas", "src/support/perf_metrics.h")],
  ["DLB_TALP_GetTimes, DLB_TALP_GetNodeTimes, DLB_TALP_QueryPOPNodeMetrics, DLB_TALP_CollectPOPNodeMetrics"])

p("T04", "TALP reports are well-formed and carry the recorded values",
  "For any set of recorded regions, processes and metrics, and any region name, the report written at the end is a well-formed document of the requested format (JSON, XML, CSV or text) with one record per region and process carrying the recorded values and names; text, CSV and JSON of the same run agree. Writing to a file does not alter the caller's locale, records are in registration order, and the recorder is empty and leak-free afterwards so that the next report starts afresh.",
  ["inputs", "histories", "configurations"],
  "All region names (quotes, commas, markup characters, long), all numbers of records, all output formats and locales.",
  "The tests write one small set of records and check that the file exists.",
  ["src/support/talp_output.c"],
  [("record lists and per-format writers", "src/support/talp_output.c")],
  ["report files and standard error"])

p("T05", "OpenMP activity is classified correctly for any parallel structure",
  "For any well-formed sequence of OpenMP tool events (threads starting and ending, parallel regions nested to any depth and of any size, implicit and explicit tasks, barriers, taskwaits, MPI inside or outside parallel), each thread's time is attributed to useful, synchronisation/load imbalance, scheduling, serialization or MPI according to the state it was in, the totals of all threads add up to their lifetimes, and the event counts match. Nested and serialized parallel regions neither lose data nor crash.",
  ["histories", "schedules", "programs"],
  "All well-formed OMPT event sequences of several threads.",
  "Tests replay one or two flat parallel regions.",
  [TALP, "src/LB_numThreads/omptool.c"],
  [("per-thread state machine", TALP), ("parallel data per nesting level", "src/LB_numThreads/omptool.c")],
  ["region times and counters after OMPT callbacks"])

p("O01", "Options mean what was given, whatever their source, order or spelling",
  "For every option, a valid value given by the API argument, by DLB_ARGS or by SetVariable is the one in force and is read back and printed as an equivalent value; environment arguments override API arguments, later ones override earlier ones, and everything not given keeps its default. Invalid values, unknown options, read-only changes and malformed strings of any length are reported, change nothing else and never corrupt memory.",
  ["inputs", "configurations"],
  "All option names and values, all argument strings, orders and lengths.",
  "Tests try a few options each with a few values.",
  [OPT, "src/support/types.c", "src/support/env.c"],
  [("option table with parse/print per type", OPT)],
  ["DLB_Init arguments, DLB_SetVariable, DLB_GetVariable, DLB_PrintVariables"])

p("O02", "CPU mask text and machine topology round-trip exactly",
  "Every CPU set printed by DLB (list, quoted, range or Slurm form) reads back as the same set, every valid textual form (lists, ranges, hexadecimal, binary, regular or reversed bitmaps) denotes exactly the CPUs documented, and malformed text is rejected or ignored without crashing or hanging. On any machine topology, the node, core and sibling relations, set operations, subset searches, iteration order and affinity-ordering functions return exactly what their definition over CPU sets gives.",
  ["inputs", "configurations"],
  "All CPU sets and mask strings up to the supported size, all topologies.",
  "Tests cover a few strings and two or three topologies.",
  [MU], [("parser/printer and topology tables", MU)],
  ["mask strings in options, dlb_taskset and reports"])

p("O03", "Internal queues, lists and trees behave like their abstract containers",
  "The request queues, circular queues, arrays, single-linked lists and balanced trees behave, for every sequence of operations (including wrap-around, deletion in the middle, removal by key, full and empty states), exactly like the sequence, multiset or ordered map they stand for: nothing is lost, duplicated or reordered, iteration visits each element once in order, and memory is neither leaked nor overrun.",
  ["histories", "inputs"],
  "All operation sequences up to and beyond capacity.",
  "Tests perform a few fixed operations.",
  ["src/support/queues.c", "src/support/queue_template.h", "src/support/array_template.h", "src/support/gslist.c", "src/support/gtree.c", "src/support/small_array.h"],
  [("circular index arithmetic", "src/support/queue_template.h"), ("AVL rebalancing", "src/support/gtree.c")],
  ["container contents"])

p("A01", "Every API call is safe in every life-cycle state and says so by its code",
  "For any order of API calls (before initialization, after finalization, disabled, twice, with modules on or off, with invalid CPU identifiers, counts, masks, names or callbacks, through the process-wide or the subprocess interface), each call returns a documented code: not-initialized before initialization, already-initialized on the second, disabled while disabled, no-policy, no-TALP or not-compatible when the module is off, and success or no-update when it applies. It never crashes, corrupts memory or affects other subprocesses, and after any such sequence initialize-use-finalize works again.",
  ["histories", "inputs", "configurations"],
  "All call sequences over the whole public interface.",
  "Tests call most functions once in the intended order.",
  [API, "src/apis/DLB_interface_sp.c", "src/apis/DLB_interface_drom.c", "src/apis/DLB_interface_talp.c", "src/apis/DLB_interface_stats.c", KER],
  [("initialized/enabled flags checked at entry", KER)],
  ["return codes"])

p("A02", "Callbacks are stored, dispatched and replaced exactly as registered",
  "The callback and argument set for an event are the ones read back and the ones invoked, once per change, with the right CPU, mask or count and the registered argument; set-forms fall back to the single-CPU form when only that is registered and vice versa, missing callbacks yield 'no callback' without other effect, and thread counts passed stay between one and the machine size. Registering for one event or one subprocess never changes another.",
  ["inputs", "histories", "configurations"],
  "All subsets of registered callbacks, all CPUs, masks and counts.",
  "Tests register one or two callbacks.",
  ["src/LB_numThreads/numThreads.c", API], [("dispatch table with fallbacks", "src/LB_numThreads/numThreads.c")],
  ["callback invocations"])

p("A03", "Concurrent use from several threads is free of data races and deadlocks",
  "Threads of one process may concurrently initialize or finalize DLB (exactly one of them does it), and call LeWI functions (each thread managing its own CPUs), TALP region functions and functions that read lists, masks and variables, with one thread polling DROM, while helper threads deliver asynchronous updates and other processes act on the shared memory, without data races on DLB's state, deadlock, or lost updates; finalization waits for deliveries in progress and none happens after it.",
  ["schedules"],
  "All interleavings of API calls by several threads and processes.",
  "Tests are essentially single-threaded and run without a race detector.",
  [LM, CPU, TALP, KER, "src/LB_comm/shmem_async.c", "src/support/atomic.h"],
  [("shared-memory lock, per-module mutexes and atomics", SHM)],
  ["ThreadSanitizer reports, completion of all calls"])

p("M01", "MPI interception forwards every call unchanged and balances enter/leave",
  "Every intercepted MPI function (C and Fortran) calls the underlying MPI function exactly once with the caller's arguments and returns its result; each call is counted once, bracketed by exactly one enter and one leave, and only blocking calls selected by the LeWI-MPI option lend and recover CPUs. Initialization and finalization of DLB follow MPI's, calls made before initialization, after finalization or without DLB are still forwarded, and the placement of processes on nodes, the metrics collected across ranks and the reports written at MPI_Finalize agree with what the ranks did.",
  ["programs", "configurations", "inputs"],
  "All MPI functions, all selections of calls, all call orders.",
  "No test runs the MPI library.",
  ["src/LB_MPI/process_MPI.c", "src/LB_MPI/MPI_intercept.c.in", "src/LB_MPI/MPI_interface.c.in", "src/LB_MPI/MPI_calls_coded.c.in", "src/LB_MPI/mpicalls.json", "scripts/pygen.py"],
  [("generated wrappers around before/after hooks", "src/LB_MPI/MPI_interface.c.in")],
  ["recorded calls of a stub MPI library"])

p("P01", "OpenMP thread managers keep team size and binding equal to the CPUs held",
  "With the OpenMP tool support, for every history of parallel regions, tasks, blocking calls and LeWI/DROM events, the number of threads requested equals the CPUs (or cores) currently held, threads are bound only to CPUs the process holds with its own CPUs first, idle CPUs are lent at the configured moments and recovered afterwards, and free-agent and role-shift threads are activated only on CPUs the process may use and deactivated when the CPU is needed or taken away.",
  ["histories", "configurations"],
  "All histories of tool events on several topologies.",
  "Tests replay one short script per manager.",
  ["src/LB_numThreads/omptm_omp5.c", "src/LB_numThreads/omptm_free_agents.c", "src/LB_numThreads/omptm_role_shift.c"],
  [("active mask and CPU bindings", "src/LB_numThreads/omptm_omp5.c"), ("per-CPU state bits", "src/LB_numThreads/omptm_free_agents.c")],
  ["omp_set_num_threads and free-agent activation calls"])

p("C01", "The command-line tools do what they say to exactly the processes named",
  "dlb_taskset, dlb_run, dlb_shm and dlb act on exactly the processes, CPUs and shared-memory files named: a listed mask is the real one, a set or removed CPU list takes effect on the target only, a launched application starts with the requested CPUs and leaves none behind, deleting removes only the caller's DLB files, and requests that are invalid or cannot be done end with a non-zero status, the invalid ones without any change.",
  ["inputs", "configurations", "histories"],
  "All mask formats, targets and option combinations, with several processes running.",
  "No test runs the tools.",
  ["src/utils/dlb_taskset.c", "src/utils/dlb_run.c", "src/utils/dlb_shm.c", "src/utils/dlb.c"],
  [("option parsing and DROM calls", "src/utils/dlb_taskset.c")],
  ["exit status, output, affinity of targets, /dev/shm"])

p("W01", "talp-pages reports every TALP run once, ordered and unaltered",
  "For any folder tree of TALP JSON records (MPI, OpenMP, hybrid or serial; with or without hardware counters and git metadata; regions in any order, some of them in some runs only), 'talp ci-report' writes, for every folder with records, one evolution page per resource configuration where each region of each run is one point with the values of its record, in order of time (commit timestamp if known, otherwise that of the run), one scaling table whose columns are the newest run of each configuration with the documented metrics relative to the smallest one, the badge of the newest run, and an index that lists each folder once with working links and its newest run; names are shown as they are in the record. Records are never modified, a non-empty output folder is only replaced with --force, and unreadable or unsupported records end the tool with an error instead of a report. 'talp metadata' adds the git metadata of the command line or of the CI environment to every record without changing anything else, and refuses to replace existing metadata.",
  ["inputs", "configurations"],
  "All folder layouts, record contents, orders and combinations of runs.",
  "Its tests use one or two bundled examples.",
  ["talp-pages/talp_pages"], [("folder scan, JSON validation and page rendering", "talp-pages/talp_pages")],
  ["generated pages"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
