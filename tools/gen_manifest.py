#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "runtime monitoring: model-based differential oracle over random call histories under ASan/UBSan"
CHECKS = {
    "L01": ("runtime monitoring: shared ownership monitor over concurrent processes, plus model-based oracle over random histories, ASan/UBSan builds",
            "multi-process stress with an exclusivity monitor (polling), random sequential histories with an observation-only monitor; explored executions only"),
    "L02": (SEQ + "; quiescence monitor over concurrent processes", "every call of random histories compared with a model of ownership; concurrent runs checked at quiescence"),
    "L03": (SEQ, "return code and callbacks of every call compared with an exact model, for several machine shapes and affinities"),
    "L04": (SEQ, "asynchronous mode: every grant and revocation compared with a model of the request queues (order not modelled on SMT machines)"),
    "L05": ("runtime monitoring: model-based oracle over histories of several processes, and conservation monitor over concurrent runs",
            "every call of turn-based histories of several processes compared with a model of the pool; concurrent stress checked while it runs (lend/borrow) and at quiescence"),
    "L06": ("runtime monitoring: model-based oracle over random histories under ASan/UBSan, conservation monitor over concurrent processes",
            "every count told to every process checked against conservation, request and fairness rules; concurrent runs checked at quiescence"),
    "O01": ("runtime monitoring: differential oracle (independent reading of the documented options) over random arguments, environments, Get/Set and printed listings, under ASan/UBSan",
            "random valid, invalid, malformed and oversized arguments from every source; explored executions only"),
    "O02": ("runtime monitoring: round-trip and set-algebra reference model over random masks and machine shapes (mu_testing, fake /sys, HWLOC_SYNTHETIC) under ASan/UBSan",
            "random masks, topologies and texts, including malformed ones; explored executions only"),
    "O03": ("runtime monitoring: container reference models over random operation histories with failing allocations, ASan/UBSan/LSan",
            "every operation of the containers compared with a reference container"),
    "B01": ("runtime monitoring: shared entry/exit counters over concurrent processes (uninstrumented and ASan/UBSan builds), LeWI barrier monitor",
            "every crossing by 2 to 8 processes with changing members checked while it happens; explored executions only"),
    "B02": ("runtime monitoring: model of the members of every barrier over random histories of several processes, ASan/UBSan",
            "every return value compared with the model, crossings prove the count kept by the library; explored executions only"),
    "D01": ("runtime monitoring: model-based oracle over random administration histories, plus snapshot monitor of the process list while processes and administrators run concurrently, ASan/UBSan",
            "every call and every mask of random histories compared with a model; concurrent snapshots checked for disjointness; explored executions only"),
    "D02": ("runtime monitoring: model-based oracle over random histories of changes, polls and LeWI calls; delivery monitor over concurrent processes, ASan/UBSan",
            "every poll, callback and reclaim compared with the model; concurrent synchronous changes checked for delivery"),
    "D03": ("runtime monitoring: model-based oracle over random histories of reservations, inheritances, steals and exits, ASan/UBSan",
            "every reservation, inheritance and return compared with the model; explored executions only"),
    "T01": ("runtime monitoring: model of the state of every thread over random histories under a virtual clock, every field of every region compared, ASan/UBSan",
            "exact comparison (nanoseconds and events) after every start, stop and update of random lock-step histories; explored executions only"),
    "T02": ("runtime monitoring: model of names, handles and open regions over random histories; consistency monitor over concurrent threads, ASan/UBSan",
            "every return value and handle compared with a model; concurrent rounds checked at quiescence"),
    "T03": ("runtime monitoring: model of what each process has published over random histories of several processes and administrators under a virtual clock, kills included, ASan/UBSan",
            "every value, list and metric read by any process compared with the model; explored executions only"),
    "T04": ("runtime monitoring: reports in every format, recorded directly and at the end of runs, parsed by independent parsers and compared value by value with what was recorded, ASan/UBSan",
            "any names, values, locales and kinds of record; non-finite metrics and CPU lists over 127 characters are not generated"),
    "A02": ("runtime monitoring: every notification dispatched compared with the callbacks set; histories replayed with different callbacks registered must end with the same CPUs; ASan/UBSan",
            "all combinations of callbacks for every notification; LeWI worlds of two subprocesses of one process"),
    "A01": ("runtime monitoring: random sequences of the whole public API in every state and with hostile arguments, return codes and state against a model of the life cycle, ASan/UBSan",
            "one or two subprocesses of one process, all policies; argument classes sampled, not enumerated"),
    "A03": ("race detection (ThreadSanitizer) and runtime monitoring: several processes of several threads use LeWI, DROM, TALP and getters at once; outcome checked at quiescent points and at finalization, also under AddressSanitizer and without sanitizers",
            "schedules sampled; accesses that are unordered by design are excluded by name (listed in checks/race.py); one thread polls DROM; at most 16 messages pending per helper thread"),
    "M01": ("runtime monitoring: every intercepted MPI routine in every binding over a stub MPI library that checks arguments, results, lent CPUs and TALP times; jobs of several ranks on simulated nodes, whose metrics and reports are recomputed from the history; ASan/UBSan",
            "stub MPI library (Open MPI headers), 276 routines, 1-6 ranks on 1-3 nodes; routines whose blocking the standard leaves open are not judged for LeWI"),
    "S01": ("runtime monitoring: processes initialize, finalize, attach and detach at once; mappings, files, descriptors, process lists and masks observed at quiescent points are compared with the processes that use DLB",
            "2-8 real processes, up to two keys, users and colors; schedules sampled with jitter"),
    "S02": ("fault injection and runtime monitoring: processes are killed between calls and at chosen points of calls (interposed lock, unlock, init, finalize); lists, masks, CPUs, sums, barriers and files seen by survivors and newcomers are checked",
            "kill points are those outside critical sections; 3 known findings; barriers are not checked after kills inside DLB_Init/DLB_Finalize"),
    "W01": ("runtime monitoring: the real talp command runs over random folder trees; every page, table, plot, badge and enriched record it writes is parsed back and compared with an independent reading of the records",
            "random trees, selections and environments, including invalid ones; the badge server and the drawing library are stand-ins; download-gitlab is not covered (needs a server)"),
    "C01": ("runtime monitoring: the real tools (ASan/UBSan and plain builds) run in random sessions with live processes; output, exit status, masks, affinities and files compared with a model after every run",
            "/dev/shm is a scratch directory (linker --wrap), deletions outside of it are recorded and refused; one invocation of a tool at a time"),
    "T05": ("runtime monitoring: random well-formed OMPT event sequences under a virtual clock, every time and count compared with a model of thread states, ASan/UBSan",
            "nested, serialized and concurrent parallel regions, tasks and synchronisations; events are injected, not produced by an OpenMP runtime"),
}
EXTRA_NA = {"P01": "needs an OpenMP runtime with OMPT and, for free agents and role shift, modified runtimes that are not here; driving the managers with invented callbacks would decide about histories no runtime produces"}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "the checks compile /repo's sources themselves (lib/vp.py) with sanitizers; no hook was added to /repo", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, note = CHECKS[p][:2]
        m["checks"].append({"property": p, "quick_cmd": "python3 checks/run.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": EXTRA_NA.get(p, "no sound check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
