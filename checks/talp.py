"""T01, T02, T03, T05: TALP monitoring regions, states of the threads and OpenMP events."""
import os
from vp import Lib
WRAP = ["-Wl,--wrap=clock_gettime"]


def _exes(*v):
    return {x: Lib(x).exe("talp", ["talp.cc", "shim.c"], WRAP) for x in v}


def _run(c, nseq, nconc):
    c.tags |= {"T01", "T02", "T05"}   # one model: any disagreement is a violation of the family
    exe = _exes("asan", "asanr")
    jobs = [("seq", i) for i in range(nseq)] + [("conc", i) for i in range(nconc)]
    c.rng.shuffle(jobs)

    def one(j):
        k, i = j
        key = "vp%s_%s%d_%d" % (c.prop, k[0], os.getpid(), i)
        e = exe["asan" if i % 2 else "asanr"]
        if k == "seq":
            ops = c.rng.choice([40, 120, 200, 200, 400])
            c.run_case([e, "seq", str(c.rng.randrange(1 << 30)), str(c.scale(8000, 16000) // ops), str(ops), key], timeout=300, what="talp seq", shmkey=key)
        else:
            c.run_case([e, "conc", str(c.rng.randrange(1 << 30)), str(c.scale(20, 60)), "0", key], timeout=300, what="talp conc", shmkey=key)
    c.pmap(one, jobs, 8)
    c.sample("talp seq SEED HISTORIES OPERATIONS KEY: main, user, second initial, OpenMP worker and observer threads in lock-step under a virtual clock; random OMPT events, MPI calls and region calls; every field of every region is compared with a model after each flush")
    c.sample("talp conc SEED ROUNDS 0 KEY: 6 threads register, start, stop and update the same regions at once")
    c.evaluations = c.stats.get("evaluations", 0)


def T01(c):
    _run(c, c.scale(300, 2500), c.scale(10, 100))
    c.finish("distinct (level, size, open regions, concurrent teams) of a parallel, (OpenMP, MPI, profiler, selector, regions, samples) of a history; an evaluation is one region whose 14 fields are compared with the model, or one registration",
             50000, ("evaluations", "starts_ok", "stops", "mpi_calls", "open_checked", "resets", "updates", "omp_threads"))


def T02(c):
    _run(c, c.scale(200, 1600), c.scale(40, 400))
    c.finish("distinct (level, size, open regions, concurrent teams) of a parallel, (OpenMP, MPI, profiler, selector, regions, samples) of a history, durations of concurrent rounds; an evaluation is one registration, one region compared or one region checked after a concurrent round",
             30000, ("evaluations", "registers", "re_registers", "anonymous", "excluded", "resets_open", "stop_last", "conc_starts", "conc_rounds"))


def T03(c):
    c.tags |= {"A01", "S01"}
    exe = {v: Lib(v).exe("talpmp", ["talpmp.cc", "shim.c"], WRAP) for v in ("asan", "asanr")}

    def one(i):
        key = "vpT03_%d_%d" % (os.getpid(), i)
        c.run_case([exe["asan" if i % 2 else "asanr"], str(c.rng.randrange(1 << 30)), str(c.scale(10, 20)), str(c.rng.choice([60, 200, 200, 400])), key], timeout=300, what="talpmp", shmkey=key)
    c.pmap(one, range(c.scale(100, 1200)), 8)
    c.sample("talpmp SEED HISTORIES OPERATIONS KEY: 1 to 5 workers and 1 or 2 administrators in turns, virtual clocks; workers register, start, stop, reset regions, call MPI, finalize, start again or are killed; anybody lists, queries and collects; external profiler, node summary or neither; 1 to 16 CPUs")
    c.evaluations = c.stats.get("evaluations", 0)
    c.finish("distinct (kind of read, number of processes, space given, reader), (mode, workers, CPUs, multiplier) of a history; an evaluation is one list, query, collection or pair of times compared with the model",
             20000, ("evaluations", "lists", "queries", "times", "pidlists", "values_nz", "metrics_multi", "collects", "kills", "finalizes"))


def T05(c):
    _run(c, c.scale(320, 2600), c.scale(4, 20))
    c.finish("distinct (level, size, open regions, concurrent teams) of a parallel, (OpenMP, MPI, profiler, selector, regions, samples) of a history; an evaluation is one region whose 14 fields are compared with the model",
             50000, ("evaluations", "parallels", "nested", "serialized", "tasks_run", "undeferred", "syncs", "sched_split", "two_initial"))
