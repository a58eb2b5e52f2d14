"""S01: life cycle of shared memories. S02: crashes."""
import os
from vp import Lib


def S01(c):
    exe = {v: Lib(v).exe("shmlife", ["shmlife.cc", "shim.c"]) for v in ("asan", "plain")}

    def one(i):
        key = "vpS01_%d_%d" % (os.getpid(), i)
        c.run_case([exe["plain" if i % 3 else "asan"], str(c.rng.randrange(1 << 30)), "12", "60", key], timeout=300, what="shmlife", shmkey=key)
    c.pmap(one, range(c.scale(200, 2000)), 8)
    c.sample("shmlife SEED HISTORIES ROUNDS KEY: 2-8 processes initialize, finalize, attach and detach at once, with one or two keys, users, colors; at quiescent points mappings, files, file descriptors, process lists and masks are compared with the processes that use DLB")
    c.evaluations = c.stats.get("mappings", 0) + c.stats.get("lists", 0) + c.stats.get("masks", 0)
    c.finish("distinct (kind of processes, calls made at once, processes, burst); an evaluation is one mapping, process list or process mask observed at a quiescent point and compared with the processes that use DLB",
             2000, ("ops", "concurrent", "inits", "init_refused", "bursts", "looks", "mappings", "lists", "masks"))


def S02(c):
    wrap = ["-Wl,--wrap=shmem_lock,--wrap=shmem_unlock,--wrap=shmem_init,--wrap=shmem_finalize"]
    exe = {v: Lib(v).exe("crash", ["crash.cc", "shim.c"], extra=wrap) for v in ("asan", "plain")}

    def one(i):
        key = "vpS02_%d_%s" % (os.getpid(), i)
        if isinstance(i, str):
            c.run_case([exe["plain"], "1", "1", "1", key, i], timeout=120, what="crash-" + i, shmkey=key)
        else:
            c.run_case([exe["plain" if i % 3 else "asan"], str(c.rng.randrange(1 << 30)), "5", "5", key], timeout=400, what="crash", shmkey=key)
    c.pmap(one, ["classic", "barrier", "async"] + list(range(c.scale(280, 3000))), 8)
    c.sample("crash SEED HISTORIES ROUNDS KEY: 2-5 processes use LeWI (masks or counts, polling or async), DROM, TALP and barriers; some are killed between calls or at a chosen point of a call, of DLB_Init or of DLB_Finalize (before taking or after releasing a shared-memory lock, in a callback, all waiting in a barrier); newcomers initialize and everything is checked again")
    c.evaluations = sum(c.stats.get(k, 0) for k in ("lists", "masks", "reclaims", "lent_cpus", "sums", "talp_lists", "barriers", "post_mortem"))
    c.finish("distinct (policy, victims, processes, modules); an evaluation is one list, mask, reclaim, lent CPU, sum of CPUs or barrier observed after a kill",
             2000, ("kills", "kills_in_calls", "kills_in_finalize", "kills_in_init", "kills_in_barrier", "newcomers", "verifications", "lists", "masks", "reclaims", "lent_cpus", "sums", "talp_lists", "barriers", "post_mortem"))
