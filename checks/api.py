"""A01: life-cycle and argument checks of the public API. A02: callbacks."""
import os
from vp import Lib


def A02(c):
    exe = {v: Lib(v).exe("cbk", ["cbk.cc", "shim.c"]) for v in ("asan", "asanr")}

    def one(i):
        key = "vpA02_%d_%d" % (os.getpid(), i)
        c.run_case([exe["asan" if i % 2 else "asanr"], str(c.rng.randrange(1 << 30)), "60", "20", key], timeout=300, what="cbk", shmkey=key)
    c.pmap(one, range(c.scale(60, 600)), 8)
    c.sample("cbk SEED DISPATCHES WORLDS KEY: random sets of callbacks and arguments, every notification compared with what the documentation gives; the same history of two subprocesses replayed with different callbacks registered must leave the same CPUs in the program")
    c.evaluations = c.stats.get("dispatched", 0) + c.stats.get("compared", 0)
    c.finish("distinct (operation, callbacks set, callbacks called), (callbacks of a replayed history, mode); an evaluation is one notification compared with the callbacks registered, or one comparison of the masks of two replays",
             2000, ("dispatched", "dispatched_none", "gets", "sets", "worlds", "compared", "set_calls", "cpu_calls"))


def A01(c):
    c.tags |= {"A02", "S01"}
    exe = {v: Lib(v).exe("api", ["api.cc", "shim.c"]) for v in ("asan", "asanr")}

    def one(i):
        key = "vpA01_%d_%d" % (os.getpid(), i)
        ops = c.rng.choice([20, 60, 150, 400])
        c.run_case([exe["asan" if i % 2 else "asanr"], str(c.rng.randrange(1 << 30)), str(4500 // ops), str(ops), key], timeout=300, what="api", shmkey=key)
    c.pmap(one, range(c.scale(450, 4000)), 8)
    c.sample("api SEED LIVES OPERATIONS KEY: random calls of the whole public interface for the process and two subprocesses, pre-initialization, DROM, TALP and Stats administrators, fake processes; each code is compared with a model of the life-cycle; each life ends with every handle closed, no file, mapping or descriptor left, and a complete initialize-use-finalize")
    c.evaluations = c.stats.get("calls", 0)
    c.finish("distinct (function, code given, state); an evaluation is one call whose code is compared with the model",
             100000, ("calls", "inits", "preinits", "again", "init_failed", "invoked", "code_2n", "code_3n", "code_4n", "code_5n", "code_6n", "code_8n", "code_10n", "code_12n", "code_15n", "code_16n", "code_17n"))
