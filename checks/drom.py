"""D01-D03: DROM. One model decides the three properties, so each check reports any disagreement with it."""
import os
from vp import Lib


def _run(c, nseq, nconc):
    exe = Lib("asan").exe("drom", ["drom.cc"])
    c.tags |= {"D01", "D02", "D03"}

    def seq(i):
        key = "vp%s_s%d_%d" % (c.prop, os.getpid(), i)
        c.run_case([exe, "seq", str(c.rng.randrange(1 << 30)), str(c.scale(16, 24)), str(c.scale(70, 110)), key], timeout=200, what="drom seq", shmkey=key)

    def conc(i):
        key = "vp%s_c%d_%d" % (c.prop, os.getpid(), i)
        c.run_case([exe, "conc", str(c.rng.randrange(1 << 30)), "2", str(c.scale(1200, 2500)), key], timeout=120, what="drom conc", shmkey=key)
    def gone(i):
        key = "vp%s_g%d_%d" % (c.prop, os.getpid(), i)
        c.run_case([exe, "gone", str(c.rng.randrange(1 << 30)), str(c.scale(40, 150)), "0", key], timeout=120, what="drom gone", shmkey=key)
    c.pmap(seq, range(nseq), 6)
    if c.prop == "D02":
        c.pmap(gone, range(8), 4)
    c.pmap(conc, range(nconc), 4)
    c.sample("drom seq SEED HISTORIES OPS KEY: init (some reserved, some with LeWI, some with return-stolen), set masks with every flag, poll, reserve, cancel, finalize, by several processes in turns")
    c.sample("drom conc SEED PHASES MS KEY: processes polling, LeWI processes and administrators stealing from each other at the same time, snapshots of the lists meanwhile")
    c.evaluations = c.stats.get("evaluations", 0)
    c.finish("distinct (operation, flags, relation of the mask to the owners, outcome) combinations; an evaluation is one call or one mask compared with the model, or one snapshot checked for disjointness",
             5000, ("evaluations", "inits", "inherited", "sets", "sets_ok", "polls", "updates", "reservations", "cancels", "recovered", "returned", "sync_ok", "timeouts", "lewi_checks", "masks_compared", "snapshots") + (("gone",) if c.prop == "D02" else ()))


def D01(c):
    _run(c, c.scale(90, 800), c.scale(16, 80))


def D02(c):
    _run(c, c.scale(90, 800), c.scale(20, 100))


def D03(c):
    _run(c, c.scale(110, 1000), c.scale(4, 20))
