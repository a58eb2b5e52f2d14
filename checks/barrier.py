"""B01, B02: DLB barriers."""
import os
from vp import Lib


def _mp(c, exe, j):
    i, san = j
    key = "vp%s_m%d_%d" % (c.prop, os.getpid(), i)
    P = c.rng.choice([2, 2, 3, 4, 5, 6, 8])
    c.run_case([exe[san], "mp", str(c.rng.randrange(1 << 30)), str(P), str(c.rng.choice([1, 2, 3, 4])), str(c.scale(25, 80)), key],
               timeout=200, what="barrier mp", shmkey=key)


def _seq(c, exe, i):
    key = "vp%s_s%d_%d" % (c.prop, os.getpid(), i)
    c.run_case([exe["asan"], "seq", str(c.rng.randrange(1 << 30)), str(c.scale(300, 600)), key], timeout=200, what="barrier seq", shmkey=key)


def _lewi(c, exe, i):
    key = "vp%s_l%d_%d" % (c.prop, os.getpid(), i)
    c.run_case([exe["asan"], "lewi", str(c.rng.randrange(1 << 30)), str(c.scale(25, 60)), key], timeout=300, what="barrier lewi", shmkey=key)


def _exes():
    return {v: Lib(v).exe("barrier", ["barrier.cc"]) for v in ("asan", "plain")}


def B01(c):
    exe = _exes()
    # each run uses several processes: a few at a time, so that they really overlap
    jobs = [("m", i) for i in range(c.scale(60, 400))] + [("l", i) for i in range(c.scale(30, 250))] + [("s", i) for i in range(c.scale(16, 150))]
    c.rng.shuffle(jobs)

    def one(j):
        k, i = j
        if k == "m":
            _mp(c, exe, (i, "plain" if i % 2 else "asan"))
        elif k == "l":
            _lewi(c, exe, i)
        else:
            _seq(c, exe, i)
    c.pmap(one, jobs, 4)
    c.sample("barrier mp SEED PROCESSES BARRIERS PHASES KEY: the members of every barrier change between phases, all cross it several times with random delays")
    c.sample("barrier lewi SEED ITERATIONS KEY: one process waits, the other tries to borrow its CPUs, for every combination of --lewi-barrier, --lewi-barrier-select and flag")
    c.evaluations = c.stats.get("evaluations", 0)
    c.finish("distinct (members, waiting order) of a crossing, (barrier, LeWI option, flag, selection) combinations; an evaluation is one process leaving a crossing whose entries are counted, or one LeWI round",
             3000, ("evaluations", "crossings", "waits", "lent", "lewi_rounds", "other_barrier_busy", "nonmember"))


def B02(c):
    exe = _exes()
    jobs = [("s", i) for i in range(c.scale(140, 1500))] + [("m", i) for i in range(c.scale(32, 300))]
    c.rng.shuffle(jobs)
    c.pmap(lambda j: _seq(c, exe, j[1]) if j[0] == "s" else _mp(c, exe, (j[1], "plain" if j[1] % 2 else "asan")), jobs, 5)
    c.sample("barrier seq SEED OPERATIONS KEY: register, attach, detach, cross, finalize and initialise again by several processes, in turns")
    c.evaluations = c.stats.get("evaluations", 0)
    c.finish("distinct (operation, participants, outcome) combinations; an evaluation is one operation whose return value and effect are compared with the set of members of every barrier",
             8000, ("evaluations", "crossings", "attaches", "detaches", "registers", "full"))
