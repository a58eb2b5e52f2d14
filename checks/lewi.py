"""L01-L04: LeWI with CPU masks (and L05, L06 count based)."""
import os
from vp import Lib, HarnessError

CONFIGS = ["4 4 1 2", "8 8 2 3", "8 4 2 3", "16 8 4 4", "6 6 3 5", "12 4 2 3", "8 8 1 4", "16 16 2 6", "32 16 4 5"]
AFFS = ["mask", "nearby-first", "nearby-only", "spread-ifempty"]


def cases(c, n, modes, salt, ops):
    """n random histories; every configuration x affinity x mode appears if n is large enough."""
    grid = [(cfg, aff, m, pm) for cfg in CONFIGS for aff in AFFS for m in modes for pm in (0, 0, 1)]
    c.rng.shuffle(grid)
    res = []
    for i in range(n):
        cfg, aff, m, pm = grid[i % len(grid)]
        res.append("%d %s %d %d %s %d" % (c.rng.randrange(1 << 31), cfg, ops, m, aff, pm))
    return res


def sequential(c, n, modes, ops=400, variant="asan"):
    exe = Lib(variant).exe("lewi_seq", ["lewi_seq.cc", "shim.c"])
    def one(a):
        i, args = a
        key = "vp%s%d_%d" % (c.prop, os.getpid(), i)
        c.run_case([exe] + args.split() + [key], timeout=120, what="lewi_seq", shmkey=key)
    todo = list(enumerate(cases(c, n, modes, "seq", ops)))
    c.pmap(one, todo)
    c.sample("lewi_seq " + todo[0][1])


def concurrent(c, n, modes, ops=3000, variant="plain"):
    exe = Lib(variant).exe("lewi_mp", ["lewi_mp.cc", "shim.c"])
    cfgs = ["4 4 1 2", "8 8 2 4", "8 4 2 3", "16 8 4 4", "6 6 3 6", "8 8 1 2", "16 16 2 8"]
    def one(a):
        i, args = a
        key = "vq%s%d_%d" % (c.prop, os.getpid(), i)
        c.run_case([exe] + args.split() + [key], timeout=150, what="lewi_mp", shmkey=key)
    todo = []
    for i in range(n):
        todo.append((i, "%d %s %d %d %s %d" % (c.rng.randrange(1 << 30), cfgs[i % len(cfgs)], ops, modes[(i // len(cfgs)) % len(modes)], AFFS[(i // 3) % 4], i % 2)))
    c.pmap(one, todo, workers=3)
    c.sample("lewi_mp " + todo[0][1])


def ping(c, n, rounds, variant="plain"):
    exe = Lib(variant).exe("lewi_ping", ["lewi_ping.cc", "shim.c"])
    def one(i):
        key = "vg%s%d_%d" % (c.prop, os.getpid(), i)
        c.run_case([exe, str(c.rng.randrange(1 << 30)), str(rounds), str(i % 4), key], timeout=150, what="lewi_ping", shmkey=key)
    c.pmap(one, range(n), workers=3)


RULE = ("distinct (operation, number of busy/lent-idle/borrowed CPUs, return code) combinations seen by the sequential "
        "histories; evaluations are LeWI calls whose effects were all checked")


def done(c, req=("calls", "cpu_grants")):
    c.evaluations = c.stats.get("calls", 0) + c.stats.get("mp_calls", 0)
    c.finish(RULE, 1000, req)


def L01(c):
    concurrent(c, c.scale(150, 2500), [0], c.scale(3000, 10000))
    concurrent(c, c.scale(16, 200), [0, 1], 1500, "asan")
    sequential(c, c.scale(1200, 30000), [0, 1])
    done(c, ("calls", "cpu_grants", "mp_grants", "mp_shared_moments"))


def L02(c):
    sequential(c, c.scale(2500, 40000), [0, 1])
    concurrent(c, c.scale(60, 1000), [0, 1], 2000)
    done(c, ("calls", "cpu_grants", "mp_grants"))


def L03(c):
    sequential(c, c.scale(2500, 50000), [0])
    concurrent(c, c.scale(6, 60), [0], 1500)
    ping(c, c.scale(8, 64), c.scale(4000, 20000))
    done(c, ("calls", "cpu_grants", "ping_borrows"))


def L04(c):
    sequential(c, c.scale(2500, 50000), [1])
    concurrent(c, c.scale(40, 800), [1], 1500)
    done(c)


CRULE = "distinct (operation, caller above/below its own CPUs, idle CPUs, processes above their own or with requests) states; evaluations are calls"


def L05(c):
    exe = Lib("asan").exe("lewi_count_mp", ["lewi_count_mp.cc", "shim.c"])
    exp = Lib("plain").exe("lewi_count_mp", ["lewi_count_mp.cc", "shim.c"])
    jobs = [("seq", c.scale(700, 3000)) for _ in range(c.scale(160, 3000))] + [("conc", c.scale(1500, 5000)) for _ in range(c.scale(50, 800))]
    def one(a):
        i, (mode, ops) = a
        key = "vc%s%d_%d" % (c.prop, os.getpid(), i)
        c.run_case([exp if mode == "conc" and i % 3 else exe, mode, str(c.rng.randrange(1 << 30)), str(2 + i % 5), str(ops), key], timeout=150, what="lewi_count_mp", shmkey=key)
    c.pmap(one, list(enumerate(jobs)), workers=4)
    c.evaluations = c.stats.get("calls", 0)
    c.finish(CRULE, 1000, ("calls", "own_grants", "full_moments"))


def L06(c):
    exe = Lib("asan").exe("lewi_count_async", ["lewi_count_async.cc", "shim.c"])
    exm = Lib("plain").exe("lewi_count_mp", ["lewi_count_mp.cc", "shim.c"])
    jobs = [("s", c.scale(600, 2000)) for _ in range(c.scale(500, 10000))] + [("async", c.scale(1200, 4000)) for _ in range(c.scale(40, 600))]
    def one(a):
        i, (mode, ops) = a
        key = "vc%s%d_%d" % (c.prop, os.getpid(), i)
        seed = str(c.rng.randrange(1 << 30)); np = str(2 + i % 5)
        cmd = [exe, seed, np, str(ops), key] if mode == "s" else [exm, "async", seed, np, str(ops), key]
        c.run_case(cmd, timeout=150, what="lewi_count_async", shmkey=key)
    c.pmap(one, list(enumerate(jobs)), workers=5)
    c.evaluations = c.stats.get("calls", 0)
    c.finish(CRULE, 1000, ("calls", "served", "taken"))
