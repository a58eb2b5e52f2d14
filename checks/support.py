"""O01-O03: options, masks and topology, containers."""
import os, shutil, tempfile
from vp import Lib


def O01(c):
    exe = Lib("asan").exe("options", ["options.cc"])
    jobs = [("m", i) for i in range(c.scale(48, 900))] + [("a", i) for i in range(c.scale(24, 300))]

    def one(j):
        k, i = j
        s = str(c.rng.randrange(1 << 30))
        if k == "m":
            c.run_case([exe, s, str(c.scale(250, 500))], timeout=150, what="options")
        else:
            key = "vpO01_%d_%d" % (os.getpid(), i)
            c.run_case([exe, "api", s, str(c.scale(30, 60)), key], timeout=150, what="options api", shmkey=key)
    c.pmap(one, jobs)
    c.sample("options SEED ROUNDS: each round one DLB_Init argument and environment, then Get, Set and Print of every option")
    c.evaluations = c.stats.get("evaluations", 0)
    c.finish("distinct (option, source, kind of value) and (option set, kind of value) combinations; an evaluation is one value compared with the documented meaning",
             300000, ("evaluations", "invalid", "unknown", "overrides", "long", "prints", "sets", "werror_aborts"))


def O03(c):
    exe = Lib("asan").exe("cont", ["cont.cc", "cont_shim.c"])
    n = c.scale(48, 600)
    c.pmap(lambda i: c.run_case([exe, str(c.rng.randrange(1 << 30)), str(c.scale(20, 60)), str(300 + 100 * (i % 5))], timeout=120, what="cont"), range(n))
    c.sample("cont SEED HISTORIES OPERATIONS, e.g. %s" % " ".join([os.path.basename(exe), "1", "20", "400"]))
    c.evaluations = c.stats.get("operations", 0)
    c.finish("distinct (container operation, fill level, outcome) triples; an evaluation is one operation followed by a full comparison with the model",
             100000, ("operations", "queue_wraps", "full_states", "tree_removals", "key_frees"))


def rng(a, b):
    return "%d-%d" % (a, b) if b > a else str(a)


def synth(numa, cores, pus, order, extra_mem=0):
    """(HWLOC_SYNTHETIC, EXPECT) for numa x cores x pus; order: how the OS numbers the PUs."""
    n = numa * cores * pus
    if order == "linear":
        os_of = list(range(n))
    elif order == "stride":          # siblings numbered half the machine apart
        os_of = [(i % pus) * (numa * cores) + i // pus for i in range(n)]
    else:                            # nodes interleaved
        os_of = []
        for k in range(numa):
            for j in range(cores * pus):
                os_of.append(j * numa + k)
    idx = "" if order == "linear" else "(indexes=%s)" % ",".join(map(str, os_of))
    co, no = [], []
    for k in range(numa):
        node = os_of[k * cores * pus:(k + 1) * cores * pus]
        no.append("+".join(map(str, sorted(node))))
        for j in range(cores):
            co.append("+".join(map(str, sorted(node[j * pus:(j + 1) * pus]))))
    if extra_mem:
        no = [x for x in no for _ in range(1 + extra_mem)]
    mem = "[numa]" * (1 + extra_mem)
    s = "pack:%d %s core:%d pu:%d%s" % (numa, mem, cores, pus, idx)
    return s, "%d;%s;%s" % (n, ",".join(co), ",".join(no))


def O02(c):
    wrap = "-Wl,--wrap=fopen,--wrap=fopen64,--wrap=access,--wrap=opendir"
    exe = Lib("asan").exe("masks", ["masks.cc"], extra=[wrap])
    tmp = tempfile.mkdtemp(prefix="vpO02")
    try:
        jobs = [("r", i) for i in range(c.scale(80, 1500))] + [("s", i) for i in range(c.scale(16, 200))]
        topos = [(1, 1, 1), (1, 4, 1), (1, 4, 2), (2, 4, 2), (2, 8, 1), (4, 4, 4), (2, 16, 2), (8, 1, 1), (2, 33, 1), (1, 64, 2), (4, 32, 2), (3, 5, 2)]
        jobs += [("h", synth(a, b, p, o, x)) for (a, b, p) in topos for o in ("linear", "stride", "interleaved") for x in (0, 1)]

        def one(j):
            k, v = j
            if k == "r":
                c.run_case([exe, str(c.rng.randrange(1 << 30)), str(c.scale(25, 60))], timeout=200, what="masks")
            elif k == "s":
                d = os.path.join(tmp, str(v))
                os.mkdir(d)
                c.run_case([exe, "sys", str(c.rng.randrange(1 << 30)), str(c.scale(12, 40)), d], timeout=200, what="masks sys")
                shutil.rmtree(d, ignore_errors=True)
            else:
                c.run_case([exe, "hw"], timeout=100, env={"HWLOC_SYNTHETIC": v[0], "EXPECT": v[1], "HWLOC_THISSYSTEM": "0"}, what="masks hw " + v[0])
        c.pmap(one, jobs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.sample("HWLOC_SYNTHETIC='%s' expected %s" % synth(2, 4, 2, "stride", 1))
    c.evaluations = c.stats.get("evaluations", 0)
    c.finish("distinct (kind of check, set shape, hardware threads per core, nodes, machine size class) combinations", 100000,
             ("evaluations", "topologies", "sysfs_topologies", "hwloc_topologies"))
