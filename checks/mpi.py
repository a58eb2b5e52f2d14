"""M01: a mini MPI library below every intercepted routine in every binding, and jobs of several ranks on several simulated nodes."""
import os, shutil, tempfile
from mpilib import program
from talpout import Bad, COEF, chk_json, loadjson, ranges, same

TIMES = ("numMeasurements", "numMpiCalls", "elapsedTime", "usefulTime", "mpiTime")
NORM = ("usefulNormdApp", "mpiNormdApp", "maxUsefulNormdProc", "maxUsefulNormdNode", "mpiNormdOfMaxUseful")


def pop(procs, node, nranks, v2, got):
    """POP metrics of one region (definitions in perf_metrics.h), procs: rank -> values"""
    used = {r: p for r, p in procs.items() if p["numMeasurements"]}
    el = max([p["elapsedTime"] for p in procs.values()] + [0])
    kv = {k: "0" for k in list(TIMES) + list(NORM) + COEF + ["numCpus", "numNodes", "numMpiRanks"]}
    if not el:
        return kv if str(got.get("elapsedTime")) == "0" and not used else None   # a region that lasted nothing may be written as empty or not
    tot = {k: sum(p[k] for p in procs.values()) for k in TIMES + ("numCpus",)}
    tot["elapsedTime"] = el
    kv.update({k: str(v) for k, v in tot.items()})
    u, m, n = tot["usefulTime"], tot["mpiTime"], tot["numCpus"]
    kv["numNodes"] = str(len({node[r] for r in used}))
    kv["numMpiRanks"] = str(got.get("numMpiRanks")) if str(got.get("numMpiRanks")) in (str(nranks), str(len(used))) else str(nranks)
    mp = max(p["usefulTime"] / p["numCpus"] for p in used.values())
    mn = max(sum(p["usefulTime"] for r, p in used.items() if node[r] == x) / sum(p["numCpus"] for r, p in used.items() if node[r] == x) for x in {node[r] for r in used})
    cand = [p["mpiTime"] / p["numCpus"] for p in used.values() if p["usefulTime"] / p["numCpus"] == mp] if u else None
    g = str(got.get("mpiNormdOfMaxUseful"))
    if cand is None:
        mm = None
        del kv["mpiNormdOfMaxUseful"]
    else:
        mm = next((c for c in cand if same(g, repr(c))), cand[0])
        kv["mpiNormdOfMaxUseful"] = repr(mm)
    kv.update(usefulNormdApp=repr(u / n), mpiNormdApp=repr(m / n), maxUsefulNormdProc=repr(mp), maxUsefulNormdNode=repr(mn))
    if u:
        co = dict.fromkeys(COEF, 1.0)
        co["parallelEfficiency"] = u / (u + m)
        co["mpiParallelEfficiency"] = u / n / (mp + mm) if v2 else u / (u + m)
        co["mpiCommunicationEfficiency"] = mp / (mp + mm) if v2 else mp / (u / n + m / n)
        co["mpiLoadBalance"] = u / n / mp
        co["mpiLoadBalanceIn"] = mn / mp
        co["mpiLoadBalanceOut"] = u / n / mn
        kv.update({k: repr(v) for k, v in co.items()})
    return kv


def report(out, fn):
    ranks, exp, cs = {}, {}, None
    for l in out.splitlines():
        f = l.split(" ")
        if f[0] == "RANK":
            kv = dict(x.split("=", 1) for x in f[2:])
            ranks[int(f[1])] = kv
        elif f[0] == "EXP":
            exp.setdefault(bytes.fromhex(f[2]), {})[int(f[1])] = {k: int(v) for k, v in (x.split("=", 1) for x in f[3:])}
        elif f[0] == "CASE":
            cs = dict(x.split("=", 1) for x in f[1:])
    if cs is None or len(ranks) != int(cs["ranks"]):
        return 0
    kinds = {"pop-metrics:process": ("pop-metrics", "process"), "all": ("pop-metrics", "process")}.get(cs["sum"], (cs["sum"],))
    if not os.path.exists(fn):
        if cs["sum"] != "none":
            raise Bad("report", "no output file with --talp-summary=%s" % cs["sum"])
        return 1
    d = loadjson(fn)
    node = {r: int(v["node"]) for r, v in ranks.items()}
    v2 = cs["model"] == "2"
    pops, regs, nodes, res = [], [], [], None
    for name in sorted(exp):
        zero = dict.fromkeys(TIMES + ("numCpus",), 0)
        procs = {r: exp[name].get(r, zero) for r in ranks}
        got = d.get("Application", {}).get(name.decode(), {})
        if "pop-metrics" in kinds:
            pops.append((name, pop(procs, node, len(ranks), v2, got) or {}))
        if "process" in kinds:
            regs.append((name, [dict({k: str(procs[r][k]) for k in TIMES}, rank=str(r), pid=ranks[r]["pid"], nodeId=str(node[r]), cpuset=ranges([int(x) for x in ranks[r]["cpus"].split(",")])) for r in sorted(ranks)]))
    if "pop-metrics" in kinds and any(p["elapsedTime"] for p in exp[b"Global"].values()):
        res = {"numCpus": str(sum(p["numCpus"] for p in exp[b"Global"].values())), "numNodes": cs["nodes"], "numMpiRanks": cs["ranks"]}
    if "node" in kinds:
        for x in range(int(cs["nodes"])):
            pr = sorted((int(ranks[r]["pid"]), exp[b"Global"][r]) for r in ranks if node[r] == x)
            nodes.append(({"id": str(x), "avgUseful": str(sum(p["usefulTime"] for _, p in pr) // len(pr)), "avgMpi": str(sum(p["mpiTime"] for _, p in pr) // len(pr)),
                           "maxUseful": str(max(p["usefulTime"] for _, p in pr)), "maxMpi": str(max(p["mpiTime"] for _, p in pr))},
                          [{"usefulTime": str(p["usefulTime"]), "mpiTime": str(p["mpiTime"])} for _, p in pr]))
    # the order of the regions is that of their names in the library
    order = {k: i for i, k in enumerate(list(d.get("Application", {}) or d.get("Process", {})))}
    key = lambda e: order.get(e[0].decode(), 99)
    chk_json(fn, sorted(pops, key=key), nodes, sorted(regs, key=key), res)
    return len(pops) + len(regs) + len(nodes)


def M01(c):
    c.tags |= {"A01", "S01"}
    exe = {v: program(v) for v in ("asan", "asanr")}
    jobs = [("rec", i) for i in range(c.scale(500, 5000))] + [("job", i) for i in range(c.scale(300, 3000))]
    c.rng.shuffle(jobs)
    tmp = tempfile.mkdtemp(prefix="vpM01", dir=c.work)

    def one(j):
        k, i = j
        seed = str(c.rng.randrange(1 << 30))
        key = "vpM01%s%d_%d" % (k[0], os.getpid(), i)
        e = exe["asan" if i % 2 else "asanr"]
        if k == "rec":
            c.run_case([e, "rec", seed, key], timeout=60, what="mpi rec", shmkey=key)
            return
        d = os.path.join(tmp, key)
        os.mkdir(d)
        out = c.run_case([e, "job", seed, key, d], timeout=60, what="mpi job", shmkey=key)
        try:
            if "\nDONE" in out.out:
                c.stat("report_records", report(out.out, os.path.join(d, "out.json")))
        except Bad as b:
            c.violation("report-" + b.key, "%s [job %s]" % (b.text, seed), out.cmd, out.out)
        shutil.rmtree(d)
    c.pmap(one, jobs, 8)
    c.sample("rec SEED KEY: a rank with LeWI (classic or mask), DROM, TALP in random combinations; a second process borrows what is lent inside each MPI call and sets masks; every routine in C, Fortran (three manglings), Fortran 2008 and through the DLB_MPI_* interface, compared with what arrives to a stub MPI library")
    c.sample("job SEED KEY DIR: 1 to 6 ranks on 1 to 3 simulated nodes, virtual clocks; random MPI calls and regions, collected POP and node metrics, and the report written at the end compared with the recorded history")
    c.evaluations = c.stats.get("calls", 0) + c.stats.get("collected", 0) + c.stats.get("collected_node", 0) + c.stats.get("report_records", 0)
    c.finish("distinct (routine, binding) forwarded, (ranks, nodes, life cycle, kind of report) of a job; an evaluation is one call forwarded, one collection, or one record of a report compared with the model",
             30000, ("calls", "lent_inside", "kept_inside", "masks", "collected", "collected_node", "report_records", "jobs", "lives", "without_dlb", "after_finalize"))
