"""A03: concurrent use from several threads and processes, with and without the thread sanitizer."""
import glob, os, re
from vp import Lib

# Accesses that are not ordered on purpose, or whose order the race detector cannot see:
#  - the sample of a thread: read and closed by any thread that stops a region or asks for an update (documented design of TALP)
#  - DLB_CheckCpuAvailability: looks at the CPU before taking the lock
#  - DLB_CallbackSet and helper threads: ordered through other processes (no message is sent before the CPUs are asked for)
ALLOWED_FRAME = re.compile(r"#\d+ (talp_update_sample|set_sample_state|talp_get_thread_sample|DLB_CheckCpuAvailability|DLB_CallbackSet|DLB_CallbackSet_sp)\b")
ALLOWED_BLOCK = re.compile(r"Location is heap block.*?\n(?:\s+#.*\n)*?\s+#\d+ (talp_get_thread_sample|talp_init)\b")


def reports(text):
    for rep in re.split(r"^={18}\s*$", text, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", rep)
        if m:
            yield m.group(1).strip(), rep


def allowed(kind, rep):
    if not kind.startswith("data race"):
        return False
    head = rep.split("Thread T")[0] if "Mutex M" not in rep else rep.split("\n\n  Mutex M")[0]
    accesses = re.split(r"\n\n", head)
    if any(ALLOWED_FRAME.search(a) for a in accesses[:2]):
        return True
    return bool(ALLOWED_BLOCK.search(rep))


def A03(c):
    exe = {v: Lib(v).exe("race", ["race.cc", "shim.c"]) for v in ("plain", "asanr", "tsan")}
    n = c.scale(40, 400)
    jobs = [("tsan", i) for i in range(2 * n)] + [("plain", i) for i in range(4 * n)] + [("asanr", i) for i in range(2 * n)]
    jobs = [(v, i, c.rng.randrange(1 << 30)) for v, i in jobs]

    def one(j):
        v, i, seed = j
        key = "vpA03_%d_%s_%d" % (os.getpid(), v, i)
        cmd = [exe[v], str(seed), "3", {"tsan": "60", "plain": "200", "asanr": "120"}[v], key, str(i % 6)]
        log = os.path.join(c.work, key)
        r = c.run_case(cmd, timeout=400, env={"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:log_path=" + log}, what="race", shmkey=key)
        c.stat("runs_" + v)
        for f in glob.glob(log + ".*"):
            for kind, rep in reports(open(f, errors="replace").read()):
                if allowed(kind, rep):
                    c.stat("unordered_by_design")
                    continue
                tops = re.findall(r"^    #0 (\S+)", rep, re.M)[:2]
                fns = [x for x in re.findall(r"^    #\d+ (\S+) \S*/src/", rep, re.M)]
                c.violation("%s:%s" % (kind.replace(" ", "-"), fns[0] if fns else (tops or ["?"])[0]),
                            "%s reported by the thread sanitizer: %s" % (kind, " / ".join(re.findall(r"SUMMARY: ThreadSanitizer: [^\n]*? (\S+ in \S+)", rep)[:1] + fns[:6])), cmd, rep + "\n" + r.out)
            os.unlink(f)
    c.pmap(one, jobs, 6)
    c.sample("race SEED CYCLES OPERATIONS KEY KIND: 2-3 processes of 2-8 threads lend, reclaim, borrow, acquire and return CPUs, poll DROM, start and stop regions, register and query; all give their CPUs back and the outcome is checked; then they finalize one after another while the rest go on")
    c.evaluations = sum(c.stats.get(k, 0) for k in ("own_cpus", "regions", "quiescent", "finalized", "once", "masks"))
    c.finish("distinct (policy and mode, processes, threads, modules); an evaluation is one check at a quiescent point (a CPU, a region, a mask, an initialization or a finalization)",
             1000, ("lend", "reclaim", "borrow", "acquire", "giveback", "return", "check", "count", "poll", "set_mask", "region", "lookup", "update", "times", "query", "list", "quiescent", "regions", "own_cpus", "finalized", "once", "runs_tsan"))
