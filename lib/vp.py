"""Shared machinery of the checks: builds /repo's working tree with the wanted instrumentation, runs
harnesses, matches violations against the known findings, and writes the evidence file."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4

BASE = ["-g", "-fno-omit-frame-pointer", "-fPIC", "-std=gnu11", "-w", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-DHWLOC_LIB", "-DPAPI_LIB"]
LIBS = ["-lm", "-lrt", "-ldl", "-lpthread", "-lhwloc", "-lpapi"]
VARIANTS = {
    # name: (compiler, flags, link flags)
    "asan":  ("gcc", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DDEBUG_VERSION"], ["-fsanitize=address,undefined"]),
    "asanr": ("gcc", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"]),
    "tsan":  ("gcc", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": ("gcc", ["-O2"], []),
    "dbg":   ("gcc", ["-O1", "-DDEBUG_VERSION"], []),
    "so":    ("gcc", ["-O2", "-fvisibility=hidden"], []),
}


class HarnessError(Exception):
    """The check itself could not work (never a verdict)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h


def repo_sources():
    """The C sources of libdlb, taken from meson.build's own lists (so added files are followed)."""
    txt = open(os.path.join(REPO, "meson.build")).read()
    srcs = []
    for name in ("common_srcs", "sources"):
        m = re.search(r"^%s\s*=\s*\[(.*?)^\]" % name, txt, re.S | re.M)
        if not m:
            raise HarnessError("meson.build: list %s not found" % name)
        srcs += re.findall(r"'(src/[^']+\.c)'", m.group(1))
    return list(dict.fromkeys(srcs))


def all_inputs():
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        res += [os.path.join(root, f) for f in files if f.endswith((".c", ".h", ".in", ".json", ".F90", ".build"))]
    res.append(os.path.join(REPO, "meson.build"))
    res.append(os.path.join(REPO, "scripts", "pygen.py"))
    return res


_HASH = None


def source_hash():
    global _HASH
    if _HASH is None:
        _HASH = _tree_hash(all_inputs() + [os.path.join(VERIF, "lib", "config.h")]).hexdigest()
    return _HASH


def _prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def gen_includes(dst):
    """config.h and dlb.h as the build system would generate them."""
    os.makedirs(dst, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "lib", "config.h"), os.path.join(dst, "config.h"))
    t = open(os.path.join(REPO, "src", "apis", "dlb.h.in")).read().replace("@DLB_VERSION_HEXA@", "0x30500")
    with open(os.path.join(dst, "dlb.h"), "w") as f:
        f.write(t)
    os.makedirs(os.path.join(dst, "apis"), exist_ok=True)
    with open(os.path.join(dst, "apis", "dlb.h"), "w") as f:
        f.write(t)


def cflags(variant, inc):
    cc, fl, ld = VARIANTS[variant]
    return [cc] + BASE + fl + ["-I", inc, "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "src", "apis")]


def _compile_many(jobs):
    def one(j):
        cmd, out = j
        r = sh(cmd)
        return (r.returncode, r.stdout, cmd)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, out, cmd in ex.map(one, jobs):
            if rc != 0:
                raise HarnessError("compilation failed: %s\n%s" % (" ".join(cmd), out[-4000:]))


class Lib:
    def __init__(self, variant, extra=(), exclude=()):
        self.variant = variant
        self.extra = list(extra)
        self.key = hashlib.sha256((source_hash() + variant + repr(VARIANTS[variant]) + repr(BASE) + " ".join(extra) + " ".join(exclude)).encode()).hexdigest()[:16]
        self.dir = os.path.join(BUILD, "lib%s-%s" % (variant, self.key))
        self.inc = os.path.join(self.dir, "inc")
        self.archive = os.path.join(self.dir, "libdlb.a")
        if not os.path.exists(self.archive):
            self._build(exclude)
        else:
            os.utime(self.dir)
        _prune("lib%s" % variant, 3)

    def _build(self, exclude):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        gen_includes(self.inc)
        objs, jobs = [], []
        for s in repo_sources():
            if os.path.basename(s) in exclude:
                continue
            o = os.path.join(self.dir, s.replace("/", "_")[:-2] + ".o")
            jobs.append((cflags(self.variant, self.inc) + self.extra + ["-c", os.path.join(REPO, s), "-o", o], o))
            objs.append(o)
        _compile_many(jobs)
        self.objs = objs
        r = sh(["ar", "rcs", self.archive + ".tmp"] + objs)
        if r.returncode:
            raise HarnessError("ar: " + r.stdout)
        os.rename(self.archive + ".tmp", self.archive)

    def exe(self, name, srcs, extra=(), libs=(), whole=False):
        srcs = [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in srcs]
        deps = srcs + glob.glob(os.path.join(VERIF, "harness", "*.h"))
        k = hashlib.sha256((_tree_hash(deps).hexdigest() + self.key + " ".join(extra) + " ".join(libs) + str(whole)).encode()).hexdigest()[:12]
        out = os.path.join(self.dir, "%s-%s" % (name, k))
        if not os.path.exists(out):
            arch = ["-Wl,--whole-archive", self.archive, "-Wl,--no-whole-archive"] if whole else [self.archive]
            objs, jobs = [], []
            cxx = any(s.endswith(".cc") for s in srcs)
            for i, s in enumerate(srcs):
                o = "%s.%d.o" % (out, i)
                fl = cflags(self.variant, self.inc)
                if s.endswith(".cc"):
                    fl = ["g++"] + [f for f in fl[1:] if not f.startswith("-std=")] + ["-std=gnu++17"]
                jobs.append((fl + self.extra + ["-I", os.path.join(VERIF, "harness")] + list(extra) + ["-c", s, "-o", o], o))
                objs.append(o)
            _compile_many(jobs)
            cmd = ["g++" if cxx else "gcc"] + objs + list(x for x in extra if x.startswith("-Wl")) + arch + VARIANTS[self.variant][2] + list(libs) + LIBS + ["-o", out + ".tmp"]
            r = sh(cmd)
            for o in objs:
                os.unlink(o)
            if r.returncode:
                raise HarnessError("harness build failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
            os.rename(out + ".tmp", out)
        return out

    def shared(self, name="libdlb.so"):
        out = os.path.join(self.dir, name)
        if not os.path.exists(out):
            r = sh(cflags(self.variant, self.inc) + ["-shared", "-Wl,-soname," + name, "-Wl,--whole-archive", self.archive, "-Wl,--no-whole-archive"]
                   + VARIANTS[self.variant][2] + LIBS + ["-o", out + ".tmp"])
            if r.returncode:
                raise HarnessError("libdlb.so: " + r.stdout[-4000:])
            os.rename(out + ".tmp", out)
        return out


class Result:
    def __init__(self, rc, out, timed_out, cmd):
        self.rc, self.out, self.timed_out, self.cmd = rc, out, timed_out, cmd

    @property
    def done(self):
        return self.rc == 0 and re.search(r"^DONE\b", self.out, re.M) is not None


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_thread_leaks=0",
}


def clean_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not re.match(r"(DLB|LB|OMP|KMP|SLURM|TALP|OMPI|PMIX)_", k)}
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    if extra:
        e.update(extra)
    return e


def _descendants_kill(pgid):
    try:
        os.killpg(pgid, signal.SIGKILL)
    except OSError:
        pass


def run(cmd, timeout, env=None, cwd=None, stdin=None):
    """Runs one harness in its own process group, with a generous watchdog."""
    with tempfile.TemporaryFile("w+b") as f:
        p = subprocess.Popen([str(c) for c in cmd], stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=clean_env(env), cwd=cwd, start_new_session=True)
        to = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            _descendants_kill(p.pid)
            p.wait()
        _descendants_kill(p.pid)
        f.seek(0)
        out = f.read().decode("utf-8", "replace")
    return Result(p.returncode, out, to, [str(c) for c in cmd])


def rm_shm(key):
    pat = re.compile(re.escape(key) + r"(?!\d)")     # not "key_12" for "key_1"
    for f in glob.glob("/dev/shm/DLB_*%s*" % glob.escape(key)):
        if not pat.search(f):
            continue
        try:
            os.unlink(f)
        except OSError:
            pass


def crash_key(out):
    """A short stable description of why a harness died, from its output."""
    m = re.search(r"SUMMARY: \w+Sanitizer: (\S+) \S*?([\w.]+\.[ch])(?::\d+)*(?: in (\S+))?", out)
    if m:
        fn = m.group(3) or m.group(2)
        return "sanitizer:%s:%s" % (m.group(1), fn)
    m = re.search(r"([\w./]+\.[ch]):\d+:\d+: runtime error: ([^\n]{0,60})", out)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[0-9a-fx]+", "N", m.group(2))[:40].strip())
    m = re.search(r"DLB PANIC\[[^\]]*\]: ([^\n]{0,60})", out)
    if m:
        return "panic:" + re.sub(r"\d+", "N", m.group(1)).strip()
    m = re.search(r"Assertion `([^']{0,60})", out)
    if m:
        return "assert:" + m.group(1)
    return "crash"


class Check:
    def __init__(self, prop, level="exploration", assumptions=()):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.stats, self.sigs, self.samples, self.viols = {}, set(), [], {}
        self.evaluations = 0
        self.tags = {prop}
        self.assumptions = list(assumptions)
        self.cover = {}
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.replays = os.path.join(BUILD, "replay")
        self.shmkeys = []

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sig(self, s):
        self.sigs.add(s)

    def sample(self, s, cap=5):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, text, cmd=None, output=None):
        key = re.sub(r"\s+", "_", key)
        if key in self.viols:
            self.viols[key]["n"] += 1
            return
        self.viols[key] = {"text": text, "n": 1, "cmd": cmd, "output": output}

    def absorb(self, r, what=""):
        """Reads the harness protocol lines of one run; True if it ended properly."""
        for line in r.out.splitlines():
            if line.startswith("STAT "):
                for kv in line[5:].split():
                    k, _, v = kv.partition("=")
                    try:
                        self.stat(k, int(v))
                    except ValueError:
                        pass
            elif line.startswith("MAX "):
                for kv in line[4:].split():
                    k, _, v = kv.partition("=")
                    self.stats[k] = max(self.stats.get(k, 0), int(v))
            elif line.startswith("SIG "):
                self.sigs.add(line[4:])
            elif line.startswith("SAMPLE "):
                self.sample(line[7:])
            elif line.startswith("VIOL "):
                key, _, text = line[5:].partition(" ")
                m = re.match(r"([A-Z]\d\d)/(.*)", key)
                if m and m.group(1) not in self.tags:
                    self.stat("other_property_reports")
                    continue
                self.violation(m.group(2) if m else key, text, r.cmd, r.out)
        if r.timed_out or not r.done:
            return False
        return True

    def run_case(self, cmd, timeout=60, env=None, cwd=None, what="", shmkey=None, hang_is_violation=True):
        """Runs a harness; crash, sanitizer report or reproducible hang are violations."""
        if self.tier == "quick":
            timeout = min(timeout, 130)
        r = run(cmd, timeout, env, cwd)
        if shmkey:
            rm_shm(shmkey)
        if r.timed_out:
            self.stat("watchdog_fired")
            if any(k.startswith("hang") for k in self.unlisted()):
                return r
            r2 = run(cmd, timeout * 2, env, cwd)
            if shmkey:
                rm_shm(shmkey)
            if r2.timed_out:
                self.absorb(r2)
                if hang_is_violation:
                    self.violation("hang" + (":" + what if what else ""), "did not finish within %d s, twice" % (timeout * 2), r2.cmd, r2.out)
                return r2
            r = r2
        if not self.absorb(r):
            if r.rc == 77:
                raise HarnessError("harness reported an internal error: " + r.out[-2000:])
            had = any(l.startswith("VIOL ") for l in r.out.splitlines())
            ck = crash_key(r.out)
            if not had or ck.startswith(("sanitizer", "ubsan", "panic")):
                self.violation(ck + (":" + what if what else ""), "exit %s: %s" % (r.rc, tail(r.out)), r.cmd, r.out)
        return r

    def pmap(self, fn, items, workers=None):
        def go(x):
            # once there is a violation, the rest is only worth some time
            new = self.unlisted()
            if new and (time.time() - self.t0 > (240 if self.tier == "quick" else 3600) or any(k.startswith("hang") for k in new)):
                self.stat("skipped_after_violation")
                return None
            return fn(x)
        with cf.ThreadPoolExecutor(workers or NCPU) as ex:
            return list(ex.map(go, items))

    def unlisted(self):
        known = self.known()
        return [k for k in list(self.viols) if k not in known]

    # ---- verdict -------------------------------------------------------------------------------
    def known(self):
        known = {}
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3).strip()
        return known

    def finish(self, rule, min_eval=1, required=()):
        rc = 0
        known = self.known()
        new = []
        for k, v in self.viols.items():
            if k in known:
                continue
            new.append((k, v))
        for k, d in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        missing = [k for k in required if self.stats.get(k, 0) <= 0]
        if not new and (self.evaluations < min_eval or missing):
            print("ERROR: property=%s nothing observed: evaluations=%d, missing=%s" % (self.prop, self.evaluations, missing))
            rc = 3
        os.makedirs(self.replays, exist_ok=True)
        for i, (k, v) in enumerate(new[:8]):
            path = os.path.join(self.replays, "%s-%d.txt" % (self.prop, i))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\nseen: %d times\nseed: %d tier: %s\ncommand: %s\nwhat: %s\n\n%s\n" % (
                    self.prop, k, v["n"], self.seed, self.tier, " ".join(v["cmd"] or []), v["text"], (v["output"] or "")[-200000:]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s: %s" % (k, v["text"][:600]))
            rc = 1
        cov = {"evaluations": int(self.evaluations), "distinct_nontrivial": len(self.sigs), "rule": rule, "samples": self.samples or ["(none)"]}
        cov["observed"] = {k: self.stats[k] for k in sorted(self.stats)}
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s, %d evaluations, %d distinct, %.1f s %s" % (self.prop, "HELD" if rc == 0 else ("VIOLATED" if rc == 1 else "ERROR"),
              self.evaluations, len(self.sigs), time.time() - self.t0, json.dumps(cov["observed"])[:600]))
        self.cleanup()
        sys.stdout.flush()
        os._exit(rc) if rc == 3 else sys.exit(rc)

    def cleanup(self):
        for k in self.shmkeys:
            rm_shm(k)
        shutil.rmtree(self.work, ignore_errors=True)


def tail(s, n=500):
    s = s.strip()
    i = s.find("ERROR: ")
    j = s.find("runtime error")
    c = [x for x in (i, j) if x >= 0]
    if c:
        return s[max(0, min(c) - 100):min(c) + n]
    return s[-n:]


def main(fn, prop, **kw):
    c = Check(prop, **kw)
    try:
        fn(c)
    except HarnessError as e:
        if c.unlisted():
            c.finish("the check stopped at an error of the harness after a violation: %s" % str(e)[:200], 0)
        print("ERROR: property=%s %s" % (prop, e))
        c.cleanup()
        sys.stdout.flush()
        os._exit(3)
