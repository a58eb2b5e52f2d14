"""C01: the command-line tools (dlb_taskset, dlb_run, dlb_shm, dlb) over random sessions with several processes."""
import os, random, re, select, shutil, signal, stat, subprocess, time
import vp
from vp import Lib, REPO

WRAPS = "shm_open shm_unlink opendir scandir chdir stat lstat fstatat access open openat truncate unlink remove rmdir rename unlinkat".split()
LINK = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
TOOLS = ("dlb", "dlb_run", "dlb_shm", "dlb_taskset")
NOPID = 4190000        # above any pid in use here
USAGE = 1


def fmt(cpus):
    """the list as the tools print it"""
    cpus, out, i = sorted(cpus), [], 0
    while i < len(cpus):
        j = i
        while j + 1 < len(cpus) and cpus[j + 1] == cpus[j] + 1:
            j += 1
        out.append(str(cpus[i]) if j == i else ("%d,%d" if j == i + 1 else "%d-%d") % (cpus[i], cpus[j]))
        i = j + 1
    return "[" + ",".join(out) + "]"


def parse(t):
    """any list of CPUs between brackets"""
    s = set()
    for x in t.strip("[]").split(","):
        if x:
            a, _, b = x.partition("-")
            s.update(range(int(a), int(b or a) + 1))
    return frozenset(s)


def arg(rng, cpus):
    """one of the documented forms of a list of CPUs"""
    cpus = sorted(cpus)
    k = rng.randrange(5)
    n = sum(1 << x for x in cpus)
    if k == 0:
        return ("0x%x" if rng.random() < .5 else "0x%X") % n
    if k == 1:
        return "0b" + bin(n)[2:].zfill(rng.randrange(12))
    if k == 2:
        return fmt(cpus).strip("[]")
    if k == 3:
        c = list(cpus)
        rng.shuffle(c)
        return ",".join(map(str, c))
    return ",".join("%d-%d" % (x, x) if rng.random() < .5 else str(x) for x in cpus)


class Ent:
    def __init__(self, pid, cur=(), reserved=False):
        self.pid, self.cur, self.fut, self.stolen, self.dirty, self.reserved = pid, set(cur), set(cur), set(), False, reserved

    def now(self):
        return self.fut if self.dirty else self.cur


class Model:
    """masks of the processes of one key"""
    def __init__(self, syscpus):
        self.slots = [None] * len(syscpus)
        self.all, self.free = set(syscpus), set(syscpus)
        self.co = {}         # owners of the CPUs for LeWI: a process that has not polled yet still has those it lost

    def get(self, pid):
        return next((e for e in self.slots if e and e.pid == pid), None)

    def live(self):
        return [e for e in self.slots if e]

    def put(self, e):
        self.slots[self.slots.index(None)] = e

    def change(self, e, mask, give_back):
        """error or None"""
        base = set(e.now())
        acq, steal, rel = mask & self.free, mask - self.free - base, base - mask
        left, plan = set(steal), []
        for v in self.live():
            if v is e or not left:
                continue
            t = v.cur & steal
            if t:
                if v.dirty:
                    return "PERM"
                plan.append((v, t))
                left -= t
        if left:
            return "PERM"
        for v, t in plan:
            v.fut, v.dirty = v.cur - t, True
            v.stolen |= t
        if steal:
            e.fut |= steal
            e.stolen -= steal
            e.dirty = True
        if acq:
            self.free -= acq
            e.fut |= acq
            e.stolen -= acq
            e.dirty = True
        self.release(e, rel, give_back)
        return None

    def release(self, e, rel, give_back):
        if not rel:
            return
        for c in rel:
            o = next((v for v in self.live() if c in v.stolen), None) if give_back else None
            if o:
                o.fut.add(c)
                o.stolen.discard(c)
                o.dirty = True
            else:
                self.free.add(c)
        e.fut -= rel
        e.dirty = True

    def set(self, pid, mask, give_back):
        e = self.get(pid)
        if not e:
            return "NOPROC"
        if e.dirty:
            return "PDIRTY"
        return self.change(e, set(mask), give_back)

    def preinit(self, pid, mask):
        e = Ent(pid, reserved=True)
        if None not in self.slots:
            return "NOMEM"
        self.put(e)
        err = self.change(e, set(mask), False)
        if err:
            self.slots[self.slots.index(e)] = None
            return err
        e.cur, e.fut, e.dirty = set(mask), set(mask), False
        self.own(pid, mask)
        return None

    def own(self, pid, mask):
        self.co = {c: o for c, o in self.co.items() if o != pid}
        self.co.update((c, pid) for c in mask)

    def poll(self, e):
        e.cur, e.dirty = set(e.fut), False
        self.own(e.pid, e.cur)

    def register(self, pid, mask, reserved=False):
        if not set(mask) <= self.free or None not in self.slots or any(c in self.co for c in mask):
            return "PERM"
        self.free -= set(mask)
        self.own(pid, mask)
        self.put(Ent(pid, mask, reserved))
        return None

    def leave(self, pid, give_back):
        e = self.get(pid)
        if e:
            self.release(e, set(e.now()), give_back)
            self.slots[self.slots.index(e)] = None
            self.own(pid, ())
            if not self.live():
                self.free = set(self.all)

    def text(self):
        return "; ".join("%d%s %s->%s stolen %s%s" % (e.pid, " (reserved)" if e.reserved else "", fmt(e.cur), fmt(e.fut), fmt(e.stolen), " dirty" if e.dirty else "") for e in self.live()) + "; free " + fmt(self.free)


class Stop(Exception):
    pass


class App:
    """a program with pipes: a target, or a tool that launched one"""
    def __init__(self, s, cmd, env):
        self.cmd = cmd
        self.err = open(os.path.join(s.dir, "err%d" % s.nextfile()), "w+b")
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, start_new_session=True, cwd=s.dir)
        self.buf = b""
        s.apps.append(self)

    def line(self, want, timeout=60):
        """the next line of the output that starts with want (others are skipped)"""
        end = time.time() + timeout
        while True:
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1)
                l = l.decode("utf-8", "replace")
                if l.startswith(want):
                    return l.split()
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                return None
            self.buf += d

    def say(self, t):
        try:
            self.p.stdin.write((t + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            pass

    def wait(self, timeout=60):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        return self.p.returncode

    def errors(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")

    def end(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            pass
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


class Session:
    def __init__(self, c, exe, cpus, syscpus, variant, seed):
        self.c, self.exe, self.cpus, self.sys, self.variant, self.seed = c, exe[variant], cpus, syscpus, variant, seed
        self.rng = random.Random(seed)
        self.dir = os.path.join(c.work, "s%d" % seed)
        self.shm = os.path.join(self.dir, "shm")
        os.makedirs(self.shm)
        self.log = os.path.join(self.dir, "deleted")
        self.apps, self.hist, self.n = [], [], 0
        self.keys = {}

    def nextfile(self):
        self.n += 1
        return self.n

    def env(self, key, extra=""):
        e = vp.clean_env({"VP_SHM": self.shm, "VP_LOG": self.log, "DLB_ARGS": ("--shm-key=%s %s" % (key, extra)).strip() if key else extra})
        return e

    def tool(self, name, args, key, aff=None, timeout=60):
        cmd = [self.exe[name]] + args
        if aff:
            cmd = ["taskset", "-c", ",".join(map(str, sorted(aff)))] + cmd
        with open(os.path.join(self.dir, "out%d" % self.nextfile()), "w+b") as f:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=self.env(key), start_new_session=True, cwd=self.dir)
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.bad("C01/hang", "%s %s did not finish" % (name, args))
            f.seek(0)
            out = f.read().decode("utf-8", "replace")
        self.hist.append("%s %s => %d" % (name, " ".join(args), p.returncode))
        self.c.stat("runs")
        self.crashed(p.returncode, out, name)
        return p.returncode, out

    def crashed(self, rc, out, what):
        if rc == 99 or rc is not None and rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM) or re.search(r"AddressSanitizer|runtime error:|DLB PANIC", out):
            self.bad(vp.crash_key(out) + ":" + what, "%s ended with %s" % (what, rc), out)
        if "VP_SHM is not set" in out:
            raise vp.HarnessError("VP_SHM is lost")

    def bad(self, key, text, out=""):
        self.c.violation(key, "%s [%s]" % (text, "; ".join(self.hist[-6:])), ["session", str(self.seed), self.variant], "\n".join(self.hist) + "\n" + out)
        raise Stop()

    def check_log(self):
        if os.path.exists(self.log):
            for l in open(self.log, errors="replace"):
                if l.startswith("ESCAPE"):
                    self.bad("C01/escape", "a tool tried to delete something outside of /dev/shm: " + l)

    # ---- the state seen by the tools
    def table(self, out):
        """rows of the table of masks, by host lines"""
        rows, on = [], False
        for l in out.splitlines():
            if "=== Processes Masks ===" in l:
                on = True
            elif "===" in l:
                on = False
            elif on:
                m = re.search(r"\|\s*(\d+) \|\s*(\[[^]]*\]) \|\s*(\[[^]]*\]) \|\s*(\[[^]]*\]) \|\s*(\d) \|", l)
                if m:
                    rows.append((int(m.group(1)), parse(m.group(2)), parse(m.group(3)), parse(m.group(4)), int(m.group(5))))
        return rows

    def expect_rows(self, M):
        return [(e.pid, frozenset(e.cur), frozenset(e.fut), frozenset(e.stolen), int(e.dirty)) for e in M.live()]

    def look(self, key):
        M = self.keys[key]
        rc, out = self.tool("dlb_taskset", ["--list"] if self.rng.random() < .7 else ["-l60", "--color=no"], key)
        rows, want = self.table(out), self.expect_rows(M)
        if rc != 0:
            self.bad("C01/list-rc", "dlb_taskset --list ended with %d" % rc, out)
        if sorted(rows) != sorted(want):
            self.bad("C01/list", "dlb_taskset --list shows %s instead of %s" % (self.rowtext(rows), M.text()), out)
        self.c.stat("tables")
        self.c.stat("rows", len(rows))

    def rowtext(self, rows):
        return "; ".join("%d %s->%s stolen %s dirty %d" % (r[0], fmt(r[1]), fmt(r[2]), fmt(r[3]), r[4]) for r in rows)

    def pick(self, key=None):
        """some CPUs; with a key, often free ones"""
        n = self.rng.choice([1, 1, 2, 3, len(self.cpus)])
        cpus = self.cpus
        if key and self.rng.random() < .7:
            M = self.keys[key]
            cpus = [x for x in cpus if x in M.free and x not in M.co] or cpus
            n = min(n, max(1, len(cpus) // 2))
        return set(self.rng.sample(cpus, min(n, len(cpus))))


def err_text(err):
    return {"NOPROC": "-6", "PDIRTY": "-7", "PERM": "-8", "NOMEM": "-14"}[err]


def taskset_session(s, nops):
    rng, key = s.rng, "k%d" % s.seed
    M = s.keys[key] = Model(s.sys)
    apps = {}        # pid: (App, kind, aux)

    def expect(rc, out, err, what):
        if err is None and rc != 0:
            s.bad("C01/" + what + "-refused", "%s should have been done but ended with %d; %s" % (what, rc, M.text()), out)
        if err is not None and (rc == 0 or rc < 0):
            s.bad("C01/" + what + "-status", "%s should have failed (%s) but ended with %d; %s" % (what, err, rc, M.text()), out)

    def start():
        m = s.pick(key)
        a = App(s, ["taskset", "-c", ",".join(map(str, sorted(m))), s.exe["cli_target"], "mask"], s.env(key, "--drom"))
        r = a.line("READY")
        if r is None:
            s.crashed(a.wait(5), a.errors(), "target")
            raise vp.HarnessError("the target did not start: " + a.errors()[-500:])
        rc = int(r[2])
        s.hist.append("start %s on %s => %d" % (r[1], fmt(m), rc))
        err = M.register(int(r[1]), m)
        if (err is None) != (rc >= 0):
            s.bad("C01/start", "DLB_Init in a process with CPUs %s returned %d; %s" % (fmt(m), rc, M.text()))
        if err:
            a.say("exit 0")
            a.wait()
            s.crashed(a.p.returncode, a.errors(), "target")
            a.end()
        else:
            apps[int(r[1])] = (a, "target", False)

    def poll():
        ps = [p for p in apps if apps[p][1] in ("target", "launched-dlb", "run-dlb")]
        if not ps:
            return
        p = rng.choice(ps)
        a = apps[p][0]
        a.say("poll")
        r = a.line("POLL")
        if r is None:
            s.crashed(a.wait(5), a.errors(), "target")
            s.bad("C01/poll", "process %d does not answer" % p, a.errors())
        e = M.get(p)
        s.hist.append("poll %d => %s %s" % (p, r[1], r[3]))
        want = ("0", "1", frozenset(e.fut)) if e.dirty else ("2", "0", None)
        got = (r[1], r[2], parse(r[3]) if r[2] == "1" else None)
        if got != want:
            s.bad("C01/poll", "process %d polled and got %s instead of %s; %s" % (p, r[1:], want, M.text()))
        if e.dirty:
            M.poll(e)
            s.c.stat("polled_changes")

    def query():
        ps = [e.pid for e in M.live()] + [NOPID]
        p = rng.choice(ps)
        e = M.get(p)
        rc, out = s.tool("dlb_taskset", rng.choice([["--list", "--pid", str(p)], ["-l", "-p", str(p)], ["--list=80", "--pid=%d" % p]]), key)
        expect(rc, out, None if e else "NOPROC", "list-pid")
        if e:
            m = re.search(r"PID (\d+)'s current affinity CPU list: (\[.*\])", out)
            if not m or int(m.group(1)) != p or parse(m.group(2)) != frozenset(e.now()):
                s.bad("C01/list-pid", "dlb_taskset --list --pid %d shows %r; %s" % (p, out[-200:], M.text()), out)
        s.c.stat("queries")

    def setmask():
        p = rng.choice([e.pid for e in M.live()] * 4 + [NOPID])
        mask = s.pick()
        borrow = rng.random() < .25
        o = rng.choice(["--set", "-s", "-c", "--cpus"])
        args = [o, arg(rng, mask)] + (["--pid", str(p)] if rng.random() < .6 else ["-p", str(p)])
        if rng.random() < .3:
            args = args[2:] + args[:2]
        args += ["--borrow"] if borrow else []
        rc, out = s.tool("dlb_taskset", args, key)
        err = M.set(p, mask, borrow)
        expect(rc, out, err, "set")
        if err:
            if ("Return code %s " % err_text(err)) not in out:
                s.bad("C01/set-error", "the message of a refused change (%s) is %r" % (err, out[-300:]), out)
        else:
            m = re.search(r"PID (\d+)'s affinity set to: (\[.*\])", out)
            if not m or int(m.group(1)) != p or parse(m.group(2)) != frozenset(mask):
                s.bad("C01/set-message", "after --set %s in %d the tool says %r" % (fmt(mask), p, out[-200:]), out)
        s.c.stat("sets")
        s.c.stat("sets_" + (err or "done"))
        s.c.sig(("set", args[0][:3], err, borrow, len(mask), len(M.live())))

    def remove():
        cpus = s.pick()
        p = rng.choice([0, 0] + [e.pid for e in M.live()] * 2 + [NOPID])
        args = [rng.choice(["--remove", "-r"]), arg(rng, cpus)] + (["--pid", str(p)] if p else [])
        rc, out = s.tool("dlb_taskset", args, key)
        err, said = None, []
        for q in [p] if p else [e.pid for e in M.live()]:
            e = M.get(q)
            if not e:
                err = "NOPROC"
                break
            if e.now() & cpus:
                new = e.now() - cpus
                err = M.set(q, new, False)
                if err:
                    break
                said.append((q, frozenset(new)))
        expect(rc, out, err, "remove")
        got = [(int(a), parse(b)) for a, b in re.findall(r"PID (\d+)'s affinity set to: (\[.*\])", out)]
        if got != said:
            s.bad("C01/remove-message", "--remove %s --pid %d says %s instead of %s" % (fmt(cpus), p, got, said), out)
        s.c.stat("removes")
        s.c.sig(("remove", bool(p), err, len(said), len(M.live())))

    def invalid():
        live = [e.pid for e in M.live()]
        p = str(rng.choice(live)) if live else str(NOPID)
        l = arg(rng, s.pick())
        bad = rng.choice([
            [], ["--set", l], ["--pid", p], ["--list", "--remove", l], ["--list", "--set", l], ["--bogus"], ["--set", l, "--remove", l],
            ["--list", "/bin/true"], ["--remove", l, "/bin/true"], ["--set", l, "--pid", p, "/bin/true"], ["--getpid", "0", "--list"],
            ["--set", "zz", "--pid", p], ["--set", "", "--pid", p], ["--set", "1;2", "--pid", p], ["--set", "0xZZ", "--pid", p], ["--remove", "all", "--pid", p], ["--remove", "all"], ["--remove", ""],
            ["--set", l, "--pid", "abc"], ["--set", l, "--pid", p + "x"], ["--set", l, "--pid", ""], ["--set", l, "--pid", "0"],
            ["--remove", l, "--pid", "abc"], ["--remove", l, "--pid", "all"], ["--remove", l, "--pid", "-1"], ["--remove", l, "--pid", "0"], ["--list", "--pid", "abc"], ["--list", "--pid", "99999999999999999999"],
            ["--set"], ["--remove"], ["--pid"], ["--set", "zz", "/bin/true"]])
        rc, out = s.tool("dlb_taskset", bad, key)
        if rc <= 0:
            s.bad("C01/invalid:%s" % bad[0] if bad else "C01/invalid:none", "dlb_taskset %s ended with %d; %s" % (bad, rc, M.text()), out)
        s.c.stat("invalid")
        s.c.sig(("invalid", tuple(x if not x.isdigit() else "N" for x in bad[:1] + bad[2:3]), len(live)))
        s.look(key)

    def getpid():
        pids = [e.pid for e in M.live()]
        k = rng.randrange(max(1, len(pids)))
        rc, out = s.tool("dlb_taskset", ["--getpid", str(k)], key)
        if pids and (rc != 0 or out.split() != [str(pids[k])]):
            s.bad("C01/getpid", "dlb_taskset --getpid %d says %r (%d); processes %s" % (k, out[-100:], rc, pids), out)
        s.c.stat("getpid")

    def launch(tool):
        if len(apps) >= min(5, len(s.sys) - 1):
            return
        dlb = rng.random() < .6
        borrow = tool == "dlb_taskset" and rng.random() < .5
        mask = s.pick(key if tool == "dlb_run" else None)
        explicit = tool == "dlb_taskset" and rng.random() < .7
        if explicit:
            pre, targs = [], [rng.choice(["--set", "-c", "-s", "--cpus"]), arg(rng, mask)] + (["--borrow"] if borrow else [])
        else:
            pre, targs = ["taskset", "-c", ",".join(map(str, sorted(mask)))], (["-b"] if borrow else [])
        if tool == "dlb_run" and rng.random() < .4:
            targs = ["--verbose"]
        env = s.env(key, "--drom" if tool == "dlb_run" or rng.random() < .5 else "")
        omp = rng.random() < .3
        if omp:
            env["OMP_NUM_THREADS"] = "77"
        sh = ["sh", "-c", 'echo READY $$ 0 "[$(taskset -pc $$ | sed "s/.*: *//")]" ${OMP_NUM_THREADS:--}; while read a b; do case $a in exit|quit) exit $b;; kill) kill -9 $$;; esac; done']
        kind = rng.choice(["dlb", "dlb", "dlb", "missing"]) if dlb else rng.choice(["sh", "sh", "sh", "missing"])
        app = {"dlb": [s.exe["cli_target"], rng.choice(["mask", "null"])], "sh": sh, "missing": [os.path.join(s.dir, "missing")]}[kind]
        cmd = pre + [s.exe[tool]] + targs + app
        before = M.text()
        a = App(s, cmd, env)
        tp = a.p.pid
        r = a.line("READY")
        s.hist.append("%s %s%s %s on %s => %s" % (tool, " ".join(targs), " borrow" if borrow else "", kind, fmt(mask), r))
        s.c.stat("launches")
        s.c.sig(("launch", tool, kind, borrow, explicit, len(M.live())))
        if r is None:
            # it must have failed for a reason
            rc = a.wait()
            s.crashed(rc, a.errors(), tool)
            x = 4190001
            err = M.preinit(x, mask) if tool == "dlb_taskset" else M.register(x, mask, True)
            if err is None:
                M.leave(x, borrow)
                if kind != "missing":
                    s.bad("C01/launch", "%s did not run the application, and ended with %s; %s" % (tool, rc, before), a.errors())
            if not rc or rc < 0:
                s.bad("C01/launch-status", "%s could not run the application (%s, %s) but ended with %s" % (tool, kind, err, rc), a.errors())
            s.c.stat("launches_failed")
            a.end()
            return
        pid = int(r[1])
        if kind == "missing":
            raise vp.HarnessError("a missing program has started")
        err = M.preinit(pid, mask) if tool == "dlb_taskset" else M.register(tp, mask, True)
        if err:
            s.bad("C01/launch-perm", "%s ran the application, but its CPUs cannot be taken (%s); %s" % (tool, err, before), a.errors())
        if kind == "dlb":
            e = M.get(pid if tool == "dlb_taskset" else tp)
            M.own(e.pid, ())
            e.pid, e.reserved = pid, False
            M.own(pid, e.cur)
            if int(r[2]) < 0:
                s.bad("C01/launch-init", "DLB_Init in an application started by %s returned %s; %s" % (tool, r[2], M.text()), a.errors())
        elif tool == "dlb_run":
            pass
        if parse(r[3]) != frozenset(mask):
            s.bad("C01/launch-affinity", "an application started by %s with CPUs %s runs on %s" % (tool, fmt(mask), r[3]), a.errors())
        want_omp = "-" if not omp else (str(len(mask)) if tool == "dlb_taskset" else "77")
        if r[4] != want_omp:
            s.bad("C01/launch-omp", "an application started by %s with %d CPUs has OMP_NUM_THREADS=%s instead of %s" % (tool, len(mask), r[4], want_omp), a.errors())
        # what the application found may include a change of its own mask made meanwhile by nobody: none
        apps[pid] = (a, {"dlb": "launched-dlb" if tool == "dlb_taskset" else "run-dlb", "sh": "launched-sh" if tool == "dlb_taskset" else "run-sh"}[kind], borrow)
        if kind == "sh" and tool == "dlb_run":
            apps[tp] = apps.pop(pid)
        s.c.stat("launched_" + tool)

    def finish(p=None, how=None):
        if not apps:
            return
        p = p or rng.choice(list(apps))
        a, kind, borrow = apps.pop(p)
        how = how or rng.choice(["exit", "exit", "exit", "quit", "kill"])
        n = rng.choice([0, 0, 3])
        if kind.startswith("run") and how == "exit" and rng.random() < .25:
            how = "signal"
            a.p.send_signal(rng.choice([signal.SIGTERM, signal.SIGINT]))
            time.sleep(.05)
            a.say("exit %d" % n)
        else:
            a.say("kill" if how == "kill" else "%s %d" % (how, n))
        rc = a.wait()
        s.hist.append("%s of %d (%s) with %d => %s" % (how, p, kind, n, rc))
        if rc is None:
            s.bad("C01/end-hang", "%s did not end after its application" % a.cmd, a.errors())
        if kind == "target" and how == "kill":
            pass
        else:
            s.crashed(rc, a.errors(), kind)
            if how == "signal":
                okrc = rc != 0
            elif kind == "target":
                okrc = rc == n
            else:
                okrc = rc == n if how != "kill" else rc != 0
            if not okrc:
                s.bad("C01/end-status", "%s ended with %s when the application ended with %s (%s)" % (kind, rc, n, how), a.errors())
        M.leave(p, borrow)
        if kind == "run-dlb" and how in ("quit", "kill"):
            pass
        a.end()
        s.c.stat("ends")
        s.c.stat("ends_" + how)
        s.c.sig(("end", kind, how, borrow, len(M.live())))

    for i in range(nops):
        r = rng.random()
        n = len(M.live())
        if n == 0 or r < .12 and n < min(4, len(s.sys) - 1):
            start()
        elif r < .27:
            poll()
        elif r < .34:
            query()
        elif r < .54:
            setmask()
        elif r < .65:
            remove()
        elif r < .71:
            invalid()
        elif r < .74:
            getpid()
        elif r < .83:
            launch("dlb_taskset")
        elif r < .90:
            launch("dlb_run")
        else:
            finish()
        s.look(key)
        s.c.stat("ops")
    for p in list(apps):
        finish(p)
        s.look(key)
    left = [f for f in os.listdir(s.shm) if f.startswith(("DLB_", "sem.DLB_"))]
    if left:
        s.bad("C01/files-left", "%s are left after all processes ended" % left)
    s.check_log()


def shm_session(s):
    rng = s.rng
    names = rng.sample(["a", "ab", "job_1", "x-%d" % s.seed, "cafe", "9", "job_12"], rng.choice([0, 1, 2, 3]))
    for k in names:
        M = s.keys[k] = Model(s.sys)
        for _ in range(rng.choice([1, 1, 2])):
            m = s.pick()
            if not m <= M.free:
                continue
            a = App(s, ["taskset", "-c", ",".join(map(str, sorted(m))), s.exe["cli_target"], "mask"], s.env(k, "--drom" + rng.choice(["", " --lewi", " --barrier"])))
            r = a.line("READY")
            if r is None or int(r[2]) < 0:
                s.crashed(a.wait(5), a.errors(), "target")
                raise vp.HarnessError("the target did not start: %s %s" % (r, a.errors()[-500:]))
            M.register(int(r[1]), m)
    # other things in the directory
    other = {}

    def mk(name, kind):
        p = os.path.join(s.shm, name)
        if os.path.lexists(p):
            return
        if kind == "dir":
            os.mkdir(p)
        elif kind == "link":
            t = os.path.join(s.dir, "victim%d" % s.nextfile())
            open(t, "w").close()
            os.symlink(t, p)
        elif kind == "fifo":
            os.mkfifo(p)
        else:
            open(p, "w").close()
            if kind == "foreign":
                try:
                    os.chown(p, 12345, 12345)
                except OSError:
                    os.unlink(p)
                    return
        other[name] = kind
    for name, kind in rng.sample([("sem.foo", "file"), ("foo", "file"), ("dlb_cpuinfo_a", "file"), ("xDLB_q", "file"), (".DLB_hidden", "file"), ("DLB_dir", "dir"), ("DLB_link", "link"), ("DLB_fifo", "fifo"),
                                  ("DLB_theirs", "foreign"), ("sem.DLB_theirs", "foreign"), ("DLB_old", "file"), ("sem.DLB_old", "file"), ("DLB", "file"), ("PSM_1", "file"), ("DLB_ with space", "file"), ("DLB_-rf", "file")], rng.randrange(3, 12)):
        mk(name, kind)
    # list
    rc, out = s.tool("dlb_shm", rng.choice([["--list"], ["-l"], ["--list=60"], ["-l", "--color=no"]]), None)
    if rc != 0:
        s.bad("C01/shm-list-rc", "dlb_shm --list ended with %d" % rc, out)
    found = re.findall(r"Found DLB shmem with id: (.*)", out)
    if sorted(found) != sorted(k for k in names if s.keys[k].live()):
        s.bad("C01/shm-list", "dlb_shm --list found %s instead of %s" % (found, names), out)
    # one part of the output for each key; standard output and error share the file, use the pids to tell keys apart
    rows = s.table(out)
    want = [r for k in names for r in s.expect_rows(s.keys[k])]
    if sorted(rows) != sorted(want):
        s.bad("C01/shm-list-rows", "dlb_shm --list shows %s instead of %s" % (s.rowtext(rows), s.rowtext(want)), out)
    s.c.stat("shm_lists")
    s.c.stat("rows", len(rows))
    for bad in (["--list", "--delete"], [], ["--bogus"], ["--create", "--delete"]):
        if rng.random() < .4:
            before = sorted(os.listdir(s.shm))
            rc, out = s.tool("dlb_shm", bad, None)
            if rc <= 0 or sorted(os.listdir(s.shm)) != before:
                s.bad("C01/shm-invalid", "dlb_shm %s ended with %d, and files %s -> %s" % (bad, rc, before, sorted(os.listdir(s.shm))), out)
            s.c.stat("invalid")
    before = set(os.listdir(s.shm))
    if rng.random() < .8:
        rc, out = s.tool("dlb_shm", rng.choice([["--delete"], ["-d"]]), None)
        after = set(os.listdir(s.shm))
        go = {n for n in before if (n.startswith("DLB_") or n.startswith("sem.DLB_")) and other.get(n, "file") == "file"}
        if rc != 0 or after != before - go:
            s.bad("C01/shm-delete", "dlb_shm --delete ended with %d and left %s instead of %s" % (rc, sorted(after), sorted(before - go)), out)
        s.c.stat("shm_deletes")
        s.c.stat("deleted", len(go))
        s.c.sig(("delete", tuple(sorted(other.values())), len(names)))
    for n, k in other.items():
        if k == "link" and not os.path.exists(os.path.join(s.shm, n)):
            s.bad("C01/shm-delete-target", "the file a link pointed to was deleted")
    s.check_log()
    for a in s.apps:
        a.say("quit 0")


def misc_session(s):
    rng = s.rng
    m = s.pick()
    rc, out = s.tool("dlb", [rng.choice(["--affinity", "-a"])], None, aff=m)
    g = re.search(r"Process affinity: (\[.*\])", out)
    if rc != 0 or not g or parse(g.group(1)) != frozenset(m):
        s.bad("C01/dlb-affinity", "dlb --affinity on %s says %r (%d)" % (fmt(m), out[-200:], rc), out)
    key = "m%d" % s.seed
    for a, word in ((["--help"], "--lewi"), (["-hh"], "--shm-key"), (["--help-extra"], "--shm-key"), (["--version"], "")):
        rc, out = s.tool("dlb", a, key)
        if rc != 0 or word not in out:
            s.bad("C01/dlb-help", "dlb %s ended with %d" % (a, rc), out)
        if word == "--shm-key" and not re.search(r"--shm-key.*%s" % key, out):
            s.bad("C01/dlb-help-value", "dlb %s does not show the current value of --shm-key" % a, out)
    for t in TOOLS:
        for a, ok in ((["--version"], True), (["--bogus"], False), ([], False)) + (((["--help"], True),) if t != "dlb" else ()):
            rc, out = s.tool(t, a, key)
            if (rc == 0) != ok or rc < 0:
                s.bad("C01/%s-status" % t, "%s %s ended with %d" % (t, a, rc), out)
            s.c.stat("invalid" if not ok else "valid")
    if os.listdir(s.shm):
        s.bad("C01/files-left", "%s are left after informative runs" % os.listdir(s.shm))
    s.check_log()
    s.c.sig(("misc", len(m)))


def C01(c):
    exe = {}
    for v in ("plain", "asan"):
        lib = Lib(v)
        exe[v] = {t: lib.exe("cli_" + t, [os.path.join(REPO, "src", "utils", t + ".c"), "cli_shim.c"], extra=LINK) for t in TOOLS}
        exe[v]["cli_target"] = lib.exe("cli_target", ["cli_target.c", "cli_shim.c"], extra=LINK)
    cpus = sorted(os.sched_getaffinity(0))[:8]
    if len(cpus) < 2:
        raise vp.HarnessError("this check needs two CPUs")
    # the CPUs DLB sees
    r = subprocess.run(["getconf", "_NPROCESSORS_CONF"], stdout=subprocess.PIPE, text=True)
    n = int(r.stdout) if r.returncode == 0 else os.cpu_count()
    syscpus = list(range(n))

    def one(i):
        seed = c.seed * 100000 + i + 1
        s = Session(c, exe, cpus, syscpus, "asan" if i % 3 == 0 else "plain", seed)
        try:
            if i % 12 == 11:
                misc_session(s)
            elif i % 4 == 3:
                shm_session(s)
            else:
                taskset_session(s, s.rng.choice([10, 25, 40]))
        except Stop:
            pass
        finally:
            for a in s.apps:
                a.end()
            shutil.rmtree(s.dir, ignore_errors=True)
    c.pmap(one, range(c.scale(240, 3000)), 8)
    c.sample("10-40 operations on one key: targets start, poll, end, crash; dlb_taskset lists, sets, removes and launches, dlb_run launches, with every form of CPU list and invalid arguments; the table of masks is compared with a model after each")
    c.evaluations = sum(c.stats.get(k, 0) for k in ("runs", "rows", "polled_changes", "ends"))
    c.finish("distinct (operation, form, outcome, number of processes); an evaluation is one run of a tool, row of masks, change delivered or end of an application compared with the model",
             800, ("tables", "rows", "sets_done", "sets_PDIRTY", "removes", "invalid", "launched_dlb_taskset", "launched_dlb_run", "launches_failed", "ends_kill", "ends_quit", "polled_changes", "shm_lists", "shm_deletes", "deleted", "getpid"))
