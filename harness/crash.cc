/* S02: processes are killed at random points outside critical sections (before taking and after releasing the lock of a
 * shared memory, around opening and closing it, in a callback, or between calls); then others attach and the survivors
 * and the newcomers have to be able to use everything.
 * usage: crash SEED HISTORIES ROUNDS KEY */
#include "vh.h"
#include <dlb.h>
#include <dlb_drom.h>
#include <dlb_talp.h>
#include <dirent.h>
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" { void mu_testing_set_sys(unsigned int, unsigned int, unsigned int); void shmem_async_wait_for_completion(pid_t); }
using std::string; using std::vector; using std::set; using std::map; using std::to_string;
enum { INIT, FIN, LEND, LENDMASK, RECLAIM, RECLAIMMASK, BORROW, BORROWMASK, BORROWN, ACQMASK, ACQCPU, ACQN, RET, SETMASK, POLLDROM, REGION, BARRIER, DRAIN, LENDN, PRINT, LOOK, QUIT, NOPS };
static const char *ON[] = {"Init", "Finalize", "Lend", "LendCpuMask", "Reclaim", "ReclaimCpuMask", "Borrow", "BorrowCpuMask", "BorrowCpus", "AcquireCpuMask", "AcquireCpu", "AcquireCpus", "Return", "SetProcessMask", "PollDROM_Update", "Region", "Barrier", "drain", "LendCpus", "print", "look", "quit"};
struct Cmd { int op, kill_at, n, pid; uint64_t mask; bool async; char opts[400]; };
struct Res { int rc, npids, pids[64], prc; uint64_t masks[64]; int mrc[64]; uint64_t use; int nt, ntp, tpids[64], trc[64], calls; int64_t meas; };
static rng_t r; static map<string, long> st; static int NC; static string hist, base; static double LIM = 60;
static void bad(const char *key, const string &t) { if (getenv("TR")) fprintf(stderr, "TR VIOLATION %s\n", t.c_str()); VIOL(key, "%s. %d CPUs, history: %s", t.c_str(), NC, hist.size() > 2200 ? hist.substr(hist.size() - 2200).c_str() : hist.c_str()); }
static void all(int fd, void *p, size_t n, bool w) { char *c = (char*)p; while (n) { ssize_t k = w ? write(fd, c, n) : read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(w ? 4 : 5); } c += k; n -= k; } }
static cpu_set_t tomask(uint64_t b) { cpu_set_t m; CPU_ZERO(&m); for (int i = 0; i < 64; i++) if (b >> i & 1) CPU_SET(i, &m); return m; }
static uint64_t bits(const cpu_set_t *m) { uint64_t b = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, m)) b |= 1ull << i; return b; }
static string S(uint64_t m) { string o; for (int i = 0; i < 64; i++) if (m >> i & 1) o += (o.empty() ? "" : ",") + to_string(i); return "{" + o + "}"; }
/* ---- worker ---- */
static volatile int kill_at = -1; static int held; static pthread_mutex_t km = PTHREAD_MUTEX_INITIALIZER; static uint64_t use; static int nt; static pthread_t mainth; static bool isw;
static bool asy; /* asynchronous: a process killed after changing the shared memory does not notify the others, see finding() */
static void point(bool late = false) { if (!isw || kill_at < 0 || (asy && (late || !pthread_equal(pthread_self(), mainth)))) return; pthread_mutex_lock(&km); if (kill_at > 0 && pthread_equal(pthread_self(), mainth)) kill_at--; if (kill_at == 0 && held == 0) { kill(getpid(), SIGKILL); while (1) pause(); } pthread_mutex_unlock(&km); }
static void hold(int d) { if (!isw) return; pthread_mutex_lock(&km); held += d; pthread_mutex_unlock(&km); }
extern "C" {
void __real_shmem_lock(void*); void __wrap_shmem_lock(void *h) { point(); hold(1); __real_shmem_lock(h); }
void __real_shmem_unlock(void*); void __wrap_shmem_unlock(void *h) { __real_shmem_unlock(h); hold(-1); point(true); }
void *__real_shmem_init(void *, const void *); void *__wrap_shmem_init(void *a, const void *p) { point(); hold(1); void *x = __real_shmem_init(a, p); hold(-1); point(); return x; }
void __real_shmem_finalize(void*, bool (*)(void)); void __wrap_shmem_finalize(void *h, bool (*f)(void)) { point(true); hold(1); __real_shmem_finalize(h, f); hold(-1); point(true); }
}
static void cb_en(int c, void *) { point(true); __sync_fetch_and_or(&use, 1ull << c); } static void cb_dis(int c, void *) { point(true); __sync_fetch_and_and(&use, ~(1ull << c)); } static void cb_nt(int n, void *) { point(true); nt = n; } static void cb_mask(const cpu_set_t *m, void *) { point(true); use = bits(m); }
static bool async_; static bool lateok;
static void worker(int in, int out, bool mask) {
    isw = true; mainth = pthread_self(); bool on = false; asy = async_ && !lateok;
    while (1) {
        Cmd c; all(in, &c, sizeof c, false); Res s; memset(&s, 0, sizeof s); cpu_set_t m = tomask(c.mask); kill_at = c.kill_at;
        if (c.op == INIT) setenv("DLB_ARGS", c.opts, 1);
        switch (c.op) {
            case INIT: use = c.mask; nt = __builtin_popcountll(c.mask); s.rc = DLB_Init(nt, &m, c.opts); if (s.rc == DLB_SUCCESS) { on = true; if (mask) { DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, 0); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, 0); DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, 0); } else DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_nt, 0); } break;
            case FIN: s.rc = DLB_Finalize(); on = false; break;
            case LEND: use = 0; s.rc = DLB_Lend(); break;
            case LENDMASK: __sync_fetch_and_and(&use, ~c.mask); s.rc = DLB_LendCpuMask(&m); break; case RECLAIM: s.rc = DLB_Reclaim(); break; case RECLAIMMASK: s.rc = DLB_ReclaimCpuMask(&m); break;
            case BORROW: s.rc = DLB_Borrow(); break; case BORROWMASK: s.rc = DLB_BorrowCpuMask(&m); break; case BORROWN: s.rc = DLB_BorrowCpus(c.n); break;
            case ACQMASK: s.rc = DLB_AcquireCpuMask(&m); break; case ACQCPU: s.rc = DLB_AcquireCpu(c.n); break; case ACQN: s.rc = DLB_AcquireCpus(c.n); break; case RET: s.rc = DLB_Return(); break; case LENDN: s.rc = DLB_LendCpus(c.n); break;
            case SETMASK: s.rc = DLB_DROM_SetProcessMask(c.pid, &m, (dlb_drom_flags_t)0); break; case POLLDROM: s.rc = DLB_PollDROM_Update(); break;
            case REGION: { char n[20]; snprintf(n, 20, "r%d", c.n); dlb_monitor_t *q = DLB_MonitoringRegionRegister(n); s.rc = DLB_MonitoringRegionStart(q); usleep(100); DLB_MonitoringRegionStop(q); if (q) s.meas = q->num_measurements; break; }
            case BARRIER: s.rc = DLB_Barrier(); break; case DRAIN: if (c.async && on) shmem_async_wait_for_completion(getpid()); break;
            case LOOK: { s.npids = -1; s.prc = DLB_DROM_GetPidList(s.pids, &s.npids, 64); if (s.prc == 0) for (int i = 0; i < s.npids; i++) { cpu_set_t g; CPU_ZERO(&g); s.mrc[i] = DLB_DROM_GetProcessMask(s.pids[i], &g, (dlb_drom_flags_t)0); s.masks[i] = bits(&g); }
                s.ntp = -1; if (c.n) { DLB_TALP_Attach(); DLB_SetObserverRole(false); DLB_TALP_GetPidList(s.tpids, &s.ntp, 64); for (int i = 0; i < s.ntp && i < 64; i++) { double a, b; s.trc[i] = DLB_TALP_GetTimes(s.tpids[i], &a, &b); } DLB_TALP_Detach(); } break; }
            case PRINT: DLB_PrintShmem(0, DLB_COLOR_AUTO); break;
            case QUIT: all(out, &s, sizeof s, true); _exit(0);
        }
        kill_at = -1; s.use = use; s.nt = nt; all(out, &s, sizeof s, true);
    }
}
/* ---- coordinator ---- */
struct W { pid_t pid; int in, out; bool alive = false, on = false; uint64_t own = 0; uint64_t use = 0; int nt = 0, ini = 0; Cmd c; Res s; };
static vector<W*> ws; static bool dead; enum { MP, MA, CP, CA }; static int kind; static uint64_t orphan; /* CPUs whose owner was killed */ static bool mask, drom, talp, barrier, pm;
static void spawn() { W *w = new W; int a[2], b[2]; if (pipe(a) || pipe(b)) HARNESS_ERROR("pipe"); w->pid = fork(); if (!w->pid) { close(a[1]); close(b[0]); for (W *o : ws) if (o->alive) { close(o->in); close(o->out); } if (!getenv("VE")) stderr = fopen("/dev/null", "w"); worker(a[0], b[1], mask); } close(a[0]); close(b[1]); w->out = a[1]; w->in = b[0]; w->alive = true; memset(&w->c, 0, sizeof w->c); w->c.kill_at = -1; ws.push_back(w); }
static void send(W &w, int op, uint64_t m = 0, int n = 0, int kat = -1, int pid = 0) { w.c.op = op; w.c.mask = m; w.c.n = n; w.c.kill_at = kat; w.c.pid = pid; w.c.async = async_; all(w.out, &w.c, sizeof w.c, true); }
static void bury(W &w) { int stt; waitpid(w.pid, &stt, 0); close(w.in); close(w.out); w.alive = false; w.on = false; if (!WIFSIGNALED(stt) || WTERMSIG(stt) != SIGKILL) { bad("S02/died", string("process ") + to_string(w.pid) + " ended during " + ON[w.c.op] + " with status " + to_string(stt)); dead = true; } }
static bool recv_(W &w) { /* false if it was killed, as planned */
    char *c = (char*)&w.s; size_t n = sizeof w.s; double t0 = now_s(); while (n) { struct pollfd p = {w.in, POLLIN, 0}; int k = poll(&p, 1, 1000); if (k == 0) { if (now_s() - t0 > LIM) { bad("S02/hang", string(ON[w.c.op]) + " of process " + to_string(w.pid) + " does not return"); dead = true; kill(w.pid, SIGKILL); waitpid(w.pid, 0, 0); close(w.in); close(w.out); w.alive = w.on = false; return false; } continue; } ssize_t l = read(w.in, c, n); if (l <= 0) { if (l < 0 && errno == EINTR) continue; bool planned = w.c.kill_at >= 0; bury(w); if (!dead && !planned) { bad("S02/died", "killed?"); dead = true; } return false; } c += l; n -= l; }
    w.use = w.s.use; w.nt = w.s.nt; if (getenv("TR")) fprintf(stderr, "TR %d %s(%d,%s) -> %d nt %d/%d use %s own %s\n", w.pid, ON[w.c.op], w.c.n, S(w.c.mask).c_str(), w.s.rc, w.nt, w.ini, S(w.use).c_str(), S(w.own).c_str()); return true; }
static void drain() { if (async_) for (W *w : ws) if (w->on && !dead) { send(*w, DRAIN); recv_(*w); } if (async_) for (W *w : ws) if (w->on && !dead) { send(*w, DRAIN); recv_(*w); } }
static int call(W &w, int op, uint64_t m = 0, int n = 0, int pid = 0) { send(w, op, m, n, -1, pid); if (!recv_(w)) return -99; return w.s.rc; }
static void options(W &w) { /* no LeWI in the barrier: it would lend the CPUs that the thread really has, which are not those of the process here */ snprintf(w.c.opts, sizeof w.c.opts, "--shm-key=%s %s --lewi --mode=%s %s %s %s %s %s", base.c_str(), getenv("VE") ? "" : "--quiet=yes", async_ ? "async" : "polling", mask ? "--lewi-affinity=mask" : "--lewi-affinity=none", drom ? "--drom" : "--no-drom", talp ? "--talp --talp-external-profiler" : "--no-talp", barrier ? "--barrier --lewi-barrier=no" : "--no-barrier", pm ? "--debug-opts=lend-post-mortem" : ""); }
static uint64_t fullmask() { return NC == 64 ? ~0ull : (1ull << NC) - 1; }
static uint64_t rmask() { uint64_t b = rng_next(&r) & fullmask(); if (rnd(&r, 2)) b &= rng_next(&r); return b; }
static bool init(W &w, uint64_t m, int kat, bool must) {
    orphan &= ~m;
    options(w); hist += "P" + to_string(w.pid % 1000) + ":Init" + S(m) + " "; w.own = m; send(w, INIT, m, 0, kat); if (!recv_(w)) return false; if (w.s.rc == DLB_SUCCESS) { w.on = true; w.ini = __builtin_popcountll(m); st["inits"]++; return true; }
    if (must) bad("S02/init", "DLB_Init with mask " + S(m) + " gives " + to_string(w.s.rc)); w.own = 0; return false; }
static vector<W*> live() { vector<W*> v; for (W *w : ws) if (w->on) v.push_back(w); return v; }
static bool mod_list() { return mask || drom || talp; }
static void op(W &w, int kat) {
    int o; uint64_t m = 0; int n = 0, pid = 0; if (mask) { static const int A[] = {LEND, LENDMASK, LENDMASK, LENDMASK, RECLAIM, RECLAIMMASK, BORROW, BORROWMASK, BORROWN, ACQMASK, ACQMASK, ACQCPU, ACQCPU, ACQN, RET, SETMASK, POLLDROM, REGION}; o = A[rnd(&r, 18)]; } else if (async_) { static const int A[] = {LEND, LENDN, LENDN, RECLAIM, BORROW, BORROWN, ACQN, ACQN, REGION}; o = A[rnd(&r, 9)]; } else { static const int A[] = {LEND, RECLAIM, BORROW, BORROWN, REGION}; o = A[rnd(&r, 5)]; }
    if (o == REGION && !talp) o = RECLAIM; if (o == SETMASK && !drom) o = RET; if (o == POLLDROM && !drom) o = BORROW; if (async_ && o == RET) o = RECLAIM; if (async_ && o == POLLDROM) o = BORROW;
    if (o == LENDMASK) { m = w.use; if (rnd(&r, 2)) m &= rng_next(&r); if (!m) return; } if (o == RECLAIMMASK) { m = w.own & rng_next(&r); if (!m) return; } if (o == BORROWMASK || o == ACQMASK) { m = rmask(); if (!m) return; } if (o == ACQCPU) n = rnd(&r, NC); if (o == BORROWN || o == ACQN) n = 1 + rnd(&r, 4); if (o == REGION) n = rnd(&r, 3); if (o == LENDN) { if (w.nt < 1) return; n = 1 + rnd(&r, w.nt); }
    if (o == SETMASK) { auto l = live(); W &t = *l[rnd(&r, l.size())]; uint64_t used = 0; for (W *x : l) if (x != &t) used |= x->own; uint64_t others = 0; for (W *x : ws) if (!x->on) others |= x->own; m = (t.own & rng_next(&r)) ; if (!m || &t == &w || async_) return; pid = t.pid; hist += "P" + to_string(w.pid % 1000) + ":SetMask(" + to_string(t.pid % 1000) + "," + S(m) + ") "; send(w, o, m, 0, kat, pid); bool ok = recv_(w); if (dead) return; /* the target takes it */ call(t, POLLDROM); if (dead) return; (void)ok; t.own = t.s.rc == DLB_SUCCESS ? m : t.own; st["masks_set"] += t.s.rc == DLB_SUCCESS; orphan = 0; /* a CPU borrowed before is not known to be given back */ return; }
    hist += "P" + to_string(w.pid % 1000) + ":" + ON[o] + (m ? S(m) : "(" + to_string(n) + ")") + " "; send(w, o, m, n, kat, pid); recv_(w); st["ops"]++;
}
static void verify(const set<pid_t> &gone) {
    auto L = live(); drain(); if (dead) return; st["verifications"]++;
    if (mod_list()) for (W *w : L) { call(*w, LOOK, 0, talp); if (dead) return; Res &s = w->s; if (s.prc) { bad("S02/list", "reading the process list gives " + to_string(s.prc)); continue; }
        set<int> got(s.pids, s.pids + std::max(0, s.npids)), want; for (W *x : L) want.insert(x->pid); for (int p : got) if (!want.count(p)) bad("S02/list", "process " + to_string(p) + (gone.count(p) ? ", killed," : "") + " is in the process list"); for (int p : want) if (!got.count(p)) bad("S02/list", "process " + to_string(p) + " is not in the process list"); st["lists"]++;
        for (int i = 0; i < s.npids; i++) for (W *x : L) if (x->pid == s.pids[i]) { if (s.mrc[i] || s.masks[i] != x->own) bad("S02/mask", "the mask of process " + to_string(x->pid % 1000) + " is " + S(s.masks[i]) + " (code " + to_string(s.mrc[i]) + ") and was " + S(x->own)); st["masks"]++; }
        if (talp) { set<int> tg(s.tpids, s.tpids + std::max(0, s.ntp)); for (int p : tg) if (!want.count(p)) bad("S02/talp", "process " + to_string(p) + " is in the TALP list"); for (W *x : L) if (!tg.count(x->pid)) bad("S02/talp", "process " + to_string(x->pid) + " is not in the TALP list"); for (int i = 0; i < s.ntp; i++) if (s.trc[i]) bad("S02/talp", "the times of process " + to_string(s.tpids[i]) + " cannot be read: " + to_string(s.trc[i])); st["talp_lists"]++; } }
    if (kind == CP) { /* counts of CPUs of a killed process are not known: only that everyone gets its own */ for (W *w : L) { call(*w, RECLAIM); if (dead) return; if (w->nt != w->ini && w->s.rc == DLB_SUCCESS && w->nt < w->ini) bad("S02/own", "process " + to_string(w->pid % 1000) + " reclaims and has " + to_string(w->nt) + " CPUs of " + to_string(w->ini)); st["reclaims"]++; } }
    if (mask) {
        if (async_) { for (W *w : L) { call(*w, ACQN, 0, 0); if (dead) return; } drain(); if (dead) return; for (W *w : L) { call(*w, LENDMASK, fullmask() & ~w->own); if (dead) return; } drain(); if (dead) return; } /* nobody asks for anything now */
        for (W *w : L) { call(*w, RECLAIM); if (dead) return; st["reclaims"]++; } drain(); if (dead) return; if (!async_) for (W *w : L) { call(*w, RET); if (dead) return; }
        for (W *w : L) { if (w->own & ~w->use) getenv("VE") && call(*w, PRINT), bad("S02/own", "process " + to_string(w->pid % 1000) + " reclaimed its CPUs " + S(w->own) + " and can use " + S(w->use)); for (W *x : L) if (x != w && (x->use & w->use)) getenv("VE") && call(*w, PRINT), bad("S02/shared", "processes " + to_string(w->pid % 1000) + " and " + to_string(x->pid % 1000) + " both use CPUs " + S(x->use & w->use)); }
        /* a CPU that is lent now is for the live process that asks for it */
        if (L.size() > 1) for (int k = 0; k < 3 && !dead; k++) { W &a = *L[rnd(&r, L.size())], &b = *L[rnd(&r, L.size())]; uint64_t o = a.own & a.use; if (&a == &b || !o) continue; int c; do c = rnd(&r, NC); while (!(o >> c & 1)); call(a, LENDMASK, 1ull << c); if (dead) return; drain(); if (dead) return; int how = rnd(&r, 2); int rc = call(b, how ? BORROWMASK : ACQCPU, 1ull << c, c); if (dead) return; drain(); if (dead) return; st["lent_cpus"]++; if (!(b.use >> c & 1) && getenv("VE")) call(a, PRINT); if (!(b.use >> c & 1)) bad("S02/lent", "CPU " + to_string(c) + " was lent by " + to_string(a.pid % 1000) + " and process " + to_string(b.pid % 1000) + " asked for it with " + ON[how ? BORROWMASK : ACQCPU] + " (code " + to_string(rc) + ") and cannot use it"); call(a, RECLAIM); if (dead) return; drain(); if (dead) return; if (!async_) { call(b, RET); if (dead) return; } else { /* a CPU taken back is requested again */ call(b, ACQN, 0, 0); if (dead) return; call(b, LENDMASK, 1ull << c); if (dead) return; drain(); if (dead) return; } if (!(a.use >> c & 1) || (b.use >> c & 1)) bad("S02/lent", "CPU " + to_string(c) + " reclaimed and not returned"); }
        if (pm && !drom) { uint64_t taken = 0; for (W *w : L) taken |= w->own | w->use; W &b = *L[rnd(&r, L.size())]; uint64_t fr = orphan & ~taken; if (fr) { int c = __builtin_ctzll(fr); call(b, BORROWMASK, 1ull << c); if (dead) return; drain(); st["post_mortem"]++; if (!(b.use >> c & 1) && getenv("VE")) call(b, PRINT); if (!(b.use >> c & 1)) bad("S02/post-mortem", "CPU " + to_string(c) + " of a killed process cannot be borrowed"); call(b, LENDMASK, 1ull << c); if (dead) return; } }
    }
    if (kind == CA) {
        for (W *w : L) { call(*w, ACQN, 0, 0); if (dead) return; } drain(); if (dead) return;
        for (W *w : L) { call(*w, RECLAIM); if (dead) return; st["reclaims"]++; drain(); if (dead) return; if (w->nt < w->ini) bad("S02/own", "process " + to_string(w->pid % 1000) + " reclaims and has " + to_string(w->nt) + " CPUs of " + to_string(w->ini)); }
        for (int k = 0; k < 2; k++) { for (W *w : L) { call(*w, ACQN, 0, 0); if (dead) return; } drain(); if (dead) return; /* CPUs taken back were requested again */ for (W *w : L) if (w->nt > w->ini) { call(*w, LENDN, 0, w->nt - w->ini); if (dead) return; drain(); if (dead) return; } }
        if (L.size() > 1) { W &a = *L[rnd(&r, L.size())], &b = *L[rnd(&r, L.size())]; bool even = true; for (W *w : L) even = even && w->nt == w->ini; /* (CPUs lent by a killed process may still be around) */ if (even && &a != &b && a.nt > 0) { int k = 1 + rnd(&r, a.nt); call(a, LENDN, 0, k); if (dead) return; drain(); int o = b.nt; call(b, BORROWN, 0, k); if (dead) return; drain(); if (dead) return; st["lent_cpus"]++; if (b.nt < std::min(o + k, NC)) bad("S02/lent", "process " + to_string(a.pid % 1000) + " lends " + to_string(k) + " CPUs and process " + to_string(b.pid % 1000) + " gets " + to_string(b.nt - o) + " of them"); call(a, RECLAIM); if (dead) return; drain(); if (dead) return; if (a.nt < a.ini) bad("S02/own", "process " + to_string(a.pid % 1000) + " has " + to_string(a.nt) + " CPUs of " + to_string(a.ini)); } }
        /* nothing was lost with the killed processes: after borrowing all, at least as many CPUs as the live ones brought */
        W &b = *L[rnd(&r, L.size())]; call(b, BORROWN, 0, NC); if (dead) return; drain(); if (dead) return; int sum = 0, ini = 0; for (W *w : L) { sum += w->nt; ini += w->ini; } st["sums"]++; if (sum < ini) bad("S02/lost", "the live processes have " + to_string(ini) + " CPUs and after taking all the idle ones they use " + to_string(sum)); if (b.nt > b.ini) { call(b, LENDN, 0, b.nt - b.ini); if (dead) return; }
    }
}
static bool meet() { auto L = live(); for (W *w : L) { usleep(rnd(&r, 100)); send(*w, BARRIER); } bool ok = true; for (W *w : L) { if (!recv_(*w)) return false; if (w->s.rc != DLB_SUCCESS) { bad("S02/barrier", "DLB_Barrier gives " + to_string(w->s.rc)); ok = false; } } st["barriers"]++; return ok; }
static void cleanfiles() { DIR *d = opendir("/dev/shm"); while (dirent *e = readdir(d)) if (strstr(e->d_name, base.c_str())) unlink((string("/dev/shm/") + e->d_name).c_str()); closedir(d); }
static void finding(const char *what) { /* known limits, one history each */
    kind = CP; mask = async_ = drom = talp = pm = false; barrier = false; ws.clear(); hist.clear();
    if (!strcmp(what, "classic")) { for (int i = 0; i < 3; i++) spawn(); init(*ws[0], 0xf, -1, true); init(*ws[1], 0xf0, -1, true); call(*ws[0], LEND); call(*ws[1], BORROW); hist += "P0:Lend P1:Borrow P1 killed "; kill(ws[1]->pid, SIGKILL); bury(*ws[1]); init(*ws[2], 0xf0, -1, true); call(*ws[0], RECLAIM); call(*ws[0], LEND); call(*ws[2], BORROW); if (ws[2]->nt <= 4) bad("S02/classic-polling-loan", "process 0 lends its CPUs again and process 2 cannot borrow any"); }
    else if (!strcmp(what, "async")) { kind = CA; async_ = lateok = true; for (int k = 1; k < 9 && st["found"] == 0; k++) { for (W *w : ws) if (w->alive) { kill(w->pid, SIGKILL); waitpid(w->pid, 0, 0); close(w->in); close(w->out); } ws.clear(); cleanfiles(); hist.clear(); for (int i = 0; i < 3; i++) spawn(); init(*ws[0], 0xf, -1, true); init(*ws[1], 0xf0, -1, true); call(*ws[0], LENDN, 0, 4); drain(); call(*ws[1], BORROWN, 0, 4); drain(); hist += "P0:LendCpus(4) P1:BorrowCpus(4) P0:Reclaim(killed after the change) "; send(*ws[0], RECLAIM, 0, 0, k); bool a = recv_(*ws[0]); init(*ws[2], 0xf, -1, true); drain(); int has = ws[1]->nt; if (!a && has > 4 && (call(*ws[1], LENDN, 0, has - 4) != DLB_SUCCESS || ws[1]->nt < 4)) st["found"]++, bad("S02/async-notification", "process 1 was told to use " + to_string(has) + " CPUs, lends the " + to_string(has - 4) + " that it borrowed and has " + to_string(ws[1]->nt) + " of its own 4: the borrowed ones were taken from it and it was not told"); } }
    else { barrier = true; for (int i = 0; i < 4; i++) spawn(); init(*ws[0], 1, -1, true); init(*ws[1], 2, -1, true); hist += "P1 killed, P0:Barrier "; kill(ws[1]->pid, SIGKILL); bury(*ws[1]); send(*ws[0], BARRIER); usleep(200000); options(*ws[2]); send(*ws[2], INIT, 4, 0, 0x7fffffff); struct pollfd p = {ws[2]->in, POLLIN, 0}; poll(&p, 1, 20000); char x[sizeof(Res)]; if (p.revents == 0 || read(ws[2]->in, x, sizeof x) <= 0) bad("S02/barrier-waiting", "process 0 waits in the barrier for a killed process, and a new process cannot initialize"); }
    for (W *w : ws) if (w->alive) { kill(w->pid, SIGKILL); waitpid(w->pid, 0, 0); close(w->in); close(w->out); } cleanfiles();
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    r.s = strtoull(argv[1], 0, 10) * 7368787 + 9; int hs = atoi(argv[2]), rounds = atoi(argv[3]); base = argv[4]; signal(SIGPIPE, SIG_IGN);
    NC = 8 + rnd(&r, 24); mu_testing_set_sys(NC, NC, 1);
    if (argc > 5) { finding(argv[5]); emit("DONE"); return 0; }
    for (int h = 0; h < hs && !dead; h++) {
        orphan = 0; kind = rnd(&r, 5); if (kind == 4) kind = MA; mask = kind == MP || kind == MA; async_ = kind == MA || kind == CA; drom = mask && rnd(&r, 2); talp = rnd(&r, 3) == 0; barrier = rnd(&r, 2); pm = mask && rnd(&r, 3) == 0; ws.clear(); static const char *K[] = {"mask,polling", "mask,async", "count,polling", "count,async"}; hist = string("[") + K[kind] + (drom ? ",drom" : "") + (talp ? ",talp" : "") + (barrier ? ",barrier" : "") + (pm ? ",post-mortem] " : "] "); set<pid_t> gone; bool barrier_ok = barrier;
        int P = 2 + rnd(&r, 4); for (int i = 0; i < P; i++) { spawn(); int from = NC * i / P, to = NC * (i + 1) / P; uint64_t b = 0; for (int q = from; q < to; q++) if (q == from || rnd(&r, 4)) b |= 1ull << q; init(*ws.back(), b, -1, true); if (dead) break; }
        for (int t = 0; t < rounds && !dead; t++) {
            int n = 1 + rnd(&r, 14); for (int i = 0; i < n && !dead; i++) { auto L = live(); op(*L[rnd(&r, L.size())], -1); if (kind == CA || rnd(&r, 3)) drain(); /* (the messages of the count policy hold absolute numbers, one that arrives after another change is stale) */ } if (dead) break; if (barrier_ok && rnd(&r, 4) == 0) meet(); if (dead) break; if (async_ || rnd(&r, 8)) drain(); /* (a helper thread that holds the lock of its queue would be inside a critical section) */
            /* victims */
            auto L = live(); int v = rnd(&r, 4) == 0 ? (int)L.size() : 1 + (L.size() > 2 && rnd(&r, 3) == 0); bool allv = v == (int)L.size(); std::random_shuffle(L.begin(), L.end(), [](int q) { return rnd(&r, q); }); uint64_t deadown = 0; int inb = 0; bool complete = false;
            if (allv && barrier_ok && L.size() > 1 && rnd(&r, 2)) { /* all but one wait in the barrier when everybody is killed */ for (size_t i = 0; i + 1 < L.size(); i++) send(*L[i], BARRIER); usleep(3000); inb = 1; hist += "(all in the barrier) "; st["kills_in_barrier"] += L.size() - 1; }
            for (int i = 0; i < v && !dead; i++) { W &w = *L[i]; gone.insert(w.pid); int how = inb ? 0 : rnd(&r, 5); bool early = false;
                if (how >= 2) { int kat = 1 + rnd(&r, 6); if (how == 4) { hist += "P" + to_string(w.pid % 1000) + ":Finalize(killed at " + to_string(kat) + ") "; kat = 1 + rnd(&r, 30); send(w, FIN, 0, 0, kat); recv_(w); early = true; complete = true; if (w.alive) w.on = false; } else { hist += "(killed at " + to_string(kat) + ") "; op(w, kat); } if (!w.alive) { st["kills_in_calls"]++; if (early) { st["kills_in_finalize"]++; barrier_ok = false; } } } if (dead) break;
                if (w.alive) { hist += "P" + to_string(w.pid % 1000) + " killed "; kill(w.pid, SIGKILL); bury(w); st["kills"]++; } deadown |= w.own; orphan |= w.own; if (!inb) drain(); }
            if (dead) break; emit("SIG %d %d %zu %d%d%d", kind, v, L.size(), drom, talp, barrier);
            if (rnd(&r, 3) == 0 && !allv) { n = 1 + rnd(&r, 4); for (int i = 0; i < n && !dead; i++) { auto L2 = live(); int before = st["masks_set"]; op(*L2[rnd(&r, L2.size())], -1); (void)before; if (kind == CA && !dead) drain(); } } if (dead) break;
            uint64_t taken = 0; for (W *w : live()) taken |= w->own;
            /* maybe a process killed while it starts */
            if (rnd(&r, 4) == 0) { spawn(); uint64_t b = fullmask() & ~taken & rng_next(&r); if (b) { int kat = 1 + rnd(&r, 30); hist += "(killed at " + to_string(kat) + ") "; W &w = *ws.back(); init(w, b, kat, true); if (dead) break; gone.insert(w.pid); if (!w.alive) { st["kills_in_init"]++; barrier_ok = false; w.own = 0; } else { kill(w.pid, SIGKILL); bury(w); st["kills"]++; } } else { kill(ws.back()->pid, SIGKILL); bury(*ws.back()); } }
            int nn = 1 + rnd(&r, 2); uint64_t fr = fullmask() & ~taken; if (allv) { nn = 1 + rnd(&r, 3); barrier_ok = barrier; if (complete) orphan = 0; /* everything may have been removed */ }
            for (int i = 0; i < nn && !dead && fr; i++) { uint64_t b = i == nn - 1 && rnd(&r, 2) ? fr : fr & rng_next(&r); if (!b) b = fr & -fr; if (i == 0 && rnd(&r, 2) && (deadown & fr)) b = deadown & fr; fr &= ~b; spawn(); init(*ws.back(), b, -1, true); st["newcomers"]++; } if (dead) break;
            if (live().empty()) break; verify(gone); if (dead) break; if (barrier_ok) meet();
        }
        if (!dead) { hist += "| all finalize "; for (W *w : ws) if (w->on && !dead) { int rc = call(*w, FIN); w->on = false; if (rc) bad("S02/finalize", "DLB_Finalize gives " + to_string(rc)); }
            DIR *d = opendir("/dev/shm"); while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "DLB_", 4) && strstr(e->d_name, base.c_str())) bad("S02/file", string(e->d_name) + " remains after the last process finalized"); closedir(d); cleanfiles(); }
        for (W *w : ws) if (w->alive) { if (dead) { kill(w->pid, SIGKILL); waitpid(w->pid, 0, 0); } else { send(*w, QUIT); recv_(*w); waitpid(w->pid, 0, 0); } close(w->in); close(w->out); } for (W *w : ws) delete w; st["histories"]++;
    }
    if (dead) cleanfiles();
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
    emit("DONE"); return 0;
}
