/* A03: several threads of several processes call DLB at once (LeWI, DROM polling, TALP regions, getters), with helper
 * threads and with other processes that act on the shared memory and that finalize at any time. Run with the thread
 * sanitizer (races, lock order) and without (address sanitizer, faster schedules). At quiescent points the outcome is
 * compared with what the calls add up to.
 * usage: race SEED CYCLES OPS KEY [KIND] */
#include "vh.h"
#include <dlb.h>
#include <dlb_drom.h>
#include <dlb_talp.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <atomic>
#include <map>
#include <string>
#include <vector>
extern "C" { void mu_testing_set_sys(unsigned int, unsigned int, unsigned int); void shmem_async_wait_for_completion(pid_t); }
using std::string; using std::vector; using std::map; using std::to_string; using std::atomic;
enum { MP, MA, CP, CA, NK }; static const char *KN[] = {"mask,polling", "mask,async", "count,polling", "count,async"};
enum { NP = 3 };
struct Shared { atomic<int> arrived, gen, failed; atomic<uint64_t> use[NP]; atomic<int> nt[NP], on[NP]; atomic<int> pid[NP]; atomic<uint64_t> own[NP]; atomic<int> calls[NP]; atomic<long> fin, drained[NP]; atomic<int> reg[NP]; };
static Shared *sh; static int P, NC, kind, me, T; static uint64_t own0; static bool mask, async_, drom, talp, greedy, ompt; static string base, what; static uint64_t seed; static map<string, long> st;
static bool tr;
static void bad(const char *key, const string &t) { if (tr) fprintf(stderr, "TR VIOLATION %s\n", t.c_str()); VIOL(key, "%s. [%s]", t.c_str(), what.c_str()); sh->failed = 1; }
static cpu_set_t tomask(uint64_t b) { cpu_set_t m; CPU_ZERO(&m); for (int i = 0; i < 64; i++) if (b >> i & 1) CPU_SET(i, &m); return m; }
static uint64_t bits(const cpu_set_t *m) { uint64_t b = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, m)) b |= 1ull << i; return b; }
static string S(uint64_t m) { string o; for (int i = 0; i < 64; i++) if (m >> i & 1) o += (o.empty() ? "" : ",") + to_string(i); return "{" + o + "}"; }
static void meet() { /* all processes */ int g = sh->gen; if (++sh->arrived == P) { sh->arrived = 0; sh->gen++; } else { double t0 = now_s(); while (sh->gen == g && !sh->failed) { usleep(20); if (now_s() - t0 > 240) { bad("A03/hang", "process " + to_string(me) + " waits for another one that does not come back from its calls"); _exit(0); } } } }
/* callbacks: any thread */
static atomic<uint64_t> dirty; static atomic<int> incb;
static void cb_en(int c, void *) { sh->calls[me]++; sh->use[me] |= 1ull << c; } static void cb_dis(int c, void *) { sh->calls[me]++; sh->use[me] &= ~(1ull << c); }
static void cb_nt(int n, void *) { sh->calls[me]++; sh->nt[me] = n; } static void cb_mask(const cpu_set_t *m, void *) { sh->calls[me]++; sh->own[me] = bits(m); sh->use[me] = bits(m); }
static void cb_ens(const cpu_set_t *m, void *) { sh->calls[me]++; sh->use[me] |= bits(m); } static void cb_diss(const cpu_set_t *m, void *) { sh->calls[me]++; sh->use[me] &= ~bits(m); }
struct Th { pthread_t t; rng_t r; int id, ops; uint64_t cpus, part; map<string, long> st; long stops[8]; dlb_monitor_t *reg[3]; long rstops[3]; vector<string> errs; };
static pthread_barrier_t go; static void drain(); static atomic<bool> masks_moving;
static void work(Th &t) {
    rng_t &r = t.r; int P_ = P; char n[32];
    if (talp) for (int k = 0; k < 2; k++) { snprintf(n, 32, "p%d t%d r%d", me, t.id, k); t.reg[k] = DLB_MonitoringRegionRegister(n); if (!t.reg[k]) t.errs.push_back("MonitoringRegionRegister gives NULL"); }
    if (talp) { t.reg[2] = DLB_MonitoringRegionRegister("shared"); }
    for (int i = 0; i < t.ops; i++) {
        if (async_) { double t0 = now_s(); for (int p = 0; p < P; p++) while (sh->reg[p] && sh->fin - sh->drained[p] > 16 && !sh->failed) { usleep(20); if (now_s() - t0 > 200) { bad("A03/hang", "the helper thread of process " + to_string(p) + " does not attend its messages"); break; } } sh->fin++; }
        int k = rnd(&r, 20); uint64_t mybits = t.cpus & rng_next(&r); int c = -1; { int nb = __builtin_popcountll(t.cpus), w = nb ? rnd(&r, nb) : 0; for (int b = 0; b < 64; b++) if (t.cpus >> b & 1 && w-- == 0) c = b; }
        cpu_set_t m = tomask(mybits), any = tomask(t.part & rng_next(&r)); int rc = 0;
        if (k < 12 && mask) switch (k) { /* each thread manages some of the CPUs of the process, borrowing is free */
            case 0: case 1: if (c >= 0) { if (!async_) sh->use[me] &= ~(1ull << c); DLB_LendCpu(c); t.st["lend"]++; } break;
            case 2: if (mybits) { if (!async_) sh->use[me] &= ~mybits; DLB_LendCpuMask(&m); t.st["lend"]++; } break;
            case 3: case 4: if (c >= 0) { DLB_ReclaimCpu(c); t.st["reclaim"]++; } break;
            case 5: if (c >= 0) { DLB_AcquireCpu(c); t.st["acquire"]++; } break;
            case 6: DLB_AcquireCpuMask(&any); t.st["acquire"]++; break;
            case 7: DLB_BorrowCpu(rnd(&r, NC / T) * T + t.id); t.st["borrow"]++; break;
            case 8: { cpu_set_t pm_ = tomask(t.part); DLB_BorrowCpusInMask(1 + rnd(&r, 3), &pm_); } t.st["borrow"]++; break;
            case 9: { uint64_t f = sh->use[me] & ~sh->own[me] & t.part; if (f && rnd(&r, 2)) { int b = __builtin_ctzll(f); if (!async_) sh->use[me] &= ~(1ull << b); DLB_LendCpu(b); t.st["giveback"]++; } else { DLB_BorrowCpuMask(&any); t.st["borrow"]++; } break; }
            case 10: { cpu_set_t pm_ = tomask(t.part); if (!async_) DLB_ReturnCpuMask(&pm_); else DLB_AcquireCpusInMask(1 + rnd(&r, 2), &pm_); } t.st["return"]++; break;
            case 11: { int b = rnd(&r, NC / T) * T + t.id; if (DLB_CheckCpuAvailability(b) == DLB_SUCCESS) sh->use[me] |= 1ull << b; /* it is assigned */ } t.st["check"]++; break;
        } else if (k < 12 && !mask) { if (t.id == 0) { switch (rnd(&r, 6)) { case 0: DLB_Lend(); break; case 1: DLB_Reclaim(); break; case 2: DLB_Borrow(); break; case 3: DLB_BorrowCpus(1 + rnd(&r, 3)); break; case 4: if (async_) DLB_AcquireCpus(1 + rnd(&r, 2)); break; case 5: if (async_) { DLB_LendCpus(1); } break; } t.st["count"]++; } else { int v; DLB_GetVersion(&v, &v, &v); } }
        else if (k < 14 && drom) { if (t.id == 0) { DLB_PollDROM_Update(); t.st["poll"]++; } int p = sh->pid[rnd(&r, P_)]; cpu_set_t g; if (p && p != getpid()) DLB_DROM_GetProcessMask(p, &g, (dlb_drom_flags_t)0); }
        else if (k == 14 && drom && t.id == 0) { int v = rnd(&r, P_); if (v != me && sh->on[v]) { uint64_t o = sh->own[v] & rng_next(&r); if (!o) o = sh->own[v]; cpu_set_t mm = tomask(o); rc = DLB_DROM_SetProcessMask(sh->pid[v], &mm, (dlb_drom_flags_t)0); t.st[rc == DLB_SUCCESS ? "set_mask" : "set_mask_refused"]++; } }
        else if (k < 18 && talp) { int q = rnd(&r, 3); dlb_monitor_t *g = t.reg[q]; if (!g) continue; if (q < 2) { rc = DLB_MonitoringRegionStart(g); if (rc == DLB_SUCCESS) { int rc2 = DLB_MonitoringRegionStop(g); if (rc2 == DLB_SUCCESS) t.rstops[q]++; else if (rc2 != DLB_NOUPDT) t.errs.push_back("MonitoringRegionStop gives " + to_string(rc2)); } else if (rc != DLB_NOUPDT) t.errs.push_back("MonitoringRegionStart gives " + to_string(rc)); t.st["region"]++; }
            else switch (rnd(&r, 5)) { case 0: snprintf(n, 32, "p%d t%d r%d", me, (int)rnd(&r, T), (int)rnd(&r, 2)); if (!DLB_MonitoringRegionRegister(n)) t.errs.push_back("MonitoringRegionRegister gives NULL"); t.st["lookup"]++; break; case 1: DLB_MonitoringRegionsUpdate(); t.st["update"]++; break; case 2: snprintf(n, 32, "x%d", (int)rnd(&r, 60)); if (!DLB_MonitoringRegionRegister(n)) t.errs.push_back("MonitoringRegionRegister gives NULL"); t.st["register"]++; break; case 3: { double a, b; int p = sh->pid[rnd(&r, P_)]; if (p) DLB_TALP_GetTimes(p, &a, &b); t.st["times"]++; break; } case 4: { dlb_node_metrics_t nm; memset(&nm, 0, sizeof nm); DLB_TALP_QueryPOPNodeMetrics("shared", &nm); t.st["query"]++; break; } } }
        else switch (rnd(&r, 4)) { case 0: { char v[2048]; DLB_GetVariable("--lewi-affinity", v); t.st["variable"]++; break; } case 1: { int l[64], nn = 0; DLB_DROM_GetPidList(l, &nn, 64); t.st["list"]++; break; } case 2: DLB_Strerror(rc); break; case 3: if (rnd(&r, 3) == 0) sched_yield(); else usleep(rnd(&r, 40)); }
    }
}
/* the queue of a helper thread has 100 slots and the sender dies if it is full: do not send more than what is attended */
static atomic<bool> drainer_stop; static pthread_t drainer_th;
static void *drainer(void *) { while (!drainer_stop) { long f = sh->fin; shmem_async_wait_for_completion(getpid()); sh->drained[me] = f; usleep(50); } return 0; }
static void *thread(void *a) { Th &t = *(Th*)a; pthread_barrier_wait(&go); work(t); return 0; }
static void drain() { if (async_) for (int k = 0; k < 2; k++) { meet(); if (sh->on[me]) shmem_async_wait_for_completion(getpid()); meet(); } else { meet(); } }
/* all the threads initialize or finalize at once: only one of them does it */
struct Call { bool fin; int ini, rc; cpu_set_t *m; const char *opts; };
static void *call(void *a) { Call &c = *(Call*)a; cpu_set_t m = *c.m; pthread_barrier_wait(&go); c.rc = c.fin ? DLB_Finalize() : DLB_Init(c.ini, &m, c.opts); return 0; }
static int once(bool fin, int ini, cpu_set_t *m, const char *opts) {
    vector<Call> cs(T, Call{ fin, ini, -99, m, opts }); vector<pthread_t> th(T); pthread_barrier_init(&go, 0, T);
    for (int i = 1; i < T; i++) pthread_create(&th[i], 0, call, &cs[i]);
    call(&cs[0]); for (int i = 1; i < T; i++) pthread_join(th[i], 0); pthread_barrier_destroy(&go);
    int n = 0, rc = 0; for (auto &c : cs) if (c.rc == DLB_SUCCESS) n++; else if (c.rc != (fin ? (int)DLB_NOUPDT : (int)DLB_ERR_INIT)) rc = c.rc;
    if (n != 1 && !rc) bad("A03/once", to_string(n) + " of " + to_string(T) + " threads that called " + (fin ? "DLB_Finalize" : "DLB_Init") + " at once did it");
    st["once"]++; return rc;
}
static void process(int cycles, int ops) {
    rng_t r; r.s = seed * 977 + me * 31337 + 5; char opts[500];
    snprintf(opts, sizeof opts, "--shm-key=%s %s --lewi --mode=%s --lewi-affinity=%s %s %s %s --no-barrier", base.c_str(), tr ? "" : "--quiet=yes", async_ ? "async" : "polling", mask ? "mask" : "none", drom ? "--drom" : "--no-drom", talp ? "--talp --talp-external-profiler" : "--no-talp", greedy ? "--lewi-greedy" : "");
    setenv("DLB_ARGS", opts, 1); vector<Th*> ths(T);
    for (int cy = 0; cy < cycles && !sh->failed; cy++) {
        cpu_set_t m = tomask(own0); sh->own[me] = own0; sh->use[me] = own0; sh->nt[me] = __builtin_popcountll(own0); int ini = sh->nt[me];
        bool at_once = rnd(&r, 3) == 0; int rc = at_once ? once(false, ini, &m, opts) : DLB_Init(ini, &m, opts); if (rc) { bad("A03/init", "DLB_Init gives " + to_string(rc)); }
        if (mask) { if (rnd(&r, 2)) { DLB_CallbackSet(dlb_callback_enable_cpu_set, (dlb_callback_t)cb_ens, 0); DLB_CallbackSet(dlb_callback_disable_cpu_set, (dlb_callback_t)cb_diss, 0); } DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, 0); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, 0); DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, 0); } else DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_nt, 0);
        if (async_) { sh->drained[me] = sh->fin.load(); sh->reg[me] = 1; drainer_stop = false; pthread_create(&drainer_th, 0, drainer, 0); } sh->pid[me] = getpid(); sh->on[me] = 1; meet(); if (sh->failed) break;
        int rounds = 1 + seed % 3; long wantshared = 0; dlb_monitor_t *shared = 0; map<string, long> want; vector<std::pair<dlb_monitor_t*, long>> regs;
        for (int rd = 0; rd < rounds; rd++) {
            pthread_barrier_init(&go, 0, T);
            for (int i = 0; i < T; i++) { Th *t = ths[i] = new Th(); t->id = i; t->ops = ops; t->r.s = rng_next(&r); t->part = 0; for (int b = 0; b < NC; b++) if (b % T == i) t->part |= 1ull << b; t->cpus = own0 & t->part; memset(t->rstops, 0, sizeof t->rstops); }
            for (int i = 1; i < T; i++) if (pthread_create(&ths[i]->t, 0, thread, ths[i])) HARNESS_ERROR("thread");
            thread(ths[0]); for (int i = 1; i < T; i++) pthread_join(ths[i]->t, 0); pthread_barrier_destroy(&go);
            for (Th *t : ths) { for (auto &e : t->errs) { bad("A03/error", e); break; } for (auto &s : t->st) st[s.first] += s.second; if (talp) { for (int q = 0; q < 2; q++) if (t->reg[q]) { string nm = "p" + to_string(me) + " t" + to_string(t->id) + " r" + to_string(q); want[nm] += t->rstops[q]; dlb_monitor_t *g = DLB_MonitoringRegionRegister(nm.c_str()); if (g != t->reg[q]) bad("A03/region", "region " + nm + " has two handles"); if (g && g->num_measurements != want[nm]) bad("A03/region", "region " + nm + " has " + to_string(g->num_measurements) + " measurements and was stopped " + to_string(want[nm]) + " times"); st["regions"]++; } if (shared && t->reg[2] != shared) bad("A03/region", "threads registering the same name get different handles"); shared = t->reg[2]; } delete t; }
            (void)wantshared; drain(); if (sh->failed) break;
            if (drom && !async_) { DLB_PollDROM_Update(); meet(); DLB_PollDROM_Update(); meet(); }
            if (drom) { cpu_set_t g; CPU_ZERO(&g); int e = DLB_DROM_GetProcessMask(getpid(), &g, (dlb_drom_flags_t)0); if (e == 0 && bits(&g) != sh->own[me]) bad("A03/mask", "the mask of the process is " + S(bits(&g)) + " and it was last told " + S(sh->own[me])); st["masks"]++; meet(); }
            /* everybody gives up its requests and takes back its CPUs */
            if (mask) {
                if (async_) { DLB_AcquireCpus(0); drain(); cpu_set_t no = tomask(~sh->own[me].load() & ((1ull << NC) - 1)); DLB_LendCpuMask(&no); drain(); DLB_AcquireCpus(0); drain(); }
                DLB_Reclaim(); drain(); if (!async_) { DLB_Return(); meet(); DLB_Reclaim(); meet(); DLB_Return(); meet(); cpu_set_t no = tomask(sh->use[me] & ~sh->own[me]); if (sh->use[me] & ~sh->own[me]) { DLB_LendCpuMask(&no); sh->use[me] &= sh->own[me]; } meet(); DLB_Reclaim(); meet(); } else { DLB_AcquireCpus(0); drain(); }
                uint64_t u = sh->use[me], o = sh->own[me]; { int n = 0; for (int b = 0; b < NC; b++) if (o >> b & 1) { int e = DLB_CheckCpuAvailability(b); if (e != DLB_SUCCESS) bad("A03/own", "all the processes reclaimed and returned and CPU " + to_string(b) + " is not available for process " + to_string(me) + ": " + to_string(e)); n++; } st["own_cpus"] += n; }
                if (async_ || drom) { sh->use[me] = o; meet(); meet(); continue; } /* a callback may overtake another one of the helper thread */
                if (~u & o) bad("A03/own", "all the processes reclaimed and returned and process " + to_string(me) + " does not have its CPUs " + S(~u & o) + ", uses " + S(u)); st["quiescent"]++;
                meet(); for (int p = 0; p < me; p++) if (u & sh->use[p]) bad("A03/exclusive", "CPUs " + S(u & sh->use[p]) + " are used by processes " + to_string(p) + " and " + to_string(me)); meet();
                if (u & ~o) { sh->use[me] &= o; cpu_set_t no = tomask(u & ~o); DLB_LendCpuMask(&no); } drain();
            } else { DLB_Reclaim(); drain(); if (async_) { DLB_AcquireCpus(0); drain(); } st["quiescent"]++; if (sh->nt[me] < 1) bad("A03/own", "the process has " + to_string(sh->nt[me]) + " CPUs"); meet(); }
            if (sh->failed) break;
        }
        emit("SIG %s %d %d %d%d%d", KN[kind], P, T, drom, talp, greedy);
        meet(); if (sh->failed) break;
        /* one after another finalize while the others keep going, and nothing reaches them afterwards */
        int mydelay = rnd(&r, 3000); Th t; t.id = 0; t.r.s = rng_next(&r); t.cpus = own0; t.part = (1ull << NC) - 1; memset(t.rstops, 0, sizeof t.rstops); double t0 = now_s(); bool was_talp = talp; while ((now_s() - t0) * 1e6 < mydelay) { t.ops = 5; work(t); } talp = was_talp;
        sh->on[me] = 0; if (async_) { drainer_stop = true; pthread_join(drainer_th, 0); } rc = at_once ? once(true, 0, &m, 0) : DLB_Finalize(); sh->reg[me] = 0; int calls = sh->calls[me]; uint64_t u = sh->use[me]; if (rc) bad("A03/finalize", "DLB_Finalize gives " + to_string(rc)); st["finalized"]++;
        meet(); if (calls != sh->calls[me] || u != sh->use[me]) bad("A03/after-finalize", to_string(sh->calls[me] - calls) + " callbacks were called after DLB_Finalize"); sh->pid[me] = 0; meet();
    }
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    seed = strtoull(argv[1], 0, 10); int cycles = atoi(argv[2]), ops = atoi(argv[3]); base = argv[4]; tr = getenv("VE"); rng_t r; r.s = seed * 104729 + 3;
    kind = argc > 5 ? atoi(argv[5]) : (int)rnd(&r, 6); if (kind > 3) kind -= 4; mask = kind == MP || kind == MA; async_ = kind == MA || kind == CA; drom = kind == MP && rnd(&r, 2); /* (DROM is only polled) */ talp = rnd(&r, 2); greedy = rnd(&r, 3) == 0; P = 2 + rnd(&r, 2); T = 2 + rnd(&r, 3); if (mask && rnd(&r, 4) == 0) T = 8; /* more stacks than the C library keeps for new threads */ NC = 6 + rnd(&r, 18); mu_testing_set_sys(NC, NC, 1);
    sh = (Shared*)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared();
    what = string(KN[kind]) + (drom ? ",drom" : "") + (talp ? ",talp" : "") + (greedy ? ",greedy" : "") + "; " + to_string(P) + " processes of " + to_string(T) + " threads, " + to_string(NC) + " CPUs"; vector<pid_t> ps;
    for (int i = 0; i < P; i++) { pid_t p = fork(); if (!p) { me = i; own0 = 0; for (int b = NC * i / P; b < NC * (i + 1) / P; b++) own0 |= 1ull << b; if (!tr) { FILE *f = (FILE*)0; (void)f; } process(cycles, ops); exit(0); } ps.push_back(p); }
    int rc = 0; for (size_t i = 0; i < ps.size(); i++) { int s; pid_t p; do p = waitpid(-1, &s, 0); while (p < 0 && errno == EINTR); if (WIFEXITED(s) && WEXITSTATUS(s) == 66) rc = 66; else if (!WIFEXITED(s) || WEXITSTATUS(s)) { if (!sh->failed.exchange(1) || WIFSIGNALED(s)) VIOL("A03/died", "a process ended with status %d. [%s]", s, what.c_str()); rc = WIFEXITED(s) ? WEXITSTATUS(s) : 1; } }
    if (rc) return rc; emit("DONE"); return 0;
}
