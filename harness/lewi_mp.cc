/* Concurrent LeWI-mask stress: several processes of one node make random calls at once. A table shared by all of
 * them records who was told to use each CPU; giving up is recorded before the call that gives up, so (in polling
 * mode) a CPU handed to a process that does not own it can never be in use by a third one.
 * usage: lewi_mp seed ncpus ncores nnodes nprocs nops async(0/1) affinity postmortem key */
#include "vh.h"
extern "C" {
#include <dlb.h>
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void shmem_async_wait_for_completion(pid_t pid);
}
#include <dlb_errors.h>
#include <atomic>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <signal.h>

struct Shared {
    std::atomic<unsigned> user[64]; std::atomic<int> owner[64]; std::atomic<long> grants, calls, overlaps, conflicts; std::atomic<int> stop;
    pthread_barrier_t bar;
    std::atomic<unsigned> li[64]; struct { short who, what, c; char op[20]; } lg[64][4096];
};
static Shared *sh; static int N, C, NODES, P, me; static bool async_mode, smt; static std::string aff, seedstr;
static rng_t R; static cpu_set_t own; static std::atomic<bool> inact[64];
static std::atomic<bool> held[64]; static std::atomic<long> en_ok;
static std::string cfg() { char b[200]; snprintf(b, sizeof b, "[seed=%s n=%d cores=%d procs=%d %s aff=%s]", seedstr.c_str(), N, C, P, async_mode ? "async" : "polling", aff.c_str()); return b; }
static unsigned bit(int p) { return 1u << p; }
static const char *curop = "?";
static void L(int c, int what) { unsigned i = sh->li[c]++ % 4096; auto &e = sh->lg[c][i]; e.who = me; e.what = what; e.c = c; snprintf(e.op, sizeof e.op, "%s", curop); }
static std::string tailog(int c) { std::string r; unsigned n = sh->li[c]; for (unsigned i = n > 24 ? n - 24 : 0; i < n; i++) { auto &e = sh->lg[c][i % 4096]; char b[80]; snprintf(b, sizeof b, " p%d%s%s", e.who, e.what == 0 ? "-" : e.what == 1 ? "+" : e.what == 2 ? "!" : e.what == 3 ? "(" : ")", e.op); r += b; } return r; }
static rng_t RC;
static void jitter() { if (async_mode) return; unsigned k = rnd(&RC, 40); if (k == 0) usleep(rnd(&RC, 60)); else if (k < 4) sched_yield(); }

static void cb_en(int c, void *) {
    if (c < 0 || c >= N) { VIOL("L03/cpu-out-of-range", "CPU %d %s", c, cfg().c_str()); return; }
    unsigned old = sh->user[c].fetch_or(bit(me));
    bool ow = CPU_ISSET(c, &own);
    unsigned others = old & ~bit(me);
    int o = sh->owner[c].load();
    if (!ow && o >= 0) others &= ~bit(o);
    if (!ow && !async_mode && others) { VIOL("L01/two-users", "process %d was given CPU %d (owner %d) by %s while users mask 0x%x had it %s; log:%s", me, c, o, curop, old, cfg().c_str(), tailog(c).c_str()); sh->conflicts++; }
    if (old) sh->overlaps++;
    held[c] = true; L(c, 1); sh->grants++; jitter();
}
static void cb_dis(int c, void *) { if (c < 0 || c >= N) { VIOL("L03/cpu-out-of-range", "CPU %d", c); return; } jitter(); held[c] = false; L(c, 2); sh->user[c].fetch_and(~bit(me)); }
static void give(int c) { if (held[c]) L(c, 0); held[c] = false; sh->user[c].fetch_and(~bit(me)); }
static bool on;
static void drain() { if (async_mode && on) shmem_async_wait_for_completion(getpid()); }
/* give up everything provisionally around a call which may take CPUs away; afterwards take back what was not taken */
static bool tmp[64];
static void before_take(bool owned) { for (int c = 0; c < N; c++) { tmp[c] = held[c] && (owned || !CPU_ISSET(c, &own)); if (tmp[c]) sh->user[c].fetch_and(~bit(me)); } }
static void after_take() { for (int c = 0; c < N; c++) if (tmp[c] && held[c]) sh->user[c].fetch_or(bit(me)); }

static void start(const char *key, bool pm) {
    std::string o = std::string("--lewi --shm-key=") + key + " --lewi-affinity=" + aff + " --mode=" + (async_mode ? "async" : "polling") + " --quiet=yes" + (pm ? " --debug-opts=lend-post-mortem" : "");
    int rc = DLB_Init(0, &own, o.c_str());
    if (rc != DLB_SUCCESS) { VIOL("L03/init-refused", "DLB_Init of process %d returned %d %s", me, rc, cfg().c_str()); return; }
    rc = DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, 0); rc |= DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, 0);
    if (rc) HARNESS_ERROR("callbacks");
    for (int c = 0; c < N; c++) if (CPU_ISSET(c, &own)) { curop = "Init"; L(c, 1); held[c] = true; sh->user[c].fetch_or(bit(me)); sh->owner[c] = me; }
    on = true;
}
static void stop() {
    before_take(true); for (int c = 0; c < N; c++) give(c);
    for (int c = 0; c < N; c++) L(c, 3); int rc = DLB_Finalize(); for (int c = 0; c < N; c++) L(c, 4);
    if (rc != DLB_SUCCESS) VIOL("L03/rc-Finalize", "DLB_Finalize returned %d", rc);
    for (int c = 0; c < N; c++) give(c);
    on = false;
}
static void solo(int c, int rc) {   /* CPU taken by a single-CPU call that says it was idle */
    if (rc != DLB_SUCCESS || async_mode) return;
    unsigned o = sh->user[c].load() & ~bit(me);
    if (!CPU_ISSET(c, &own) && sh->owner[c] >= 0) o &= ~bit(sh->owner[c]);
    if (o) VIOL("L01/two-users", "%s(%d) succeeded for process %d while users 0x%x have it %s; log:%s", curop, c, me, o, cfg().c_str(), tailog(c).c_str());
}
static void worker(int nops, const char *key, bool pm) {
    start(key, pm); if (!on) return;
    pthread_barrier_wait(&sh->bar);
    for (int i = 0; i < nops && !sh->conflicts; i++) {
        int c = rnd(&R, N), n = rrange(&R, 1, 3), rc; cpu_set_t m; CPU_ZERO(&m); for (int k = 0; k < N; k++) if (chance(&R, 1, 3)) CPU_SET(k, &m);
        sh->calls++;
        if (!on) { usleep(rnd(&R, 200)); start(key, pm); if (!on) return; continue; }
        switch (rnd(&R, 24)) {
            case 0: curop = "Lend"; for (int k = 0; k < N; k++) give(k); rc = DLB_Lend(); break;
            case 1: case 2: curop = "LendCpu"; give(c); rc = DLB_LendCpu(c); break;
            case 3: case 4: curop = "LendCpuMask"; for (int k = 0; k < N; k++) if (CPU_ISSET(k, &m)) give(k); rc = DLB_LendCpuMask(&m); break;
            case 5: curop = "Reclaim"; rc = DLB_Reclaim(); break;
            case 6: case 7: { curop = "ReclaimCpu"; if (!CPU_ISSET(c, &own)) c = rnd(&R, N); rc = DLB_ReclaimCpu(c); solo(c, rc); break; }
            case 8: curop = "ReclaimCpuMask"; rc = DLB_ReclaimCpuMask(&m); break;
            case 9: curop = "ReclaimCpus"; rc = DLB_ReclaimCpus(n); break;
            case 10: curop = "AcquireCpu"; rc = DLB_AcquireCpu(c); solo(c, rc); break;
            case 11: curop = "AcquireCpus"; rc = DLB_AcquireCpus(n); break;
            case 12: curop = "AcquireCpuMask"; rc = DLB_AcquireCpuMask(&m); break;
            case 13: case 14: curop = "Borrow"; rc = DLB_Borrow(); break;
            case 15: curop = "BorrowCpu"; rc = DLB_BorrowCpu(c); solo(c, rc); break;
            case 16: curop = "BorrowCpus"; rc = DLB_BorrowCpus(n); break;
            case 17: curop = "BorrowCpuMask"; rc = DLB_BorrowCpuMask(&m); break;
            case 18: case 19: curop = "Return"; before_take(false); rc = DLB_Return(); after_take(); break;
            case 20: curop = "ReturnCpuMask"; before_take(false); rc = DLB_ReturnCpuMask(&m); after_take(); break;
            case 21: if (!chance(&R, 1, 6)) { curop = "Borrow"; rc = DLB_Borrow(); break; }
                curop = "SetMaxParallelism"; before_take(true); rc = chance(&R, 1, 2) ? DLB_SetMaxParallelism(rrange(&R, 1, N)) : DLB_UnsetMaxParallelism(); after_take(); break;
            case 22: if (!chance(&R, 1, 8)) continue;
                curop = "Disable"; for (int k = 0; k < N; k++) if (!CPU_ISSET(k, &own)) give(k); rc = DLB_Disable(); DLB_Enable(); break;
            case 23: if (!chance(&R, 1, 30)) continue;
                curop = "Finalize"; stop(); rc = 0; break;
        }
        if (rc < 0 && rc != DLB_ERR_PERM && rc != DLB_ERR_NOCOMP && rc != DLB_ERR_REQST) VIOL("L03/unexpected-rc", "%s returned %d %s", curop, rc, cfg().c_str());
        if (chance(&R, 1, 8)) jitter();
        if (async_mode && chance(&R, 1, 5)) { drain(); usleep(rnd(&R, 300)); }
    }
    if (!on) start(key, pm);
    pthread_barrier_wait(&sh->bar);
    DLB_UnsetMaxParallelism();
    if (async_mode) { DLB_AcquireCpus(0); drain(); }
    pthread_barrier_wait(&sh->bar); drain();
    for (int k = 0; k < N; k++) give(k);
    DLB_Lend(); if (!async_mode) DLB_Return();
    drain(); pthread_barrier_wait(&sh->bar); drain(); pthread_barrier_wait(&sh->bar); for (int k = 0; k < N; k++) give(k);
    pthread_barrier_wait(&sh->bar);
    curop = "final Reclaim"; DLB_Reclaim(); drain();
    pthread_barrier_wait(&sh->bar); drain(); pthread_barrier_wait(&sh->bar);
    for (int k = 0; k < N; k++) if (held[k] != !!CPU_ISSET(k, &own))
        VIOL("L02/quiescence", "after everybody lent and reclaimed its CPUs, CPU %d is %s by process %d which %s it %s", k, held[k] ? "held" : "not held", me, CPU_ISSET(k, &own) ? "owns" : "does not own", cfg().c_str());
    pthread_barrier_wait(&sh->bar);
    stop();
}
int main(int argc, char **argv) {
    if (argc < 11) return 77;
    seedstr = argv[1]; uint64_t seed = strtoull(argv[1], 0, 10); N = atoi(argv[2]); C = atoi(argv[3]); NODES = atoi(argv[4]); P = atoi(argv[5]);
    int nops = atoi(argv[6]); async_mode = atoi(argv[7]); aff = argv[8]; bool pm = atoi(argv[9]); const char *key = argv[10]; smt = C < N;
    mu_testing_set_sys(N, C, NODES);
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < 64; i++) sh->owner[i] = -1;
    pthread_barrierattr_t a; pthread_barrierattr_init(&a); pthread_barrierattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_barrier_init(&sh->bar, &a, P);
    std::vector<pid_t> pids;
    for (int p = 0; p < P; p++) {
        pid_t f = fork();
        if (f == 0) {
            me = p; R.s = seed * 1000 + p; RC.s = seed * 77 + p; int w = N / P; if (smt) { int k = N / C; w = (C / P) * k; } CPU_ZERO(&own); for (int c = p * w; c < (p == P - 1 ? N : p * w + w); c++) CPU_SET(c, &own);
            worker(nops, key, pm); emit("STAT workers=1"); _exit(0);
        }
        pids.push_back(f);
    }
    int bad = 0;
    for (int i = 0; i < P; i++) { int st; pid_t w = wait(&st); (void)w; if (st != 0) { bad++; if (WIFSIGNALED(st)) emit("NOTE child died with signal %d", WTERMSIG(st)); else emit("NOTE child exit %d", WEXITSTATUS(st)); for (pid_t q : pids) if (q != w) kill(q, SIGKILL); } }
    emit("STAT mp_calls=%ld mp_grants=%ld mp_shared_moments=%ld mp_runs=1", sh->calls.load(), sh->grants.load(), sh->overlaps.load());
    if (bad) return 1;
    emit("DONE");
    return 0;
}
