/* LeWI without CPU masks, several processes.
 * usage: lewi_count_mp MODE seed nprocs nops key
 *  seq   classic policy, calls in turns, checked one by one against a model (pool of idle CPUs, CPUs of each process)
 *  conc  classic policy, concurrent calls: first lending and borrowing only (never more CPUs in use than exist), then
 *        everything; when all are done the CPUs must add up
 *  async asynchronous policy, concurrent calls; when all are done the CPUs must add up */
#include "vh.h"
extern "C" {
#include <dlb.h>
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void shmem_async_wait_for_completion(pid_t pid);
void vh_into_blocking(void *h); void vh_out_blocking(void *h);
}
#include <dlb_errors.h>
#include <algorithm>
#include <atomic>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <pthread.h>
enum { MAXP = 8 };
struct Sh { std::atomic<long> turn; int def[MAXP], cur[MAXP], max[MAXP], keep[MAXP], greedy[MAXP], idle; bool on[MAXP], alive[MAXP], blk[MAXP]; char hist[1 << 16]; unsigned hl; std::atomic<int> lost; std::atomic<long> done[MAXP]; std::atomic<int> used; std::atomic<int> total, probe; std::atomic<long> calls, grants, peaks; pthread_barrier_t bar; };
static Sh *sh; static int P, me, N = 32; static std::string mode, key, seedstr; static int told; static bool gotcb; static rng_t R;
static std::string st() { std::string s; char b[100]; for (int i = 0; i < P; i++) { snprintf(b, sizeof b, " [%d/%d m%d%s%s]", sh->cur[i], sh->def[i], sh->max[i], sh->greedy[i] ? " greedy" : "", !sh->alive[i] ? " dead" : sh->on[i] ? "" : " off"); s += b; } snprintf(b, sizeof b, " pool %d", sh->idle); return s + b; }
#define BAD(key_, ...) do { if (!sh->lost.exchange(1)) { char b_[600]; snprintf(b_, sizeof b_, __VA_ARGS__); VIOL(key_, "%s; seed %s mode %s;%s; last calls:%s", b_, seedstr.c_str(), mode.c_str(), st().c_str(), sh->hl > 1200 ? sh->hist + sh->hl - 1200 : sh->hist); } } while (0)
static void cb(int n, void *) { told = n; gotcb = true; }
static void start() {
    std::string o = "--lewi --lewi-affinity=none --quiet=yes --shm-key=" + key + (mode == "async" ? " --mode=async" : "") + (sh->keep[me] ? " --lewi-keep-one-cpu=yes" : "") + (sh->greedy[me] ? " --lewi-greedy=yes" : "");
    int rc = DLB_Init(sh->def[me], nullptr, o.c_str()); if (rc) { BAD("L05/init", "DLB_Init returned %d", rc); return; }
    DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb, nullptr); told = sh->def[me];
}
static int cl(int v) { return std::max(1, std::min(v, N)); }
static void acquire(int p) { sh->idle -= sh->def[p] - sh->cur[p]; sh->cur[p] = sh->def[p]; if (sh->greedy[p] && sh->idle > 0) { sh->cur[p] += sh->idle; sh->idle = 0; } }
static void reset(int p) { sh->idle += sh->cur[p] - sh->def[p]; sh->cur[p] = sh->def[p]; }

static void seq(long ops) {
    rng_t S; S.s = strtoull(seedstr.c_str(), 0, 10) * 77 + 5;
    for (long o = 0; o < ops; o++) {
        unsigned r1 = rng_next(&S), k = rnd(&S, 100), n = chance(&S, 1, 8) ? rrange(&S, -3, 40) : rrange(&S, 1, 6); int p = r1 % P; int nd = rrange(&S, 1, 5), nk = rnd(&S, 2), ng = rnd(&S, 3) == 0;
        while (sh->turn < o) { if (sh->lost) return; sched_yield(); }
        if (p != me) { while (sh->turn <= o) { if (sh->lost) return; sched_yield(); } continue; }
        const char *op = k < 15 ? "lend" : k < 32 ? "reclaim" : k < 52 ? "borrow" : k < 60 ? "borrowall" : k < 68 ? "setmax" : k < 72 ? "unsetmax" : k < 82 ? "into" : k < 91 ? "out" : k < 94 ? "disable" : k < 98 ? "enable" : "finalize";
        std::string s = op; int rc = 0, c0 = sh->cur[p], want = 0; gotcb = false; sh->calls++;
        if (!sh->alive[p]) { sh->def[p] = nd; sh->keep[p] = nk; sh->greedy[p] = ng; sh->cur[p] = nd; sh->max[p] = 0; sh->alive[p] = sh->on[p] = true; sh->blk[p] = false; s = "init"; start(); c0 = nd; }
        else if (sh->blk[p] && (s != "out" && s != "disable")) s = "out";
        else if (!sh->blk[p] && s == "out") s = "into";
        if (sh->hl < sizeof sh->hist - 100) sh->hl += snprintf(sh->hist + sh->hl, 80, " p%d:%s(%d)", p, s.c_str(), (int)n);
        bool on = sh->on[p]; int &cur = sh->cur[p];
        if (s == "lend") { rc = DLB_Lend(); want = on ? DLB_SUCCESS : DLB_ERR_DISBLD; if (on) { sh->idle += cur - 1; cur = 1; } }
        else if (s == "into") { vh_into_blocking(0); if (on) { int kp = sh->keep[p] ? 1 : 0; sh->idle += cur - kp; cur = kp; sh->blk[p] = true; } }
        else if (s == "out") { vh_out_blocking(0); sh->blk[p] = false; if (on) acquire(p); }
        else if (s == "reclaim") { rc = DLB_Reclaim(); want = on ? DLB_SUCCESS : DLB_ERR_DISBLD; if (on) acquire(p); }
        else if (s == "borrow" || s == "borrowall") { rc = s == "borrow" ? DLB_BorrowCpus(n) : DLB_Borrow(); int w = s == "borrow" ? (int)n : 1000; if (sh->max[p] > 0) w = std::min(w, sh->max[p] - cur);
            if (!on) want = DLB_ERR_DISBLD; else { int d = 0; if (sh->idle < 0 && cur > sh->def[p]) d = -std::min(-sh->idle, cur - sh->def[p]); else if (sh->idle > 0 && w > 0) d = std::min(sh->idle, w); cur += d; sh->idle -= d; want = d ? DLB_SUCCESS : DLB_NOUPDT; } }
        else if (s == "setmax") { if ((int)n < 1) n = 1; rc = DLB_SetMaxParallelism(n); want = on ? DLB_SUCCESS : DLB_ERR_DISBLD; if (on) { sh->max[p] = n; if (cur > (int)n) { sh->idle += cur - n; cur = n; } } }
        else if (s == "unsetmax") { rc = DLB_UnsetMaxParallelism(); want = on ? DLB_SUCCESS : DLB_ERR_DISBLD; if (on) sh->max[p] = 0; }
        else if (s == "disable") { rc = DLB_Disable(); want = on ? DLB_SUCCESS : DLB_NOUPDT; if (on) { reset(p); sh->on[p] = false; sh->blk[p] = false; } }
        else if (s == "enable") { rc = DLB_Enable(); want = on ? DLB_NOUPDT : DLB_SUCCESS; sh->on[p] = true; }
        else if (s == "finalize") { rc = DLB_Finalize(); reset(p); sh->alive[p] = false; sh->cur[p] = 0; sh->blk[p] = false; }
        if (rc != want) BAD("L05/return-code", "%s(%d) of process %d returned %d instead of %d", s.c_str(), (int)n, p, rc, want);
        if (sh->alive[p]) { if (s != "init" && cl(cur) != cl(c0) && !gotcb) BAD("L05/not-told", "process %d changed from %d to %d CPUs by %s(%d) and was not told", p, c0, cur, s.c_str(), (int)n);
            if (gotcb && told != cl(cur)) BAD("L05/wrong-count", "process %d was told %d CPUs by %s(%d) and it must have %d", p, told, s.c_str(), (int)n, cur); }
        sh->grants += gotcb; char sig[64]; snprintf(sig, sizeof sig, "%s%d%d%d%d", s.c_str(), cur > sh->def[p], cur < sh->def[p], sh->idle > 0 ? 2 : sh->idle < 0, on); emit("SIG %s", sig);
        sh->turn = o + 1;
    }
}
static void bar() { pthread_barrier_wait(&sh->bar); }
static void jit() { unsigned k = rnd(&R, 30); if (!k) usleep(rnd(&R, 40)); else if (k < 4) sched_yield(); }
/* the queue of messages of a process is limited (100): in asynchronous mode nobody goes far ahead of the others */
static void pace(long o) {
    shmem_async_wait_for_completion(getpid()); sh->done[me] = o;
    for (;;) { long m = o; for (int i = 0; i < P; i++) m = std::min(m, (long)sh->done[i]); if (m + 6 >= o || sh->lost) break; usleep(20); }
}
static void conc(long ops) {
    bool as = mode == "async"; const char *ID = as ? "L06" : "L05"; (void)ID;
    bar();
    if (!as) { /* only lend and borrow: nothing can be over-committed */
        int mineu = sh->def[me];
        for (long o = 0; o < ops && !sh->lost; o++) {
            sh->calls++;
            if (chance(&R, 1, 3) && mineu > 1) { sh->used -= mineu - 1; mineu = 1; DLB_Lend(); }
            else { gotcb = false; told = mineu; int w = rrange(&R, 1, 6); int rc = chance(&R, 1, 4) ? (w = 1000, DLB_Borrow()) : DLB_BorrowCpus(w); if (rc == DLB_SUCCESS) { int d = told - mineu; if (d < 0 || d > w) BAD("L05/borrowed-more", "BorrowCpus(%d) went from %d to %d CPUs", w, mineu, told);
                    int u = sh->used += d; mineu = told; sh->peaks += u == sh->total; if (u > sh->total) BAD("L05/over-committed", "%d CPUs in use and there are only %d", u, (int)sh->total); } }
            jit();
        }
        bar(); DLB_Reclaim(); bar();
    }
    for (long o = 0; o < ops && !sh->lost; o++) {
        unsigned k = rnd(&R, 100); sh->calls++;
        if (k < 20) DLB_Lend(); else if (k < 40) DLB_Reclaim(); else if (k < 60) DLB_BorrowCpus(rrange(&R, 1, 6)); else if (k < 65) DLB_Borrow();
        else if (k < 75) { vh_into_blocking(0); jit(); vh_out_blocking(0); }
        else if (k < 80) { if (as) DLB_LendCpus(rrange(&R, 1, 3)); else DLB_SetMaxParallelism(rrange(&R, 1, 8)); }
        else if (k < 90) { if (as) DLB_AcquireCpus(rrange(&R, 1, 4)); else DLB_UnsetMaxParallelism(); }
        else if (k < 93) { DLB_Disable(); jit(); DLB_Enable(); }
        else if (k < 94) { DLB_Finalize(); jit(); start(); }
        else if (as && k < 97) DLB_AcquireCpus(DLB_DELETE_REQUESTS);
        jit(); if (as) pace(o);
    }
    sh->done[me] = ops;
    bar(); DLB_Disable(); bar(); DLB_Enable(); DLB_UnsetMaxParallelism(); if (as) DLB_AcquireCpus(DLB_DELETE_REQUESTS); bar();
    /* everybody is back to its own CPUs: the pool must be empty, that is, what one lends is what another one can borrow */
    for (int a = 0; a < P; a++) {
        int b = (a + 1) % P;
        if (me == a) { int rc = DLB_Borrow(); if (rc == DLB_SUCCESS) BAD(as ? "L06/left-over" : "L05/left-over", "process %d could borrow when everybody was back to its own CPUs (told %d, own %d)", me, told, sh->def[me]); DLB_Lend(); }
        bar();
        if (me == b) { gotcb = false; int rc = DLB_Borrow(), want = sh->def[me] + sh->def[a] - 1; if ((rc == DLB_SUCCESS) != (sh->def[a] > 1) || (rc == DLB_SUCCESS && told != want)) BAD(as ? "L06/lost-cpus" : "L05/lost-cpus", "process %d lent %d CPUs and process %d, with %d, borrowed and was told %d (returned %d)", a, sh->def[a] - 1, b, sh->def[b], told, rc);
            if (as) DLB_LendCpus(sh->def[a] - 1); else { sh->greedy[me] ? DLB_Disable() : DLB_Reclaim(); DLB_Enable(); } }
        bar();
        if (me == a) { if (sh->greedy[me]) { DLB_Disable(); DLB_Enable(); } else DLB_Reclaim(); }
        if (as) DLB_AcquireCpus(DLB_DELETE_REQUESTS);
        bar(); if (sh->lost) break;
    }
}
int main(int argc, char **argv) {
    mode = argv[1]; seedstr = argv[2]; P = std::min((int)MAXP, atoi(argv[3])); long ops = atol(argv[4]); key = argv[5];
    signal(SIGALRM, SIG_DFL); alarm(140);
    mu_testing_set_sys(N, N, 1);
    sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rng_t S; S.s = strtoull(argv[2], 0, 10);
    pthread_barrierattr_t at; pthread_barrierattr_init(&at); pthread_barrierattr_setpshared(&at, PTHREAD_PROCESS_SHARED); pthread_barrier_init(&sh->bar, &at, P);
    for (int i = 0; i < P; i++) { sh->def[i] = sh->cur[i] = rrange(&S, mode == "seq" ? 1 : 2, mode == "seq" ? 5 : 4); sh->on[i] = sh->alive[i] = true; sh->keep[i] = rnd(&S, 2); sh->greedy[i] = mode != "async" && rnd(&S, 3) == 0; sh->total += sh->def[i]; }
    sh->used = (int)sh->total;
    pid_t kids[MAXP];
    for (int i = 0; i < P; i++) if (!(kids[i] = fork())) {
        alarm(130); me = i; R.s = S.s * 31 + i;
        start(); bar();
        if (mode == "seq") seq(ops); else conc(ops);
        if (!sh->lost) bar();
        if (mode != "seq" || sh->alive[me] || sh->lost) DLB_Finalize();
        exit(0);
    }
    int bad = 0; for (int i = 0; i < P; i++) { int s; waitpid(kids[i], &s, 0); if (WIFSIGNALED(s) && WTERMSIG(s) == SIGALRM) bad = 77; else if (s) { if (!bad) bad = WIFSIGNALED(s) ? 128 + WTERMSIG(s) : WEXITSTATUS(s); } if (s || sh->lost) { sh->lost = 1; for (int j = i + 1; j < P; j++) if (mode != "seq") kill(kids[j], SIGKILL); } }
    emit("STAT count_runs=1 calls=%ld own_grants=%ld full_moments=%ld", (long)sh->calls, (long)sh->grants, (long)sh->peaks);
    if (sh->lost && bad == 128 + SIGKILL) bad = 0;
    if (bad) return bad;
    emit("DONE"); return 0;
}
