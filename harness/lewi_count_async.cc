/* Count-based asynchronous LeWI: random histories of several subprocesses checked, call by call, against a model of the
 * CPUs held, pending and idle. The model does not fix how a number of CPUs is split among several takers, it only
 * requires that the split adds up, respects what each one asked or has above its own, and is even.
 * usage: lewi_count_async seed nprocs nops key */
#include "vh.h"
extern "C" {
#include <dlb.h>
#include <dlb_sp.h>
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void shmem_async_wait_for_completion(pid_t pid);
int vh_spd_id(void *h);
void vh_into_blocking(void *h); void vh_out_blocking(void *h);
}
#include <dlb_errors.h>
#include <string>
#include <vector>
#include <mutex>
#include <algorithm>
struct P { dlb_handler_t h = nullptr; int id = 0, init = 0, cur = 0, req = 0, saved = 0, told = 0; bool alive = false, on = false, keep = false; std::vector<int> ev; };
static std::vector<P> ps; static int idle_, N; static rng_t R; static std::string key, hist; static long calls, served, taken, grants; static bool lost;
static std::mutex mx;
static void cb(int n, void *a) { P *p = (P*)a; std::lock_guard<std::mutex> g(mx); p->ev.push_back(n); }
static std::string state() { std::string s; char b[100]; for (auto &p : ps) { snprintf(b, sizeof b, " [%d %d/%d r%d s%d%s]", p.id % 1000000, p.cur, p.init, p.req, p.saved, !p.alive ? " dead" : p.on ? "" : " off"); s += b; } snprintf(b, sizeof b, " idle %d", idle_); return s + b; }
#define BAD(key, ...) do { if (!lost) { char b_[600]; snprintf(b_, sizeof b_, __VA_ARGS__); VIOL(key, "%s; model after:%s; last calls:%s", b_, state().c_str(), hist.size() > 1500 ? hist.c_str() + hist.size() - 1500 : hist.c_str()); lost = true; } } while (0)
static int cl(int v) { return std::max(1, std::min(v, N)); }
static void drain() { for (auto &p : ps) if (p.alive) shmem_async_wait_for_completion(p.id); }
static int total() { int t = 0; for (auto &p : ps) if (p.alive) t += p.init; return t; }

/* deltas of everybody but the caller, from what they were told */
static std::vector<int> deltas(int me) {
    std::vector<int> d(ps.size(), 0); std::lock_guard<std::mutex> g(mx);
    for (size_t q = 0; q < ps.size(); q++) { if ((int)q == me || !ps[q].alive) { if ((int)q != me) ps[q].ev.clear(); continue; }
        if (ps[q].ev.size() > 1) BAD("L06/told-twice", "process %zu was told %zu times in one call of process %d", q, ps[q].ev.size(), me);
        if (!ps[q].ev.empty()) { d[q] = ps[q].ev.back() - ps[q].cur; ps[q].told = ps[q].ev.back(); ps[q].ev.clear(); if (d[q] == 0) BAD("L06/told-without-change", "process %zu was told again its %d CPUs by a call of process %d", q, ps[q].told, me); } }
    return d;
}
/* n CPUs become free because of process me: pending requests take them, the rest is idle */
static void give(int me, int n) {
    auto d = deltas(me); int sum = 0, want = 0;
    for (size_t q = 0; q < ps.size(); q++) { if ((int)q == me || !ps[q].alive) continue; want += ps[q].req; sum += d[q];
        if (d[q] < 0) BAD("L06/lost-cpus", "process %zu lost %d CPUs because process %d lent some", q, -d[q], me);
        if (d[q] > ps[q].req) BAD("L06/exceeds-request", "process %zu asked for %d CPUs and received %d", q, ps[q].req, d[q]);
        if (d[q] && !ps[q].on) BAD("L06/served-disabled", "process %zu is disabled and received %d CPUs", q, d[q]); }
    if (sum != std::min(n, want)) BAD("L06/requests-not-served", "%d CPUs were lent with %d requested and %d were delivered", n, want, sum);
    for (size_t q = 0; q < ps.size(); q++) for (size_t r = 0; r < ps.size(); r++) if ((int)q != me && (int)r != me && ps[q].alive && ps[r].alive && ps[q].req > d[q] && d[r] > d[q] + 1)
        BAD("L06/uneven", "process %zu received %d CPUs and process %zu only %d of %d", r, d[r], q, d[q], ps[q].req);
    for (size_t q = 0; q < ps.size(); q++) { ps[q].cur += d[q]; ps[q].req -= d[q]; served += d[q]; }
    idle_ += n - sum;
}
/* process me takes n CPUs from the ones above their own */
static void take(int me, int n) {
    auto d = deltas(me); int sum = 0;
    for (size_t q = 0; q < ps.size(); q++) { if ((int)q == me || !ps[q].alive) continue; sum += -d[q];
        if (d[q] > 0) BAD("L06/grown-by-reclaim", "process %zu received %d CPUs because process %d reclaimed", q, d[q], me);
        if (ps[q].cur + d[q] < ps[q].init && d[q]) BAD("L06/victim-below-own", "process %zu has %d of its own %d CPUs because process %d reclaimed", q, ps[q].cur + d[q], ps[q].init, me); }
    if (sum != n) BAD("L06/reclaim-not-taken", "process %d had to take %d CPUs and %d were taken", me, n, sum);
    for (size_t q = 0; q < ps.size(); q++) { ps[q].cur += d[q]; if (d[q] < 0) ps[q].req += -d[q]; taken += -d[q]; }
}
/* the caller gets its own CPUs back: idle ones first */
static bool recover(int me) {
    P &p = ps[me]; int need = p.init - p.cur; if (need <= 0) return false;
    int b = std::min(idle_, need); idle_ -= b; p.cur += b; need -= b;
    if (need > 0) take(me, need); p.cur += need; return true;
}
static void mine(int me, bool must, const char *op) { /* what the caller was told */
    P &p = ps[me]; std::vector<int> ev; { std::lock_guard<std::mutex> g(mx); ev.swap(p.ev); }
    if (!ev.empty()) { p.told = ev.back(); grants++; }
    if (must && ev.empty()) BAD("L06/not-told", "process %d was not told its number of CPUs after %s", me, op);
    if (!ev.empty() && p.told != cl(p.cur)) BAD("L06/wrong-count", "process %d was told %d CPUs after %s and it has %d", me, p.told, op, p.cur);
}
static void quiet(int me, const char *op) { auto d = deltas(me); for (size_t q = 0; q < ps.size(); q++) if (d[q]) { BAD("L06/unexpected-change", "process %zu changed by %d because of %s of process %d", q, d[q], op, me); ps[q].cur += d[q]; } }
static void lendn(int me, int keep) { P &p = ps[me]; int n = p.cur - keep, own = std::min(n, std::max(0, p.cur - p.init)); int prev = own + p.req; p.req = 0; p.cur = keep; give(me, n); if (prev > 0) p.saved = prev; }
static void acquire(int me, int n) { P &p = ps[me]; n += p.saved; p.saved = 0; int b = std::min(idle_, n); idle_ -= b; p.cur += b; n -= b;
    int t = std::min(n, std::max(0, p.init - p.cur)); if (t > 0) take(me, t); else quiet(me, "acquire"); p.cur += t; n -= t; p.req += n; }

static void fin(int i) {
    P &p = ps[i]; int id = p.id; DLB_Finalize_sp(p.h); p.alive = false; drain(); p.req = 0; (void)id;
    if (p.cur > p.init) { give(i, p.cur - p.init); } else if (p.cur < p.init) recover(i); else quiet(i, "finalize");
    { std::lock_guard<std::mutex> g(mx); p.ev.clear(); }
}
static void start(int i) {
    P &p = ps[i]; p.init = rrange(&R, 1, std::max(1, N / (int)ps.size())); p.keep = chance(&R, 1, 2);
    std::string o = "--lewi --mode=async --lewi-affinity=none --quiet=yes --shm-key=" + key + (p.keep ? " --lewi-keep-one-cpu=yes" : "");
    p.h = DLB_Init_sp(p.init, nullptr, o.c_str()); if (!p.h) HARNESS_ERROR("init");
    p.id = vh_spd_id(p.h); DLB_CallbackSet_sp(p.h, dlb_callback_set_num_threads, (dlb_callback_t)cb, &p);
    p.cur = p.init; p.req = p.saved = 0; p.alive = p.on = true; quiet(i, "init");
}
static void expect(int me, const char *op, int rc, int want) { if (rc != want) BAD("L06/return-code", "%s of process %d returned %d instead of %d", op, me, rc, want); }

int main(int argc, char **argv) {
    R.s = strtoull(argv[1], 0, 10); int np = atoi(argv[2]); long ops = atol(argv[3]); key = argv[4]; long hs = 0;
    emit("STAT histories=1");
    N = 16; mu_testing_set_sys(N, N, 2); ps.resize(np); for (int i = 0; i < np; i++) start(i);
    for (long o = 0; o < ops; o++) {
        int me = rnd(&R, np); P &p = ps[me]; char b[80];
        if (!p.alive) { if (chance(&R, 1, 3)) { snprintf(b, sizeof b, " p%d:init", me); hist += b; start(me); } continue; }
        int k = rnd(&R, 100), n = chance(&R, 1, 8) ? rrange(&R, -2, 40) : rrange(&R, 1, 5), rc; calls++;
        const char *op = k < 12 ? "lend" : k < 32 ? "lendcpus" : k < 45 ? "reclaim" : k < 68 ? "acquire" : k < 71 ? "delete" : k < 80 ? "borrow" : k < 83 ? "borrowall" : k < 86 ? "into" : k < 91 ? "out" : k < 95 ? "disable" : k < 99 ? "enable" : "finalize";
        snprintf(b, sizeof b, " p%d:%s(%d)", me, op, n); hist += b;
        std::string s = op; int c0 = p.cur;
        if (s == "disable") { rc = DLB_Disable_sp(p.h); drain(); if (!p.on) { expect(me, op, rc, DLB_NOUPDT); quiet(me, op); } else { p.on = false; expect(me, op, rc, DLB_SUCCESS);
                int prev = p.req; p.req = 0;
                if (p.cur > p.init) { prev += p.cur - p.init; int e = p.cur - p.init; p.cur = p.init; give(me, e); } else if (p.cur < p.init) recover(me); else quiet(me, op);
                if (prev > 0) p.saved = prev; mine(me, c0 != p.cur, op); } }
        else if (s == "enable") { rc = DLB_Enable_sp(p.h); drain(); if (p.on) { expect(me, op, rc, DLB_NOUPDT); quiet(me, op); } else { p.on = true; if (p.saved) { int w = p.req; acquire(me, 0); if (lost) {} else if (rc != DLB_SUCCESS && rc != (p.req > w ? DLB_NOTED : DLB_SUCCESS)) expect(me, op, rc, DLB_SUCCESS); } else { expect(me, op, rc, DLB_SUCCESS); quiet(me, op); } mine(me, c0 != p.cur, op); } }
        else if (s == "finalize") { fin(me); }
        else if (!p.on && s != "into" && s != "out") {
            rc = s == "lend" ? DLB_Lend_sp(p.h) : s == "lendcpus" ? DLB_LendCpus_sp(p.h, n) : s == "reclaim" ? DLB_Reclaim_sp(p.h) : s == "borrowall" ? DLB_Borrow_sp(p.h) : s == "borrow" ? DLB_BorrowCpus_sp(p.h, n) : DLB_AcquireCpus_sp(p.h, s == "delete" ? DLB_DELETE_REQUESTS : n);
            drain(); expect(me, op, rc, DLB_ERR_DISBLD); quiet(me, op); mine(me, false, op); }
        else if (s == "lend" || (s == "into" && p.on)) { int keep = s == "lend" || p.keep ? 1 : 0; rc = 0; if (s == "lend") rc = DLB_Lend_sp(p.h); else vh_into_blocking(p.h); drain();
            if (s == "lend") expect(me, op, rc, p.cur > 1 ? DLB_SUCCESS : p.cur == 1 ? DLB_NOUPDT : DLB_ERR_PERM);
            if (p.cur > keep) lendn(me, keep); else quiet(me, op); mine(me, c0 != p.cur, op); }
        else if (s == "lendcpus") { rc = DLB_LendCpus_sp(p.h, n); drain(); expect(me, op, rc, n < 0 ? DLB_ERR_PERM : n == 0 ? DLB_NOUPDT : n > p.cur ? DLB_ERR_PERM : DLB_SUCCESS);
            if (n > 0 && n <= p.cur) lendn(me, p.cur - n); else quiet(me, op); mine(me, c0 != p.cur, op); }
        else if (s == "reclaim" || (s == "out" && p.on)) { rc = 0; if (s == "reclaim") rc = DLB_Reclaim_sp(p.h); else vh_out_blocking(p.h); drain(); bool did = recover(me);
            if (s == "reclaim") expect(me, op, rc, did ? DLB_SUCCESS : DLB_NOUPDT);
            if (did) { int x = std::min(idle_, p.saved); idle_ -= x; p.cur += x; p.req += p.saved - x; p.saved = 0; } else quiet(me, op); quiet(me, op); mine(me, c0 != p.cur, op); }
        else if (s == "acquire") { if (n == 0) n = 1; rc = DLB_AcquireCpus_sp(p.h, n); drain(); if (n < 0) { if (rc >= 0) BAD("L06/return-code", "acquire of %d CPUs returned %d", n, rc); quiet(me, op); }
            else { int want = n + p.saved, had = p.cur; acquire(me, n); expect(me, op, rc, p.cur - had == want ? DLB_SUCCESS : DLB_NOTED); } mine(me, c0 != p.cur, op); }
        else if (s == "delete") { rc = DLB_AcquireCpus_sp(p.h, DLB_DELETE_REQUESTS); drain(); expect(me, op, rc, DLB_SUCCESS); p.req = p.saved = 0; quiet(me, op); mine(me, false, op); }
        else if (s == "borrow" || s == "borrowall") { int w = s == "borrow" ? n : 1000; rc = s == "borrow" ? DLB_BorrowCpus_sp(p.h, n) : DLB_Borrow_sp(p.h); drain(); int x = std::min(idle_, std::max(0, w)); expect(me, op, rc, x > 0 ? DLB_SUCCESS : DLB_NOUPDT); idle_ -= x; p.cur += x; quiet(me, op); mine(me, c0 != p.cur, op); }
        else { if (s == "into") vh_into_blocking(p.h); else vh_out_blocking(p.h); drain(); quiet(me, op); mine(me, false, op); }
        if (lost) break;
        int sum = idle_; for (auto &q : ps) if (q.alive) sum += q.cur;
        if (sum != total()) HARNESS_ERROR("model does not add up: %s", state().c_str());
        char sig[80]; int a = 0, r = 0; for (auto &q : ps) if (q.alive) { a += q.cur > q.init; r += q.req > 0; }
        snprintf(sig, sizeof sig, "%s-%d%d%d-%d%d%d", op, p.cur > p.init, p.cur < p.init, p.cur == 0, std::min(idle_, 3), std::min(a, 2), std::min(r, 2)); emit("SIG %s", sig); hs++;
    }
    for (int i = 0; i < np; i++) if (ps[i].alive) { if (lost) DLB_Finalize_sp(ps[i].h); else fin(i); }
    if (!lost && idle_ != 0) BAD("L06/left-over", "%d CPUs are left when all the processes have finished", idle_);
    emit("STAT calls=%ld served=%ld taken=%ld own_grants=%ld", calls, served, taken, grants);
    emit("DONE"); return 0;
}
