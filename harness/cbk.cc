/* A02: callbacks. Part 1: every dispatch function with any subset of the callbacks against the registered forms.
 * Part 2: the same LeWI history with different callback forms registered must tell the application the same changes. */
#include "vh.h"
#include <pthread.h>
#include <dlb.h>
#include <dlb_sp.h>
#include <dlb_drom.h>
#include <string>
#include <vector>
#include <map>
#include <set>
extern "C" {
#include "LB_numThreads/numThreads.h"
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
int vh_spd_id(void *h);
void shmem_async_wait_for_completion(pid_t);
}
using std::string; using std::vector; using std::set; using std::pair;
enum { NT = 1, SM, SPM, AM, APM, EN, DI, ENS, DIS, NCB = 9 };
static const char *NM[] = {"", "set_num_threads", "set_active_mask", "set_process_mask", "add_active_mask", "add_process_mask", "enable_cpu", "disable_cpu", "enable_cpu_set", "disable_cpu_set"};
static int W; static rng_t r; static std::map<string, long> st; static int NC;
struct Call { int which, val; set<int> m; void *arg; };
static vector<Call> calls; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static set<int> toset(const cpu_set_t *m) { set<int> s; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, m)) s.insert(i); return s; }
static void logc(int w, int v, const cpu_set_t *m, void *a) { Call c; c.which = w; c.val = v; c.arg = a; if (m) c.m = toset(m); pthread_mutex_lock(&mx); calls.push_back(c); pthread_mutex_unlock(&mx); }
#define CBI(n, k) static void n(int v, void *a) { logc(k, v, nullptr, a); }
#define CBM(n, k) static void n(const cpu_set_t *m, void *a) { logc(k, 0, m, a); }
CBI(fNT, NT) CBM(fSM, SM) CBM(fSPM, SPM) CBM(fAM, AM) CBM(fAPM, APM) CBI(fEN, EN) CBI(fDI, DI) CBM(fENS, ENS) CBM(fDIS, DIS)
static dlb_callback_t F[] = {0, (dlb_callback_t)fNT, (dlb_callback_t)fSM, (dlb_callback_t)fSPM, (dlb_callback_t)fAM, (dlb_callback_t)fAPM, (dlb_callback_t)fEN, (dlb_callback_t)fDI, (dlb_callback_t)fENS, (dlb_callback_t)fDIS};
static string ss(const set<int> &s) { string o = "{"; for (int x : s) o += (o.size() > 1 ? "," : "") + std::to_string(x); return o + "}"; }
static string show(const vector<Call> &v) { string o; for (auto &c : v) o += string(NM[c.which]) + "(" + (c.which == NT || c.which == EN || c.which == DI ? std::to_string(c.val) : ss(c.m)) + ",arg " + std::to_string((long)c.arg) + ") "; return o.empty() ? "none" : o; }
static void dispatch() {
    /* two process managers, random subsets: registering for one event or one of them does not change the rest */
    NC = 1 + rnd(&r, 64); mu_testing_set_sys(NC, NC, 1);
    pm_interface_t pm[2]; void *arg[2][10] = {}; dlb_callback_t fn[2][10] = {}; pm_init(&pm[0]); pm_init(&pm[1]);
    for (int step = 0; step < 60; step++) {
        int p = rnd(&r, 2); pm_interface_t *q = &pm[p]; auto &fp = fn[p]; auto &ap = arg[p];
        if (chance(&r, 1, 3)) {
            int w = (int)rnd(&r, 12) - 1; if (chance(&r, 1, 10)) w = 1000; bool ok = w >= 1 && w <= NCB; dlb_callback_t f = ok && rnd(&r, 4) ? F[w] : nullptr; void *a = (void*)(uintptr_t)(1 + rnd(&r, 1000000));
            int rc = pm_callback_set(q, (dlb_callbacks_t)w, f, a); if (rc != (ok ? DLB_SUCCESS : DLB_ERR_NOCBK)) VIOL("A02/set-code", "setting callback %d gives %d", w, rc);
            if (ok) { fp[w] = f; ap[w] = a; } st["sets"]++;
        }
        for (int k = 0; k < 2; k++) for (int w = -1; w <= 11; w++) { bool ok = w >= 1 && w <= NCB; dlb_callback_t f = (dlb_callback_t)0x1; void *a = (void*)0x1; int rc = pm_callback_get(&pm[k], (dlb_callbacks_t)w, &f, &a);
            if (rc != (ok ? DLB_SUCCESS : DLB_ERR_NOCBK)) VIOL("A02/get-code", "getting callback %d gives %d", w, rc);
            if (ok && (f != fn[k][w] || a != arg[k][w])) VIOL("A02/get", "callback %s of process %d reads back (%p, %p), set (%p, %p), after changing process %d", NM[w], k, (void*)f, a, (void*)fn[k][w], arg[k][w], p); st["gets"]++; }
        int op = 1 + rnd(&r, NCB); cpu_set_t m; CPU_ZERO(&m); for (int i = 0; i < NC; i++) if (chance(&r, 1, 3)) CPU_SET(i, &m); if (!CPU_COUNT(&m) && chance(&r, 4, 5)) CPU_SET(rnd(&r, NC), &m);
        int v = op == NT ? (int)rnd(&r, 3 * NC + 4) - NC : (int)rnd(&r, NC); if (op == NT && chance(&r, 1, 10)) v = chance(&r, 1, 2) ? INT32_MAX : INT32_MIN;
        calls.clear(); int rc = 0; switch (op) { case NT: rc = update_threads(q, v); break; case SM: rc = set_mask(q, &m); break; case SPM: rc = set_process_mask(q, &m); break; case AM: rc = add_mask(q, &m); break; case APM: rc = add_process_mask(q, &m); break; case EN: rc = enable_cpu(q, v); break; case DI: rc = disable_cpu(q, v); break; case ENS: rc = enable_cpu_set(q, &m); break; case DIS: rc = disable_cpu_set(q, &m); break; }
        /* expected */
        vector<Call> want; set<int> sm = toset(&m); auto one = [&](int w, int x, set<int> s) { Call c; c.which = w; c.val = x; c.m = s; c.arg = ap[w]; want.push_back(c); }; bool any = true;
        switch (op) {
            case NT: if (fp[NT]) one(NT, v > NC ? NC : v < 1 ? 1 : v, {}); else any = false; break;
            case SM: case SPM: case APM: if (fp[op]) one(op, 0, sm); else any = false; break;
            case AM: if (fp[AM]) one(AM, 0, sm); else if (fp[EN]) { for (int x : sm) one(EN, x, {}); } else any = false; break;
            case EN: if (fp[EN]) one(EN, v, {}); else if (fp[ENS]) one(ENS, 0, {v}); else if (fp[AM]) one(AM, 0, {v}); else any = false; break;
            case ENS: if (fp[ENS]) one(ENS, 0, sm); else if (fp[EN]) { for (int x : sm) one(EN, x, {}); } else any = false; break;
            case DI: if (fp[DI]) one(DI, v, {}); else if (fp[DIS]) one(DIS, 0, {v}); else if (fp[SM]) { cpu_set_t a; sched_getaffinity(0, sizeof a, &a); CPU_CLR(v, &a); one(SM, 0, toset(&a)); } else any = false; break;
            case DIS: if (fp[DIS]) one(DIS, 0, sm); else if (fp[DI]) { for (int x : sm) one(DI, x, {}); } else any = false; break;
        }
        /* an empty set may or may not be told */
        if ((op == AM || op == ENS || op == DIS) && sm.empty()) { want = calls; if (!any && !calls.empty()) VIOL("A02/dispatch", "callback invoked without one: %s", show(calls).c_str()); }
        bool same = want.size() == calls.size(); for (size_t i = 0; same && i < want.size(); i++) same = want[i].which == calls[i].which && want[i].arg == calls[i].arg && (want[i].which == NT || want[i].which == EN || want[i].which == DI ? want[i].val == calls[i].val : want[i].m == calls[i].m);
        string reg; for (int w = 1; w <= NCB; w++) if (fp[w]) reg += string(NM[w]) + " ";
        if (!same) VIOL("A02/dispatch", "%s of %d %s with %d CPUs: invoked %s, expected %s (registered: %s)", NM[op], v, ss(sm).c_str(), NC, show(calls).c_str(), show(want).c_str(), reg.c_str());
        if (rc != (any ? DLB_SUCCESS : DLB_ERR_NOCBK)) VIOL("A02/dispatch-code", "%s gives %d, expected %d (registered: %s)", NM[op], rc, any ? DLB_SUCCESS : DLB_ERR_NOCBK, reg.c_str());
        st["dispatched"]++; st[string("dispatched_") + (any ? "some" : "none")]++; emit("SIG %d/%s/%zu", op, reg.c_str(), want.size());
    }
    pm_finalize(&pm[0]); pm_finalize(&pm[1]);
}
/* part 2 */
typedef pair<set<int>, set<int>> Delta; /* enabled, disabled */
struct Rec { string op; int rc; vector<Delta> d; vector<vector<set<int>>> pm; };
static vector<Rec> world(uint64_t seed, int forms, const char *key, bool async, bool observe) {
    rng_t q; q.s = seed; vector<Rec> out; int n = 2 + rnd(&q, 2); NC = W; mu_testing_set_sys(NC, NC, 1);
    vector<dlb_handler_t> h; vector<int> id; vector<int> own(NC); for (int i = 0; i < NC; i++) own[i] = i < n ? i : (int)rnd(&q, n + 1);
    static const char *A[] = {"mask", "any", "nearby-first", "nearby-only", "none"}; char a[400]; bool drom = chance(&q, 1, 3); snprintf(a, sizeof a, "--lewi %s --mode=%s --lewi-affinity=%s --shm-key=%s --no-barrier %s --lewi-keep-one-cpu=%s", drom ? "--drom" : "", async ? "async" : "polling", A[rnd(&q, 4)], key, chance(&q, 1, 3) ? "--lewi-greedy" : "", chance(&q, 1, 3) ? "yes" : "no");
    vector<set<int>> act(n); vector<void*> args;
    for (int i = 0; i < n; i++) {
        cpu_set_t m; CPU_ZERO(&m); for (int c = 0; c < NC; c++) if (own[c] == i) CPU_SET(c, &m);
        dlb_handler_t x = DLB_Init_sp(0, &m, a); if (!x) HARNESS_ERROR("init %d %s", i, a); h.push_back(x); id.push_back(vh_spd_id(x)); act[i] = toset(&m);
        for (int w : {EN, DI, ENS, DIS, SPM}) if (w == SPM || forms >> (w - EN) & 1) { if (DLB_CallbackSet_sp(x, (dlb_callbacks_t)w, F[w], (void*)(uintptr_t)(1000 * (i + 1) + w))) VIOL("A02/set-code", "CallbackSet_sp fails"); }
    }
    int ops = 20 + rnd(&q, 30);
    for (int o = 0; o < ops; o++) {
        int i = rnd(&q, n), k = rnd(&q, 15), c = rnd(&q, NC), nc = 1 + rnd(&q, NC); cpu_set_t m; CPU_ZERO(&m); for (int j = 0; j < NC; j++) if (chance(&q, 1, 3)) CPU_SET(j, &m); dlb_handler_t x = h[i]; calls.clear(); int rc = 0; const char *nm = "";
#define K(e) nm = #e; rc = e; break;
        switch (k) { case 0: K(DLB_Lend_sp(x)) case 1: K(DLB_LendCpu_sp(x, c)) case 2: K(DLB_LendCpuMask_sp(x, &m)) case 3: K(DLB_Reclaim_sp(x)) case 4: K(DLB_ReclaimCpus_sp(x, nc)) case 5: K(DLB_AcquireCpu_sp(x, c)) case 6: K(DLB_AcquireCpus_sp(x, nc)) case 7: K(DLB_AcquireCpuMask_sp(x, &m)) case 8: K(DLB_Borrow_sp(x)) case 9: K(DLB_BorrowCpus_sp(x, nc)) case 10: K(DLB_Return_sp(x)) case 11: K(DLB_ReclaimCpuMask_sp(x, &m)) case 12: K(DLB_BorrowCpu_sp(x, c)) case 13: K(DLB_Disable_sp(x) * 100 + DLB_Enable_sp(x)) case 14: K(DLB_LendCpu_sp(x, c)) }
        if (async) for (int y : id) shmem_async_wait_for_completion(y);
        Rec R; R.op = string(nm) + " of " + std::to_string(i) + " cpu " + std::to_string(c) + " n " + std::to_string(nc) + " mask " + ss(toset(&m)); R.rc = rc; R.d.resize(n); R.pm.resize(n);
        pthread_mutex_lock(&mx); vector<Call> log = calls; pthread_mutex_unlock(&mx);
        for (auto &cl : log) {
            int p = (int)((uintptr_t)cl.arg / 1000) - 1, w = (int)((uintptr_t)cl.arg % 1000);
            if (p < 0 || p >= n || w != cl.which) { VIOL("A02/arg", "%s invoked with the argument %ld: not the registered one (%s)", NM[cl.which], (long)cl.arg, R.op.c_str()); continue; }
            if (cl.which == SPM) { R.pm[p].push_back(cl.m); continue; }
            bool en = cl.which == EN || cl.which == ENS; set<int> s = cl.m; if (cl.which == EN || cl.which == DI) s = {cl.val};
            for (int y : s) { if (y < 0 || y >= NC) VIOL("A02/cpu", "%s told CPU %d of %d", NM[cl.which], y, NC); auto &D = en ? R.d[p].first : R.d[p].second;
                if (!observe && !D.insert(y).second) VIOL("A02/once", "%s: CPU %d told twice by one call: %s", R.op.c_str(), y, show(log).c_str()); else D.insert(y);
            }
            if (cl.which == ENS || cl.which == DIS) st["set_calls"]++; else st["cpu_calls"]++;
        }
        out.push_back(R); st["ops"]++;
        if (async) pthread_mutex_lock(&mx), calls.clear(), pthread_mutex_unlock(&mx);
    }
    for (auto x : h) { int rc = DLB_Finalize_sp(x); if (rc) VIOL("A01/finalize", "DLB_Finalize_sp gives %d (%s)", rc, a); }
    return out;
}

static void compare(uint64_t seed, const char *key) {
    rng_t q; q.s = seed ^ 77; bool async = chance(&q, 1, 3); vector<Rec> base = world(seed, 3, key, async, false);
    /* forms: bit 0 enable_cpu, 1 disable_cpu, 2 enable_cpu_set, 3 disable_cpu_set */
    static const int FM[] = {12, 15, 6, 9, 11, 7, 4, 8, 1, 2, 0, 14, 13};
    for (int t = 0; t < 4; t++) { int f = FM[rnd(&q, 13)]; vector<Rec> w = world(seed, f, key, async, false); st["worlds"]++; emit("SIG world %d %d", f, async);
        for (size_t o = 0; o < base.size(); o++) { bool en = f & 5, di = f & 10; 
            if (w[o].rc != base[o].rc) { VIOL("A02/forms-code", "op %zu %s gives %d with callback forms %x and %d with single-CPU callbacks", o, base[o].op.c_str(), w[o].rc, f, base[o].rc); return; }
            for (size_t p = 0; p < base[o].d.size(); p++) {
                Delta want = base[o].d[p]; if (!en) want.first.clear(); if (!di) want.second.clear(); st["compared"]++;
                if (w[o].d[p] != want) { VIOL("A02/forms", "op %zu %s: process %zu was told to enable %s and disable %s with callback forms %x, and %s, %s with single-CPU callbacks (async %d)", o, base[o].op.c_str(), p, ss(w[o].d[p].first).c_str(), ss(w[o].d[p].second).c_str(), f, ss(want.first).c_str(), ss(want.second).c_str(), async); return; } } } }
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    if (!getenv("VE")) stderr = fopen("/dev/null", "w"); r.s = strtoull(argv[1], 0, 10) * 104729 + 5; int n = atoi(argv[2]), m = atoi(argv[3]); unsetenv("DLB_ARGS");
    for (int i = 0; i < n; i++) dispatch();
    W = 3 + rnd(&r, 14); for (int i = 0; i < m; i++) compare(rng_next(&r), argv[4]);
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
    emit("DONE"); return 0;
}
