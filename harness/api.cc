/* A01: any order of API calls, for the process and two subprocesses, against a model of the life-cycle. */
#include "vh.h"
#include <pthread.h>
#include <dlb.h>
#include <dlb_sp.h>
#include <dlb_drom.h>
#include <dlb_talp.h>
#include <dlb_stats.h>
#include <dirent.h>
#include <limits.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
extern "C" { void mu_testing_set_sys(unsigned int, unsigned int, unsigned int); void shmem_async_wait_for_completion(pid_t); int vh_spd_id(void *h); void vh_main(void); }
using std::string; using std::vector; using std::set; using std::map;
#define OK DLB_SUCCESS
static rng_t r; static map<string, long> st; static int NC; static const char *KEY; static string hist; static int mypid;
struct Cb { dlb_callback_t f; void *a; };
struct Ctx { int idx; dlb_handler_t h; int id; bool on = false, pre = false, lewi = false, classic = false, async = false, drom = false, talp = false, barrier = false, needmask = false, enabled = false, defb = false; map<int, Cb> cb; set<int> own, rest; vector<dlb_barrier_t*> nb; vector<dlb_monitor_t*> mon; set<dlb_barrier_t*> att; };
static bool sps; /* "this process" is not defined with several subprocesses */
static Ctx C[3]; static int attD, attT, attS; static set<int> fakes; static map<int, set<int>> fcpu; static string cur;
static const char *CN[] = {"", "set_num_threads", "set_active_mask", "set_process_mask", "add_active_mask", "add_process_mask", "enable_cpu", "disable_cpu", "enable_cpu_set", "disable_cpu_set"};
static void bad(const char *key, const string &t) { VIOL(key, "%s: %s. History: %s", cur.c_str(), t.c_str(), hist.size() > 1500 ? hist.substr(hist.size() - 1500).c_str() : hist.c_str()); }
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; struct Ev { int w, v; void *a; dlb_callback_t f; }; static vector<Ev> evs;
static void lg(int w, int v, void *a, dlb_callback_t f) { pthread_mutex_lock(&mx); evs.push_back({w, v, a, f}); pthread_mutex_unlock(&mx); }
template <int W, int K> static void fi(int v, void *a) { lg(W, v, a, (dlb_callback_t)&fi<W, K>); }
template <int W, int K> static void fm(const cpu_set_t *m, void *a) { lg(W, CPU_COUNT(m), a, (dlb_callback_t)&fm<W, K>); }
template <int K> static dlb_callback_t pick(int w) { switch (w) { case 1: return (dlb_callback_t)&fi<1, K>; case 2: return (dlb_callback_t)&fm<2, K>; case 3: return (dlb_callback_t)&fm<3, K>; case 4: return (dlb_callback_t)&fm<4, K>; case 5: return (dlb_callback_t)&fm<5, K>; case 6: return (dlb_callback_t)&fi<6, K>; case 7: return (dlb_callback_t)&fi<7, K>; case 8: return (dlb_callback_t)&fm<8, K>; case 9: return (dlb_callback_t)&fm<9, K>; } return nullptr; }
static void drain() { for (auto &c : C) if (c.on && c.async && c.needmask) shmem_async_wait_for_completion(c.id); }
static map<int, Cb> old; /* callbacks of the context being finalized */
static void checkEvents() {
    drain(); vector<Ev> l; pthread_mutex_lock(&mx); l.swap(evs); pthread_mutex_unlock(&mx);
    for (auto &e : l) { bool found = false; for (auto &c : C) { auto it = c.cb.find(e.w); if (it != c.cb.end() && it->second.f == e.f && it->second.a == e.a) { found = true; if (e.w == 1 && (e.v < 1 || e.v > NC)) bad("A02/threads", "set_num_threads callback with " + std::to_string(e.v) + " of " + std::to_string(NC) + " CPUs"); if ((e.w == 6 || e.w == 7) && (e.v < 0 || e.v >= NC)) bad("A02/cpu", "callback with CPU " + std::to_string(e.v)); } }
        auto io = old.find(e.w); if (io != old.end() && io->second.f == e.f && io->second.a == e.a) found = true;
        if (!found) bad("A02/stale", string("callback ") + CN[e.w] + " invoked with a function or argument that is not registered"); st["invoked"]++; }
    old.clear();
    for (auto &c : C) if (c.idx == 0 || c.on) for (int w = 1; w <= 9; w++) { dlb_callback_t f = nullptr; void *a = nullptr; if (!c.idx) vh_main(); int rc = c.idx ? DLB_CallbackGet_sp(c.h, (dlb_callbacks_t)w, &f, &a) : DLB_CallbackGet((dlb_callbacks_t)w, &f, &a); if (rc) bad("A02/get-code", string("reading callback ") + CN[w] + " gives " + std::to_string(rc)); auto it = c.cb.find(w); bool in = it != c.cb.end(); if ((in && (f != it->second.f || a != it->second.a)) || (!in && f)) bad("A02/get", string("callback ") + CN[w] + " of context " + std::to_string(c.idx) + " does not read back as set"); st["reads"]++; }
}
static int acpu(bool &inv) { inv = false; if (chance(&r, 1, 12)) { static const int X[] = {-1, -2, INT_MIN, 1 << 20, INT_MAX}; inv = true; int k = rnd(&r, 7); return k < 5 ? X[k] : k == 5 ? NC : NC + 1 + (int)rnd(&r, 2000); } return rnd(&r, NC); }
static cpu_set_t amask(bool &inv) { cpu_set_t m; CPU_ZERO(&m); inv = false; int d = 1 + rnd(&r, 4); for (int i = 0; i < NC; i++) if (chance(&r, 1, d)) CPU_SET(i, &m); if (chance(&r, 1, 12)) { inv = true; CPU_SET(NC + rnd(&r, CPU_SETSIZE - NC), &m); if (chance(&r, 1, 4)) for (int i = 0; i < CPU_SETSIZE; i++) CPU_SET(i, &m); } if (chance(&r, 1, 15)) CPU_ZERO(&m); return m; }
static int anum() { static const int X[] = {0, -1, INT_MIN, INT_MAX, 0x7fff, -5}; return chance(&r, 1, 6) ? X[rnd(&r, 6)] : 1 + (int)rnd(&r, NC + 2); }
static string set2(const set<int> &s) { string o; for (int x : s) o += (o.empty() ? "" : ",") + std::to_string(x); return o; }
static void expect(int rc, set<int> ok, const char *cls) { st["calls"]++; st[string("code_") + std::to_string(rc < 0 ? -rc : rc) + (rc < 0 ? "n" : "p")]++; const char *s = DLB_Strerror(rc); if (!s || !*s) bad("A01/strerror", "no text for the code"); emit("SIG %s %d %s", cur.substr(0, cur.find('(')).c_str(), rc, cls); if (!ok.count(rc)) bad((string("A01/") + cur.substr(0, cur.find('('))).c_str(), "gives " + std::to_string(rc) + ", expected " + set2(ok) + " (" + cls + ")"); }
/* LeWI functions: 0 polling with masks, 1 classic, 2 classic asynchronous */
struct LF { const char *n; bool classic, casync; set<int> ok; bool inPre; int kind; /* 1 cpu 2 num 3 mask 4 num+mask 0 none */ std::function<int(Ctx &, int, int, cpu_set_t *)> f; };
#define F0(n) [](Ctx &c, int cpu, int k, cpu_set_t *m) { return c.idx ? DLB_##n##_sp(c.h) : DLB_##n(); }
#define F1(n) [](Ctx &c, int cpu, int k, cpu_set_t *m) { return c.idx ? DLB_##n##_sp(c.h, cpu) : DLB_##n(cpu); }
#define F2(n) [](Ctx &c, int cpu, int k, cpu_set_t *m) { return c.idx ? DLB_##n##_sp(c.h, k) : DLB_##n(k); }
#define F3(n) [](Ctx &c, int cpu, int k, cpu_set_t *m) { return c.idx ? DLB_##n##_sp(c.h, m) : DLB_##n(m); }
#define F4(n) [](Ctx &c, int cpu, int k, cpu_set_t *m) { return c.idx ? DLB_##n##_sp(c.h, k, m) : DLB_##n(k, m); }
#define LEND {OK, DLB_NOUPDT, DLB_ERR_PERM}
#define RECL {OK, DLB_NOTED, DLB_NOUPDT, DLB_ERR_PERM}
#define ACQ {OK, DLB_NOTED, DLB_NOUPDT, DLB_ERR_PERM, DLB_ERR_REQST}
#define BORR {OK, DLB_NOUPDT, DLB_ERR_PERM}
#define RET {OK, DLB_NOUPDT, DLB_ERR_PERM, DLB_ERR_NOCOMP, DLB_NOTED}
static const vector<LF> LFS = {
    {"SetMaxParallelism", 1, 0, {OK, DLB_NOUPDT, DLB_ERR_PERM}, 1, 2, F2(SetMaxParallelism)}, {"UnsetMaxParallelism", 1, 0, {OK, DLB_NOUPDT}, 1, 0, F0(UnsetMaxParallelism)},
    {"Lend", 1, 1, LEND, 1, 0, F0(Lend)}, {"LendCpu", 0, 0, LEND, 1, 1, F1(LendCpu)}, {"LendCpus", 0, 1, LEND, 1, 2, F2(LendCpus)}, {"LendCpuMask", 0, 0, LEND, 1, 3, F3(LendCpuMask)},
    {"Reclaim", 1, 1, RECL, 1, 0, F0(Reclaim)}, {"ReclaimCpu", 0, 0, RECL, 1, 1, F1(ReclaimCpu)}, {"ReclaimCpus", 0, 0, RECL, 1, 2, F2(ReclaimCpus)}, {"ReclaimCpuMask", 0, 0, RECL, 1, 3, F3(ReclaimCpuMask)},
    {"AcquireCpu", 0, 0, ACQ, 1, 1, F1(AcquireCpu)}, {"AcquireCpus", 0, 1, ACQ, 1, 2, F2(AcquireCpus)}, {"AcquireCpuMask", 0, 0, ACQ, 1, 3, F3(AcquireCpuMask)}, {"AcquireCpusInMask", 0, 0, ACQ, 1, 4, F4(AcquireCpusInMask)},
    {"Borrow", 1, 1, BORR, 1, 0, F0(Borrow)}, {"BorrowCpu", 0, 0, BORR, 1, 1, F1(BorrowCpu)}, {"BorrowCpus", 1, 1, BORR, 1, 2, F2(BorrowCpus)}, {"BorrowCpuMask", 0, 0, BORR, 1, 3, F3(BorrowCpuMask)}, {"BorrowCpusInMask", 0, 0, BORR, 1, 4, F4(BorrowCpusInMask)},
    {"Return", 0, 0, RET, 1, 0, F0(Return)}, {"ReturnCpu", 0, 0, RET, 1, 1, F1(ReturnCpu)}, {"ReturnCpuMask", 0, 0, RET, 1, 3, F3(ReturnCpuMask)},
    {"CheckCpuAvailability", 0, 0, {OK, DLB_NOTED, DLB_NOUPDT, DLB_ERR_PERM}, 0, 1, F1(CheckCpuAvailability)}};
static void lewi(Ctx &c) {
    const LF &f = LFS[rnd(&r, LFS.size())]; bool ic, im; int cpu = acpu(ic), k = anum(); cpu_set_t m = amask(im); bool inv = (f.kind == 1 && ic) || (f.kind >= 3 && im) ; char b[200]; snprintf(b, sizeof b, "DLB_%s(ctx %d, cpu %d, n %d)", f.n, c.idx, cpu, k); cur = b;
    /* what only makes sense for a CPU of the machine must not be granted otherwise */
    int rc = f.f(c, cpu, k, &m);
    if (!c.on) { set<int> s = {DLB_ERR_NOINIT}; if (!f.inPre) { s.insert(DLB_ERR_NOLEWI); s.insert(DLB_ERR_DISBLD); } expect(rc, s, "not initialized"); }
    else if (!c.lewi) expect(rc, {DLB_ERR_NOLEWI}, "LeWI off"); else if (!c.enabled) expect(rc, {DLB_ERR_DISBLD}, "disabled");
    else if (!c.classic && !strcmp(f.n, "LendCpus")) expect(rc, {DLB_ERR_NOPOL}, "not in this policy"); else if (c.classic && !(c.async ? f.casync : f.classic)) expect(rc, {DLB_ERR_NOPOL}, "not in this policy");
    else if (f.kind == 1 && inv && !(c.async && !strncmp(f.n, "Return", 6))) expect(rc, {DLB_ERR_PERM, DLB_NOUPDT, DLB_ERR_UNKNOWN, DLB_ERR_NOENT}, "CPU that does not exist");
    else if (c.async && !strncmp(f.n, "Return", 6)) expect(rc, {DLB_ERR_NOCOMP}, "asynchronous"); else if (!c.async && !strncmp(f.n, "Return", 6)) { set<int> s = f.ok; s.erase(DLB_ERR_NOCOMP); expect(rc, s, "polling"); }
    else { set<int> s = f.ok; if (f.kind == 2 && k <= 0) s.insert(DLB_ERR_UNKNOWN); expect(rc, s, inv ? "invalid mask" : "usable"); }
}
static bool shm(void) { if (attD || attT || attS) return true; for (auto &c : C) if (c.on && (c.needmask || c.talp)) return true; if (C[0].pre) return false; return false; }
static void envBase() { char b[100]; snprintf(b, sizeof b, "--shm-key=%s --quiet=yes", KEY); setenv("DLB_ARGS", b, 1); }
static void init(Ctx &c) {
    bool im = false; cpu_set_t m = amask(im); bool hasm = c.idx || !chance(&r, 1, 6); bool failing = false; 
    bool lw = rnd(&r, 4), classic = lw && chance(&r, 1, 3), async = chance(&r, 1, 3), drom = c.idx == 0 && rnd(&r, 2), talp = c.idx == 0 && rnd(&r, 2), barrier = c.idx == 0 && rnd(&r, 3); if (c.idx && !lw) lw = true, classic = false;
    set<int> used; for (auto &o : C) if (o.on || (o.pre && &o != &c)) for (int x : o.own) used.insert(x); for (int p : fakes) for (int x : fcpu[p]) used.insert(x);
    if (im && !classic) for (int i = NC; i < CPU_SETSIZE; i++) CPU_CLR(i, &m); /* CPUs out of the machine are tried by DLB_Init of the DROM check */
    if (!chance(&r, 1, 10)) for (int x : used) CPU_CLR(x, &m); if (!CPU_COUNT(&m)) for (int i = 0; i < NC; i++) if (!used.count(i)) { CPU_SET(i, &m); break; }
    if (!CPU_COUNT(&m)) return;
    char a[500]; snprintf(a, sizeof a, "--shm-key=%s %s --quiet=yes %s %s %s --mode=%s %s %s --lewi-affinity=%s --lewi-keep-one-cpu=%s", KEY, lw ? "--lewi" : "--no-lewi", drom ? "--drom" : "--no-drom", talp ? chance(&r, 1, 2) ? "--talp --talp-external-profiler" : "--talp" : "--no-talp", barrier ? "--barrier" : "--no-barrier", async ? "async" : "polling", chance(&r, 1, 4) ? "--lewi-greedy" : "", chance(&r, 1, 8) ? "--no-such-option=3 garbage" : "", classic ? "none" : "mask", chance(&r, 1, 2) ? "yes" : "no");
    cur = string("DLB_Init(ctx ") + std::to_string(c.idx) + ", " + a + (hasm ? ")" : ", no mask)");
    if (!hasm) { /* affinity of this thread: fix it so that the machine has those CPUs */ if (lw && !classic) return; }
    if (c.pre && !c.on) { hasm = true; if (c.own.size()) { int k = rnd(&r, 4); cpu_set_t z; CPU_ZERO(&z); for (int x : c.own) CPU_SET(x, &z); if (k == 0) m = z; else if (k == 1) CPU_OR(&m, &m, &z); else if (k == 2) CPU_AND(&m, &m, &z); CPU_AND(&z, &m, &z); if (!CPU_COUNT(&z)) return; } }
    bool need = (lw && !classic) || drom || c.pre; bool confl = false; for (int x : used) if (CPU_ISSET(x, &m)) confl = true; bool otherAsyncClassic = false;
    if (!c.idx && c.on) { int rc = DLB_Init(chance(&r, 1, 2) ? NC : 0, hasm ? &m : nullptr, a); expect(rc, {DLB_ERR_INIT}, "already initialized"); return; }
    if (c.idx && c.on) return;
    if (!hasm && need) return;
    for (auto &o : C) if (o.on && ((o.lewi && o.classic && (o.async != async || !classic)) )) return; /* one node, one LeWI flavour */
    for (auto &o : C) if (o.on && lw && o.lewi && (o.classic != classic || o.async != async)) return;
    for (auto &o : C) if (o.on && classic) { if (o.idx || c.idx) return; }
    if (c.idx && classic) return; if (talp && !need && fakes.size()) return; if (talp && !need) for (auto &o : C) if (o.on && o.needmask) return; if (need) for (auto &o : C) if (o.on && !o.needmask && o.talp) return; if (need) if (C[0].pre && c.idx) return; if (c.pre && confl) return; if (c.pre && (classic || !lw || talp)) return;
    int rc; size_t regs = fakes.size(); for (auto &o : C) if (o.on && (o.needmask || o.talp)) regs += 1 + o.rest.size(); else if (o.pre && o.own.size()) regs++; size_t asy = 0; for (auto &o : C) if (o.on && o.async) asy++; bool full = regs >= (size_t)NC || asy >= (size_t)NC; set<int> good = full ? set<int>{OK, DLB_ERR_NOMEM} : set<int>{OK};
    if (c.idx) { sps = true; c.h = DLB_Init_sp(0, &m, a); rc = c.h ? OK : DLB_ERR_PERM; if (c.h) c.id = vh_spd_id(c.h); if (confl && need ? c.h != nullptr : c.h == nullptr && !full) bad("A01/DLB_Init_sp", c.h ? string() + "registers CPUs of another process" : "fails, " + std::to_string(regs) + " registered of " + std::to_string(NC)); st["calls"]++; }
    else { if (c.pre) rc = DLB_Init(0, &m, nullptr); else rc = DLB_Init(classic ? 1 + rnd(&r, NC) : 0, hasm ? &m : nullptr, a); c.id = mypid;
        if (c.pre) expect(rc, good, "preinitialized"); else if (classic && (drom)) expect(rc, {DLB_ERR_NOCOMP}, "classic LeWI with DROM"); else if (confl && need) expect(rc, full ? set<int>{DLB_ERR_PERM, DLB_ERR_NOMEM} : set<int>{DLB_ERR_PERM}, "CPUs of another process"); else expect(rc, good, "init"); }
    if (rc) { st["init_failed"]++; if (c.idx == 0) c.cb.clear(); return; }
    if (c.pre) { lw = false; classic = async = false; drom = talp = false; barrier = true; need = true; }
    c.on = true; c.lewi = lw; c.classic = classic; c.async = async; c.drom = drom; c.talp = talp; c.barrier = barrier; c.needmask = need; c.enabled = true; c.defb = barrier; c.cb.clear(); c.nb.clear(); c.mon.clear(); c.att.clear(); c.rest.clear(); if (c.pre) { bool sup = true; for (int x : c.own) if (!CPU_ISSET(x, &m)) sup = false; if (!sup) for (int x : c.own) if (!CPU_ISSET(x, &m)) c.rest.insert(x); } c.own = c.rest; if (need) for (int i = 0; i < NC; i++) if (CPU_ISSET(i, &m)) c.own.insert(i); st["inits"]++;
}
static void fin(Ctx &c) {
    vh_main(); old = c.cb; cur = "DLB_Finalize(ctx " + std::to_string(c.idx) + ")";
    if (c.idx) { if (!c.on) return; int rc = DLB_Finalize_sp(c.h); st["calls"]++; if (rc) bad("A01/DLB_Finalize_sp", "gives " + std::to_string(rc)); c.h = nullptr; c.on = false; c.cb.clear(); c.own.clear(); return; }
    int rc = DLB_Finalize(); if (c.on) { expect(rc, {OK}, "initialized"); c.on = false; c.cb.clear(); c.own = c.rest; c.rest.clear(); } else if (c.pre) { expect(rc, {OK}, "preinitialized"); c.pre = false; c.own.clear(); envBase(); } else expect(rc, {DLB_NOUPDT}, "not initialized");
    c.nb.clear(); c.mon.clear(); c.att.clear();
}

static int anypid() { int k = rnd(&r, 6); if (k == 0) return 0; if (k == 1) return mypid; if (k == 2 && fakes.size()) return *fakes.begin(); if (k == 3) return 7999999; if (k == 4) return -1; return C[1].on ? C[1].id : mypid; }
static bool known(int pid) { if (fakes.count(pid)) return true; if (C[0].pre && pid == mypid && C[0].own.size()) return true; for (auto &c : C) if (c.on && c.id == pid && (c.needmask || c.talp)) return true; return false; }
static void drom() {
    int k = rnd(&r, 9); bool im; cpu_set_t m = amask(im); int v[64], n = -1; bool have = shm(); char b[120]; Ctx &c = C[0];
    switch (k) {
        case 0: cur = "DLB_DROM_Attach"; { int rc = DLB_DROM_Attach(); expect(rc, {OK}, "any"); attD++; } break;
        case 1: cur = "DLB_DROM_Detach"; if (attD) { int rc = DLB_DROM_Detach(); expect(rc, {OK}, "attached"); attD--; } else if (!have) { int rc = DLB_DROM_Detach(); expect(rc, {DLB_ERR_NOSHMEM}, "not attached"); } break;
        case 2: cur = "DLB_DROM_GetNumCpus"; { int rc = DLB_DROM_GetNumCpus(&n); expect(rc, {OK}, "any"); if (n != NC) bad("A01/DLB_DROM_GetNumCpus", "counts " + std::to_string(n)); } break;
        case 3: { cur = "DLB_DROM_GetPidList"; int max = rnd(&r, 10); memset(v, 0, sizeof v); int rc = DLB_DROM_GetPidList(v, &n, max); if (have) { expect(rc, {OK}, "attached"); if (n < 0 || n > max) bad("A01/DLB_DROM_GetPidList", "lists " + std::to_string(n)); for (int i = 0; i < n; i++) if (!known(v[i])) bad("A01/DLB_DROM_GetPidList", "unknown process " + std::to_string(v[i])); } else expect(rc, {DLB_ERR_NOSHMEM}, "not attached"); break; }
        case 4: { int p = anypid(); if (!p && (sps || C[1].on || C[2].on)) break; snprintf(b, sizeof b, "DLB_DROM_GetProcessMask(%d)", p); cur = b; cpu_set_t g; int rc = DLB_DROM_GetProcessMask(p, &g, (dlb_drom_flags_t)0); int q = p ? p : mypid; if (p == 0 && !c.on) expect(rc, {DLB_ERR_NOPROC, DLB_ERR_NOSHMEM, OK}, "self, not initialized"); else if (known(q)) expect(rc, {OK, DLB_NOTED}, "known"); else expect(rc, {DLB_ERR_NOPROC, DLB_ERR_NOSHMEM}, "unknown process"); break; }
        case 5: { int p = anypid(); if (im) break; if (C[1].on || C[2].on) break; snprintf(b, sizeof b, "DLB_DROM_SetProcessMask(%d)", p); cur = b; if (!p && sps) break; int q = p ? p : mypid; if (q == mypid && c.on && !c.drom) break; if (known(q)) { /* only CPUs that nobody else has */ for (auto &o : C) if (o.on && o.id != q) for (int x : o.own) CPU_CLR(x, &m); if (fakes.size() && !(fakes.count(q))) break; if (fakes.count(q)) break; if (c.pre) break; if (!CPU_COUNT(&m)) break; if (c.on && c.async) break;
                int rc = DLB_DROM_SetProcessMask(p, &m, (dlb_drom_flags_t)0); expect(rc, {OK, DLB_NOUPDT, DLB_ERR_PDIRTY}, "own mask"); if (rc == OK) { c.own.clear(); for (int i = 0; i < NC; i++) if (CPU_ISSET(i, &m)) c.own.insert(i); } }
            else { int rc = DLB_DROM_SetProcessMask(p, &m, (dlb_drom_flags_t)0); expect(rc, {DLB_ERR_NOPROC, DLB_ERR_NOSHMEM, DLB_ERR_PERM}, "unknown process"); } break; }
        case 6: { if (c.pre) break; int p = 5000001 + rnd(&r, 3); snprintf(b, sizeof b, "DLB_DROM_PreInit(%d)", p); cur = b; for (auto &o : C) if (o.on) for (int x : o.own) CPU_CLR(x, &m); for (int p : fakes) for (int x : fcpu[p]) CPU_CLR(x, &m); if (im || !CPU_COUNT(&m)) { if (attD || !fakes.count(p)) break; } bool talponly = false; for (auto &o : C) if (o.on && !o.needmask && o.talp) talponly = true; if (talponly) break; if (!have) { int rc = DLB_DROM_PreInit(p, &m, (dlb_drom_flags_t)0, nullptr); envBase(); expect(rc, {DLB_ERR_NOSHMEM}, "not attached"); break; } if (!attD) break; int rc = DLB_DROM_PreInit(p, &m, (dlb_drom_flags_t)0, nullptr); envBase(); if (fakes.count(p)) expect(rc, {DLB_ERR_INIT}, "registered"); else { expect(rc, {OK, DLB_ERR_NOMEM}, "free CPUs"); if (rc == OK) { fakes.insert(p); fcpu[p].clear(); for (int i = 0; i < NC; i++) if (CPU_ISSET(i, &m)) fcpu[p].insert(i); } } break; }
        case 7: { int p = fakes.size() && rnd(&r, 3) ? *fakes.begin() : 7999998; snprintf(b, sizeof b, "DLB_DROM_PostFinalize(%d)", p); cur = b; if (have && !attD) break; int rc = DLB_DROM_PostFinalize(p, (dlb_drom_flags_t)0); if (!have) expect(rc, {DLB_ERR_NOSHMEM}, "not attached"); else { expect(rc, fakes.count(p) ? set<int>{OK} : set<int>{DLB_ERR_NOPROC}, fakes.count(p) ? "registered" : "unknown"); fakes.erase(p); } break; }
        default: { int p = anypid(); snprintf(b, sizeof b, "DLB_DROM_RecoverStolenCpus(%d)", p); cur = b; if (have && !attD) break; int rc = DLB_DROM_RecoverStolenCpus(p); if (!have) expect(rc, {DLB_ERR_NOSHMEM}, "not attached"); else if (known(p)) expect(rc, {DLB_NOUPDT, OK}, "known"); else if (p) expect(rc, {DLB_ERR_NOPROC}, "unknown"); break; }
    }
}
static void talp() {
    Ctx &c = C[0]; int k = rnd(&r, 16); bool on = c.on && c.talp; char b[120]; static const char *N[] = {"a", "b", "Global", "global", "", "a very long name that is longer than what a region may have, that is one hundred and twenty-eight characters, so it has to be cut somewhere", "x y"};
    switch (k) {
        case 0: { cur = "DLB_MonitoringRegionGetGlobal"; dlb_monitor_t *m = DLB_MonitoringRegionGetGlobal(); st["calls"]++; if (!on == !!m) bad("A01/DLB_MonitoringRegionGetGlobal", m ? "a region without TALP" : "no region with TALP"); if (m) c.mon.push_back(m); break; }
        case 1: { cur = "DLB_MonitoringRegionRegister"; dlb_monitor_t *m = DLB_MonitoringRegionRegister(chance(&r, 1, 8) ? nullptr : N[rnd(&r, 7)]); st["calls"]++; if (!on == !!m) bad("A01/DLB_MonitoringRegionRegister", m ? "a region without TALP" : "no region with TALP"); if (m) c.mon.push_back(m); break; }
        case 2: case 3: case 4: case 5: case 6: { static dlb_monitor_t dummy; dlb_monitor_t *m = on && c.mon.size() ? c.mon[rnd(&r, c.mon.size())] : on ? nullptr : &dummy; if (on && !m && k != 4) return; static const char *W[] = {"", "", "Start", "Stop", "Stop", "Reset", "Report"}; cur = string("DLB_MonitoringRegion") + W[k]; if (k == 4) m = (dlb_monitor_t*)DLB_LAST_OPEN_REGION; int rc = k == 2 ? DLB_MonitoringRegionStart(m) : k <= 4 ? DLB_MonitoringRegionStop(m) : k == 5 ? DLB_MonitoringRegionReset(m) : DLB_MonitoringRegionReport(m); if (!on) expect(rc, {DLB_ERR_NOTALP}, "TALP off"); else expect(rc, k == 2 || k == 3 ? set<int>{OK, DLB_NOUPDT} : k == 4 ? set<int>{OK, DLB_ERR_NOENT} : set<int>{OK}, "TALP"); break; }
        case 7: { cur = "DLB_MonitoringRegionsUpdate"; int rc = DLB_MonitoringRegionsUpdate(); expect(rc, on ? set<int>{OK} : set<int>{DLB_ERR_NOTALP}, on ? "TALP" : "TALP off"); break; }
        case 8: { cur = "DLB_TALP_CollectPOPMetrics"; dlb_pop_metrics_t p; int rc = DLB_TALP_CollectPOPMetrics(on && c.mon.size() && rnd(&r, 2) ? c.mon[0] : nullptr, &p); expect(rc, on ? set<int>{OK, DLB_ERR_NOCOMP} : set<int>{DLB_ERR_NOTALP}, on ? "TALP" : "TALP off"); break; }
        case 9: { cur = "DLB_TALP_CollectPOPNodeMetrics"; dlb_node_metrics_t p; int rc = DLB_TALP_CollectPOPNodeMetrics(on && c.mon.size() && rnd(&r, 2) ? c.mon[0] : nullptr, &p); expect(rc, !on ? set<int>{DLB_ERR_NOTALP} : c.barrier ? set<int>{OK, DLB_NOUPDT, DLB_ERR_NOCOMP, DLB_ERR_NOENT} : set<int>{DLB_ERR_NOCOMP}, on ? "TALP" : "TALP off"); break; }
        case 10: { cur = "DLB_TALP_Attach"; if (attT || attD || attS) return; int rc = DLB_TALP_Attach(); expect(rc, {OK}, "any"); DLB_SetObserverRole(false); attT++; break; }
        case 11: { cur = "DLB_TALP_Detach"; if (attT) { int rc = DLB_TALP_Detach(); expect(rc, {OK}, "attached"); attT--; } else if (!shm()) { int rc = DLB_TALP_Detach(); expect(rc, {DLB_ERR_NOSHMEM}, "not attached"); } break; }
        case 12: { cur = "DLB_TALP_GetPidList"; int v[32], n = -1; int rc = DLB_TALP_GetPidList(v, &n, 32); expect(rc, shm() ? set<int>{OK} : set<int>{DLB_ERR_NOSHMEM}, shm() ? "attached" : "not attached"); break; }
        case 13: { int p = anypid(); snprintf(b, sizeof b, "DLB_TALP_GetTimes(%d)", p); cur = b; double x, y; int rc = DLB_TALP_GetTimes(p, &x, &y); if (p == mypid || p == 0) expect(rc, on ? set<int>{OK} : set<int>{DLB_ERR_NOTALP, DLB_ERR_NOSHMEM, DLB_ERR_NOPROC}, "own"); else expect(rc, {DLB_ERR_NOPROC, DLB_ERR_NOSHMEM, OK}, "other"); break; }
        case 14: { cur = "DLB_TALP_GetNodeTimes"; dlb_node_times_t t[8]; int n = -1; int rc = DLB_TALP_GetNodeTimes("Global", t, &n, 8); expect(rc, {OK, DLB_ERR_NOSHMEM}, "any"); if (rc == OK && (n < 0 || n > 8)) bad("A01/DLB_TALP_GetNodeTimes", "lists " + std::to_string(n)); break; }
        default: { cur = "DLB_TALP_QueryPOPNodeMetrics"; dlb_node_metrics_t p; int rc = DLB_TALP_QueryPOPNodeMetrics("Global", &p); expect(rc, {OK, DLB_ERR_NOSHMEM, DLB_ERR_NOENT}, "any"); break; }
    }
}
static void barrier() {
    Ctx &c = C[0]; bool on = c.on && c.barrier; char b[80];
    switch (rnd(&r, 7)) {
        case 0: { cur = "DLB_Barrier"; int rc = DLB_Barrier(); expect(rc, !on ? set<int>{DLB_ERR_NOCOMP, DLB_ERR_NOINIT} : c.defb ? set<int>{OK} : set<int>{DLB_NOUPDT}, on ? "on" : "off"); break; }
        case 1: { cur = "DLB_BarrierAttach"; int rc = DLB_BarrierAttach(); expect(rc, !on ? set<int>{DLB_ERR_NOCOMP, DLB_ERR_NOINIT} : c.defb ? set<int>{DLB_ERR_PERM} : c.nb.size() >= (size_t)NC ? set<int>{1, DLB_ERR_NOMEM} : set<int>{1}, on ? "on" : "off"); if (on && rc == 1) c.defb = true; break; }
        case 2: { cur = "DLB_BarrierDetach"; int rc = DLB_BarrierDetach(); expect(rc, !on ? set<int>{DLB_ERR_NOCOMP, DLB_ERR_NOINIT} : c.defb ? set<int>{0} : set<int>{DLB_ERR_PERM}, on ? "on" : "off"); if (on && rc == 0) c.defb = false; break; }
        case 3: { snprintf(b, sizeof b, "nb%u", rnd(&r, 3)); cur = "DLB_BarrierNamedRegister"; dlb_barrier_t *x = DLB_BarrierNamedRegister(chance(&r, 1, 8) ? nullptr : b, (dlb_barrier_flags_t)(1 << rnd(&r, 2))); st["calls"]++; if (x && !on) bad("A01/DLB_BarrierNamedRegister", "a barrier without support"); if (x) { c.nb.push_back(x); c.att.insert(x); } break; }
        default: { static int junk[64]; dlb_barrier_t *x = on && c.nb.size() ? c.nb[rnd(&r, c.nb.size())] : (dlb_barrier_t*)junk; if (on && !c.nb.size()) break; int k = rnd(&r, 3); static const char *W[] = {"", "Attach", "Detach"}; cur = string("DLB_BarrierNamed") + W[k]; bool in = c.att.count(x); int rc = k == 0 ? DLB_BarrierNamed(x) : k == 1 ? (on && !in ? -1000 : DLB_BarrierNamedAttach(x)) : DLB_BarrierNamedDetach(x); if (rc == -1000) break; /* the barrier without participants no longer exists */
            expect(rc, !on ? set<int>{DLB_ERR_NOCOMP, DLB_ERR_NOINIT} : k == 0 ? set<int>{in ? OK : DLB_NOUPDT} : k == 1 ? set<int>{in ? DLB_ERR_PERM : 1, in ? DLB_NOUPDT : 1} : set<int>{in ? 0 : DLB_ERR_PERM, in ? 0 : DLB_NOUPDT}, on ? "on" : "off"); if (on && k == 2 && rc == 0) { c.att.erase(x); for (size_t i = 0; i < c.nb.size();) if (c.nb[i] == x) c.nb.erase(c.nb.begin() + i); else i++; } break; }
    }
}
static void misc(Ctx &c) {
    if (c.idx && !c.on) return; char v[4096]; v[0] = 0;
    switch (rnd(&r, 13)) {
        case 0: { cur = "DLB_Enable(ctx " + std::to_string(c.idx); int rc = c.idx ? DLB_Enable_sp(c.h) : DLB_Enable(); if (!c.on) expect(rc, {DLB_ERR_NOINIT}, "not initialized"); else { expect(rc, {c.enabled ? DLB_NOUPDT : OK}, c.enabled ? "enabled" : "disabled"); c.enabled = true; } break; }
        case 1: { cur = "DLB_Disable(ctx " + std::to_string(c.idx); int rc = c.idx ? DLB_Disable_sp(c.h) : DLB_Disable(); if (!c.on) expect(rc, {DLB_ERR_NOINIT}, "not initialized"); else { expect(rc, {c.enabled ? OK : DLB_NOUPDT}, c.enabled ? "enabled" : "disabled"); c.enabled = false; } break; }
        case 2: case 3: case 4: { int w = (int)rnd(&r, 11); if (chance(&r, 1, 20)) w = -1; if (w > 9) w = 9; bool ok = w >= 1; dlb_callback_t f = ok ? rnd(&r, 2) ? pick<0>(w) : pick<1>(w) : nullptr; if (ok && chance(&r, 1, 5)) f = nullptr; void *a = (void*)(uintptr_t)(10 + 10000 * c.idx + rnd(&r, 1000) + 100000 * (w + 2)); cur = "DLB_CallbackSet(ctx " + std::to_string(c.idx) + ", " + std::to_string(w) + ")"; int rc = c.idx ? DLB_CallbackSet_sp(c.h, (dlb_callbacks_t)w, f, a) : DLB_CallbackSet((dlb_callbacks_t)w, f, a); expect(rc, {ok ? OK : DLB_ERR_NOCBK}, ok ? "callback" : "no such callback"); if (ok) c.cb[w] = {f, a}; break; }
        case 5: { cur = "DLB_PollDROM(ctx " + std::to_string(c.idx); cpu_set_t m; int n; bool nm = rnd(&r, 2), nn = rnd(&r, 2); int rc = c.idx ? DLB_PollDROM_sp(c.h, nn ? &n : nullptr, nm ? &m : nullptr) : DLB_PollDROM(nn ? &n : nullptr, nm ? &m : nullptr); expect(rc, !c.on ? set<int>{DLB_ERR_NOINIT} : !c.drom ? set<int>{DLB_ERR_NOCOMP} : set<int>{OK, DLB_NOUPDT}, "poll"); break; }
        case 6: { cur = "DLB_PollDROM_Update(ctx " + std::to_string(c.idx); int rc = c.idx ? DLB_PollDROM_Update_sp(c.h) : DLB_PollDROM_Update(); expect(rc, !c.on ? set<int>{DLB_ERR_NOINIT} : !c.drom ? set<int>{DLB_ERR_NOCOMP} : set<int>{OK, DLB_NOUPDT}, "poll"); break; }
        case 7: { static const char *N[] = {"--lewi", "--lewi-keep-one-cpu", "--debug-opts", "--nonsense", "", "--talp", "--lewi-ompt", "lewi", "--lewi-mpi", "--shm-key", "--barrier", "--mode"}; const char *n = N[rnd(&r, 12)]; if (!c.on && !c.pre) return; cur = string("DLB_SetVariable(") + n; int rc = c.idx ? DLB_SetVariable_sp(c.h, n, "") : DLB_SetVariable(n, "no"); expect(rc, {OK, DLB_ERR_PERM, DLB_ERR_NOENT, DLB_ERR_UNKNOWN}, "variable"); break; }
        case 8: { static const char *N[] = {"--lewi", "--lewi-keep-one-cpu", "--debug-opts", "--nonsense", "", "--talp", "--lewi-ompt"}; int k = rnd(&r, 7); if (!c.on) return; cur = string("DLB_GetVariable(") + N[k]; int rc = c.idx ? DLB_GetVariable_sp(c.h, N[k], v) : DLB_GetVariable(N[k], v); expect(rc, k == 3 || k == 4 ? set<int>{DLB_ERR_NOENT} : set<int>{OK}, "variable"); if (k == 0 && rc == OK && (!strcmp(v, "yes") || !strcmp(v, "1") || !strcmp(v, "true")) != c.lewi) bad("A01/DLB_GetVariable", string("--lewi is ") + v); break; }
        case 9: { cur = "DLB_PrintVariables"; if (!c.on) return; int rc = c.idx ? DLB_PrintVariables_sp(c.h, rnd(&r, 2)) : DLB_PrintVariables(rnd(&r, 2)); expect(rc, {OK}, "any"); break; }
        case 10: { cur = "DLB_PrintShmem"; if (c.idx) return; int rc = DLB_PrintShmem((int)rnd(&r, 6) - 1, (dlb_printshmem_flags_t)rnd(&r, 4)); expect(rc, {OK}, "any"); break; }
        case 11: { cur = "DLB_PreInit"; if (c.idx) return; for (auto &o : C) if (o.on && o.idx) return; if (fakes.size() || attD || attT || attS) return; bool im; cpu_set_t m = amask(im); if (im || !CPU_COUNT(&m)) return; char **ne = nullptr; if (c.on || c.pre) { int rc = DLB_PreInit(&m, nullptr); envBase(); if (c.pre) { char f[64]; snprintf(f, 64, "--shm-key=%s --quiet=yes --preinit-pid=%d", KEY, mypid); setenv("DLB_ARGS", f, 1); } expect(rc, {DLB_ERR_INIT}, "initialized"); return; } (void)ne; int rc = DLB_PreInit(&m, nullptr); expect(rc, {OK}, "free CPUs"); if (rc == OK) { c.pre = true; c.own.clear(); for (int i = 0; i < NC; i++) if (CPU_ISSET(i, &m)) c.own.insert(i); st["preinits"]++; } c.cb.clear(); break; }
        default: { cur = "DLB_Stats"; int n, v2[32]; double d; if (rnd(&r, 3) == 0 && !attS) { if (attD || attT) return; DLB_Stats_Init(); attS++; } else if (attS && rnd(&r, 2)) { DLB_Stats_Finalize(); attS--; } else { expect(DLB_Stats_GetNumCpus(&n), {OK}, "any"); n = -1; int rc = DLB_Stats_GetPidList(v2, &n, 32); expect(rc, {OK, DLB_ERR_NOSHMEM}, "any"); rc = DLB_Stats_GetCpuUsage(anypid(), &d); expect(rc, {OK, DLB_ERR_NOSHMEM, DLB_ERR_NOPROC}, "any"); rc = DLB_Stats_GetActiveCpus(anypid(), &n); expect(rc, {OK, DLB_ERR_NOSHMEM, DLB_ERR_NOPROC}, "any"); double dl[32]; rc = DLB_Stats_GetCpuUsageList(dl, &n, 32); rc = DLB_Stats_GetNodeUsage(&d); } break; }
    }
}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void finish() {
    fin(C[1]); fin(C[2]); checkEvents(); vh_main(); if (fakes.size() && !attD) { DLB_DROM_Attach(); attD++; } while (fakes.size()) { cur = "cleanup: DLB_DROM_PostFinalize"; int rc = DLB_DROM_PostFinalize(*fakes.begin(), (dlb_drom_flags_t)0); expect(rc, {OK}, "registered"); fakes.erase(fakes.begin()); }
    while (attD) { cur = "cleanup: DLB_DROM_Detach"; expect(DLB_DROM_Detach(), {OK}, "attached"); attD--; } while (attT) { cur = "cleanup: DLB_TALP_Detach"; expect(DLB_TALP_Detach(), {OK}, "attached"); attT--; } if (attS) { DLB_Stats_Finalize(); attS--; }
    while (C[0].on || C[0].pre) fin(C[0]);
    cur = "cleanup"; DIR *d = opendir("/dev/shm"); while (dirent *e = readdir(d)) if (strstr(e->d_name, KEY)) bad("S01/file", string("the file ") + e->d_name + " remains with no users"); closedir(d);
    FILE *f = fopen("/proc/self/maps", "r"); char l[1000]; while (fgets(l, sizeof l, f)) if (strstr(l, KEY)) bad("S01/mapping", string("a mapping remains with no users: ") + strchr(l, '/')); fclose(f);
    /* everything works again */
    cpu_set_t m; CPU_ZERO(&m); for (int i = 0; i < NC; i++) CPU_SET(i, &m); char a[200]; snprintf(a, sizeof a, "--lewi --talp --drom --quiet=yes --shm-key=%s", KEY); cur = "initialize-use-finalize: "; int rc;
#define U(e) do { if ((rc = (e)) != OK) bad("A01/again", #e " gives " + std::to_string(rc)); } while (0)
    U(DLB_Init(0, &m, a)); U(DLB_LendCpu(0)); U(DLB_BorrowCpu(0)); U(DLB_Lend()); U(DLB_Reclaim()); dlb_monitor_t *g = DLB_MonitoringRegionRegister("again"); if (!g) bad("A01/again", "no region"); else { U(DLB_MonitoringRegionStart(g)); U(DLB_MonitoringRegionStop(g)); } U(DLB_Barrier()); U(DLB_Finalize()); C[0].cb.clear(); st["calls"] += 9; st["again"]++;
    d = opendir("/dev/shm"); while (dirent *e = readdir(d)) if (strstr(e->d_name, KEY)) bad("S01/file", string("the file ") + e->d_name + " remains with no users"); closedir(d);
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    if (!getenv("VE")) stderr = fopen("/dev/null", "w"); r.s = strtoull(argv[1], 0, 10) * 6700417 + 11; int lives = atoi(argv[2]), ops = atoi(argv[3]); KEY = argv[4]; mypid = getpid(); for (int i = 0; i < 3; i++) C[i].idx = i; NC = 2 + rnd(&r, 15); mu_testing_set_sys(NC, NC, 1); envBase(); int f0 = -1;
    for (int l = 0; l < lives; l++) {
        hist = ""; sps = false; int prof = rnd(&r, 3);
        for (int o = 0; o < ops; o++) {
            cur = ""; vh_main(); /* as in a thread of its own */ int k = rnd(&r, 100), ci = rnd(&r, 3); if (prof == 0) ci = 0; Ctx &c = C[ci];
            if (k < 9) init(c); else if (k < 13) fin(c); else if (k < 45) { if (ci == 0 || c.on) lewi(c); } else if (k < 58) drom(); else if (k < 72) talp(); else if (k < 80) barrier(); else misc(c);
            if (getenv("VE")) emit("%s", cur.c_str()); if (!cur.empty()) hist += cur + "; "; checkEvents();
        }
        finish(); int f = fds(); if (f0 < 0) f0 = f; else if (f > f0) { cur = "end"; bad("S01/fd", std::to_string(f - f0) + " file descriptors remain"); f0 = f; } st["lives"]++;
    }
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
    emit("DONE"); return 0;
}
