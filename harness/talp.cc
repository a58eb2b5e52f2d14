/* T01, T02, T05: TALP under a virtual clock. Lock-step threads generate region calls, MPI calls and OMPT events in random
 * well-formed orders; a model that only knows the state of each thread over time predicts every field of every region. */
#include "vh.h"
#include <dlb.h>
#include <dlb_talp.h>
#include <dlb_errors.h>
#include <pthread.h>
#include <strings.h>
#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include "LB_numThreads/omp-tools.h"
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void vh_talp_mpi_init(void); void vh_talp_mpi_finalize(void); void vh_sync_into(int, int); void vh_sync_out(int, int);
ompt_start_tool_result_t *ompt_start_tool(unsigned int, const char *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t, struct timespec *);
}
using std::string; using std::vector;
static std::atomic<int64_t> vclock(0); static bool virt;
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    if (!virt || (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_COARSE)) return __real_clock_gettime(c, t);
    int64_t v = vclock; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
static string cfg; static vector<string> hist; static std::map<string, long> st; static std::set<string> sigs; static int nviol;
static string tailh() { string s; size_t n = hist.size(); for (size_t i = n > 14 ? n - 14 : 0; i < n; i++) s += hist[i] + "; "; return s; }
#define V(key, ...) do { if (nviol++ < 8) { char _m[1500]; snprintf(_m, sizeof _m, __VA_ARGS__); VIOL(key, "%s [%s] after: %s", _m, cfg.c_str(), tailh().c_str()); } } while (0)
static void note(const char *f, ...) { char b[200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); hist.push_back(b); }

/* ---- lock-step threads ---- */
struct Th { pthread_t t; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; std::function<void()> f; bool busy = false, quit = false; };
static void *thmain(void *p) {
    Th *t = (Th*)p; pthread_mutex_lock(&t->m);
    for (;;) { while (!t->busy && !t->quit) pthread_cond_wait(&t->c, &t->m); if (t->quit) break; t->f(); t->busy = false; pthread_cond_broadcast(&t->c); }
    pthread_mutex_unlock(&t->m); return nullptr;
}
static vector<Th*> th;   /* th[0] is null: the main thread */
static void on(int i, std::function<void()> f) {
    if (i == 0) { f(); return; }
    Th *t = th[i]; pthread_mutex_lock(&t->m); t->f = f; t->busy = true; pthread_cond_broadcast(&t->c);
    while (t->busy) pthread_cond_wait(&t->c, &t->m); pthread_mutex_unlock(&t->m);
}
static int newth() { Th *t = nullptr; if (!th.empty()) { t = new Th; pthread_create(&t->t, nullptr, thmain, t); } th.push_back(t); return th.size() - 1; }
static void endth(int i) { Th *t = th[i]; if (!t) return; pthread_mutex_lock(&t->m); t->quit = true; pthread_cond_broadcast(&t->c); pthread_mutex_unlock(&t->m); pthread_join(t->t, nullptr); delete t; th[i] = nullptr; }

/* ---- model ---- */
enum State { NONE, DISABLED, USEFUL, MPI, OMPIN, OMPOUT };
struct Acc { int64_t useful = 0, mpi = 0, lb = 0, sched = 0, serial = 0, mpis = 0, pars = 0, tasks = 0; };
struct Reg { dlb_monitor_t *m; string name; bool open = false, enabled = true; Acc a; int64_t elapsed = 0, start = 0, stop = 0; int meas = 0, resets = 0, ncpus = 0; };
struct MTh { State s = NONE; int64_t pin = 0; bool observer = false; };   /* pin: time waiting, not yet split into imbalance and scheduling */
static vector<MTh> mt; static vector<Reg> regs; static vector<int> openl; static int G, nsamples; static int64_t now_;
static bool ompt_on; static bool collective_ok;
static ompt_data_t zero; static rng_t r;
static void forOpen(std::function<void(Reg&)> f) { for (int i : openl) f(regs[i]); }
static void advance() {
    int64_t d; switch (rnd(&r, 6)) { case 0: d = 0; break; case 1: d = 1; break; case 2: d = rnd(&r, 1000); break; case 3: d = rnd(&r, 1000000000); break; case 4: d = rnd(&r, 100000); break; default: d = chance(&r, 1, 30) ? 86400000000000ll * rnd(&r, 40) : rnd(&r, 5000); }
    for (auto &t : mt) switch (t.s) {
        case USEFUL: forOpen([&](Reg &g) { g.a.useful += d; }); break;
        case MPI: forOpen([&](Reg &g) { g.a.mpi += d; }); break;
        case OMPOUT: forOpen([&](Reg &g) { g.a.serial += d; }); break;
        case OMPIN: t.pin += d; break;
        default: break;
    }
    now_ += d; vclock = now_;
}
static void sample(int t) { if (mt[t].s == NONE && !mt[t].observer) { mt[t].s = DISABLED; nsamples++; } }
static void check(const char *what) {
    for (auto &g : regs) {
        const dlb_monitor_t *m = g.m; st["evaluations"]++;
        struct { const char *n; long long got, want; const char *p; } f[] = {
            {"elapsed_time", m->elapsed_time, g.elapsed, "T01"}, {"useful_time", m->useful_time, g.a.useful, "T01"}, {"mpi_time", m->mpi_time, g.a.mpi, "T01"},
            {"omp_load_imbalance_time", m->omp_load_imbalance_time, g.a.lb, "T05"}, {"omp_scheduling_time", m->omp_scheduling_time, g.a.sched, "T05"},
            {"omp_serialization_time", m->omp_serialization_time, g.a.serial, "T05"}, {"num_measurements", m->num_measurements, g.meas, "T01"},
            {"num_mpi_calls", m->num_mpi_calls, g.a.mpis, "T01"}, {"num_omp_parallels", m->num_omp_parallels, g.a.pars, "T05"}, {"num_omp_tasks", m->num_omp_tasks, g.a.tasks, "T05"},
            {"num_resets", m->num_resets, g.resets, "T02"}, {"start_time", m->start_time, g.start, "T01"}, {"stop_time", m->stop_time, g.stop, "T01"}, {"num_cpus", m->num_cpus, g.ncpus, "T01"} };
        for (auto &x : f) if (x.got != x.want) { char k[80]; snprintf(k, sizeof k, "%s/%s", x.p, x.n);
            V(k, "region '%.40s'%s after %s: %s is %lld, expected %lld", g.name.c_str(), g.open ? " (open)" : "", what, x.n, x.got, x.want); }
        if (g.open != 0) st["open_checked"]++;
        if (strncmp(m->name, g.name.c_str(), 127)) V("T02/name", "region '%.40s' is now named '%.60s'", g.name.c_str(), m->name);
    }
}
static void fullflush() { forOpen([&](Reg &g) { if (nsamples > g.ncpus) g.ncpus = nsamples; }); }

/* ---- regions ---- */
static bool selects(const string &sel, const string &name) {
    string s = sel; if (s.empty()) return true; bool inc = true;
    if (s.compare(0, 8, "exclude:") == 0) { inc = false; s = s.substr(8); } else if (s.compare(0, 8, "include:") == 0) s = s.substr(8);
    if (s == "all") return inc;
    size_t p = 0; bool f = false; while (p <= s.size()) { size_t q = s.find(',', p); if (q == string::npos) q = s.size(); string t = s.substr(p, q - p); if (!t.empty() && (t == name || (!strcasecmp(name.c_str(), "Global") && !strcasecmp(t.c_str(), "Global")))) f = true; p = q + 1; }
    return inc ? f : !f;
}
static string selopt;
static int findname(const string &n) { for (size_t i = 0; i < regs.size(); i++) if (regs[i].name == n) return i; return -1; }
static const char *NAMES[] = {"a", "b", "A", "work", "work ", "Anonymous Region 1", "Anonymous Region 3", "Anonymous Region 6", "Anonymous Region 12", "xGlobal", "Globa", "Globall", "all ", "al", "a,b", "\"q\"", "<x>&", "%s%n"};
static void opRegister(int t) {
    string n; const char *arg; dlb_monitor_t *m = nullptr; int k = rnd(&r, 12);
    if (k == 0) { n = ""; arg = chance(&r, 1, 2) ? nullptr : ""; }
    else if (k == 1) { n = chance(&r, 1, 2) ? "Global" : chance(&r, 1, 2) ? "GLOBAL" : "global"; arg = n.c_str(); }
    else if (k == 2) { n = chance(&r, 1, 2) ? "all" : "All"; arg = n.c_str(); }
    else if (k == 3) { n = string(100 + rnd(&r, 60), 'x'); if (chance(&r, 1, 2)) n += "y"; arg = n.c_str(); }
    else { n = NAMES[rnd(&r, sizeof NAMES / sizeof *NAMES)]; arg = n.c_str(); }
    note("thread %d registers '%.20s'", t, n.c_str());
    on(t, [&] { m = DLB_MonitoringRegionRegister(arg); });
    st["registers"]++; st["evaluations"]++;
    if (!strcasecmp(n.c_str(), "all")) { if (m) V("T02/reserved", "registering '%s' gives a region", n.c_str()); return; }
    if (!m) { V("T02/register-null", "registering '%.30s' gives no region", n.c_str()); return; }
    if (!strcasecmp(n.c_str(), "Global")) { if (m != regs[G].m) V("T02/global", "registering '%s' does not give the global region", n.c_str()); return; }
    string tn = n.substr(0, 127);
    if (n.empty()) {
        for (auto &g : regs) if (g.m == m || g.name == m->name) { V("T02/anonymous", "an unnamed region got the name or handle of '%s'", g.name.c_str()); return; }
        Reg g; g.m = m; g.name = m->name; g.enabled = selects(selopt, g.name); regs.push_back(g); st["anonymous"]++;
    } else {
        int i = findname(tn);
        if (i >= 0) { st["re_registers"]++; if (regs[i].m != m) V("T02/same-name", "registering '%.30s' again gives another region", n.c_str()); }
        else { for (auto &g : regs) if (g.m == m) { V("T02/different-name", "'%.30s' and '%.30s' share a region", n.c_str(), g.name.c_str()); return; }
            Reg g; g.m = m; g.name = tn; g.enabled = selects(selopt, n); regs.push_back(g); }
    }
}
static void mStart(int i, int t) { /* after the model of the flush */
    Reg &g = regs[i]; fullflush(); g.open = true; g.start = now_; g.stop = 0; openl.insert(openl.begin(), i); mt[t].s = USEFUL; }
static void mStop(int i) { Reg &g = regs[i]; fullflush(); g.open = false; g.stop = now_; g.elapsed += now_ - g.start; g.meas++; for (size_t k = 0; k < openl.size(); k++) if (openl[k] == i) { openl.erase(openl.begin() + k); break; } }
static void opStart(int t) {
    int i = rnd(&r, regs.size()); bool glob = chance(&r, 1, 8); if (glob) i = G;
    Reg &g = regs[i]; dlb_monitor_t *h = glob && chance(&r, 1, 2) ? DLB_GLOBAL_REGION : g.m; int rc = -100;
    note("thread %d starts '%.20s'", t, g.name.c_str()); on(t, [&] { rc = DLB_MonitoringRegionStart(h); });
    int want = mt[t].observer ? DLB_ERR_PERM : (g.open || !g.enabled) ? DLB_NOUPDT : DLB_SUCCESS; st["starts"]++;
    if (rc != want) V("T02/start-rc", "starting '%.30s' (%s, %s) by %s gives %d, expected %d", g.name.c_str(), g.open ? "open" : "stopped", g.enabled ? "selected" : "excluded", mt[t].observer ? "an observer" : "a thread", rc, want);
    if (!mt[t].observer) { sample(t); if (want == DLB_SUCCESS) { mStart(i, t); check("start"); } else if (!g.enabled) st["excluded"]++; }
    if (rc >= 0) st["starts_ok"] += rc == 0;
}
static void opStop(int t) {
    int i; dlb_monitor_t *h; int want = -1; const char *what = "a handle"; int k = rnd(&r, 4);
    if (k == 0) { h = (dlb_monitor_t*)DLB_LAST_OPEN_REGION; i = openl.empty() ? -1 : openl[0]; what = "the last open one"; st["stop_last"]++; }
    else { i = openl.size() && chance(&r, 3, 4) ? openl[rnd(&r, openl.size())] : (int)rnd(&r, regs.size()); h = i == G && chance(&r, 1, 2) ? DLB_GLOBAL_REGION : regs[i].m; }
    int rc = -100; note("thread %d stops %s '%.20s'", t, what, i < 0 ? "-" : regs[i].name.c_str()); on(t, [&] { rc = DLB_MonitoringRegionStop(h); });
    want = mt[t].observer ? DLB_ERR_PERM : i < 0 ? DLB_ERR_NOENT : regs[i].open ? DLB_SUCCESS : DLB_NOUPDT; st["stops"]++;
    if (rc != want) V("T02/stop-rc", "stopping %s ('%.30s') gives %d, expected %d", what, i < 0 ? "-" : regs[i].name.c_str(), rc, want);
    if (!mt[t].observer) { sample(t); if (want == DLB_SUCCESS) { mStop(i); check("stop"); } }
}
static void opReset(int t) {
    int i = rnd(&r, regs.size()); Reg &g = regs[i]; int rc = -100; dlb_monitor_t *h = i == G && chance(&r, 1, 2) ? DLB_GLOBAL_REGION : g.m;
    note("thread %d resets %s'%.20s'", t, g.open ? "open " : "", g.name.c_str()); on(t, [&] { rc = DLB_MonitoringRegionReset(h); }); st["resets"]++; if (g.open) st["resets_open"]++;
    if (rc != DLB_SUCCESS) V("T02/reset-rc", "reset gives %d", rc);
    g.a = Acc(); g.elapsed = g.start = g.stop = 0; g.meas = g.ncpus = 0; g.resets++; g.open = false;
    for (size_t k = 0; k < openl.size(); k++) if (openl[k] == i) { openl.erase(openl.begin() + k); break; }
}
static void opUpdate(int t) { int rc = -100; note("thread %d updates", t); on(t, [&] { rc = DLB_MonitoringRegionsUpdate(); }); st["updates"]++; int want = mt[t].observer ? DLB_ERR_PERM : DLB_SUCCESS;
    if (rc != want) V("T02/update-rc", "update gives %d, expected %d", rc, want); if (!mt[t].observer) { fullflush(); check("update"); } }
static void opReport(int t) { int i = rnd(&r, regs.size()); int rc = -100; on(t, [&] { rc = DLB_MonitoringRegionReport(regs[i].m); }); if (rc != DLB_SUCCESS) V("T02/report-rc", "report gives %d", rc); }
/* ---- MPI ---- */
static void opMpi(int t) {
    bool b = chance(&r, 1, 2), c = collective_ok && chance(&r, 1, 2);
    if (mt[t].s != MPI) { note("thread %d enters MPI", t); on(t, [&] { vh_sync_into(b, c); }); if (mt[t].observer) return; sample(t); mt[t].s = MPI; st["mpi_calls"]++; if (b && c) { fullflush(); } }
    else { note("thread %d leaves MPI", t); on(t, [&] { vh_sync_out(b, c); }); mt[t].s = USEFUL; forOpen([](Reg &g) { g.a.mpis++; }); }
}
/* ---- OMPT ---- */
static std::map<int, ompt_callback_t> cbs;
static ompt_set_result_t set_cb(ompt_callbacks_t e, ompt_callback_t c) { if (c) cbs[e] = c; else cbs.erase(e); return ompt_set_always; }
static ompt_interface_fn_t lookup(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)set_cb : nullptr; }
template <class T> static T cb(int e) { return (T)cbs[e]; }
struct Team { ompt_data_t pd; int prim, level, n; vector<int> mem; vector<int> ph; /* 0 not started, 1 body, 2 in the final barrier */ const void *code; Team *outer; bool ended = false; };
struct Ctx { Team *team; int idx; ompt_data_t task; int sync = 0; /* kind of explicit synchronisation being waited in */ bool intask = false, und = false; ompt_data_t xtask; vector<ompt_data_t> *pool; };
struct OT { vector<Ctx*> stack; bool worker = false, initial = false, begun = false; ompt_data_t td; };
static vector<OT> ot; static vector<Team*> teams; static vector<ompt_data_t> tasks_pending[64]; static bool newenum;
static bool inPar() { return !teams.empty(); }
static void threadBegin(int t, bool initial) {
    note("OpenMP thread %d begins", t); on(t, [&] { cb<ompt_callback_thread_begin_t>(ompt_callback_thread_begin)(initial ? ompt_thread_initial : ompt_thread_worker, &ot[t].td); });
    ot[t].begun = true; ot[t].worker = !initial; ot[t].initial = initial; sample(t);
    if (mt[t].s == DISABLED) { mt[t].s = OMPOUT; forOpen([](Reg &g) { g.a.serial += now_ - g.start; }); }
    st["omp_threads"]++;
}
static void threadEnd(int t) { note("OpenMP thread %d ends", t); on(t, [&] { cb<ompt_callback_thread_end_t>(ompt_callback_thread_end)(&ot[t].td); }); mt[t].s = NONE; mt[t].pin = 0; ot[t].begun = false; ot[t].td = zero;
    if (t > 0) { endth(t); Th *n = new Th; pthread_create(&n->t, nullptr, thmain, n); th[t] = n; } }   /* runtimes start another thread later */
static bool xframe;   /* the next level 1 parallel is created by an explicit task */
static void parBegin(int t) {
    vector<int> idle; for (size_t i = 0; i < ot.size(); i++) if (ot[i].worker && ot[i].begun && ot[i].stack.empty() && mt[i].s == OMPOUT) idle.push_back(i);
    int n = 1 + rnd(&r, idle.size() + 1); Team *T = new Team; T->prim = t; T->pd = zero; T->level = ot[t].stack.empty() ? 1 : ot[t].stack.back()->team->level + 1; T->code = (void*)(uintptr_t)(0x1000 + rnd(&r, 100));
    T->outer = ot[t].stack.empty() ? nullptr : ot[t].stack.back()->team; T->mem.push_back(t);
    for (int i = 1; i < n; i++) { int k = rnd(&r, idle.size()); T->mem.push_back(idle[k]); idle.erase(idle.begin() + k); }
    T->n = n; T->ph.assign(n, 0); int req = n + (chance(&r, 1, 3) ? rnd(&r, 4) : 0);
    /* workers of this team are taken at once, so that no other team picks them */
    for (int i = 1; i < n; i++) ot[T->mem[i]].stack.push_back(nullptr);
    ompt_frame_t fr; memset(&fr, 0, sizeof fr); ompt_data_t enc = zero; ompt_data_t *e = &enc; if (!T->outer && xframe) fr.exit_frame.ptr = (void*)0x10; if (T->outer) { fr.exit_frame.ptr = (void*)0x10; e = ot[t].stack.back()->intask || ot[t].stack.back()->und ? &ot[t].stack.back()->xtask : &ot[t].stack.back()->task; }
    note("thread %d begins a level %d parallel of %d", t, T->level, n);
    on(t, [&] { cb<ompt_callback_parallel_begin_t>(ompt_callback_parallel_begin)(e, &fr, &T->pd, req, ompt_parallel_team | 1, T->code); });
    forOpen([](Reg &g) { g.a.pars++; }); teams.push_back(T); st["parallels"]++; if (T->level > 1) st["nested"]++; if (n == 1) st["serialized"]++;
    char b[60]; snprintf(b, sizeof b, "par/l%d/n%d/open%zu/teams%zu", T->level, n, openl.size() > 4 ? 4 : openl.size(), teams.size()); sigs.insert(b);
}
static Team *teamOf(int t, int *idx) { for (auto T : teams) for (int i = 0; i < T->n; i++) if (T->mem[i] == t && T->ph[i] == 0) { *idx = i; return T; } return nullptr; }
static void implicitBegin(int t) { int i; Team *T = teamOf(t, &i); if (!T) return; if (i > 0) ot[t].stack.pop_back();
    Ctx *c = new Ctx; c->team = T; c->idx = i; c->task = zero; c->xtask = zero; note("thread %d enters as %d", t, i);
    on(t, [&] { cb<ompt_callback_implicit_task_t>(ompt_callback_implicit_task)(ompt_scope_begin, &T->pd, &c->task, T->n, i, ompt_task_implicit); });
    ot[t].stack.push_back(c); T->ph[i] = 1; mt[t].s = USEFUL; }
static void syncRegion(int t, int kind, ompt_scope_endpoint_t e, const void *code, bool nullpd = false) { Ctx *c = ot[t].stack.back(); on(t, [&] { cb<ompt_callback_sync_region_t>(ompt_callback_sync_region)((ompt_sync_region_t)kind, e, nullpd ? nullptr : &c->team->pd, &c->task, code); }); }
static void parEnd(Team *T) {
    int t = T->prim; Ctx *c = ot[t].stack.back();
    /* the primary leaves the barrier */
    if (newenum) syncRegion(t, ompt_sync_region_barrier_implicit_parallel, ompt_scope_end, T->code);
    else { syncRegion(t, ompt_sync_region_barrier_implicit, ompt_scope_end, T->code); mt[t].s = USEFUL; }
    advance();
    on(t, [&] { cb<ompt_callback_implicit_task_t>(ompt_callback_implicit_task)(ompt_scope_end, nullptr, &c->task, T->n, 0, ompt_task_implicit); });
    ompt_data_t enc = zero; note("thread %d ends the level %d parallel", t, T->level);
    on(t, [&] { cb<ompt_callback_parallel_end_t>(ompt_callback_parallel_end)(&T->pd, &enc, ompt_parallel_team | 1, T->code); });
    /* split of the time waiting */
    int first = T->level > 1 ? 1 : 0; int64_t mn = INT64_MAX, sum = 0; int k = 0;
    for (int i = first; i < T->n; i++) { mn = std::min(mn, mt[T->mem[i]].pin); sum += mt[T->mem[i]].pin; k++; mt[T->mem[i]].pin = 0; }
    if (k) forOpen([&](Reg &g) { g.a.sched += mn * k; g.a.lb += sum - mn * k; if (k > g.ncpus) g.ncpus = k; });
    if (mn > 0 && k) st["sched_split"]++;
    mt[t].s = USEFUL; for (int i = 1; i < T->n; i++) { int w = T->mem[i]; if (mt[w].s == OMPIN) mt[w].s = OMPOUT; delete ot[w].stack.back(); ot[w].stack.pop_back(); }
    delete c; ot[t].stack.pop_back(); for (size_t i = 0; i < teams.size(); i++) if (teams[i] == T) { teams.erase(teams.begin() + i); break; }
    /* the workers hear about the end of the barrier later, without parallel data */
    for (int i = 1; i < T->n; i++) if (chance(&r, 1, 2)) { int w = T->mem[i]; ompt_data_t d = zero; on(w, [&] { cb<ompt_callback_sync_region_t>(ompt_callback_sync_region)(newenum ? ompt_sync_region_barrier_implicit_parallel : ompt_sync_region_barrier_implicit, ompt_scope_end, nullptr, &d, nullptr);
        cb<ompt_callback_implicit_task_t>(ompt_callback_implicit_task)(ompt_scope_end, nullptr, &d, 0, i, ompt_task_implicit); }); }
    delete T;
}
static void undeferred(int t, ompt_data_t *enc, ompt_data_t *nt, int level) {   /* executed at once by the thread that creates it */
    *nt = zero; ompt_frame_t fr; memset(&fr, 0, sizeof fr); note("thread %d runs an undeferred task", t);
    on(t, [&] { cb<ompt_callback_task_create_t>(ompt_callback_task_create)(enc, &fr, nt, ompt_task_explicit | ompt_task_undeferred, 0, nullptr); cb<ompt_callback_task_schedule_t>(ompt_callback_task_schedule)(enc, ompt_task_switch, nt); });
    forOpen([](Reg &g) { g.a.tasks++; }); st["tasks"]++; st["undeferred"]++; (void)level;
}
static void ompStep(int t, bool drain) {   /* one event of thread t inside a team, or entering one */
    int i; if (teamOf(t, &i) && (ot[t].stack.empty() || ot[t].stack.back() == nullptr || teamOf(t, &i)->prim == t)) { implicitBegin(t); return; }
    if (ot[t].stack.empty() || !ot[t].stack.back()) return;
    Ctx *c = ot[t].stack.back(); Team *T = c->team; int root = 0; for (size_t k = 0; k < teams.size(); k++) if (teams[k] == T) root = k; (void)root;
    if (T->ph[c->idx] == 2) { /* waiting in the final barrier: may run a task, or end if everybody is here */
        if (c->intask) { if (mt[t].s == MPI) { opMpi(t); return; } note("thread %d completes a task", t); ompt_data_t nx = c->task; on(t, [&] { cb<ompt_callback_task_schedule_t>(ompt_callback_task_schedule)(&c->xtask, ompt_task_complete, &nx); }); mt[t].s = OMPIN; c->intask = false; return; }
        if (T->prim == t) { bool all = true; for (int k = 0; k < T->n; k++) { if (T->ph[k] != 2 || ot[T->mem[k]].stack.back()->intask) all = false; } if (all) { parEnd(T); return; } }
        if (!drain && chance(&r, 1, 4)) { note("thread %d runs a task in the barrier", t); c->xtask.value = T->level; on(t, [&] { cb<ompt_callback_task_schedule_t>(ompt_callback_task_schedule)(&c->task, ompt_task_switch, &c->xtask); }); c->intask = true; mt[t].s = USEFUL; st["tasks_run"]++; }
        return;
    }
    if (mt[t].s == MPI) { opMpi(t); return; }
    if (c->sync) {
        if (c->intask) { note("thread %d completes a task", t); on(t, [&] { cb<ompt_callback_task_schedule_t>(ompt_callback_task_schedule)(&c->xtask, ompt_task_complete, &c->task); }); mt[t].s = OMPIN; c->intask = false; return; }
        if (!drain && chance(&r, 1, 3)) { note("thread %d runs a task", t); c->xtask.value = T->level; on(t, [&] { cb<ompt_callback_task_schedule_t>(ompt_callback_task_schedule)(&c->task, ompt_task_switch, &c->xtask); }); c->intask = true; mt[t].s = USEFUL; st["tasks_run"]++; return; }
        note("thread %d leaves sync %d", t, c->sync); syncRegion(t, c->sync, ompt_scope_end, (void*)0x77); mt[t].s = USEFUL; c->sync = 0; return;
    }
    if (c->und && (drain || chance(&r, 1, 3))) { note("thread %d completes an undeferred task", t); on(t, [&] { cb<ompt_callback_task_schedule_t>(ompt_callback_task_schedule)(&c->xtask, ompt_task_complete, &c->task); }); c->und = false; return; }
    if (c->und) { if (chance(&r, 1, 2)) opMpi(t); else if (T->level < 4) parBegin(t); return; }
    if (!drain && chance(&r, 1, 8)) { undeferred(t, &c->task, &c->xtask, T->level); c->und = true; return; }
    int k = drain ? 0 : rnd(&r, 12);
    if (k <= 2 || (drain)) { note("thread %d enters the final barrier", t); int kind = newenum ? ompt_sync_region_barrier_implicit_parallel : ompt_sync_region_barrier_implicit;
        syncRegion(t, kind, ompt_scope_begin, c->idx == 0 ? T->code : nullptr); mt[t].s = OMPIN; T->ph[c->idx] = 2; }
    else if (k <= 5) { static const int KS[] = {ompt_sync_region_barrier_explicit, ompt_sync_region_taskwait, ompt_sync_region_taskgroup, ompt_sync_region_barrier_implicit}; c->sync = KS[rnd(&r, newenum ? 3 : 4)]; note("thread %d enters sync %d", t, c->sync); syncRegion(t, c->sync, ompt_scope_begin, (void*)0x77); mt[t].s = OMPIN; st["syncs"]++; }
    else if (k <= 7) { note("thread %d creates a task", t); ompt_data_t nt = zero; ompt_frame_t fr; memset(&fr, 0, sizeof fr); on(t, [&] { cb<ompt_callback_task_create_t>(ompt_callback_task_create)(&c->task, &fr, &nt, ompt_task_explicit, 0, nullptr); }); forOpen([](Reg &g) { g.a.tasks++; }); st["tasks"]++;
        if ((int)nt.value != T->level) V("T05/task-level", "a task created in a level %d parallel has level %d", T->level, (int)nt.value); }
    else if (k <= 9) { opMpi(t); }
    else if (T->level < 4) parBegin(t);
}
static void drainTeams() { for (int guard = 0; inPar() && guard < 20000; guard++) { vector<int> l; for (size_t t = 0; t < ot.size(); t++) if (ot[t].begun || (int)t == 0) l.push_back(t); advance(); ompStep(l[rnd(&r, l.size())], true); } if (inPar()) HARNESS_ERROR("teams do not drain"); }

static void history(int ops, const char *key) {
    hist.clear(); regs.clear(); openl.clear(); mt.clear(); ot.clear(); nsamples = 0;
    now_ = vclock = 1000000000ll * (1 + rnd(&r, 100000)); virt = true;
    ompt_on = chance(&r, 2, 3); bool extprof = chance(&r, 1, 4), mpi = chance(&r, 2, 3); newenum = chance(&r, 1, 3); collective_ok = extprof;
    static const char *SEL[] = {"", "", "", "all", "include:all", "exclude:all", "a,work", "include:a,Global", "exclude:b,global", "exclude:A,work,Anonymous Region 1", "exclude:Global", "GLOBAL,a"};
    selopt = SEL[rnd(&r, sizeof SEL / sizeof *SEL)];
    int ncpu = 1 + rnd(&r, 16); mu_testing_set_sys(ncpu, ncpu, 1); cpu_set_t mask; CPU_ZERO(&mask); for (int i = 0; i < ncpu; i++) CPU_SET(i, &mask);
    string args = string("--quiet=yes --no-barrier --talp --talp-summary=none --shm-key=") + key + (extprof ? " --talp-external-profiler" : "") + (ompt_on ? " --ompt --talp-openmp --ompt-thread-manager=none" : "");
    if (!selopt.empty()) { bool sp = selopt.find(' ') != string::npos; args += string(" --talp-region-select=") + (sp ? "\"" : "") + selopt + (sp ? "\"" : ""); if (sp) { selopt = "exclude:A,work"; args = args.substr(0, args.find(" --talp-region-select")) + " --talp-region-select=" + selopt; } }
    setenv("DLB_ARGS", args.c_str(), 1); cfg = args;
    /* the threads live across histories: TALP is initialised again with the same threads */
    int nt = th.size(); mt.resize(nt); ot.resize(nt); for (auto &o : ot) o.td = zero;
    ompt_start_tool_result_t *tool = nullptr; int rc;
    rc = DLB_Init(0, &mask, nullptr); if (rc) { V("T01/init", "DLB_Init gives %d", rc); return; }
    { Reg g; g.m = DLB_MonitoringRegionGetGlobal(); g.name = "Global"; g.enabled = selects(selopt, "Global"); if (!g.m) { V("T02/global", "no global region"); DLB_Finalize(); return; } regs.push_back(g); G = 0; }
    if (ompt_on) { cbs.clear(); tool = ompt_start_tool(201811, "harness"); if (!tool->initialize((ompt_function_lookup_t)lookup, 0, &tool->tool_data)) { V("T05/init", "the OpenMP tool does not initialise"); return; }
        sample(0); if (regs[G].enabled) mStart(G, 0); mt[0].s = USEFUL; ot[0].begun = ot[0].initial = true; }
    if (mpi) { note("MPI init"); vh_talp_mpi_init(); sample(0); if (regs[G].enabled && !regs[G].open) mStart(G, 0); mt[0].s = USEFUL; forOpen([](Reg &g) { g.a.mpis++; }); }
    /* roles: 0 main; then OpenMP workers, a second initial thread, user threads, an observer */
    int nw = ompt_on ? 1 + rnd(&r, 5) : 0; vector<int> users; int second = -1; int obs = -1; int nx = 1;
    vector<int> workers; for (int i = 0; i < nw; i++) workers.push_back(nx++);
    if (ompt_on && chance(&r, 1, 4)) second = nx++;
    users.push_back(nx++); if (chance(&r, 1, 2)) users.push_back(nx++);
    obs = nx++; on(obs, [] { DLB_SetObserverRole(true); }); mt[obs].observer = true;
    if (second >= 0) { threadBegin(second, true); }
    bool second_ready = false;
    for (int o = 0; o < ops; o++) {
        advance(); st["ops"]++;
        if (inPar()) {
            /* events of the teams; region calls only when no team is active, as documented. */
            vector<int> l; for (size_t t = 0; t < ot.size(); t++) if (!ot[t].stack.empty() || ((int)t == 0 && true)) l.push_back(t);
            for (auto T : teams) for (int m : T->mem) l.push_back(m);
            int t = l[rnd(&r, l.size())];
            if (chance(&r, 1, 12)) { int u = users[rnd(&r, users.size())]; opMpi(u); continue; }
            if (second_ready && chance(&r, 1, 8) && ot[second].stack.empty() && mt[second].s == USEFUL) { int dummy; if (!teamOf(second, &dummy)) { parBegin(second); st["two_initial"]++; continue; } }
            if (ot[0].stack.empty() && !teams.empty() && mt[0].s == USEFUL && chance(&r, 1, 10)) { int dummy; if (!teamOf(0, &dummy)) { parBegin(0); continue; } }
            int idle = -1; for (int w : workers) if (!ot[w].begun) idle = w;
            if (idle >= 0 && chance(&r, 1, 10)) { threadBegin(idle, false); continue; }
            ompStep(t, chance(&r, 1, 3)); continue;
        }
        int k = rnd(&r, 100); int callers[4] = {0, users[0], users.back(), second_ready ? second : 0}; int t = chance(&r, 1, 2) ? 0 : callers[rnd(&r, 4)];
        if (mt[t].s == MPI && k < 70) { opMpi(t); continue; }
        if (chance(&r, 1, 40)) t = obs;
        if (k < 12) opRegister(t);
        else if (k < 34) opStart(t);
        else if (k < 52) opStop(t);
        else if (k < 55) opReset(t);
        else if (k < 62) opUpdate(t);
        else if (k < 63) opReport(t);
        else if (k < 74) opMpi(t);
        else if (ompt_on) {
            int idle = -1; for (int w : workers) if (!ot[w].begun) idle = w;
            if (second >= 0 && !second_ready) { /* it executes serial code as soon as it opens a region */ mt[second].s = mt[second].s; int i = -1; for (size_t q = 0; q < regs.size(); q++) if (!regs[q].open && regs[q].enabled) i = q; if (i >= 0) { int rc2 = -1; on(second, [&] { rc2 = DLB_MonitoringRegionStart(regs[i].m); }); if (rc2) V("T02/start-rc", "start gives %d", rc2); mStart(i, second); second_ready = true; } continue; }
            if (idle >= 0 && k < 84) threadBegin(idle, false);
            else if (k < 86 && nw) { int w = workers[rnd(&r, nw)]; if (ot[w].begun && ot[w].stack.empty() && mt[w].s == OMPOUT && chance(&r, 1, 4)) threadEnd(w); }
            else if (mt[0].s == USEFUL && k < 89) { ompt_data_t enc = zero, nt; undeferred(0, &enc, &nt, 0); advance(); if (chance(&r, 1, 3)) { xframe = true; parBegin(0); xframe = false; drainTeams(); } advance();
                note("thread 0 completes it"); on(0, [&] { cb<ompt_callback_task_schedule_t>(ompt_callback_task_schedule)(&nt, ompt_task_complete, &enc); }); }
            else if (mt[0].s == USEFUL || mt[0].s == DISABLED) { if (mt[0].s == USEFUL) parBegin(0); }
        }
    }
    drainTeams();
    for (size_t t = 0; t < mt.size(); t++) if (mt[t].s == MPI) { advance(); opMpi(t); }
    advance(); opUpdate(0);
    if (mpi) { advance(); note("MPI finalize"); vh_talp_mpi_finalize(); forOpen([](Reg &g) { g.a.mpis++; }); if (regs[G].open) mStop(G); else { int u; on(0, [&] { u = DLB_MonitoringRegionsUpdate(); }); if (u) V("T02/update-rc", "update gives %d", u); fullflush(); } check("MPI finalize"); }
    double mt_ = -1, ut = -1; rc = DLB_TALP_GetTimes(0, &mt_, &ut); if (rc) V("T01/gettimes-rc", "GetTimes of the own process gives %d", rc);
    else if (mt_ != regs[G].m->mpi_time / 1e9 && (mt_ < regs[G].m->mpi_time / 1e9 * 0.999999 || mt_ > regs[G].m->mpi_time / 1e9 * 1.000001)) V("T01/gettimes", "GetTimes gives %f s of MPI, the region has %lld ns", mt_, (long long)regs[G].m->mpi_time);
    { char b[120]; snprintf(b, sizeof b, "hist/ompt%d/mpi%d/ext%d/sel%.10s/regions%zu/samples%d", ompt_on, mpi, extprof, selopt.c_str(), regs.size() > 12 ? 12 : regs.size(), nsamples); sigs.insert(b); }
    for (int w : workers) if (ot[w].begun) threadEnd(w);
    if (second >= 0) threadEnd(second);
    on(obs, [] { DLB_SetObserverRole(false); });
    if (tool) tool->finalize(&tool->tool_data);
    rc = DLB_Finalize(); if (rc < 0) V("T01/finalize", "DLB_Finalize gives %d", rc);
    virt = false; st["histories"]++;
}
/* concurrent registration, start and stop */
static void conc(uint64_t seed, int iters, const char *key) {
    mu_testing_set_sys(8, 8, 1); cpu_set_t mask; CPU_ZERO(&mask); for (int i = 0; i < 8; i++) CPU_SET(i, &mask);
    setenv("DLB_ARGS", (string("--quiet=yes --no-barrier --talp --talp-summary=none --shm-key=") + key).c_str(), 1); cfg = "concurrent";
    for (int it = 0; it < iters; it++) {
        if (DLB_Init(0, &mask, nullptr)) { V("T02/init", "init fails"); return; }
        enum { NT = 6, NN = 8 }; static dlb_monitor_t *got[NT][NN], *anon[NT][4]; static long ok_start[NT][NN], ok_stop[NT][NN]; memset(ok_start, 0, sizeof ok_start); memset(ok_stop, 0, sizeof ok_stop);
        pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, NT); struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
        struct A { int i; uint64_t s; pthread_barrier_t *b; } a[NT]; pthread_t p[NT];
        for (int i = 0; i < NT; i++) { a[i] = {i, seed * 1000 + it * 10 + i, &bar};
            pthread_create(&p[i], nullptr, [](void *x) -> void* { A *a = (A*)x; rng_t r = {a->s}; pthread_barrier_wait(a->b); char n[20];
                for (int k = 0; k < NN; k++) { snprintf(n, sizeof n, "shared %d", k); got[a->i][k] = DLB_MonitoringRegionRegister(n); if (k < 4) anon[a->i][k] = DLB_MonitoringRegionRegister(nullptr); }
                for (int k = 0; k < 300; k++) { int q = rnd(&r, NN); if (chance(&r, 1, 2)) ok_start[a->i][q] += DLB_MonitoringRegionStart(got[a->i][q]) == DLB_SUCCESS; else ok_stop[a->i][q] += DLB_MonitoringRegionStop(got[a->i][q]) == DLB_SUCCESS; if (chance(&r, 1, 50)) DLB_MonitoringRegionsUpdate(); if (chance(&r, 1, 60)) { snprintf(n, sizeof n, "shared %d", q); if (DLB_MonitoringRegionRegister(n) != got[a->i][q]) got[a->i][q] = nullptr, k = 1000; } }
                return nullptr; }, &a[i]); }
        for (auto &x : p) pthread_join(x, nullptr);
        __real_clock_gettime(CLOCK_MONOTONIC, &t1); int64_t tot = (t1.tv_sec - t0.tv_sec) * 1000000000ll + t1.tv_nsec - t0.tv_nsec;
        std::set<dlb_monitor_t*> all; for (int k = 0; k < NN; k++) { for (int i = 0; i < NT; i++) { st["evaluations"]++; if (!got[i][k] || got[i][k] != got[0][k]) V("T02/conc-same-name", "threads registering the same name at once got different regions"); } all.insert(got[0][k]); }
        for (int i = 0; i < NT; i++) for (auto m : anon[i]) if (!all.insert(m).second) V("T02/conc-anonymous", "two unnamed regions are the same");
        for (int k = 0; k < NN; k++) { long s = 0, e = 0; for (int i = 0; i < NT; i++) { s += ok_start[i][k]; e += ok_stop[i][k]; } dlb_monitor_t *m = got[0][k]; if (!m) continue; st["conc_starts"] += s; st["evaluations"]++;
            if (s - e != 0 && s - e != 1) V("T02/conc-balance", "%ld starts and %ld stops of one region succeeded", s, e);
            if (m->num_measurements != e) V("T01/conc-measurements", "%d measurements after %ld stops", m->num_measurements, e);
            if (m->elapsed_time < 0 || m->elapsed_time > tot) V("T01/conc-elapsed", "elapsed %lld of %lld ns", (long long)m->elapsed_time, (long long)tot);
            int rc = DLB_MonitoringRegionStop(m); if (rc != (s - e == 1 ? DLB_SUCCESS : DLB_NOUPDT)) V("T02/conc-state", "stop gives %d after %ld starts and %ld stops", rc, s, e); }
        if (DLB_MonitoringRegionStop((dlb_monitor_t*)DLB_LAST_OPEN_REGION) != DLB_ERR_NOENT) V("T02/conc-open", "a region is still open after all were stopped");
        pthread_barrier_destroy(&bar); DLB_Finalize(); st["conc_rounds"]++; char b[40]; snprintf(b, sizeof b, "conc/%d", (int)(tot / 1000000)); sigs.insert(b);
    }
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    if (!getenv("VERBOSE")) stderr = fopen("/dev/null", "w");
    r.s = strtoull(argv[2], 0, 10) * 7919 + 3; int n = atoi(argv[3]);
    newth(); for (int i = 0; i < 11; i++) newth();
    if (!strcmp(argv[1], "seq")) for (int i = 0; i < n && nviol < 8; i++) history(atoi(argv[4]), argv[5]);
    else conc(r.s, n, argv[5]);
    for (size_t i = 1; i < th.size(); i++) endth(i);
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("DONE"); return 0;
}
