/* M01: interception of MPI. rec: one rank, every intercepted routine in every binding; job: several ranks on several simulated nodes. */
#include "vh.h"
#include "mpi_mini.h"
#include <dlb.h>
#include <dlb_drom.h>
#include <dlb_talp.h>
#include <errno.h>
#include <map>
#include <math.h>
#include <string>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <vector>
extern "C" {
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t, struct timespec *);
long vh_pcall(int idx, int fortran, int n, const long *a);
}
using std::string; using std::vector;
static int64_t vclock = 1000000000;
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_COARSE) return __real_clock_gettime(c, t); t->tv_sec = vclock / 1000000000; t->tv_nsec = vclock % 1000000000; return 0; }
static rng_t r; static std::map<string, long> st; static string replay;
#define V(key, ...) do { char _v[1500]; snprintf(_v, sizeof _v, __VA_ARGS__); VIOL("M01/" key, "%s [%s]", _v, replay.c_str()); } while (0)
static int find(const char *n) { for (int i = 0; i < vh_ncalls; i++) if (!strcmp(vh_calls[i].name, n)) return i; HARNESS_ERROR("no call %s", n); }
static bool in(const char *n, std::initializer_list<const char*> l) { for (auto x : l) if (!strcmp(n + 4, x)) return true; return false; }
/* What the MPI standard says of each routine */
enum { MUST, MUSTNOT, EITHER };
static bool coll(const char *n) { return in(n, {"Allgather", "Allgatherv", "Gather", "Gatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv", "Alltoallw", "Bcast", "Barrier", "Allreduce", "Reduce", "Reduce_scatter", "Reduce_scatter_block", "Scan", "Exscan"}); }
static int blocking(const char *n) {
    if (coll(n) || in(n, {"Send", "Ssend", "Rsend", "Bsend", "Recv", "Sendrecv", "Sendrecv_replace", "Wait", "Waitall", "Waitany", "Waitsome"})) return MUST;
    if (in(n, {"Bsend_init", "Buffer_attach", "Cancel", "Get_count", "Ibsend", "Improbe", "Imrecv", "Iprobe", "Irecv", "Irsend", "Isend", "Issend", "Recv_init", "Request_free", "Request_get_status", "Rsend_init", "Send_init", "Ssend_init", "Start", "Startall", "Test", "Testall", "Testany", "Testsome", "Test_cancelled",
        "Iallgather", "Iallgatherv", "Igather", "Igatherv", "Iscatter", "Iscatterv", "Ialltoall", "Ialltoallv", "Ialltoallw", "Ibcast", "Ibarrier", "Iallreduce", "Ireduce", "Ireduce_scatter", "Ireduce_scatter_block", "Iscan", "Iexscan", "Op_commutative", "Op_create", "Op_free",
        "Comm_rank", "Comm_size", "Comm_compare", "Comm_group", "Comm_get_attr", "Comm_get_name", "Comm_set_name", "Comm_remote_size", "Comm_remote_group", "Comm_test_inter", "Comm_idup", "Comm_get_info", "Comm_get_parent", "Group_compare", "Group_difference", "Group_excl", "Group_free", "Group_incl", "Group_intersection", "Group_range_excl", "Group_range_incl", "Group_rank", "Group_size", "Group_translate_ranks", "Group_union",
        "Type_create_keyval", "Type_get_attr", "Type_get_name", "Type_set_name", "Cart_coords", "Cart_get", "Cart_rank", "Cart_shift", "Cartdim_get", "Dims_create", "Graph_get", "Graph_neighbors", "Graph_neighbors_count", "Graphdims_get", "Topo_test", "Initialized", "Finalized", "Is_thread_main", "Query_thread", "File_iread", "File_iwrite", "File_get_size", "File_get_amode", "Win_test", "Rput", "Rget", "Ineighbor_alltoall", "Ineighbor_allgather"})) return MUSTNOT;
    return EITHER;
}
static const char *const KIND[] = {"C", "Fortran", "Fortran_", "Fortran__", "F08", "C-API", "Fortran-API"};
/* The call being made */
static struct { bool on; int idx, kind, count, others; long *exp, ret; bool special; int out[8]; } D;
static void inside(); static bool spying; static int setting;
static bool reqs(const char *n) { return in(n, {"Startall", "Testall", "Testany", "Testsome", "Waitall", "Waitany", "Waitsome"}); }
long vh_pcall(int idx, int fortran, int n, const long *a) {
    const vh_call &c = vh_calls[idx];
    if (D.on && idx == D.idx) {
        D.count++; bool fk = D.kind >= 1 && D.kind <= 4;
        if (D.kind >= 5) V("forwarded", "%s called through the %s was forwarded to the MPI library", c.name, KIND[D.kind]);
        else if ((bool)fortran != fk) V("binding", "%s called from %s reached the other binding of the MPI library", c.name, KIND[D.kind]);
        else for (int i = 0; i < n; i++) { if (fortran && i == c.ier && D.kind == 4) continue; if (D.kind == 4 && i > c.ier && (a[i] == 63 || a[i] == 1023)) continue; /* dummy argument of the length that the standard says */ if (i == 1 && reqs(c.name) && D.kind == 4) { int k = *(int*)a[0]; if (memcmp((void*)a[1], (void*)D.exp[1], k * sizeof(int))) V("arguments", "%s called from %s: the %d requests are not those of the caller", c.name, KIND[D.kind], k); for (int j = 0; j < k; j++) ((int*)a[1])[j] = D.out[j] = rnd(&r, 1000); st["request_arrays"]++; } else if (a[i] != D.exp[i]) V("arguments", "%s called from %s: argument %d arrived as %#lx instead of %#lx", c.name, KIND[D.kind], i, a[i], D.exp[i]); }
        if (D.special) { long x[4] = {0, 0, D.exp[fortran ? 0 : 2], fortran ? 0 : D.exp[3]}; if (!fortran || strcmp(c.name, "MPI_Init_thread")) mini_call(c.name, x); return D.ret; }
        inside(); return D.ret;
    }
    if (D.on && !D.special) { D.others++; V("extra-call", "%s called by the application made DLB call %s", vh_calls[D.idx].name, c.name); }
    if (fortran) HARNESS_ERROR("Fortran %s called by the library", c.name);
    int e = mini_call(c.name, a); if (e < 0) HARNESS_ERROR("the library calls %s, which the harness does not provide", c.name); return e;
}
static void call(int idx, int kind) {
    const vh_call &c = vh_calls[idx]; bool fk = kind == 6 || (kind >= 1 && kind <= 4); int n = fk ? c.nf : c.nc; long v[20]; int ierr = -77, prov = -1, req = rnd(&r, 4);
    for (int i = 0; i < n; i++) v[i] = fk && i > c.ier ? 1023 + (long)rnd(&r, 0x7fff0000) : chance(&r, 1, 8) ? 0 : (long)rng_next(&r);
    D.special = !strcmp(c.name, "MPI_Init") || !strcmp(c.name, "MPI_Init_thread") || !strcmp(c.name, "MPI_Finalize");
    if (D.special) { if (!fk) { if (n >= 2) v[0] = v[1] = 0; if (n == 4) { v[2] = req; v[3] = (long)&prov; } } else if (n == 3) { v[0] = (long)&req; v[1] = (long)&prov; } }
    if (fk && kind != 5) { static int mem[20][64]; for (int i = 0; i < c.ier; i++) { for (int &x : mem[i]) x = rnd(&r, 6); v[i] = (long)&mem[i][rnd(&r, 32)]; } if (D.special && n == 3) { v[0] = (long)&req; v[1] = (long)&prov; } }
    if (fk) v[c.ier] = kind == 4 && chance(&r, 1, 2) ? 0 : (long)&ierr; bool noierr = fk && !v[c.ier];
    D.on = true; D.idx = idx; D.kind = kind; D.count = D.others = 0; D.ret = D.special ? 0 : chance(&r, 1, 3) ? 0 : (int)rng_next(&r);
    D.exp = v; /* narrowed to the type of each parameter by the caller */
    if (kind >= 5) { c.fn[kind](v); inside(); c.leave[kind - 5](v); if (D.count) D.count--; else D.count = 1; D.count = D.count == 1 ? 1 : 99; }
    else {
        int e0 = errno = rnd(&r, 100);
        long ret = c.fn[kind](v); (void)e0;
        if (kind == 0 && (int)ret != (int)D.ret) V("result", "%s returned %d, the MPI library returned %d", c.name, (int)ret, (int)D.ret);
        if (kind == 4 && reqs(c.name) && memcmp((void*)v[1], D.out, *(int*)v[0] * sizeof(int))) V("result", "%s called from %s: the requests set by the MPI library didn't arrive to the caller", c.name, KIND[kind]);
        if (fk && !noierr && ierr != (int)D.ret) V("result", "%s called from %s left ierror %d, the MPI library set %d", c.name, KIND[kind], ierr, (int)D.ret);
    }
    if (D.count != 1 && kind < 5) V("not-once", "%s called from %s reached the MPI library %d times", c.name, KIND[kind], D.count);
    D.on = false; st["calls"]++; { static bool seen[400][7]; if (!seen[idx][kind]) { seen[idx][kind] = true; emit("SIG %s %s %d", c.name, KIND[kind], spying ? 1 + setting : 0); } } st[string("call_") + KIND[kind]]++;
}
/* ---- helper process: borrows what the application lends, and sets its mask ---- */
struct Cmd { char op; cpu_set_t m; pid_t pid; }; struct Rep { int e; cpu_set_t m; int n; };
static int hw = -1, hr = -1; static pid_t hpid = -1; static cpu_set_t hgot; static bool classic; static int hn = 1;
static void h_num(int n, void*) { hn = n; }
static void h_enable(int c, void*) { CPU_SET(c, &hgot); } static void h_disable(int c, void*) { CPU_CLR(c, &hgot); }
static Rep ask(char op, const cpu_set_t *m = nullptr) { Cmd c; memset(&c, 0, sizeof c); c.op = op; c.pid = getpid(); if (m) c.m = *m; Rep p; if (write(hw, &c, sizeof c) != (ssize_t)sizeof c || read(hr, &p, sizeof p) != (ssize_t)sizeof p) HARNESS_ERROR("the helper process died"); return p; }
static void helper(int cpu, const string &args) {
    int a[2], b[2]; if (pipe(a) || pipe(b)) HARNESS_ERROR("pipe"); hpid = fork();
    if (hpid) { close(a[0]); close(b[1]); hw = a[1]; hr = b[0]; return; }
    close(a[1]); close(b[0]); Cmd c; bool up = false;
    while (read(a[0], &c, sizeof c) == (ssize_t)sizeof c) {
        Rep p; memset(&p, 0, sizeof p);
        if (c.op == 'I') { cpu_set_t m; CPU_ZERO(&m); CPU_SET(cpu, &m); unsetenv("DLB_ARGS"); p.e = DLB_Init(1, classic ? NULL : &m, args.c_str()); DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)h_num, NULL); DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)h_enable, NULL); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)h_disable, NULL); up = true; }
        if (c.op == 'O') { p.e = DLB_Init(CPU_COUNT(&c.m), &c.m, args.c_str()); up = true; }
        if (c.op == 'B' && classic) { p.e = DLB_Borrow(); p.n = hn - 1; } else if (c.op == 'B') { CPU_ZERO(&hgot); p.e = DLB_BorrowCpus(1000); }
        if (c.op == 'G' && classic) { p.e = DLB_Lend(); hn = 1; } else if (c.op == 'G') { if (CPU_COUNT(&hgot)) p.e = DLB_LendCpuMask(&hgot); CPU_ZERO(&hgot); }
        if (c.op == 'D') p.e = DLB_DROM_SetProcessMask(c.pid, &c.m, (dlb_drom_flags_t)0);
        if (c.op == 'Q') { if (up) DLB_Finalize(); }
        p.m = hgot; if (!classic) p.n = CPU_COUNT(&hgot); ssize_t w = write(b[1], &p, sizeof p); (void)w; if (c.op == 'Q') break;
    }
    _exit(0);
}
/* ---- one rank ---- */
struct Reg { string name; dlb_monitor_t *m; bool open; int64_t mpi, useful, calls, meas; };
static vector<Reg> regs; static bool talp_on, counting; static int64_t dt_inside; static cpu_set_t affin; static int masks_seen; static cpu_set_t last_mask; static bool keep; static int nlent;
enum { C_ALL, C_NONE, C_BARRIER, C_COLL };
static void cb_mask(const cpu_set_t *m, void*) { masks_seen++; last_mask = *m; if (D.on && D.kind < 5 && D.count == 0) V("mask-early", "the mask changed before %s was done", vh_calls[D.idx].name); }
static string S(const cpu_set_t &m) { char b[400]; return set_str(&m, b, sizeof b); }
static void inside() {
    int64_t d = dt_inside = chance(&r, 1, 4) ? 0 : rnd(&r, 1000000); vclock += d; if (counting) for (auto &g : regs) if (g.open) { g.mpi += d; g.calls++; }
    if (!spying) return;
    const char *n = vh_calls[D.idx].name; int k = blocking(n); Rep p = ask('B');
    bool sel = setting == C_ALL || (setting == C_BARRIER && !strcmp(n, "MPI_Barrier")) || (setting == C_COLL && coll(n));
    if (classic) { bool no = k == MUSTNOT || (!sel && (setting != C_COLL || k != EITHER)); if (no && p.n) V("lent", "%d CPUs were lent during %s with --lewi-mpi-calls=%d", p.n, n, setting); else if (k == MUST && sel) { if (nlent < 0) nlent = p.n + keep; if (p.n != nlent - keep || p.n < 1 - keep) V("not-lent", "during the blocking call %s of a process with %d CPUs, other process obtained %d", n, nlent, p.n); }
        st[p.n ? "lent_inside" : "kept_inside"]++; st["classic"]++; ask('G'); return; }
    if (!sel && (setting != C_COLL || k != EITHER) && CPU_COUNT(&p.m)) V("lent", "CPUs %s were lent during %s although --lewi-mpi-calls doesn't select it", S(p.m).c_str(), n);
    else if (k == MUSTNOT && CPU_COUNT(&p.m)) V("lent", "CPUs %s were lent during %s, which doesn't block", S(p.m).c_str(), n);
    else { cpu_set_t w = affin; if (keep) for (int q = 0; q < CPU_SETSIZE; q++) if (CPU_ISSET(q, &w)) { CPU_CLR(q, &w); break; } /* the first core */
        if (k == MUST && sel && !CPU_EQUAL(&p.m, &w)) V("not-lent", "during the blocking call %s of a thread bound to %s, other process obtained %s instead of %s", n, S(affin).c_str(), S(p.m).c_str(), S(w).c_str()); }
    st[CPU_COUNT(&p.m) ? "lent_inside" : "kept_inside"]++; ask('G');
}
static void check_regions(const char *when) {
    if (!talp_on) return; DLB_TALP_GetTimes; int e = DLB_MonitoringRegionsUpdate(); (void)e;
    for (auto &g : regs) { st["regions"]++;
        if (g.m->mpi_time != g.mpi) V("mpi-time", "%s: region %s has %ld ns in MPI, %ld were spent", when, g.name.c_str(), (long)g.m->mpi_time, (long)g.mpi);
        if (g.m->useful_time != g.useful) V("useful-time", "%s: region %s has %ld ns of useful time, %ld were spent", when, g.name.c_str(), (long)g.m->useful_time, (long)g.useful);
        if (g.m->num_mpi_calls != g.calls) V("mpi-calls", "%s: region %s has %ld MPI calls, there were %ld", when, g.name.c_str(), (long)g.m->num_mpi_calls, (long)g.calls); }
}
static void outside() { int64_t d = chance(&r, 1, 3) ? 0 : rnd(&r, 500000); vclock += d; if (counting) for (auto &g : regs) if (g.open) g.useful += d; }
static void region_op() {
    unsigned k = rnd(&r, 4); if (k == 0 && regs.size() < 5) { string n = "region " + std::to_string(regs.size()); dlb_monitor_t *m = DLB_MonitoringRegionRegister(n.c_str()); if (!m) { V("region", "could not register a region"); return; } regs.push_back({n, m, false, 0, 0, 0, 0}); return; }
    if (regs.size() < 2) return; Reg &g = regs[1 + rnd(&r, regs.size() - 1)];
    if (g.open) { DLB_MonitoringRegionStop(g.m); g.open = false; g.meas++; } else { DLB_MonitoringRegionStart(g.m); g.open = true; }
}
static int any_call() { for (;;) { int i = rnd(&r, vh_ncalls); const char *n = vh_calls[i].name; if (in(n, {"Init", "Init_thread", "Finalize"})) continue; if (chance(&r, 1, 2) && blocking(n) == EITHER) continue; return i; } }
static int rec(uint64_t seed, const string &key) {
    r.s = seed; replay = "rec " + std::to_string(seed); cpu_set_t real; sched_getaffinity(0, sizeof real, &real); vector<int> cs; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &real)) cs.push_back(i);
    int sys = cs.back() + 4; if (sys < 8) sys = 8; mu_testing_set_sys(sys, sys, 1); int hcpu = sys - 1;
    void *mem = mmap(NULL, mini_size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int node0 = 0; mini_init(mem, 0, 1, &node0, seed);
    cpu_set_t mine; CPU_ZERO(&mine); int k = 1 + rnd(&r, cs.size() < 4 ? cs.size() : 4), at = rnd(&r, cs.size() - k + 1); for (int i = 0; i < k; i++) CPU_SET(cs[at + i], &mine); sched_setaffinity(0, sizeof mine, &mine);
    bool lewi = chance(&r, 1, 2), drom = chance(&r, 1, 3); talp_on = chance(&r, 2, 3); setting = lewi ? rnd(&r, 4) : 0; keep = lewi && chance(&r, 1, 6); int life = rnd(&r, 5); classic = lewi && !drom && chance(&r, 1, 4); if (life == 4 && (classic || !(lewi || drom))) life = 0; nlent = k;
    static const char *SN[] = {"all", "none", "barrier", "collectives"};
    string base = string("--quiet=yes --shm-key=") + key + (classic ? " --lewi-affinity=none" : lewi ? " --lewi-affinity=mask" : ""), args = base + (lewi ? " --lewi" : "") + (drom ? " --drom" : "") + (talp_on ? " --talp --talp-summary=none" : "") + (keep ? " --lewi-keep-one-cpu=yes" : "");
    if (lewi && (setting != C_ALL || chance(&r, 1, 2))) args += string(" --lewi-mpi-calls=") + SN[setting]; if (talp_on && chance(&r, 1, 4)) args += " --talp-external-profiler=yes"; if (lewi) args += " --mode=polling"; if (chance(&r, 1, 4)) args += " --verbose=mpi_api:mpi_intercept";
    setenv("DLB_ARGS", args.c_str(), 1); replay += " " + args;
    emit("SIG life%d %s%s%s %s kinds", life, lewi ? "L" : "", drom ? "D" : "", talp_on ? "T" : "", lewi ? SN[setting] : "-");
    if (lewi || drom) { helper(hcpu, base + (lewi ? " --lewi --mode=polling" : "") + (drom ? " --drom" : "")); }
    /* before MPI_Init: forwarded, and nothing else */
    for (int i = rnd(&r, 4); i-- > 0;) { call(any_call(), rnd(&r, 7)); st["before_init"]++; }
    if (hpid > 0) { if (life == 4) { Rep p = ask('O', &mine); if (p.e) V("helper", "DLB_Init of other process returned %d", p.e); } else if (chance(&r, 1, 2)) { Rep p = ask('I'); if (p.e) V("helper", "DLB_Init of other process returned %d", p.e); } else hr = hr; }
    bool hup = false; if (life == 1 || life == 3) { int e = DLB_Init(classic ? k : 0, NULL, NULL); if (e) V("init", "DLB_Init before MPI_Init returned %d", e); }
    if (classic && !(life == 1 || life == 3)) nlent = -1;
    static const char *IN[] = {"MPI_Init", "MPI_Init_thread"}; call(find(IN[rnd(&r, 2)]), rnd(&r, 5)); (void)hup;
    int e = DLB_Init(0, NULL, NULL); bool up = life != 4;
    if (life == 4) { /* the CPUs belong to other process: DLB_Init inside MPI_Init fails and MPI goes on without DLB */
        for (int i = 0; i < 20; i++) { call(any_call(), rnd(&r, 7)); st["without_dlb"]++; } call(find("MPI_Finalize"), rnd(&r, 5)); ask('Q'); int s; waitpid(hpid, &s, 0); st["lives"]++; return 0; }
    if (e != DLB_ERR_INIT) V("init", "DLB is not initialized after MPI_Init (DLB_Init returned %d)", e);
    if (hpid > 0) { Rep p = ask('I'); if (p.e && p.e != DLB_ERR_INIT) V("helper", "DLB_Init of other process returned %d", p.e); }
    if (drom) { e = DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, NULL); if (e) V("callback", "DLB_CallbackSet returned %d", e); }
    if (talp_on) { dlb_monitor_t *g = DLB_MonitoringRegionGetGlobal(); if (!g) { V("region", "there is no global region"); return 0; } regs.push_back({"Global", g, true, 0, 0, 1, 0}); counting = true; check_regions("after MPI_Init"); }
    affin = mine; spying = lewi; int steps = 30 + rnd(&r, 60);
    for (int i = 0; i < steps; i++) {
        if (lewi && chance(&r, 1, 10)) { CPU_ZERO(&affin); while (!CPU_COUNT(&affin)) for (int q = 0; q < CPU_SETSIZE; q++) if (CPU_ISSET(q, &mine) && chance(&r, 1, 2)) CPU_SET(q, &affin); sched_setaffinity(0, sizeof affin, &affin); }
        bool posted = false; cpu_set_t nm; CPU_ZERO(&nm);
        if (drom && !lewi && chance(&r, 1, 3)) { while (!CPU_COUNT(&nm)) for (int q : cs) if (chance(&r, 1, 2)) CPU_SET(q, &nm); Rep p = ask('D', &nm); posted = p.e == DLB_SUCCESS;; if (p.e < 0) V("drom", "DLB_DROM_SetProcessMask returned %d", p.e); masks_seen = 0; }
        outside(); call(any_call(), rnd(&r, 7)); outside(); if (talp_on && chance(&r, 1, 3)) region_op(); if (chance(&r, 1, 3)) check_regions("while running");
        if (posted) { st["masks"]++; if (CPU_EQUAL(&nm, &mine) && !masks_seen) st["same_mask"]++; else if (masks_seen != 1 || !CPU_EQUAL(&nm, &last_mask)) V("mask", "the mask %s set by other process before an MPI call was applied %d times after %s (%s), last %s", S(nm).c_str(), masks_seen, vh_calls[D.idx].name, KIND[D.kind], masks_seen ? S(last_mask).c_str() : "-"); mine = nm; }
        if (lewi && chance(&r, 1, 4)) { Rep p = ask('B'); if (p.n) V("lent-outside", "after an MPI call other process obtained %d CPUs: %s", p.n, S(p.m).c_str()); ask('G'); st["outside"]++; }
    }
    check_regions("before MPI_Finalize"); spying = counting = false;
    if (life == 2 || life == 3) { e = DLB_Finalize(); if (e) V("finalize", "DLB_Finalize before MPI_Finalize returned %d", e); talp_on = false; for (int i = 0; i < 5; i++) { call(any_call(), rnd(&r, 7)); st["after_dlb"]++; } up = false; }
    call(find("MPI_Finalize"), rnd(&r, 5));
    for (int i = rnd(&r, 3); i-- > 0;) { call(any_call(), rnd(&r, 7)); st["after_finalize"]++; }
    e = DLB_PollDROM(NULL, NULL); bool alive = e != DLB_ERR_NOINIT;
    if (life == 1) { if (!alive) V("finalize", "MPI_Finalize finalized a DLB that the application had initialized"); e = DLB_Finalize(); if (e) V("finalize", "DLB_Finalize after MPI_Finalize returned %d", e); }
    else { if (alive) V("finalize", "DLB is still initialized after MPI_Finalize (or DLB_Finalize): DLB_PollDROM returned %d", e); e = DLB_Finalize(); if (e != DLB_NOUPDT) V("finalize", "DLB_Finalize when not initialized returned %d", e); }
    (void)up; if (hpid > 0) { if (lewi) { Rep p = ask('B'); if (!classic && CPU_COUNT(&p.m)) V("lent-outside", "after the application finished other process obtained its CPUs %s", S(p.m).c_str()); } ask('Q'); int s; waitpid(hpid, &s, 0); }
    st["lives"]++; return 0;
}
/* ---- several ranks ---- */
#define NREG 8
struct RegM { char name[64]; int cpus, used; int64_t meas, calls, elapsed, useful, mpi; };
struct RankM { int nreg; RegM g[NREG]; pid_t pid; int ok; char cpus[400]; };
static RankM *M, W[MINI_MAX]; static int NR, node[MINI_MAX], node_id[MINI_MAX], proc_id[MINI_MAX], nnodes;
static vector<Reg> J; static std::map<string, int64_t> since, elapsed; static int ncpus, me;
static void publish() { RankM &x = M[me]; x.nreg = J.size(); for (size_t i = 0; i < J.size(); i++) { RegM &g = x.g[i]; snprintf(g.name, sizeof g.name, "%s", J[i].name.c_str()); g.meas = J[i].meas; g.calls = J[i].calls; g.useful = J[i].useful; g.mpi = J[i].mpi; g.elapsed = elapsed[J[i].name]; g.used = J[i].meas > 0; g.cpus = g.used ? 1 : 0; /* only the thread that calls MPI */ } }
static const RegM *of(int rank, const string &n) { static RegM none; for (int i = 0; i < W[rank].nreg; i++) if (n == W[rank].g[i].name) return &W[rank].g[i]; return &none; }
static void jstop(Reg &g) { g.open = false; g.meas++; elapsed[g.name] += vclock - since[g.name]; } static void jstart(Reg &g) { g.open = true; since[g.name] = vclock; }
#define EQ(what, got, want) do { if ((got) != (want)) V(what, "rank %d: %s of region %s is %.17g, expected %.17g", me, what, n.c_str(), (double)(got), (double)(want)); } while (0)
#define NEAR(what, got, want) do { double _g = (got), _w = (want); if (!(fabs(_g - _w) <= 1e-6 * fabs(_w) + 1e-9)) V(what, "rank %d: %s of region %s is %.17g, expected %.17g", me, what, n.c_str(), _g, _w); } while (0)
static void collect(Reg &g) {
    string n = g.name; dlb_pop_metrics_t p; memset(&p, 0x5a, sizeof p); if (g.open) { jstop(g); jstart(g); } publish(); mini_barrier();
    int e = DLB_TALP_CollectPOPMetrics(chance(&r, 1, 2) || n != "Global" ? g.m : NULL, &p); memcpy(W, M, sizeof(RankM) * NR); mini_barrier(); if (e) { V("collect", "DLB_TALP_CollectPOPMetrics returned %d", e); return; }
    int cpus = 0, nodes = 0, users = 0; int64_t meas = 0, calls = 0, useful = 0, mpi = 0, el = 0; double mp = 0, mn = 0; vector<double> mm; vector<int64_t> nu(nnodes), nc(nnodes); vector<bool> used(nnodes);
    for (int i = 0; i < NR; i++) { const RegM *x = of(i, n); cpus += x->cpus; meas += x->meas; calls += x->calls; useful += x->useful; mpi += x->mpi; if (x->elapsed > el) el = x->elapsed; if (x->used) { users++; used[node_id[i]] = true; nu[node_id[i]] += x->useful; nc[node_id[i]] += x->cpus; } double q = x->cpus ? (double)x->useful / x->cpus : 0; if (q > mp) mp = q; }
    for (int i = 0; i < nnodes; i++) { nodes += used[i]; double q = nc[i] ? (double)nu[i] / nc[i] : 0; if (q > mn) mn = q; }
    EQ("numCpus", p.num_cpus, cpus); if (p.num_mpi_ranks != NR && p.num_mpi_ranks != users) EQ("numMpiRanks", p.num_mpi_ranks, NR); EQ("numNodes", p.num_nodes, nodes); EQ("numMeasurements", p.num_measurements, meas); EQ("numMpiCalls", p.num_mpi_calls, calls); EQ("elapsedTime", p.elapsed_time, el); EQ("usefulTime", p.useful_time, useful); EQ("mpiTime", p.mpi_time, mpi);
    NEAR("usefulNormdApp", p.useful_normd_app, cpus ? (double)useful / cpus : 0); NEAR("mpiNormdApp", p.mpi_normd_app, cpus ? (double)mpi / cpus : 0); NEAR("maxUsefulNormdProc", p.max_useful_normd_proc, mp); NEAR("maxUsefulNormdNode", p.max_useful_normd_node, mn);
    bool ok = useful == 0; for (int i = 0; i < NR; i++) { const RegM *x = of(i, n); if (x->cpus && (double)x->useful / x->cpus == mp && fabs(p.mpi_normd_of_max_useful - (double)x->mpi / x->cpus) < 1e-6 * p.mpi_normd_of_max_useful + 1e-9) ok = true; } if (!ok) V("mpiNormdOfMaxUseful", "rank %d: mpiNormdOfMaxUseful of region %s is %g, not that of the process with the most useful time", me, n.c_str(), p.mpi_normd_of_max_useful);
    if (strcmp(p.name, n.c_str())) V("collect", "region %s is named %s", n.c_str(), p.name); st["collected"]++;
    if (useful > 0) { double a = (double)useful / (useful + mpi); if (!(fabs(p.parallel_efficiency - a) < 1e-5)) V("parallelEfficiency", "rank %d: parallelEfficiency of region %s is %g, expected %g", me, n.c_str(), p.parallel_efficiency, a); }
}
static void collect_node(Reg &g) {
    string n = g.name; dlb_node_metrics_t p; memset(&p, 0x5a, sizeof p); if (g.open) { jstop(g); jstart(g); } publish(); mini_barrier();
    int e = DLB_TALP_CollectPOPNodeMetrics(g.m, &p); memcpy(W, M, sizeof(RankM) * NR); mini_barrier(); int k = 0; int64_t u = 0, m = 0, xu = 0, xm = 0;
    for (int i = 0; i < NR; i++) if (node[i] == node[me]) { const RegM *x = of(i, n); if (x->useful > 0 || x->mpi > 0) { k++; u += x->useful; m += x->mpi; if (x->useful > xu) xu = x->useful; if (x->mpi > xm) xm = x->mpi; } }
    if (!k) { if (e == DLB_SUCCESS) V("collect-node", "DLB_TALP_CollectPOPNodeMetrics of region %s that nobody used returned %d", n.c_str(), e); return; }
    if (e) { V("collect-node", "DLB_TALP_CollectPOPNodeMetrics of region %s returned %d", n.c_str(), e); return; }
    EQ("nodeId", p.node_id, node_id[me]); EQ("processesPerNode", p.processes_per_node, k); EQ("totalUsefulTime", p.total_useful_time, u); EQ("totalMpiTime", p.total_mpi_time, m); EQ("maxUsefulTime", p.max_useful_time, xu); EQ("maxMpiTime", p.max_mpi_time, xm); st["collected_node"]++;
}
static void inside_job() { }
static void rank(uint64_t seed, const string &key, const string &dir, void *mem) {
    r.s = seed; replay = "job " + std::to_string(seed); cpu_set_t real; sched_getaffinity(0, sizeof real, &real); vector<int> cs; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &real)) cs.push_back(i); int sys = cs.back() + 1 < 16 ? 16 : cs.back() + 1;
    /* the same on every rank */
    static const char *SUM[] = {"pop-metrics", "process", "node", "all", "pop-metrics:process", "none"}; int sum = rnd(&r, 6); int life = rnd(&r, 3); bool v2 = chance(&r, 1, 3), ext = chance(&r, 1, 6); int cycles = rnd(&r, 5); mu_testing_set_sys(sys, sys, 1);
    mini_init(mem, me, NR, node, seed + 1000 + me); int nin = 0, pos = 0; for (int i = 0; i < NR; i++) if (node[i] == node[me]) { if (i == me) pos = nin; nin++; }
    if (!me) { string l; for (int i = 0; i < NR; i++) l += std::to_string(node_id[i]); emit("SIG job %d ranks nodes %s life%d %s", NR, l.c_str(), life, SUM[sum]); }
    rng_t cr = r; for (int i = 0; i < cycles; i++) rng_next(&cr); uint64_t common = rng_next(&r); r.s = seed * 131 + me * 7919 + 5;
    cpu_set_t mine; CPU_ZERO(&mine); if (chance(&r, 1, 2) || (int)cs.size() < nin) { for (int c : cs) if (chance(&r, 1, 2)) CPU_SET(c, &mine); if (!CPU_COUNT(&mine)) CPU_SET(cs[0], &mine); } else for (size_t i = pos; i < cs.size(); i += nin) CPU_SET(cs[i], &mine);
    sched_setaffinity(0, sizeof mine, &mine); ncpus = CPU_COUNT(&mine); snprintf(M[me].cpus, sizeof M[me].cpus, "%s", S(mine).c_str()); M[me].pid = getpid();
    string args = "--quiet=yes --shm-key=" + key + "_" + std::to_string(node[me]) + " --lewi-barrier=no --talp --talp-summary=" + SUM[sum] + " --talp-output-file=" + dir + "/out.json --talp-model=hybrid-v" + (v2 ? "2" : "1") + (ext ? " --talp-external-profiler=yes" : ""); setenv("DLB_ARGS", args.c_str(), 1); replay += " rank " + std::to_string(me) + " " + args;
    vclock += rnd(&r, 1000000);
    if (life == 1) { int e = DLB_Init(0, NULL, NULL); if (e) V("init", "DLB_Init before MPI_Init returned %d", e); }
    call(find(chance(&r, 1, 2) ? "MPI_Init" : "MPI_Init_thread"), 0);
    dlb_monitor_t *gm = DLB_MonitoringRegionGetGlobal(); if (!gm) { V("region", "there is no global region"); _exit(3); } J.push_back({"Global", gm, true, 0, 0, 1, 0}); since["Global"] = vclock;
    J.push_back({"common", DLB_MonitoringRegionRegister("common"), false, 0, 0, 0, 0}); static const char *RN[] = {"alpha", "Beta", "gamma delta", "x<y>&\"z", "common2", "zeta"};
    rng_t q = {common}; counting = true;
    for (int c = 0; c <= cycles; c++) {
        for (int i = rnd(&r, 12); i-- > 0;) {
            int64_t d = chance(&r, 1, 4) ? 0 : chance(&r, 1, 5) ? rnd(&r, 3) : rnd(&r, 1000000); vclock += d; for (auto &g : J) if (g.open) g.useful += d;
            unsigned k = rnd(&r, 5); if (k < 3) { regs.clear(); for (auto &g : J) regs.push_back(g); call(any_call(), rnd(&r, 5)); for (size_t z = 0; z < J.size(); z++) { J[z].mpi = regs[z].mpi; J[z].calls = regs[z].calls; } }
            else if (k == 3 && J.size() < NREG) { string n = RN[rnd(&r, 6)]; bool dup = false; for (auto &g : J) if (g.name == n) dup = true; if (!dup) J.push_back({n, DLB_MonitoringRegionRegister(n.c_str()), false, 0, 0, 0, 0}); }
            else { Reg &g = J[1 + rnd(&r, J.size() - 1)]; if (g.open) { DLB_MonitoringRegionStop(g.m); jstop(g); } else { DLB_MonitoringRegionStart(g.m); jstart(g); } }
        }
        if (c < cycles) { Reg &g = J[rnd(&q, 2)]; if (rnd(&q, 3)) collect(g); else collect_node(g); }
    }
    for (size_t i = 1; i < J.size(); i++) if (J[i].open) { DLB_MonitoringRegionStop(J[i].m); jstop(J[i]); }
    counting = false; J[0].calls++; jstop(J[0]); publish(); mini_barrier();
    if (life == 2) { int e = DLB_Finalize(); if (e) V("finalize", "DLB_Finalize before MPI_Finalize returned %d", e); }
    call(find("MPI_Finalize"), rnd(&r, 5)); if (life == 1) { int e = DLB_Finalize(); if (e) V("finalize", "DLB_Finalize after MPI_Finalize returned %d", e); }
    if (!me) { emit("CASE sum=%s model=%d ranks=%d nodes=%d", SUM[sum], v2 ? 2 : 1, NR, nnodes); }
    M[me].ok = 1; for (auto &x : st) emit("STAT %s=%ld", x.first.c_str(), x.second); _exit(0);
}
static int job(uint64_t seed, const string &key, const string &dir) {
    r.s = seed ^ 0x777; NR = 1 + rnd(&r, 6); int nn = 1 + rnd(&r, NR < 3 ? NR : 3); for (int i = 0; i < NR; i++) node[i] = rnd(&r, 2) ? i * nn / NR : (int)rnd(&r, nn);
    vector<int> seen; for (int i = 0; i < NR; i++) { int id = -1; for (size_t j = 0; j < seen.size(); j++) if (seen[j] == node[i]) id = j; if (id < 0) { id = seen.size(); seen.push_back(node[i]); } node_id[i] = id; proc_id[i] = 0; for (int j = 0; j < i; j++) if (node[j] == node[i]) proc_id[i]++; } nnodes = seen.size();
    void *mem = mmap(NULL, mini_size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); M = (RankM*)mmap(NULL, sizeof(RankM) * MINI_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int nul = 0; mini_init(mem, 0, 1, &nul, 0); pid_t pid[MINI_MAX]; fflush(stdout);
    for (int i = 0; i < NR; i++) if (!(pid[i] = fork())) { me = i; rank(seed, key, dir, mem); }
    bool bad = false; for (int i = 0; i < NR; i++) { int s; waitpid(pid[i], &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) { bad = true; mini_stop(); replay = "job " + std::to_string(seed); if (WIFEXITED(s) && WEXITSTATUS(s) == 77) return 77; if (!(WIFEXITED(s) && WEXITSTATUS(s) == 3)) V("crash", "rank %d of %d ended with status %#x", i, NR, s); } }
    if (bad) return 0;
    for (int i = 0; i < NR; i++) { emit("RANK %d pid=%d node=%d cpus=%s", i, (int)M[i].pid, node_id[i], M[i].cpus); for (int k = 0; k < M[i].nreg; k++) { RegM &g = M[i].g[k]; string h; char b[3]; for (char *p = g.name; *p; p++) { snprintf(b, 3, "%02x", (unsigned char)*p); h += b; } emit("EXP %d %s numCpus=%d numMeasurements=%ld numMpiCalls=%ld elapsedTime=%ld usefulTime=%ld mpiTime=%ld", i, h.c_str(), g.cpus, (long)g.meas, (long)g.calls, (long)g.elapsed, (long)g.useful, (long)g.mpi); } }
    emit("STAT jobs=1"); return 0;
}
int main(int argc, char **argv) {
    if (argc < 4) return 2; stderr = fopen("/dev/null", "w"); uint64_t seed = strtoull(argv[2], NULL, 0); int e = 0;
    if (!strcmp(argv[1], "rec")) { e = rec(seed, argv[3]); for (auto &x : st) emit("STAT %s=%ld", x.first.c_str(), x.second); }
    else e = job(seed, argv[3], argv[4]);
    if (e) return e; emit("DONE"); return 0;
}
