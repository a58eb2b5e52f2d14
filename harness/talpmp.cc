/* T03: TALP shared memory. Worker processes (virtual clock) run TALP regions in turns ordered by a controller, which knows the
 * values that each one has published; administrators and workers read them back through the API. */
#include "vh.h"
#include <dlb.h>
#include <dlb_talp.h>
#include <dlb_errors.h>
#include <math.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" {
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void vh_talp_mpi_init(void); void vh_talp_mpi_finalize(void); void vh_sync_into(int, int); void vh_sync_out(int, int);
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t, struct timespec *);
}
using std::string; using std::vector;
static int64_t vclock; static bool virt;
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    if (!virt || (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_COARSE)) return __real_clock_gettime(c, t);
    t->tv_sec = vclock / 1000000000; t->tv_nsec = vclock % 1000000000; return 0;
}
enum { MAXR = 64 };
enum Op { INIT, REG, START, STOP, RESET, UPDATE, MPIINIT, MPIIN, MPIOUT, FIN, LIST, QUERY, TIMES, PIDS, COLLECT, ATTACH, DETACH, QUIT };
struct Cmd { int op, i, n, b, c; int64_t clock; char name[200], args[600]; bool null_name; };
struct Val { int64_t mpi, useful; };
struct Rep { int rc, nregs, n; Val v[MAXR]; dlb_node_times_t t[128]; dlb_node_metrics_t m; double mt, ut; int pids[64]; };
static int ncpu;
static void child(int fd) {
    Cmd c; static Rep r; vector<dlb_monitor_t*> regs; virt = true; mu_testing_set_sys(ncpu, ncpu, 1);
    while (read(fd, &c, sizeof c) == (ssize_t)sizeof c) {
        memset(&r, 0, sizeof r); vclock = c.clock; r.rc = -1000;
        const char *name = c.null_name ? nullptr : c.name;
        dlb_monitor_t *m = c.i >= 0 && c.i < (int)regs.size() ? regs[c.i] : nullptr;
        switch (c.op) {
            case INIT: { setenv("DLB_ARGS", c.args, 1); cpu_set_t s; CPU_ZERO(&s); CPU_SET(c.n % ncpu, &s); r.rc = DLB_Init(0, &s, nullptr); if (r.rc == 0) { regs.clear(); regs.push_back(DLB_MonitoringRegionGetGlobal()); } break; }
            case REG: regs.push_back(DLB_MonitoringRegionRegister(c.name)); r.rc = regs.back() ? 0 : -1; break;
            case START: r.rc = DLB_MonitoringRegionStart(m); break;
            case STOP: r.rc = DLB_MonitoringRegionStop(m); break;
            case RESET: r.rc = DLB_MonitoringRegionReset(m); break;
            case UPDATE: r.rc = DLB_MonitoringRegionsUpdate(); break;
            case MPIINIT: vh_talp_mpi_init(); r.rc = 0; break;
            case MPIIN: vh_sync_into(c.b, c.c); r.rc = 0; break;
            case MPIOUT: vh_sync_out(c.b, c.c); r.rc = 0; break;
            case FIN: if (c.b) vh_talp_mpi_finalize(); r.rc = DLB_Finalize(); regs.clear(); break;
            case LIST: { r.n = -1; int n = std::min(c.n, 128); dlb_node_times_t *l = (dlb_node_times_t*)malloc(sizeof *l * (n > 0 ? n : 0) + (n <= 0)); r.rc = DLB_TALP_GetNodeTimes(name, l, &r.n, n); if (r.rc == 0) for (int k = 0; k < r.n && k < n; k++) r.t[k] = l[k]; free(l); break; }
            case QUERY: memset(&r.m, 0xee, sizeof r.m); r.rc = DLB_TALP_QueryPOPNodeMetrics(name, &r.m); break;
            case TIMES: r.mt = r.ut = -1; r.rc = DLB_TALP_GetTimes(c.n, &r.mt, &r.ut); break;
            case PIDS: { r.n = -1; int n = c.n; int *l = (int*)malloc(sizeof(int) * (n > 0 ? n : 0) + (n <= 0)); r.rc = DLB_TALP_GetPidList(l, &r.n, n); if (r.rc == 0) for (int k = 0; k < r.n && k < n; k++) r.pids[k] = l[k]; free(l); break; }
            case COLLECT: memset(&r.m, 0xee, sizeof r.m); r.rc = DLB_TALP_CollectPOPNodeMetrics(m, &r.m); break;
            case ATTACH: if (c.args[0]) setenv("DLB_ARGS", c.args, 1); r.rc = DLB_TALP_Attach(); break;
            case DETACH: r.rc = DLB_TALP_Detach(); break;
            default: _exit(0);
        }
        r.nregs = regs.size(); for (size_t k = 0; k < regs.size() && k < MAXR; k++) if (regs[k]) r.v[k] = {regs[k]->mpi_time, regs[k]->useful_time};
        ssize_t w = write(fd, &r, sizeof r); (void)w;
    }
    _exit(0);
}
/* ---- controller ---- */
static string cfg; static vector<string> hist; static std::map<string, long> st; static std::set<string> sigs; static int nviol; static rng_t r;
static string tailh() { string s; size_t n = hist.size(); for (size_t K = getenv("HIST") ? atoi(getenv("HIST")) : 16, i = n > K ? n - K : 0; i < n; i++) s += hist[i] + "; "; return s; }
#define V(key, ...) do { if (nviol++ < 8) { char _m[1500]; snprintf(_m, sizeof _m, __VA_ARGS__); VIOL(key, "%s [%s] after: %s", _m, cfg.c_str(), tailh().c_str()); } } while (0)
static void note(const char *f, ...) { char b[200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); hist.push_back(b); }
struct Pub { int64_t mpi = 0, useful = 0; bool sure = true; };
struct P { pid_t pid = 0; int fd = -1; bool init = false, attached = false, mpi = false, inmpi = false; vector<string> names; vector<bool> open; std::map<string, Pub> pub; int64_t clock; };
static vector<P> ps; static string wargs; static bool ext, minimal; static int cap; static bool killed; static std::map<pid_t, std::map<string, Pub>> dead; /* of killed processes: maybe still there */
static P mk() { P p; int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) HARNESS_ERROR("socketpair"); p.pid = fork(); if (p.pid == 0) { close(sv[0]); for (auto &q : ps) if (q.fd >= 0) close(q.fd); child(sv[1]); } close(sv[1]); p.fd = sv[0]; p.clock = 1000000000ll * (1 + rnd(&r, 1000)); return p; }
static void send_(P &p, Cmd &c) { c.clock = p.clock; if (write(p.fd, &c, sizeof c) != (ssize_t)sizeof c) HARNESS_ERROR("write"); }
static Rep rep; static bool lost;
static bool recv_(P &p) { size_t o = 0; while (o < sizeof rep) { ssize_t n = read(p.fd, (char*)&rep + o, sizeof rep - o); if (n <= 0) { int s = 0; waitpid(p.pid, &s, 0); V("T03/died", "process died (status %x)", s); lost = true; return false; } o += n; } return true; }
static Cmd cmd(int op, int i = 0) { Cmd c; memset(&c, 0, sizeof c); c.op = op; c.i = i; return c; }
static bool run(P &p, Cmd c) { send_(p, c); return recv_(p); }
static void adv(P &p) { int64_t d; switch (rnd(&r, 4)) { case 0: d = rnd(&r, 10); break; case 1: d = rnd(&r, 1000000); break; default: d = rnd(&r, 2000000000); } p.clock += d; }
static int live() { int n = 0; for (auto &p : ps) n += p.pub.size(); for (auto &d : dead) n += d.second.size(); return n; }
static void publish(P &p) { if (!ext) return; for (size_t i = 0; i < p.names.size(); i++) if (p.open[i]) { auto it = p.pub.find(p.names[i]); if (it != p.pub.end()) { it->second.mpi = rep.v[i].mpi; it->second.useful = rep.v[i].useful; it->second.sure = true; } } }
static bool shmem_there() { for (auto &p : ps) if (p.init) return ext || minimal; return false; }
static bool known() { for (auto &p : ps) if (p.init || p.attached) return true; return false; }
static void checkMetrics(const dlb_node_metrics_t &m, const string &name, const vector<Pub> &l, const char *who) {
    int n = 0; int64_t tu = 0, tm = 0, mu = 0, mm = 0; for (auto &v : l) if (v.mpi > 0 || v.useful > 0) { n++; tu += v.useful; tm += v.mpi; mu = std::max(mu, v.useful); mm = std::max(mm, v.mpi); }
    if (strncmp(m.name, name.c_str(), DLB_MONITOR_NAME_MAX - 1)) V("T03/metrics-name", "%s of '%s' are named '%.40s'", who, name.c_str(), m.name);
    if (m.processes_per_node != n || m.total_useful_time != tu || m.total_mpi_time != tm || m.max_useful_time != mu || m.max_mpi_time != mm)
        V("T03/metrics", "%s of '%s': %d processes, useful %lld max %lld, MPI %lld max %lld; expected %d, %lld, %lld, %lld, %lld", who, name.c_str(), m.processes_per_node, (long long)m.total_useful_time, (long long)m.max_useful_time, (long long)m.total_mpi_time, (long long)m.max_mpi_time, n, (long long)tu, (long long)mu, (long long)tm, (long long)mm);
    double pe = (double)tu / (tu + tm), lb = mu ? (double)tu / n / mu : 0, ce = mu / ((double)(tu + tm) / n);
    if ((tu + tm) / n < 1000) return; /* integer rounding of tiny averages */
    auto near = [](double a, double b) { return fabs(a - b) <= 1e-3 * (1e-3 + fabs(b)); };
    if (!near(m.parallel_efficiency, pe) || !near(m.load_balance, lb) || !near(m.communication_efficiency, ce)) V("T03/efficiency", "%s of '%s': parallel efficiency %f, load balance %f, communication efficiency %f; expected %f, %f, %f", who, name.c_str(), m.parallel_efficiency, m.load_balance, m.communication_efficiency, pe, lb, ce);
    st["metrics"]++; if (n > 1) st["metrics_multi"]++;
}
static void opRead(P &p) {
    vector<string> all; std::set<string> s; s.insert("Global"); s.insert("never"); for (auto &q : ps) for (auto &n : q.names) s.insert(n); all.assign(s.begin(), s.end());
    string name = all[rnd(&r, all.size())]; int k = rnd(&r, 8);
    bool there = shmem_there(); bool maybe = !there && !dead.empty();
    vector<std::pair<pid_t, Pub>> l; for (auto &q : ps) { auto it = q.pub.find(name); if (it != q.pub.end()) l.push_back({q.pid, it->second}); }
    bool anydead = false; for (auto &d : dead) if (d.second.count(name)) anydead = true;
    std::sort(l.begin(), l.end(), [](auto &a, auto &b) { return a.first < b.first; });
    /* workers without TALP shared memory do not open it */
    bool can = there && (p.attached || (p.init && (ext || minimal)));
    if (k < 3) { Cmd c = cmd(LIST); c.n = chance(&r, 1, 3) ? (int)rnd(&r, 6) - 1 : 100; snprintf(c.name, sizeof c.name, "%s", name.c_str()); c.null_name = name == "Global" && chance(&r, 1, 2); note("list of %s", name.c_str()); if (!run(p, c)) return; st["lists"]++; st["evaluations"]++;
        if (maybe || anydead) { if (rep.rc == 0) for (int i = 0; i < rep.n; i++) { bool ok = false; for (auto &x : l) if (x.first == rep.t[i].pid && x.second.mpi == rep.t[i].mpi_time && x.second.useful == rep.t[i].useful_time) ok = true; auto d = dead.find(rep.t[i].pid); if (d != dead.end() && d->second.count(name)) ok = true; if (!ok) V("T03/list", "list of '%s' has an entry of %d (%lld, %lld) that it did not publish", name.c_str(), rep.t[i].pid, (long long)rep.t[i].mpi_time, (long long)rep.t[i].useful_time); } return; }
        if (rep.rc != (can ? 0 : DLB_ERR_NOSHMEM)) { if (!(rep.rc == 0 && rep.n == 0 && !there)) V("T03/list-rc", "GetNodeTimes gives %d, expected %d", rep.rc, can ? 0 : DLB_ERR_NOSHMEM); return; }
        if (!can) return;
        int want = std::min<int>(l.size(), std::max(c.n, 0)); if (rep.n != want) { V("T03/list-size", "list of '%s' with room for %d has %d of %zu", name.c_str(), c.n, rep.n, l.size()); return; }
        for (int i = 0; i < rep.n; i++) { const Pub *x = nullptr; for (auto &y : l) if (y.first == rep.t[i].pid) x = &y.second; if (i && rep.t[i].pid <= rep.t[i - 1].pid) V("T03/list-order", "list not sorted by pid");
            if (!x) V("T03/list-extra", "process %d in the list of '%s' has not registered it", rep.t[i].pid, name.c_str()); else { st["values"]++; if (x->mpi || x->useful) st["values_nz"]++; if (!x->sure) continue; if (x->mpi != rep.t[i].mpi_time || x->useful != rep.t[i].useful_time) V("T03/list", "'%s' of %d: MPI %lld useful %lld, published %lld %lld", name.c_str(), rep.t[i].pid, (long long)rep.t[i].mpi_time, (long long)rep.t[i].useful_time, (long long)x->mpi, (long long)x->useful); } }
        char b[80]; snprintf(b, sizeof b, "list/n%zu/room%d/%s", l.size(), c.n > 6 ? 99 : c.n, p.attached ? "admin" : "worker"); sigs.insert(b);
    } else if (k < 6) { Cmd c = cmd(QUERY); snprintf(c.name, sizeof c.name, "%s", name.c_str()); c.null_name = name == "Global" && chance(&r, 1, 2); note("query of %s", name.c_str()); if (!run(p, c)) return; st["queries"]++; st["evaluations"]++;
        if (maybe || anydead) return; for (auto &x : l) if (!x.second.sure) return;
        int n = 0; vector<Pub> v; for (auto &x : l) { v.push_back(x.second); n += x.second.mpi > 0 || x.second.useful > 0; }
        int want = !can ? DLB_ERR_NOSHMEM : n ? 0 : DLB_ERR_NOENT; if (rep.rc != want) { if (!(!there && rep.rc == DLB_ERR_NOENT)) V("T03/query-rc", "query of '%s' gives %d, expected %d", name.c_str(), rep.rc, want); return; }
        if (want == 0) checkMetrics(rep.m, name, v, "queried metrics"); char b[80]; snprintf(b, sizeof b, "query/n%d/%d", n, want); sigs.insert(b);
    } else if (k < 7) { size_t q = rnd(&r, ps.size()); Cmd c = cmd(TIMES); c.n = ps[q].pid; bool own = ps[q].pid == p.pid && p.init; if (ps[q].pid == p.pid && !p.init) return; note("times of process %zu", q); if (!run(p, c)) return; st["times"]++; st["evaluations"]++;
        if (!ps[q].init && dead.count(ps[q].pid)) return;
        if (own) { if (rep.rc != 0 || fabs(rep.ut - rep.v[0].useful / 1e9) > 1e-6 || fabs(rep.mt - rep.v[0].mpi / 1e9) > 1e-6) V("T03/own-times", "own times: rc %d, MPI %f useful %f, region %lld %lld", rep.rc, rep.mt, rep.ut, (long long)rep.v[0].mpi, (long long)rep.v[0].useful); return; }
        auto it = ps[q].pub.find("Global"); bool has = ps[q].init && it != ps[q].pub.end(); bool open = p.attached || (p.init && (ext || minimal)); int want = !open ? DLB_ERR_NOSHMEM : has ? 0 : DLB_ERR_NOPROC;
        if (rep.rc != want) V("T03/times-rc", "times of a process give %d, expected %d", rep.rc, want);
        else if (want == 0 && it->second.sure && (fabs(rep.ut - it->second.useful / 1e9) > 1e-6 || fabs(rep.mt - it->second.mpi / 1e9) > 1e-6)) V("T03/times", "times of a process: MPI %f useful %f, published %lld %lld", rep.mt, rep.ut, (long long)it->second.mpi, (long long)it->second.useful);
    } else { Cmd c = cmd(PIDS); c.n = rnd(&r, 3) ? 40 : rnd(&r, 4); note("pids"); if (!run(p, c)) return; st["pidlists"]++; st["evaluations"]++; bool open = p.attached || p.init; if (rep.rc != (open ? 0 : DLB_ERR_NOSHMEM)) { V("T03/pids-rc", "GetPidList gives %d", rep.rc); return; } if (!open) return;
        std::set<pid_t> w; for (auto &q : ps) if (q.init) w.insert(q.pid); int nw = 0; std::set<pid_t> seen;
        for (int i = 0; i < rep.n; i++) { if (!seen.insert(rep.pids[i]).second) V("T03/pids-dup", "process twice in the list"); if (w.count(rep.pids[i])) nw++; else if (!dead.count(rep.pids[i])) V("T03/pids", "the list has %d, which is not registered", rep.pids[i]); }
        if (rep.n > c.n) V("T03/pids-size", "%d processes with room for %d", rep.n, c.n); else if (dead.empty() && rep.n != std::min<int>(w.size(), c.n)) V("T03/pids", "the list with room for %d has %d processes of %zu", c.n, rep.n, w.size()); }
}
static void pubReg(P &p, const string &n) { if (!(ext || (minimal && n == "Global"))) return; if (p.pub.count(n)) return; if (live() < cap) p.pub[n] = Pub(); else st["full"]++; }
static const char *NM[] = {"a", "b", "ab", "A", "work", "work 2", "x", "Globa", "Global2"};
static void opWorker(size_t pi) {
    P &p = ps[pi]; adv(p);
    if (!p.init) { if (p.attached) return;
        /* a slot may be taken by a killed process only until somebody attaches */
        Cmd c = cmd(INIT); c.n = pi; snprintf(c.args, sizeof c.args, "%s", wargs.c_str()); note("process %zu init", pi); if (!run(p, c)) return; if (rep.rc) { V("T03/init", "DLB_Init gives %d", rep.rc); lost = true; return; }
        dead.clear(); /* cleaned up by the processes that attach */
        p.init = true; p.names = {"Global"}; p.open = {false}; p.pub.clear(); pubReg(p, "Global"); st["inits"]++; p.mpi = p.inmpi = false;
        if (chance(&r, 2, 3)) { if (!run(p, cmd(MPIINIT))) return; p.mpi = true; p.open[0] = true; }
        return; }
    int k = rnd(&r, 40);
    if (p.inmpi && k < 37) { Cmd c = cmd(MPIOUT); c.b = chance(&r, 1, 2); note("process %zu leaves MPI", pi); run(p, c); p.inmpi = false; return; }
    if (k < 8) { if (p.names.size() >= MAXR - 1) return; string n; if (chance(&r, 1, 3)) { char b[40]; snprintf(b, sizeof b, "r%d", rnd(&r, 100)); n = b; } else if (chance(&r, 1, 12)) n = string(120 + rnd(&r, 20), 'z'); else n = NM[rnd(&r, sizeof NM / sizeof *NM)]; string t = n.substr(0, DLB_MONITOR_NAME_MAX - 1); for (auto &x : p.names) if (x == t) return;
        Cmd c = cmd(REG); snprintf(c.name, sizeof c.name, "%s", n.c_str()); note("process %zu registers %s", pi, t.c_str()); if (!run(p, c)) return; if (rep.rc) V("T03/register", "register fails"); p.names.push_back(t); p.open.push_back(false); pubReg(p, t); st["registers"]++; }
    else if (k < 18) { int i = rnd(&r, p.names.size()); note("process %zu starts %s", pi, p.names[i].c_str()); if (!run(p, cmd(START, i))) return; if (rep.rc != (p.open[i] ? DLB_NOUPDT : 0)) V("T03/start", "start gives %d", rep.rc); if (!p.open[i]) { publish(p); p.open[i] = true; } }
    else if (k < 25) { int i = rnd(&r, p.names.size()); note("process %zu stops %s", pi, p.names[i].c_str()); if (!run(p, cmd(STOP, i))) return; if (rep.rc != (p.open[i] ? 0 : DLB_NOUPDT)) V("T03/stop", "stop gives %d", rep.rc); if (p.open[i]) { publish(p); p.open[i] = false; } }
    else if (k < 26) { int i = rnd(&r, p.names.size()); note("process %zu resets %s", pi, p.names[i].c_str()); run(p, cmd(RESET, i)); p.open[i] = false; }
    else if (k < 30) { note("process %zu updates", pi); if (run(p, cmd(UPDATE))) publish(p); }
    else if (k < 36) { Cmd c = cmd(MPIIN); c.b = chance(&r, 1, 2); c.c = chance(&r, 1, 2); note("process %zu enters MPI", pi); if (!run(p, c)) return; p.inmpi = true; if (c.b && c.c && ext) publish(p); }
    else if (k < 37) { if ((int)ps.size() > ncpu) return; /* a killed process beyond the number of CPUs cannot be detected */ note("process %zu is killed", pi); kill(p.pid, SIGKILL); int s; waitpid(p.pid, &s, 0); close(p.fd); if (ext || minimal) dead[p.pid] = p.pub; else dead[p.pid]; ps.erase(ps.begin() + pi); ps.push_back(mk()); st["kills"]++; killed = true; }
    else { Cmd c = cmd(FIN); c.b = p.mpi; note("process %zu finalizes", pi); if (!run(p, c)) return; if (rep.rc < 0) V("T03/finalize", "finalize gives %d", rep.rc); p.init = p.mpi = p.inmpi = false; p.names.clear(); p.open.clear(); p.pub.clear(); st["finalizes"]++; }
}
static void opCollect() {
    vector<P*> w; for (auto &p : ps) if (p.init) w.push_back(&p); if (w.size() < 1 || killed) return; /* the barriers of a killed process: S02 */
    for (auto p : w) if (p->inmpi) { Cmd c = cmd(MPIOUT); if (!run(*p, c)) return; p->inmpi = false; }
    string name = chance(&r, 1, 3) ? "Global" : NM[rnd(&r, 5)]; vector<int> idx;
    for (auto p : w) { int i = -1; for (size_t k = 0; k < p->names.size(); k++) if (p->names[k] == name) i = k; if (i < 0) { if (p->names.size() >= MAXR - 1) return; Cmd c = cmd(REG); snprintf(c.name, sizeof c.name, "%s", name.c_str()); if (!run(*p, c)) return; i = p->names.size(); p->names.push_back(name); p->open.push_back(false); pubReg(*p, name); } idx.push_back(i); }
    if (ext || minimal) { for (auto p : w) if (ext && !p->pub.count(name)) return; if (minimal && live() + (int)w.size() > cap) return; } else if ((int)w.size() > ncpu) return;
    note("collect of %s", name.c_str()); for (size_t k = 0; k < w.size(); k++) { adv(*w[k]); Cmd c = cmd(COLLECT, idx[k]); send_(*w[k], c); }
    vector<Pub> v; vector<dlb_node_metrics_t> ms; vector<int> rcs; for (size_t k = 0; k < w.size(); k++) { if (!recv_(*w[k])) return; Pub x; x.mpi = rep.v[idx[k]].mpi; x.useful = rep.v[idx[k]].useful; v.push_back(x); ms.push_back(rep.m); rcs.push_back(rep.rc);
        std::map<string, Pub> old = w[k]->pub; publish(*w[k]); /* waiting in the barrier is a blocking collective call, but the last one to arrive does not wait */
        for (size_t i = 0; i < w[k]->names.size(); i++) if (ext && w[k]->open[i]) { auto it = w[k]->pub.find(w[k]->names[i]); if (it == w[k]->pub.end()) continue; Pub &o = old[w[k]->names[i]]; if (!it->second.mpi && !it->second.useful && (o.mpi || o.useful)) it->second.sure = false; }
        auto it = w[k]->pub.find(name); if (it != w[k]->pub.end()) { it->second.mpi = x.mpi; it->second.useful = x.useful; it->second.sure = true; } }
    int n = 0; for (auto &x : v) n += x.mpi > 0 || x.useful > 0;
    for (size_t k = 0; k < w.size(); k++) { st["collects"]++; st["evaluations"]++; int want = n ? 0 : DLB_ERR_NOENT; if (rcs[k] != want && !(n == 0 && rcs[k] == 0)) { V("T03/collect-rc", "collect gives %d, expected %d", rcs[k], want); continue; } if (n) checkMetrics(ms[k], name, v, "collected metrics"); }
    char b[80]; snprintf(b, sizeof b, "collect/%s/%zu/%d", ext ? "ext" : minimal ? "node" : "none", w.size(), n); sigs.insert(b);
}
static void history(int ops, const char *key) {
    hist.clear(); dead.clear(); killed = false; lost = false; ncpu = chance(&r, 1, 4) ? 1 + rnd(&r, 2) : 3 + rnd(&r, 14); int mode = rnd(&r, 4); ext = mode < 2; minimal = mode == 2; int mult = chance(&r, 1, 3) ? 1 + rnd(&r, 3) : 1;
    wargs = string("--quiet=yes --talp --barrier --shm-key=") + key + (ext ? " --talp-external-profiler" : "") + (minimal ? " --talp-summary=node" : " --talp-summary=none") + (mult > 1 ? " --shm-size-multiplier=" + std::to_string(mult) : "");
    cfg = wargs + " cpus=" + std::to_string(ncpu); cap = ncpu * mult * (ext ? 100 : 1); string aargs = string("--quiet=yes --shm-key=") + key;
    int W = std::min(ncpu, 1 + (int)rnd(&r, 5)), A = 1 + rnd(&r, 2);
    mu_testing_set_sys(ncpu, ncpu, 1); ps.clear(); for (int i = 0; i < W + A; i++) { P q = mk(); ps.push_back(q); }
    /* workers are replaced at the end of the list when killed: roles are not tied to positions */
    std::set<pid_t> adm; for (int i = 0; i < A; i++) adm.insert(ps[i].pid);
    for (int o = 0; o < ops && !lost && nviol < 8; o++) {
        st["ops"]++; size_t i = rnd(&r, ps.size()); P &p = ps[i];
        if (adm.count(p.pid)) { if (!p.attached) { if (chance(&r, 1, 3)) { Cmd c = cmd(ATTACH); snprintf(c.args, sizeof c.args, "%s", (aargs + (chance(&r, 1, 3) ? " --shm-size-multiplier=" + std::to_string(1 + rnd(&r, 3)) : "")).c_str()); note("administrator attaches"); if (!run(p, c)) break; if (rep.rc) V("T03/attach", "attach gives %d", rep.rc); p.attached = true; st["attaches"]++; dead.clear(); } }
            else if (chance(&r, 1, 12)) { note("administrator detaches"); if (!run(p, cmd(DETACH))) break; if (rep.rc) V("T03/detach", "detach gives %d", rep.rc); p.attached = false; }
            else opRead(p);
        } else if (chance(&r, 1, 8)) opRead(p); else if (chance(&r, 1, 25)) opCollect(); else opWorker(i);
    }
    char b[80]; snprintf(b, sizeof b, "hist/%d/w%d/cpus%d/mult%d", mode, W, ncpu, mult); sigs.insert(b);
    for (auto &p : ps) { if (!lost && p.init) { Cmd c = cmd(FIN); c.b = p.mpi; p.clock++; if (p.inmpi) run(p, cmd(MPIOUT)); if (!lost) run(p, c); } if (!lost && p.attached) run(p, cmd(DETACH)); if (lost) kill(p.pid, SIGKILL); close(p.fd); int s; waitpid(p.pid, &s, 0); if (!lost && s) V("T03/exit", "a process ended with status %x", s); }
    st["histories"]++;
    if (lost || killed) { string cm = string("rm -f /dev/shm/DLB_*_") + key; int z = system(cm.c_str()); (void)z; }
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    if (!getenv("VERBOSE")) stderr = fopen("/dev/null", "w");
    signal(SIGPIPE, SIG_IGN); r.s = strtoull(argv[1], 0, 10) * 104729 + 7; int n = atoi(argv[2]);
    for (int i = 0; i < n && nviol < 8; i++) history(atoi(argv[3]), argv[4]);
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("DONE"); return 0;
}
