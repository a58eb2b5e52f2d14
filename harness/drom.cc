/* D01-D03: DROM, turn-based histories of several processes against a model of every process' masks.
 * usage: drom seq SEED HISTORIES OPS KEY
 *        drom gone SEED ROUNDS 0 KEY      the target of a synchronous call leaves meanwhile
 *        drom conc SEED PHASES KEY        concurrent changes, the sum of the masks checked at quiescence */
#include "vh.h"
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_errors.h"
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void mu_init(void);
}
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <pthread.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
using std::string; using std::vector; using std::map;
typedef unsigned u32;

struct Shared { std::atomic<long> viol, sets, set_ok, polls, updates; pthread_barrier_t bar; std::atomic<int> stop; std::atomic<u32> cur[16]; std::atomic<int> idle; };
static Shared *sh; static rng_t R; static string seedstr, cfgs; static int N;   /* CPUs */
#define V(key, ...) do { if (sh->viol++ < 10) { char _m[1600]; snprintf(_m, sizeof _m, __VA_ARGS__); VIOL(key, "%s [%s]", _m, cfgs.c_str()); } } while (0)
static std::set<string> sigs; static map<string, long> st;

static void tocs(u32 m, cpu_set_t *s) { CPU_ZERO(s); for (int c = 0; c < 32; c++) if (m >> c & 1) CPU_SET(c, s); }
static u32 frcs(const cpu_set_t *s) { u32 m = 0; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, s)) m |= 1u << (c < 31 ? c : 31); return m; }
static string ms(u32 m) { string s; for (int c = 0; c < 32; c++) if (m >> c & 1) s += (s.empty() ? "" : ",") + std::to_string(c); return "{" + s + "}"; }

struct Cmd { char op; int pid, flags; u32 mask; int delay; char s[200]; };
struct Rep { int rc, n, cb, pids[20]; u32 mask, cbmask, en, dis; };
static int cbs; static u32 cbm, en_, dis_;
static void cb_mask(const cpu_set_t *m, void *) { cbs++; cbm = frcs(m); }
static void cb_en(int c, void *) { en_ |= 1u << c; dis_ &= ~(1u << c); }
static void cb_dis(int c, void *) { dis_ |= 1u << c; en_ &= ~(1u << c); }
static void cb_num(int, void *) {}
static void exec1(const Cmd &c, Rep &r) {
    memset(&r, 0, sizeof r); cbs = 0; cbm = 0; en_ = dis_ = 0; cpu_set_t m; tocs(c.mask, &m); if (c.delay) usleep(c.delay);
    switch (c.op) {
    case 'I': r.rc = DLB_Init(0, &m, c.s);
        DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, NULL); DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, NULL);
        DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, NULL); DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_num, NULL); break;
    case 'F': r.rc = DLB_Finalize(); break;
    case 'A': r.rc = DLB_DROM_Attach(); break;
    case 'T': r.rc = DLB_DROM_Detach(); break;
    case 'L': r.rc = DLB_DROM_GetPidList(r.pids, &r.n, 20); break;
    case 'l': r.rc = DLB_DROM_GetPidList(r.pids, &r.n, c.flags); break;
    case 'G': CPU_ZERO(&m); r.rc = DLB_DROM_GetProcessMask(c.pid, &m, (dlb_drom_flags_t)c.flags); r.mask = frcs(&m); break;
    case 'S': r.rc = DLB_DROM_SetProcessMask(c.pid, &m, (dlb_drom_flags_t)c.flags); break;
    case 'P': { int n = -1; CPU_ZERO(&m); r.rc = DLB_PollDROM(c.flags & 1 ? &n : NULL, c.flags & 2 ? &m : NULL); r.n = n; r.mask = frcs(&m); break; }
    case 'U': r.rc = DLB_PollDROM_Update(); break;
    case 'E': { char **env = (char**)calloc(1, sizeof(char*)); r.rc = DLB_PreInit(&m, &env); r.n = env[0] && strstr(env[0], "--preinit-pid="); for (int i = 0; env[i]; i++) free(env[i]); free(env); break; }
    case 'p': { char **env = (char**)calloc(1, sizeof(char*)); r.rc = DLB_DROM_PreInit(c.pid, &m, (dlb_drom_flags_t)c.flags, &env); char w[64]; snprintf(w, sizeof w, "--preinit-pid=%d", c.pid);
        r.n = env[0] && !strncmp(env[0], "DLB_ARGS=", 9) && strstr(env[0], w) && !!strstr(env[0], "return-stolen") == !!(c.flags & DLB_RETURN_STOLEN); for (int i = 0; env[i]; i++) free(env[i]); free(env); break; }
    case 'q': r.rc = DLB_DROM_PostFinalize(c.pid, (dlb_drom_flags_t)c.flags); break;
    case 'R': r.rc = DLB_DROM_RecoverStolenCpus(c.pid); break;
    case 'w': r.rc = DLB_Lend(); break;
    case 'W': r.rc = DLB_Reclaim(); break;
    case 'B': r.rc = DLB_Borrow(); break;
    case 'b': r.rc = DLB_LendCpu(c.flags); break;
    case 'r': r.rc = DLB_Return(); break;
    case 'n': r.rc = 0; break;
    case 'x': DLB_PrintShmem(1, DLB_COLOR_AUTO); break;
    case 'Q': _exit(0);
    }
    r.cb = cbs; r.cbmask = cbm; r.en = en_; r.dis = dis_;
}
static void child_loop(int in, int out) { Cmd c; Rep r; while (read(in, &c, sizeof c) == (ssize_t)sizeof c) { exec1(c, r); if (write(out, &r, sizeof r) != (ssize_t)sizeof r) _exit(1); } _exit(0); }

struct Proc { int to, from; pid_t pid; bool on = false, att = false, drom = true, lewi = false, retst = false; int preinit = 0; };
struct Ent { u32 cur = 0, fut = 0, stolen = 0; bool dirty = false, prereg = false; u32 now() const { return dirty ? fut : cur; } };
static vector<Proc> pr; static map<int, Ent> M; static vector<string> hist; static u32 fr, all; static int co[32];
static string nm(int pid) { for (size_t p = 0; p < pr.size(); p++) if (pr[p].pid == pid) return "p" + std::to_string(p); return pid >= 5000000 ? "k" + std::to_string(pid - 5000000) : std::to_string(pid); }
static string tailhist(int n = 16) { string s; for (size_t i = hist.size() > (size_t)n ? hist.size() - n : 0; i < hist.size(); i++) s += hist[i] + "; ";
    s += " model:"; for (auto &e : M) s += " " + nm(e.first) + ms(e.second.cur) + (e.second.dirty ? "->" + ms(e.second.fut) : "") + (e.second.stolen ? " stolen" + ms(e.second.stolen) : "") + (e.second.prereg ? " reserved" : ""); return s + " free" + ms(fr); }
static void H(const char *f, ...) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); hist.push_back(b); }
static void killall() { for (auto &q : pr) if (q.pid > 0) kill(q.pid, SIGKILL); }
static void send(int p, char op, int pid = 0, u32 mask = 0, int flags = 0, const string &s = "", int delay = 0) { Cmd c; memset(&c, 0, sizeof c); c.op = op; c.pid = pid; c.mask = mask; c.flags = flags; c.delay = delay; snprintf(c.s, sizeof c.s, "%s", s.c_str());
    if (write(pr[p].to, &c, sizeof c) != (ssize_t)sizeof c) { V("D01/died", "process %d died; %s", p, tailhist().c_str()); emit("DONE"); killall(); exit(99); } }
static bool recv_(int p, Rep &r, int wait) { struct pollfd f = {pr[p].from, POLLIN, 0}; int n; do n = poll(&f, 1, wait); while (n < 0 && errno == EINTR); if (n <= 0) return false;
    ssize_t k = read(pr[p].from, &r, sizeof r); if (k != (ssize_t)sizeof r) { V("D01/died", "process %d died; %s", p, tailhist().c_str()); usleep(300000); killall(); exit(99); } return true; }
static Rep get(int p) { Rep r; if (!recv_(p, r, 60000)) { V("D01/stuck", "a call of process %d did not return; %s", p, tailhist().c_str()); killall(); exit(99); } return r; }
static Rep call(int p, char op, int pid = 0, u32 mask = 0, int flags = 0, const string &s = "") { send(p, op, pid, mask, flags, s); Rep r = get(p); if (!hist.empty() && hist.back().find('=') == string::npos && !strchr("Ln", op)) hist.back() += "=" + std::to_string(r.rc); return r; }
static bool in(int rc, std::initializer_list<int> l) { for (int x : l) if (x == rc) return true; return false; }
static bool shm_open_in(int p) { return pr[p].on || pr[p].att; }

/* what the steal of `want` by `me` may do: 0 must be refused, 1 must succeed, 2 either */
static int steal_verdict(int me, u32 want) {
    if (!want) return 1; bool dirty_now = false, dirty_old = false; u32 left = want;
    for (auto &e : M) if (e.first != me) {
        u32 t = e.second.now() & want; if (t) { if (e.second.dirty) dirty_now = true; left &= ~t; }
        if (e.second.dirty && (e.second.cur & want & ~e.second.fut)) dirty_old = true;
    }
    if (left) return 0; if (dirty_now) return 0; return dirty_old ? 2 : 1;
}
static void do_steal(int me, u32 want) { for (auto &e : M) if (e.first != me) { u32 t = e.second.now() & want; if (t) { Ent &v = e.second; if (!v.dirty) v.fut = v.cur; v.fut &= ~t; v.dirty = true; v.stolen |= t; } } }
/* gives back or frees `m`; when several processes were robbed of the same CPU any of them may get it: returns the choice to be resolved */
static vector<std::pair<int, vector<int>>> amb;
static void release(u32 m, bool ret, int me) {
    for (int c = 0; c < N; c++) if (m >> c & 1) { vector<int> cand; if (ret) for (auto &e : M) if (e.first != me && e.second.stolen >> c & 1) cand.push_back(e.first);
        if (cand.empty()) { fr |= 1u << c; continue; }
        if (cand.size() == 1) { Ent &e = M[cand[0]]; if (!e.dirty) e.fut = e.cur; e.fut |= 1u << c; e.dirty = true; e.stolen &= ~(1u << c); sigs.insert("returned"); st["returned"]++; }
        else amb.push_back({c, cand}); }
}
static int observer() { return (int)pr.size() - 1; }
/* reads everybody's mask and compares with the model */
static void compare(const char *what) {
    int o = observer(); Rep l = call(o, 'L'); std::set<int> have(l.pids, l.pids + (l.rc == DLB_SUCCESS ? l.n : 0));
    if (pr[o].att) { if (l.rc) V("D01/pidlist", "GetPidList returned %d after %s; %s", l.rc, what, tailhist().c_str());
        if ((int)have.size() != l.n) V("D01/pid-twice", "a process appears twice in the list after %s; %s", what, tailhist().c_str());
        for (auto &e : M) if (!have.count(e.first)) V("D01/pid-missing", "%s is not in the list of processes after %s; %s", nm(e.first).c_str(), what, tailhist().c_str());
        for (int h : have) if (!M.count(h)) V("D01/pid-extra", "%s is in the list of processes after %s; %s", nm(h).c_str(), what, tailhist().c_str()); }
    u32 sum = 0;
    map<int, u32> obs;
    for (auto &e : M) { Rep g = call(o, 'G', e.first); st["masks_compared"]++;
        if (g.rc != DLB_SUCCESS) { V("D01/get-rc", "GetProcessMask(%s) returned %d after %s; %s", nm(e.first).c_str(), g.rc, what, tailhist().c_str()); return; } obs[e.first] = g.mask; }
    for (auto &a : amb) { int took = 0; for (int k : a.second) if (M.count(k) && obs[k] >> a.first & 1) { Ent &e = M[k]; if (!e.dirty) e.fut = e.cur; e.fut |= 1u << a.first; e.dirty = true; e.stolen &= ~(1u << a.first); took++; }
        if (took != 1) V("D03/not-returned", "CPU %d, taken from several processes, was given back to %d of them; %s", a.first, took, tailhist().c_str()); }
    amb.clear();
    for (auto &e : M) { u32 m = obs[e.first];
        if (m != e.second.now()) V(!strncmp(what, "ret", 3) ? "D03/mask" : "D01/mask", "%s has %s instead of %s after %s; %s", nm(e.first).c_str(), ms(m).c_str(), ms(e.second.now()).c_str(), what, tailhist().c_str());
        if (m & sum) V("D01/overlap", "CPUs %s belong to two processes after %s; %s", ms(m & sum).c_str(), what, tailhist().c_str());
        sum |= m; }
    if ((sum | fr) != all || (sum & fr)) HARNESS_ERROR("the model does not add up");
}
/* every CPU the model has as free, and none other, can be reserved */
static void probe_free() {
    int o = observer(); if (!pr[o].att || (int)M.size() >= N) return;
    for (int c = 0; c < N; c++) { Rep r = call(o, 'p', 5000900, 1u << c, 0); st["probes"]++;
        bool f = fr >> c & 1, cook = co[c] == 0;
        if (r.rc == DLB_SUCCESS) { if (!f) V("D01/free-and-owned", "CPU %d could be reserved although it belongs to a process; %s", c, tailhist().c_str()); call(o, 'q', 5000900, 0, 0); co[c] = 0; }
        else if (f && cook) V("D01/lost", "CPU %d belongs to nobody and cannot be reserved (error %d); %s", c, r.rc, tailhist().c_str()); }
}
static void poll_model(int pid) { Ent &e = M[pid]; if (!e.dirty) return; e.cur = e.fut; e.dirty = false; for (int c = 0; c < N; c++) { if (e.cur >> c & 1) co[c] = pid; else if (co[c] == pid) co[c] = 0; } }

static void settle() {
    for (size_t p = 0; p + 1 < pr.size(); p++) if (pr[p].on && pr[p].drom && M.count(pr[p].pid)) { Rep r = call(p, 'U'); Ent &e = M[pr[p].pid];
        if (r.rc != (e.dirty ? DLB_SUCCESS : DLB_NOUPDT)) V("D02/poll-rc", "polling returned %d, %s; %s", r.rc, e.dirty ? "an update was pending" : "nothing was pending", tailhist().c_str());
        poll_model(pr[p].pid); }
    for (int k = 0; k < 2; k++) for (size_t p = 0; p + 1 < pr.size(); p++) if (pr[p].on && pr[p].lewi) call(p, 'w');
    for (size_t p = 0; p + 1 < pr.size(); p++) if (pr[p].on && pr[p].lewi && pr[p].drom && M.count(pr[p].pid)) { Ent &e = M[pr[p].pid]; u32 mine = 0; for (int c = 0; c < N; c++) if (co[c] == pr[p].pid) mine |= 1u << c;
        Rep r = call(p, 'W'); st["lewi_checks"]++;
        if ((r.en & ~r.dis) != e.cur && mine == e.cur) { if (getenv("VERBOSE")) call(p, 'x'); V("D02/lewi-ownership", "process %zu owns %s and reclaims %s; %s", p, ms(e.cur).c_str(), ms(r.en).c_str(), tailhist().c_str()); } }
}

static void seq(int ops, const char *key) {
    int P = rrange(&R, 1, 4); N = rrange(&R, P + 2, 9); all = (1u << N) - 1; mu_init(); mu_testing_set_sys(N, N, 1);
    { char b[100]; snprintf(b, sizeof b, "seq seed=%s procs=%d cpus=%d", seedstr.c_str(), P, N); cfgs = b; }
    pr.assign(P + 1, Proc()); M.clear(); hist.clear(); fr = all; memset(co, 0, sizeof co); amb.clear();
    for (int p = 0; p <= P; p++) { int a[2], b[2]; if (pipe(a) || pipe(b)) HARNESS_ERROR("pipe"); pid_t pid = fork();
        if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (int q = 0; q < p; q++) { close(pr[q].to); close(pr[q].from); } close(a[1]); close(b[0]); child_loop(a[0], b[1]); }
        close(a[0]); close(b[1]); pr[p].to = a[1]; pr[p].from = b[0]; pr[p].pid = pid; }
    int o = P; call(o, 'A'); pr[o].att = true;
    auto rmask = [&]() -> u32 { u32 m = 0; switch (rnd(&R, 6)) { case 0: m = 1u << rnd(&R, N); break; case 1: m = fr & rng_next(&R); break; case 2: m = fr; break; case 3: m = all; break; case 4: { int a = rnd(&R, N), b = rrange(&R, a, N - 1); for (int c = a; c <= b; c++) m |= 1u << c; break; } default: m = rng_next(&R) & all; } if (chance(&R, 1, 40)) m = 0; return m; };
    auto rpid = [&]() -> int { if (M.empty() || chance(&R, 1, 15)) return chance(&R, 1, 2) ? 5000000 + (int)rnd(&R, 6) : (int)pr[rnd(&R, P)].pid; auto it = M.begin(); std::advance(it, rnd(&R, M.size())); return it->first; };
    for (int i = 0; i < ops && sh->viol < 4; i++) {
        int p = rnd(&R, P); Proc &q = pr[p]; st["evaluations"]++; int op = rnd(&R, 100); char what[80] = "";
        if (!q.on && op < 45) { /* start */
            u32 m = rmask(); if (!m && chance(&R, 3, 4)) m = 1u << rnd(&R, N); q.drom = !chance(&R, 1, 12); q.lewi = !q.drom || chance(&R, 1, 2); q.retst = chance(&R, 1, 3); int K = 0;
            vector<int> pre; for (auto &e : M) if (e.second.prereg) pre.push_back(e.first);
            bool own_res = M.count(q.pid); /* reserved under its own pid */
            if (own_res) K = q.pid; else if (!pre.empty() && chance(&R, 2, 3)) K = pre[rnd(&R, pre.size())]; else if (chance(&R, 1, 15)) K = rpid();
            if (K && M.count(K)) { if (chance(&R, 1, 2)) m = M[K].now(); else if (chance(&R, 1, 2)) m = M[K].now() & rng_next(&R); else if (chance(&R, 1, 2)) m = M[K].now() | (fr & rng_next(&R)); }
            if (own_res && m != M[K].now() && (m & M[K].now()) != M[K].now()) m = M[K].now();
            for (auto &z : pr) if (z.pid == K && &z != &q && z.on) {}
            string o1 = string("--shm-key=") + key + (getenv("VERBOSE") ? "" : " --quiet=yes") + (q.drom ? " --drom" : "") + (q.lewi ? " --lewi --lewi-affinity=mask" : "") + (q.retst ? " --debug-opts=return-stolen" : "") + (K ? " --preinit-pid=" + std::to_string(K) : "");
            H("p%d Init(%s%s%s%s)", p, ms(m).c_str(), K ? (" from " + nm(K)).c_str() : "", q.lewi ? " lewi" : "", q.retst ? " return" : "");
            /* expected */
            std::vector<int> ok; int full = (int)M.size() >= N; bool inh = K && M.count(K) && M[K].prereg; u32 have = inh ? M[K].now() : 0, newmask = m; bool simple = false; bool wasK = K && M.count(K);
            if (wasK && !inh) ok = {DLB_ERR_INIT};
            else if (inh) {
                bool d = M[K].dirty; simple = m == 0 || m == have;
                if (simple) { ok = {0}; newmask = have; }
                else if (d) ok = {DLB_ERR_PDIRTY};
                else if ((m & have) == have) { if (m & ~have & ~fr) ok = {DLB_ERR_PERM}; else ok = {0}; }
                else if ((m & ~have) == 0) { if (full) ok = {DLB_ERR_NOMEM}; else ok = {0}; }
                else { if (full) ok = {DLB_ERR_NOMEM}; else if (m & ~have & ~fr) ok = {DLB_ERR_PERM}; else ok = {0}; }
            } else { if (full) ok = {DLB_ERR_NOMEM}; else if (m & ~fr) ok = {DLB_ERR_PERM}; else ok = {0}; }
            bool conf = false; if (ok[0] == 0) for (int c = 0; c < N; c++) if (newmask >> c & 1 && co[c] != 0 && co[c] != q.pid && co[c] != K) conf = true;
            if (conf) ok = {DLB_ERR_PERM};
            Rep r = call(p, 'I', 0, m, 0, o1); char b[60]; snprintf(b, sizeof b, "init/%d/%s", r.rc, inh ? (simple ? "same" : (m & have) == have ? "more" : (m & ~have) ? "other" : "less") : wasK ? "bad" : "new"); sigs.insert(b);
            if (std::find(ok.begin(), ok.end(), r.rc) == ok.end()) V(inh ? "D03/init-rc" : "D01/init-rc", "DLB_Init of process %d returned %d instead of %d; %s", p, r.rc, ok[0], tailhist().c_str());
            if (r.rc == 0) { q.on = true; q.preinit = K; st["inits"]++; if (inh) st["inherited"]++;
                if (inh && (simple || (m & have) == have)) { Ent e = M[K]; M.erase(K); e.prereg = false; if (!simple) { fr &= ~(m & ~have); e.cur = e.fut = m; } M[q.pid] = e; }
                else if (inh) { Ent &k = M[K]; k.cur &= ~m; k.fut &= ~m; fr &= ~(m & ~have); Ent e; e.cur = e.fut = m; M[q.pid] = e; }
                else { Ent e; e.cur = e.fut = m; fr &= ~m; M[q.pid] = e; }
                for (int c = 0; c < N; c++) if (newmask >> c & 1) co[c] = q.pid; else if (K && !M.count(K) && co[c] == K) co[c] = 0; else if (K == q.pid && co[c] == K) co[c] = 0;
                snprintf(what, sizeof what, "starting process %d", p);
                Rep g = call(observer(), 'G', q.pid); if (inh && g.mask != newmask) V("D03/inherited", "process %d started with %s instead of the reserved %s; %s", p, ms(g.mask).c_str(), ms(newmask).c_str(), tailhist().c_str());
            } else { st["init_fail"]++; if (conf && inh) { /* the reservation may be gone */ Rep l = call(observer(), 'L'); bool there = false; for (int k = 0; k < l.n; k++) if (l.pids[k] == K) there = true;
                    if (simple || (m & have) == have) { if (!there) { fr |= M[K].now(); for (int c = 0; c < N; c++) if (co[c] == K) co[c] = 0; M.erase(K); } } else { Rep g = call(observer(), 'G', K); if (g.rc == 0 && g.mask == (have & ~m)) { fr |= have & m; M[K].cur &= ~m; M[K].fut &= ~m; for (int c = 0; c < N; c++) if (m >> c & 1 && co[c] == K) co[c] = 0; } } }
                snprintf(what, sizeof what, "the failed start of process %d", p); }
        } else if (q.on && op < 10) { /* end */
            H("p%d Finalize%s", p, q.retst ? " returning" : ""); Rep r = call(p, 'F'); if (r.rc) V("D01/finalize", "DLB_Finalize returned %d; %s", r.rc, tailhist().c_str());
            Ent e = M[q.pid]; M.erase(q.pid); release(e.now(), q.retst, q.pid); for (int c = 0; c < N; c++) if (co[c] == q.pid) co[c] = 0; q.on = false; st["ends"]++;
            snprintf(what, sizeof what, "%sprocess %d ended", q.retst ? "returning: " : "", p);
        } else if (op < 13) { /* administrator attaches, detaches */
            Rep r = call(p, q.att ? 'T' : 'A'); H("p%d %s", p, q.att ? "Detach" : "Attach"); if (r.rc) V("D01/attach", "attach/detach returned %d", r.rc); q.att = !q.att; snprintf(what, sizeof what, "attach/detach");
        } else if (op < 30) { /* poll */
            if (!q.on) continue; bool upd = chance(&R, 1, 2); int fl = rnd(&R, 4); H("p%d Poll%s", p, upd ? "_Update" : ""); Rep r = call(p, upd ? 'U' : 'P', 0, 0, fl); st["polls"]++;
            if (!q.drom) { if (r.rc != DLB_ERR_NOCOMP) V("D02/poll-nodrom", "polling without --drom returned %d", r.rc); continue; }
            Ent &e = M[q.pid]; int want = e.dirty ? DLB_SUCCESS : DLB_NOUPDT; sigs.insert(string("poll/") + (upd ? "u" : "p") + std::to_string(want));
            if (r.rc != want) V("D02/poll-rc", "polling returned %d instead of %d; %s", r.rc, want, tailhist().c_str());
            else if (want == DLB_SUCCESS) { st["updates"]++;
                if (upd) { if (r.cb != 1 || r.cbmask != e.fut) V("D02/callback", "the mask callback was called %d times, with %s instead of %s; %s", r.cb, ms(r.cbmask).c_str(), ms(e.fut).c_str(), tailhist().c_str()); }
                else { if (fl & 2 && r.mask != e.fut) V("D02/poll-mask", "polling gave %s instead of %s; %s", ms(r.mask).c_str(), ms(e.fut).c_str(), tailhist().c_str()); if (fl & 1 && r.n != __builtin_popcount(e.fut)) V("D02/poll-ncpus", "polling gave %d CPUs instead of %s; %s", r.n, ms(e.fut).c_str(), tailhist().c_str()); } }
            else if (r.cb) V("D02/callback-spurious", "the mask callback was called without an update; %s", tailhist().c_str());
            poll_model(q.pid); snprintf(what, sizeof what, "process %d polled", p);
        } else if (op < 36) { /* query */
            bool self = chance(&R, 1, 2); int t = self ? (chance(&R, 1, 2) ? 0 : q.pid) : rpid(); bool mine = q.on && (t == 0 || t == q.pid); H("p%d Get(%s)", p, t ? nm(t).c_str() : "self"); bool timeout_ok = !mine && M.count(t) && M[t].dirty;
            int fl = !timeout_ok && chance(&R, 1, 2) ? DLB_SYNC_QUERY : 0; Rep r = call(p, 'G', t, 0, fl);
            if (mine) { Ent &e = M[q.pid]; int want = e.dirty ? DLB_NOTED : DLB_SUCCESS; if (r.rc != want || r.mask != e.now()) V("D02/get-self", "querying the own mask returned %d with %s instead of %d with %s; %s", r.rc, ms(r.mask).c_str(), want, ms(e.now()).c_str(), tailhist().c_str()); poll_model(q.pid); sigs.insert("get/self/" + std::to_string(want)); }
            else { int want = M.count(t) ? DLB_SUCCESS : DLB_ERR_NOPROC; if (r.rc != want || (want == DLB_SUCCESS && r.mask != M[t].now())) V("D01/get", "GetProcessMask(%s) returned %d with %s; %s", nm(t).c_str(), r.rc, ms(r.mask).c_str(), tailhist().c_str()); sigs.insert("get/" + std::to_string(want)); }
            snprintf(what, sizeof what, "a query");
        } else if (op < 62) { /* set */
            int t = rpid(); if (chance(&R, 1, 3) && q.on) t = chance(&R, 1, 2) ? 0 : q.pid; bool self = q.on && (t == 0 || t == q.pid); int T = t == 0 ? q.pid : t; if (t == 0 && !q.on) T = -1; u32 m = rmask(); int fl = 0; bool ret = chance(&R, 1, 2); if (ret) fl |= DLB_RETURN_STOLEN; if (chance(&R, 1, 4)) fl |= DLB_STEAL_CPUS;
            bool nosync = self && chance(&R, 1, 3); if (nosync) fl |= DLB_NO_SYNC;
            if (T > 0 && M.count(T) && M[T].dirty && chance(&R, 1, 3)) m = M[T].fut; if (T > 0 && M.count(T) && chance(&R, 1, 8)) m = M[T].now();
            bool sync = !self && chance(&R, 1, 10); if (sync) fl |= DLB_SYNC_QUERY;
            H("p%d Set(%s %s%s%s%s)", p, t ? nm(t).c_str() : "self", ms(m).c_str(), ret ? " return" : "", nosync ? " nosync" : "", sync ? " sync" : ""); sh->sets++;
            int verdict = 1; u32 base = 0, acq = 0, steal = 0, rel = 0; int want = 0; bool noop = false;
            if (T <= 0 || !M.count(T)) { want = DLB_ERR_NOPROC; verdict = 0; }
            else { Ent &e = M[T]; if (e.dirty && !(self && m == e.fut)) { want = DLB_ERR_PDIRTY; verdict = 0; }
                else { base = e.now(); acq = m & fr; steal = m & ~fr & ~base; rel = base & ~m; noop = m == base; verdict = steal_verdict(T, steal); if (!verdict) want = DLB_ERR_PERM; } }
            vector<int> victims; if (verdict) for (auto &e : M) if (e.first != T && e.second.now() & steal) victims.push_back(e.first);
            if (sync) { /* the victims and then the target poll, or somebody does not */
                auto runner = [&](int pid) { for (int z = 0; z < P; z++) if (pr[z].pid == pid && pr[z].on && pr[z].drom && z != p) return z; return -1; };
                bool can = verdict == 1; for (int v : victims) if (runner(v) < 0) can = false; bool tcan = runner(T) >= 0; bool dov = !can ? false : !chance(&R, 1, 4), dot = tcan && !chance(&R, 1, 4);
                if (verdict == 2) { hist.pop_back(); continue; }
                if (verdict == 1 && (victims.empty() || can) ) { } else if (verdict == 1) dov = false;
                send(p, 'S', t, m, fl); 
                if (verdict == 1) { usleep(30000);
                    if (!victims.empty() && dov) { do_steal(T, steal); for (int v : victims) { int z = runner(v); Rep x = call(z, chance(&R, 1, 2) ? 'U' : 'P'); if (x.rc != DLB_SUCCESS) V("D02/sync-victim", "process %d, whose CPUs are being taken, polled and got %d; %s", z, x.rc, tailhist().c_str()); poll_model(v); usleep(rnd(&R, 3) * 6000); } }
                    if (!victims.empty() && !dov) { Rep r = get(p); st["timeouts"]++; sigs.insert("set/sync/timeout-victim"); if (r.rc != DLB_ERR_TIMEOUT) V("D02/sync-rc", "nobody polled and the synchronous change returned %d; %s", r.rc, tailhist().c_str()); compare("a timeout while stealing"); continue; }
                    Ent &e = M[T]; if (victims.empty()) {} fr &= ~acq; if (!noop) { e.fut = m; e.stolen &= ~(m & ~base); e.dirty = true; } release(rel, ret, T);
                    if (noop) { Rep r = get(p); if (r.rc) V("D02/sync-rc", "a synchronous change to the same mask returned %d", r.rc); }
                    else if (dot) { usleep(60000 + (victims.empty() ? 0 : 40000)); int z = runner(T); Rep x = call(z, 'U'); if (x.rc != DLB_SUCCESS || x.cbmask != m) { /* the administrator may not have finished the change yet */ usleep(500000); x = call(z, 'U'); if (x.rc != DLB_SUCCESS || x.cbmask != m) V("D02/sync-target", "the target of a synchronous change polled and got %d with %s instead of %s; %s", x.rc, ms(x.cbmask).c_str(), ms(m).c_str(), tailhist().c_str()); } poll_model(T);
                        Rep r = get(p); sigs.insert("set/sync/ok"); st["sync_ok"]++; if (r.rc != DLB_SUCCESS) V("D02/sync-rc", "everybody polled and the synchronous change returned %d; %s", r.rc, tailhist().c_str()); }
                    else { Rep r = get(p); st["timeouts"]++; sigs.insert("set/sync/timeout-target"); if (r.rc != DLB_ERR_TIMEOUT) V("D02/sync-rc", "the target did not poll and the synchronous change returned %d; %s", r.rc, tailhist().c_str()); }
                } else { Rep r = get(p); if (r.rc != want) V("D01/set-rc", "SetProcessMask returned %d instead of %d; %s", r.rc, want, tailhist().c_str()); sigs.insert("set/sync/" + std::to_string(want)); }
                compare(ret ? "return: a synchronous change" : "a synchronous change"); continue;
            }
            Rep r = call(p, 'S', t, m, fl);
            if (verdict == 0 ? r.rc != want : verdict == 1 ? r.rc != DLB_SUCCESS : !in(r.rc, {DLB_SUCCESS, DLB_ERR_PERM})) V("D01/set-rc", "SetProcessMask returned %d instead of %d; %s", r.rc, want, tailhist().c_str());
            { char b[80]; snprintf(b, sizeof b, "set/%d/%s%s%s%s%s", r.rc, self ? "s" : "o", acq ? "a" : "", steal ? "x" : "", rel ? "r" : "", ret ? "R" : ""); sigs.insert(b); }
            if (r.rc == DLB_SUCCESS && T > 0 && M.count(T)) { sh->set_ok++; Ent &e = M[T]; do_steal(T, steal); fr &= ~acq; if (!noop) { if (!e.dirty) e.fut = e.cur; e.fut = m; e.dirty = true; e.stolen &= ~(m & ~base); } release(rel, ret, T);
                if (self && !nosync) { if (e.dirty) { poll_model(q.pid); } else for (int c = 0; c < N; c++) { if (e.cur >> c & 1) co[c] = q.pid; else if (co[c] == q.pid) co[c] = 0; }
                    if (r.cb != 1 || r.cbmask != m) V("D02/callback-self", "setting the own mask to %s called the mask callback %d times with %s; %s", ms(m).c_str(), r.cb, ms(r.cbmask).c_str(), tailhist().c_str()); }
                else if (r.cb) V("D02/callback-nosync", "the mask callback was called; %s", tailhist().c_str()); }
            else if (r.cb) V("D02/callback-refused", "a refused change called the mask callback; %s", tailhist().c_str());
            snprintf(what, sizeof what, "%sSetProcessMask = %d", ret ? "ret " : "", r.rc);
        } else if (op < 76) { /* reserve */
            int t = chance(&R, 1, 3) ? rpid() : chance(&R, 1, 4) && !pr[p].on ? (int)pr[rnd(&R, P)].pid : 5000000 + (int)rnd(&R, 6); for (auto &z : pr) if (z.pid == t && z.on && !M.count(t)) t = 5000001; u32 m = rmask(); bool steal = chance(&R, 1, 2), ret = chance(&R, 1, 3), viaapi = false;
            int fl = (steal ? DLB_STEAL_CPUS : 0) | (ret ? DLB_RETURN_STOLEN : 0); (void)viaapi;
            bool sync = steal && chance(&R, 1, 10); if (sync) fl |= DLB_SYNC_QUERY;
            H("p%d PreInit(%s %s%s%s)", p, nm(t).c_str(), ms(m).c_str(), steal ? " steal" : "", sync ? " sync" : ""); int want = 0, verdict = 1; u32 x = m & ~fr;
            if (!shm_open_in(p)) { want = DLB_ERR_NOSHMEM; verdict = 0; } else if (M.count(t)) { want = DLB_ERR_INIT; verdict = 0; } else if ((int)M.size() >= N) { want = DLB_ERR_NOMEM; verdict = 0; }
            else if (!steal) { if (x) { want = DLB_ERR_PERM; verdict = 0; } else for (int c = 0; c < N; c++) if (m >> c & 1 && co[c] != 0) { want = DLB_ERR_PERM; verdict = 0; } }
            else { verdict = steal_verdict(t, x); if (!verdict) want = DLB_ERR_PERM; }
            vector<int> victims; if (verdict) for (auto &e : M) if (e.first != t && e.second.now() & x) victims.push_back(e.first);
            if (sync && verdict == 2) { hist.pop_back(); continue; }
            if (sync && verdict == 1 && !victims.empty()) {
                auto runner = [&](int pid) { for (int z = 0; z < P; z++) if (pr[z].pid == pid && pr[z].on && pr[z].drom && z != p) return z; return -1; };
                bool can = true; for (int v : victims) if (runner(v) < 0) can = false; bool dov = can && !chance(&R, 1, 4); send(p, 'p', t, m, fl); usleep(30000);
                if (!dov) { Rep r = get(p); st["timeouts"]++; if (r.rc != DLB_ERR_TIMEOUT) V("D02/sync-rc", "nobody polled and the synchronous reservation returned %d; %s", r.rc, tailhist().c_str()); sigs.insert("pre/sync/timeout"); compare("a timeout while reserving"); continue; }
                do_steal(t, x); for (int v : victims) { Rep y = call(runner(v), 'U'); if (y.rc != DLB_SUCCESS) V("D02/sync-victim", "a victim polled and got %d; %s", y.rc, tailhist().c_str()); poll_model(v); }
                Rep r = get(p); if (r.rc) V("D02/sync-rc", "everybody polled and the synchronous reservation returned %d; %s", r.rc, tailhist().c_str()); sigs.insert("pre/sync/ok"); st["sync_ok"]++;
                fr &= ~m; Ent e; e.cur = e.fut = m; e.prereg = true; M[t] = e; for (int c = 0; c < N; c++) if (m >> c & 1) co[c] = t; compare("a synchronous reservation"); continue;
            }
            Rep r = call(p, 'p', t, m, fl); if (!r.n) V("D03/env", "the environment for the new process does not carry the reservation; %s", tailhist().c_str());
            if (verdict == 0 ? r.rc != want : verdict == 1 ? r.rc != DLB_SUCCESS : !in(r.rc, {DLB_SUCCESS, DLB_ERR_PERM})) V("D03/reserve-rc", "PreInit returned %d instead of %d; %s", r.rc, want, tailhist().c_str());
            { char b[60]; snprintf(b, sizeof b, "pre/%d/%s%s", r.rc, steal ? "s" : "", x ? "x" : ""); sigs.insert(b); }
            if (r.rc == DLB_SUCCESS && !M.count(t)) { do_steal(t, x); fr &= ~m; Ent e; e.cur = e.fut = m; e.prereg = true; M[t] = e; for (int c = 0; c < N; c++) if (m >> c & 1) co[c] = t; st["reservations"]++; }
            snprintf(what, sizeof what, "PreInit = %d", r.rc);
        } else if (op < 84) { /* cancel a reservation */
            int t = rpid(); for (auto &z : pr) if (z.pid == t && z.on) t = 5000000 + rnd(&R, 6); if (M.count(t) && !M[t].prereg) continue; bool ret = chance(&R, 1, 2);
            H("p%d PostFinalize(%s%s)", p, nm(t).c_str(), ret ? " return" : ""); int want = !shm_open_in(p) ? DLB_ERR_NOSHMEM : M.count(t) ? DLB_SUCCESS : DLB_ERR_NOPROC; Rep r = call(p, 'q', t, 0, ret ? DLB_RETURN_STOLEN : 0); sigs.insert("post/" + std::to_string(r.rc));
            if (r.rc != want) V("D03/cancel-rc", "PostFinalize returned %d instead of %d; %s", r.rc, want, tailhist().c_str());
            if (r.rc == 0 && M.count(t)) { Ent e = M[t]; M.erase(t); release(e.now(), ret, t); for (int c = 0; c < N; c++) if (co[c] == t) co[c] = 0; st["cancels"]++; }
            snprintf(what, sizeof what, "%sPostFinalize = %d", ret ? "ret " : "", r.rc);
        } else if (op < 90) { /* recover */
            int t = rpid(); H("p%d Recover(%s)", p, nm(t).c_str()); Rep r = call(p, 'R', t); int want = !shm_open_in(p) ? DLB_ERR_NOSHMEM : !M.count(t) ? DLB_ERR_NOPROC : !M[t].stolen ? DLB_NOUPDT : DLB_SUCCESS; sigs.insert("rec/" + std::to_string(r.rc));
            if (r.rc != want) V("D03/recover-rc", "RecoverStolenCpus returned %d instead of %d; %s", r.rc, want, tailhist().c_str());
            if (want == DLB_SUCCESS) { Ent &e = M[t]; u32 rec = e.stolen & fr; if (rec) { if (!e.dirty) e.fut = e.cur; e.fut |= rec; e.dirty = true; e.stolen &= ~rec; fr &= ~rec; st["recovered"]++; } }
            snprintf(what, sizeof what, "ret Recover = %d", r.rc);
        } else if (op < 93) { /* the list, with little room */
            int len = rrange(&R, 1, 4); Rep r = call(p, 'l', 0, 0, len); if (!shm_open_in(p)) { if (r.rc != DLB_ERR_NOSHMEM) V("D01/pidlist", "GetPidList without shared memory returned %d", r.rc); } else if (r.rc || r.n != std::min<int>(len, M.size())) V("D01/pidlist", "GetPidList with room for %d of %zu processes gave %d", len, M.size(), r.n); continue;
        } else if (op < 98) { if (!q.on || !q.lewi) continue; int k = rnd(&R, 5); H("p%d lewi%d", p, k); call(p, "wWBbr"[k], 0, 0, rnd(&R, N)); continue; }
        else { if (chance(&R, 1, 2)) { settle(); H("settle"); } else { probe_free(); H("probe"); } snprintf(what, sizeof what, "polling by everybody"); }
        compare(what);
    }
    if (sh->viol < 4) { settle(); compare("polling by everybody"); probe_free(); }
    vector<int> left; for (auto &e : M) if (e.second.prereg) left.push_back(e.first);
    for (int k : left) { Rep r = call(o, 'q', k, 0, 0); if (r.rc) V("D03/cancel-rc", "PostFinalize returned %d; %s", r.rc, tailhist().c_str()); }
    for (int p = 0; p < P; p++) { if (pr[p].on) call(p, 'F'); if (pr[p].att) call(p, 'T'); }
    call(o, 'T');
    for (int p = 0; p <= P; p++) { send(p, 'Q'); int s; waitpid(pr[p].pid, &s, 0); close(pr[p].to); close(pr[p].from); if (!WIFEXITED(s) || WEXITSTATUS(s)) { fprintf(stderr, "child status %x\n", s); exit(99); } }
    for (const char *m : {"procinfo", "cpuinfo", "barrier", "lewi"}) { string f = string("/dev/shm/DLB_") + m + "_" + key; if (!access(f.c_str(), F_OK)) { V("S01/left-behind", "%s still exists; %s", f.c_str(), tailhist().c_str()); unlink(f.c_str()); } }
}

/* ---- concurrent chaos: consistent snapshots are taken all the time, and everything adds up at the end ---- */
struct Snap { struct P { int pid; u32 cur, fut; bool dirty; }; vector<P> v; };
static u32 parse_mask(const string &s) { u32 m = 0; const char *p = s.c_str(); while (*p) { if (!isdigit(*p)) { p++; continue; } int a = strtol(p, (char**)&p, 10), b = a; if (*p == '-') b = strtol(p + 1, (char**)&p, 10); for (int c = a; c <= b && c < 32; c++) m |= 1u << c; } return m; }
static FILE *snapf;
static bool snapshot(Snap &s) { s.v.clear(); rewind(snapf); if (ftruncate(fileno(snapf), 0)) HARNESS_ERROR("ftruncate"); FILE *old = stderr; stderr = snapf; DLB_PrintShmem(1, DLB_COLOR_AUTO); stderr = old; fflush(snapf); rewind(snapf);
    char *line = NULL; size_t cap = 0; bool on = false, seen = false; while (getline(&line, &cap, snapf) > 0) { if (strstr(line, "=== Processes Masks")) { on = seen = true; continue; } if (!on) continue; if (line[0] != ' ') { on = false; continue; } if (strstr(line, "PID")) continue;
        vector<string> f; string x; for (char *p = line; *p && *p != '\n'; p++) if (*p == '|') { f.push_back(x); x.clear(); } else x += *p; if (f.size() < 6) { on = false; continue; }
        s.v.push_back({atoi(f[1].c_str()), parse_mask(f[2]), parse_mask(f[3]), atoi(f[5].c_str()) != 0}); }
    free(line); return seen; }
static string sstr(const Snap &s) { string r; for (auto &p : s.v) r += " " + std::to_string(p.pid) + ms(p.cur) + (p.dirty ? "->" + ms(p.fut) : ""); return r; }
static void check_snap(const Snap &s, const char *when) { u32 sum = 0; std::set<int> pids; for (auto &p : s.v) { u32 m = p.dirty ? p.fut : p.cur; if (m & sum) V("D01/overlap", "CPUs %s belong to two processes %s:%s", ms(m & sum).c_str(), when, sstr(s).c_str()); sum |= m;
        if (!p.dirty && p.cur != p.fut) V("D01/current", "process %d has no pending change but its masks differ %s:%s", p.pid, when, sstr(s).c_str());
        if (!pids.insert(p.pid).second) V("D01/duplicate", "process %d is registered twice %s:%s", p.pid, when, sstr(s).c_str()); }
    st["snapshots"]++; }
static std::atomic<int> *pids_; static std::atomic<int> *done_; static std::atomic<long> *cnt_;
static u32 crmask(rng_t *r) { u32 m = 0; switch (rnd(r, 4)) { case 0: m = 1u << rnd(r, N); break; case 1: { int a = rnd(r, N), b = rrange(r, a, N - 1); for (int c = a; c <= b; c++) m |= 1u << c; break; } case 2: m = rng_next(r) & rng_next(r) & all; break; default: m = rng_next(r) & all; } return m; }
struct WT { int w, P, slow; unsigned long long seed; };
static int crpid(rng_t *r, int P) { return chance(r, 2, 3) ? pids_[rnd(r, P)].load() : 5000000 + (int)rnd(r, P); }
/* the reservations of one administrator are its own, changing one from several places at the same time is a misuse */
static void admin_op(rng_t *r, int P, int own, int w) { cpu_set_t m; tocs(crmask(r), &m); int t = crpid(r, P); int fl = (chance(r, 1, 2) ? DLB_RETURN_STOLEN : 0); if (chance(r, 1, 3)) fl |= DLB_STEAL_CPUS; if (chance(r, 1, 8)) fl |= DLB_SYNC_QUERY; int rc = 0, k;
    switch (k = rnd(r, 8)) { case 0: case 1: case 2: if (t == own) return; rc = DLB_DROM_SetProcessMask(t, &m, (dlb_drom_flags_t)fl); break;
    case 3: rc = DLB_DROM_GetProcessMask(t, &m, (dlb_drom_flags_t)(fl & DLB_SYNC_QUERY)); break;
    case 4: case 5: { char **env = (char**)calloc(1, sizeof(char*)); t = 5000000 + w; rc = DLB_DROM_PreInit(t, &m, (dlb_drom_flags_t)fl, &env); for (int i = 0; env[i]; i++) free(env[i]); free(env); break; }
    case 6: t = 5000000 + w; rc = DLB_DROM_PostFinalize(t, (dlb_drom_flags_t)fl); break;
    case 7: rc = DLB_DROM_RecoverStolenCpus(t); break; }
    cnt_[(k == 1 || k == 2 ? 0 : k == 5 ? 4 : k) * 32 + (rc + 16)]++; }
static void *admin_thread(void *a) { WT *w = (WT*)a; rng_t r; r.s = w->seed; while (!sh->stop) { admin_op(&r, w->P, (int)getpid(), w->w); if (chance(&r, 1, 3)) usleep(rnd(&r, 400)); } return NULL; }
static void worker(int w, int P, const char *key, unsigned long long seed) {
    rng_t r; r.s = seed; bool keep = chance(&r, 1, 2), drom = true, lewi = chance(&r, 1, 3); WT wt = {w, P, 0, seed + 77}; pthread_t th; bool on = false, thr = false; cpu_set_t m; int slow = chance(&r, 1, 3) ? 20000 : chance(&r, 1, 2) ? 2000 : 200; (void)drom;
    if (!keep) DLB_DROM_Attach();
    while (!sh->stop) {
        if (!on) { tocs(crmask(&r), &m); string o = string("--drom --quiet=yes --shm-key=") + key + (lewi ? " --lewi --lewi-affinity=mask" : "") + (chance(&r, 1, 3) ? " --debug-opts=return-stolen" : ""); int rc = DLB_Init(0, &m, o.c_str());
            if (rc == DLB_SUCCESS) { on = true; DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, NULL); DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, NULL); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, NULL); if (keep && !thr) { thr = true; pthread_create(&th, NULL, admin_thread, &wt); } } else { usleep(rnd(&r, 2000)); if (!in(rc, {DLB_ERR_PERM, DLB_ERR_NOMEM})) V("D01/init-rc", "DLB_Init returned %d during concurrent changes", rc); }
            cnt_[8 * 32 + rc + 16]++; continue; }
        int k = rnd(&r, 10);
        if (k < 5) { CPU_ZERO(&m); int n = -1; cbs = 0; bool upd = chance(&r, 1, 2); int rc = upd ? DLB_PollDROM_Update() : DLB_PollDROM(&n, &m); sh->polls++; cnt_[9 * 32 + rc + 16]++;
            if (!in(rc, {DLB_SUCCESS, DLB_NOUPDT})) V("D02/poll-rc", "polling returned %d", rc); if (!upd && rc == DLB_SUCCESS && n != CPU_COUNT(&m)) V("D02/poll-ncpus", "polling gave %d CPUs and a mask with %d", n, CPU_COUNT(&m)); if (upd && cbs != (rc == DLB_SUCCESS)) V("D02/callback", "polling returned %d and called the mask callback %d times", rc, cbs);
            usleep(rnd(&r, slow)); }
        else if (k == 5) { tocs(crmask(&r), &m); DLB_DROM_SetProcessMask(chance(&r, 1, 2) ? 0 : (int)getpid(), &m, (dlb_drom_flags_t)((chance(&r, 1, 2) ? DLB_RETURN_STOLEN : 0) | (chance(&r, 1, 3) ? DLB_NO_SYNC : 0))); }
        else if (k == 6 && !keep && chance(&r, 1, 3)) { int rc = DLB_Finalize(); if (rc) V("D01/finalize", "DLB_Finalize returned %d", rc); on = false; }
        else if (k == 7 && lewi) { switch (rnd(&r, 4)) { case 0: DLB_Lend(); break; case 1: DLB_Reclaim(); break; case 2: DLB_Borrow(); break; default: DLB_Return(); } }
        else if (!thr) admin_op(&r, P, (int)getpid(), w);
    }
    if (thr) pthread_join(th, NULL);
    sh->idle++; while (sh->idle < P) usleep(500);
    /* nobody changes anything any more */
    u32 mine = 0; if (on) { for (int k = 0; k < 2; k++) { int rc = DLB_PollDROM_Update(); if (k && rc != DLB_NOUPDT) V("D02/poll-rc", "a second poll without changes returned %d", rc); } CPU_ZERO(&m); int rc = DLB_DROM_GetProcessMask(0, &m, (dlb_drom_flags_t)0); if (rc) V("D02/get-self", "GetProcessMask returned %d after polling", rc); mine = frcs(&m); }
    sh->cur[w] = mine | (on ? 1u << 31 : 0); done_[w] = 1; while (!sh->stop.load() || done_[w] == 1) usleep(500);
    if (on) DLB_Finalize(); if (!keep) DLB_DROM_Detach(); done_[w] = 3; _exit(0);
}
static void conc(int ms_, const char *key) {
    int P = rrange(&R, 2, 5); N = rrange(&R, P + 5, 16); all = (1u << N) - 1; mu_init(); mu_testing_set_sys(N, N, 1); { char b[100]; snprintf(b, sizeof b, "conc seed=%s procs=%d cpus=%d", seedstr.c_str(), P, N); cfgs = b; }
    pids_ = (std::atomic<int>*)mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); done_ = pids_ + 64; cnt_ = (std::atomic<long>*)(pids_ + 256); sh->stop = 0; sh->idle = 0;
    snapf = tmpfile(); if (!snapf) HARNESS_ERROR("tmpfile");
    vector<pid_t> ch; for (int w = 0; w < P; w++) { unsigned long long sd = rng_next(&R); pid_t pid = fork(); if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); while (!pids_[P - 1]) usleep(200); worker(w, P, key, sd); } ch.push_back(pid); }
    { string a = string("--shm-key=") + key; setenv("DLB_ARGS", a.c_str(), 1); } DLB_DROM_Attach();
    for (int w = 0; w < P; w++) pids_[w] = ch[w];
    auto alive = [&]() { for (int w = 0; w < P; w++) { int s; if (waitpid(ch[w], &s, WNOHANG) == ch[w]) { V("D01/died", "a process died with status %x", s); for (pid_t q : ch) kill(q, SIGKILL); return false; } } return true; };
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); Snap s; string lasts; std::set<string> distinct;
    do { if (snapshot(s)) { check_snap(s, "during concurrent changes"); string x = sstr(s); if (x != lasts) { distinct.insert(x); lasts = x; } } usleep(rnd(&R, 600)); clock_gettime(CLOCK_MONOTONIC, &b); if (!alive()) return; } while ((b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000 < ms_ && !sh->viol);
    if (getenv("SHOWSHM")) for (int w = 0; w < P; w++) printf("worker %d pid %d\n", w, (int)pids_[w]);
    sh->stop = 1; int waited = 0; for (;;) { bool ok = true; for (int w = 0; w < P; w++) if (!done_[w]) ok = false; if (ok) break; usleep(1000); if (!alive()) return; if (++waited > 60000) { V("D01/stuck", "the processes did not come to rest"); for (pid_t q : ch) kill(q, SIGKILL); return; } }
    if (!snapshot(s)) { bool any = false; for (int w = 0; w < P; w++) if (sh->cur[w] >> 31) any = true; if (any) V("D01/mask", "no processes are shown at the end"); } else check_snap(s, "at the end");
    u32 sum = 0; for (auto &p : s.v) { sum |= p.dirty ? p.fut : p.cur; for (int w = 0; w < P; w++) if (pids_[w] == p.pid) { if (p.dirty) V("D02/dirty", "process %d has a pending change after polling:%s", p.pid, sstr(s).c_str()); if ((sh->cur[w] & all) != p.cur) V("D01/mask", "process %d sees %s, others see:%s", p.pid, ms(sh->cur[w] & all).c_str(), sstr(s).c_str()); } }
    for (int w = 0; w < P; w++) if (sh->cur[w] >> 31) { bool f = false; for (auto &p : s.v) if (p.pid == pids_[w]) f = true; if (!f) V("D01/mask", "process %d is not registered:%s", (int)pids_[w], sstr(s).c_str()); }
    for (int w = 0; w < P; w++) done_[w] = 2; for (pid_t q : ch) { int s2; waitpid(q, &s2, 0); if (!WIFEXITED(s2) || WEXITSTATUS(s2)) V("D01/died", "a process ended with status %x", s2); }
    for (int k = 0; k < P; k++) DLB_DROM_PostFinalize(5000000 + k, (dlb_drom_flags_t)0);
    int left[20], nl = 0; DLB_DROM_GetPidList(left, &nl, 20); if (nl) V("D01/pid-extra", "%d processes are still registered after everybody ended, e.g. %d", nl, left[0]);
    stderr = fopen("/dev/null", "w"); for (int c = 0; c < N; c++) { cpu_set_t m; tocs(1u << c, &m); char **env = (char**)calloc(1, sizeof(char*)); int rc = DLB_DROM_PreInit(5000900, &m, (dlb_drom_flags_t)0, &env); for (int i = 0; env[i]; i++) free(env[i]); free(env); st["probes"]++; if (rc && getenv("SHOWSHM")) { Snap s; snapshot(s); rewind(snapf); char b[300]; while (fgets(b, 300, snapf)) printf("%s", b); } if (rc) V("D01/lost", "CPU %d cannot be reserved after everybody ended (error %d)", c, rc); else DLB_DROM_PostFinalize(5000900, (dlb_drom_flags_t)0); }
    DLB_DROM_Detach(); fclose(snapf); st["distinct_snapshots"] += distinct.size();
    for (int k = 0; k < 10; k++) for (int x = 0; x < 32; x++) if (long n = cnt_[k * 32 + x]) { static const char *nm_[] = {"set", "", "", "get", "reserve", "", "cancel", "recover", "init", "poll"}; char b[60]; snprintf(b, sizeof b, "conc/%s/%d", nm_[k], x - 16); sigs.insert(b); st["conc_ops"] += n; st["evaluations"] += n; }
    for (const char *m : {"procinfo", "cpuinfo"}) { string f = string("/dev/shm/DLB_") + m + "_" + key; if (!access(f.c_str(), F_OK)) { V("S01/left-behind", "%s still exists", f.c_str()); unlink(f.c_str()); } }
}

/* the target of a call that waits leaves meanwhile, and another process may take its place */
static void gone(const char *key) {
    N = 6; mu_testing_set_sys(N, N, 1); all = 63; int v = rnd(&R, 4); bool get = v & 1, repl = v & 2; int first = rnd(&R, 3); u32 tm = 3u << first, nmask = chance(&R, 1, 2) ? tm : 1u << 5; int wait1 = 5 + rnd(&R, 40);
    cfgs = string(get ? "get" : "set") + (repl ? " replaced" : "") + " target " + ms(tm) + " newcomer " + ms(nmask) + " after " + std::to_string(wait1) + " ms"; hist.clear();
    sh->stop = 0; string args = string("--drom --quiet=yes --shm-key=") + key; setenv("DLB_ARGS", args.c_str(), 1);
    auto spawn = [&](auto f) { pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); _exit(f()); } return p; };
    auto till = [&](int x) { for (int k = 0; sh->stop < x; k++) { usleep(50); if (k > 400000) _exit(7); } };
    pid_t by = chance(&R, 1, 2) ? spawn([&]() { cpu_set_t m; tocs(1u << 4, &m); int rc = DLB_Init(0, &m, NULL); sh->idle = 1; till(9); return rc < 0 || DLB_Finalize() ? 3 : 0; }) : 0;
    if (by) for (int k = 0; !sh->idle; k++) { usleep(100); if (k > 200000) HARNESS_ERROR("a process did not start"); }
    sh->idle = 0;
    pid_t tg = spawn([&]() { cpu_set_t m; tocs(tm, &m); if (DLB_Init(0, &m, NULL) < 0) return 3; sh->stop = 1; till(2); usleep(wait1 * 1000); int rc = DLB_Finalize(); sh->stop = 3; return rc ? 4 : 0; });
    pid_t nw = spawn([&]() { while (sh->stop < 3) { struct timespec t = {0, 20000}; nanosleep(&t, NULL); } if (!repl) { return 0; } cpu_set_t m; tocs(nmask, &m); int rc = DLB_Init(0, &m, NULL); if (rc < 0) return 5; till(9); rc = DLB_PollDROM_Update(); if (rc != DLB_NOUPDT) return 6; return DLB_Finalize() ? 4 : 0; });
    till(1); DLB_DROM_Attach(); cpu_set_t m; int rc; struct timespec a, b;
    u32 want = chance(&R, 1, 2) ? tm & (tm - 1) : tm | 1u << 5; tocs(want, &m);
    if (get && (rc = DLB_DROM_SetProcessMask(tg, &m, (dlb_drom_flags_t)0))) V("D01/set-rc", "SetProcessMask returned %d", rc);
    clock_gettime(CLOCK_MONOTONIC, &a); sh->stop = 2;
    rc = get ? DLB_DROM_GetProcessMask(tg, &m, DLB_SYNC_QUERY) : DLB_DROM_SetProcessMask(tg, &m, DLB_SYNC_QUERY);
    clock_gettime(CLOCK_MONOTONIC, &b);
    if (rc != DLB_ERR_NOPROC) V("D02/gone", "the target of a synchronous %s left, and the call returned %d after %ld ms", get ? "query" : "change", rc, (b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000);
    while (sh->stop < 3) usleep(100); usleep(repl ? 30000 : 0); DLB_DROM_Detach(); sh->stop = 9;
    for (pid_t p : {by, tg, nw}) if (p > 0) { int s = 0; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) V(WIFEXITED(s) && WEXITSTATUS(s) == 6 ? "D02/gone-newcomer" : "D01/died", "the %s ended with status %x (6: it got the change of another process)", p == by ? "bystander" : p == tg ? "target" : "newcomer", s); }
    st["gone"]++; st["evaluations"]++; char x[40]; snprintf(x, sizeof x, "gone/%d/%d", v, by > 0); sigs.insert(x);
}

int main(int argc, char **argv) {
    if (argc < 6) return 2; string mode = argv[1]; seedstr = argv[2]; R.s = strtoull(argv[2], 0, 10) * 7919 + 13;
    sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    signal(SIGPIPE, SIG_IGN); { string a = string("--shm-key=") + argv[5] + (getenv("VERBOSE") ? "" : " --quiet=yes"); setenv("DLB_ARGS", a.c_str(), 1); }
    if (!getenv("VERBOSE")) stderr = fopen("/dev/null", "w");
    int n = atoi(argv[3]); for (int k = 0; k < n && !sh->viol; k++) if (mode == "seq") seq(atoi(argv[4]), argv[5]); else if (mode == "gone") gone(argv[5]); else conc(atoi(argv[4]), argv[5]);
    for (auto &x : st) emit("STAT %s=%ld", x.first.c_str(), x.second); emit("STAT sets=%ld", (long)sh->sets); emit("STAT sets_ok=%ld", (long)sh->set_ok);
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("DONE");
}
