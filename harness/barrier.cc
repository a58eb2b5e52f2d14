/* B01/B02: node barriers.
 * usage: barrier mp SEED NPROC NBARRIERS PHASES KEY   concurrent crossings of several barriers with changing members
 *        barrier seq SEED OPS KEY                     turn-based histories of several processes against a model
 *        barrier lewi SEED ITERS KEY                  what is lent while waiting in a barrier */
#include "vh.h"
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_errors.h"
#include "LB_comm/shmem_barrier.h"
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void mu_init(void);
}
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <pthread.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
using std::string; using std::vector;

enum { MAXP = 10, MAXB = 8, MAXPH = 400, MAXK = 8 };
struct Shared {
    pthread_barrier_t ctl[MAXB]; pthread_barrier_t all;
    std::atomic<int> entered[MAXB][MAXPH][MAXK], left[MAXB][MAXPH][MAXK];
    std::atomic<long> crossings, nonmember, attaches, detaches, registers, viol, waits, overlap; std::atomic<int> inside[MAXB];
    std::atomic<int> step, lent, stopped; std::atomic<long> got;
    std::atomic<unsigned> sig[4096];
};
static Shared *sh; static rng_t R; static string seedstr, cfgs;
#define V(key, ...) do { if (sh->viol++ < 10) { char _m[1000]; snprintf(_m, sizeof _m, __VA_ARGS__); VIOL(key, "%s [%s]", _m, cfgs.c_str()); } } while (0)

static void pinit(pthread_barrier_t *b, int n) { pthread_barrierattr_t a; pthread_barrierattr_init(&a); pthread_barrierattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_barrier_init(b, &a, n); }
static void sleepus(unsigned us) { if (us) usleep(us); }

/* ------------------------------------------------------------------ mp */
static void mp_thread(int me, int P, int b, int phases, unsigned long seed, string name) {
    rng_t plan; plan.s = seed * 1000003 + b * 7919 + 11;       /* the same in every process */
    rng_t loc; loc.s = seed * 31 + me * 1009 + b * 17 + 5;
    bool def = b == 0; dlb_barrier_t *h = NULL; unsigned members = def ? (1u << P) - 1 : 0;
    for (int ph = 0; ph < phases; ph++) {
        unsigned next = ph == phases - 1 ? (1u << P) - 1 : (unsigned)rng_next(&plan) & ((1u << P) - 1);
        if (chance(&plan, 1, 3)) next = (1u << P) - 1;
        if (!next) next = 1u << rnd(&plan, P);
        bool by_register = members == 0 || chance(&plan, 1, 3); int K = rrange(&plan, 1, MAXK); unsigned style = rnd(&plan, 4);
        bool in = members >> me & 1, want = next >> me & 1;
        if (want && !in) {
            if (def) { int rc = DLB_BarrierAttach(); if (rc < 1 || rc > P) V("B02/attach-rc", "DLB_BarrierAttach by process %d returned %d", me, rc); }
            else if (by_register || !h) { dlb_barrier_t *n = DLB_BarrierNamedRegister(name.c_str(), DLB_BARRIER_LEWI_OFF); sh->registers++; if (!n) V("B02/register", "registering %s failed", name.c_str()); h = n; }
            else { int rc = DLB_BarrierNamedAttach(h); if (rc < 1 || rc > P) V("B02/attach-rc", "DLB_BarrierNamedAttach by process %d returned %d", me, rc); }
            sh->attaches++;
        }
        pthread_barrier_wait(&sh->ctl[b]);
        if (!want && in) { int rc = def ? DLB_BarrierDetach() : DLB_BarrierNamedDetach(h); sh->detaches++; if (rc < 1 || rc > P) V("B02/detach-rc", "detach by process %d returned %d, %d members stay", me, rc, __builtin_popcount(next)); }
        members = next; int n = __builtin_popcount(members);
        pthread_barrier_wait(&sh->ctl[b]);
        if (sh->viol) { /* everybody goes on until the end of the phase */ }
        for (int k = 0; k < K; k++) {
            if (want) {
                if (style == 1) sleepus(rnd(&loc, 300)); else if (style == 2) { if (chance(&loc, 1, n)) sleepus(rnd(&loc, 3000)); } else if (style == 3) sched_yield();
                if (!def && chance(&loc, 1, 10)) { dlb_barrier_t *n2 = DLB_BarrierNamedRegister(name.c_str(), DLB_BARRIER_LEWI_OFF); sh->registers++; if (n2 != h) V("B02/register-again", "registering %s again gives another barrier", name.c_str()); }
                sh->entered[b][ph][k]++;
                if (++sh->inside[b] < n) sh->waits++;
                for (int o = 0; o < MAXB; o++) if (o != b && sh->inside[o] > 0) { sh->overlap++; break; }
                int rc = def ? DLB_Barrier() : DLB_BarrierNamed(h);
                int e = sh->entered[b][ph][k]; int l = ++sh->left[b][ph][k]; sh->inside[b]--;
                if (rc != DLB_SUCCESS) V("B01/rc", "crossing %s by attached process %d returned %d", name.c_str(), me, rc);
                if (e != n) V("B01/early-release", "process %d left crossing %d of %s when %d of the %d attached processes had entered (phase %d)", me, k, name.c_str(), e, n, ph);
                if (k > 0 && sh->left[b][ph][k-1] != n && sh->entered[b][ph][k] > n) V("B01/overtaken", "crossing %d of %s mixed with the next one", k, name.c_str());
                (void)l; sh->crossings++;
                unsigned s = (unsigned)(def * 2048 + n * 128 + (e - l) * 8 + style) % 4096; sh->sig[s]++;
            } else if (chance(&loc, 1, 2) && (def || h)) {
                sleepus(rnd(&loc, 200)); double t = now_s(); int rc = def ? DLB_Barrier() : DLB_BarrierNamed(h); sh->nonmember++;
                if (rc != DLB_NOUPDT) V("B01/detached", "crossing %s by the detached process %d returned %d", name.c_str(), me, rc);
                (void)t;
            }
        }
        pthread_barrier_wait(&sh->ctl[b]);
    }
}
static void mp(int P, int NB, int phases, const char *key) {
    pinit(&sh->all, P); for (int b = 0; b < NB; b++) pinit(&sh->ctl[b], P);
    unsigned long seed = strtoul(seedstr.c_str(), 0, 10); vector<pid_t> pids;
    static const char *names[MAXB] = {"default", "a", "b", "barrier with a rather long name, longer than the limit", "x,y", "default ", "B", ""};
    for (int p = 0; p < P; p++) { pid_t pid = fork(); if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); mu_testing_set_sys(NB > P ? NB : P, NB > P ? NB : P, 1);
        string o = string("--shm-key=") + key + " --quiet=yes --barrier"; int rc = DLB_Init(0, NULL, o.c_str()); if (rc) V("B01/init", "DLB_Init returned %d", rc);
        pthread_barrier_wait(&sh->all);
        vector<std::thread> ts; for (int b = 0; b < NB; b++) ts.emplace_back(mp_thread, p, P, b, phases, seed, string(names[b])); for (auto &t : ts) t.join();
        pthread_barrier_wait(&sh->all);
        rc = DLB_Finalize(); if (rc) V("B01/finalize", "DLB_Finalize returned %d", rc); fflush(NULL); _exit(0); } pids.push_back(pid); }
    bool bad = false; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = true; fprintf(stderr, "child ended with status %x\n", st); for (pid_t q : pids) kill(q, SIGKILL); } }
    if (bad) { emit("STAT failed_children=1"); exit(99); }
    string f = string("/dev/shm/DLB_barrier_") + key; if (!access(f.c_str(), F_OK)) V("S01/left-behind", "%s still exists", f.c_str());
}

/* ------------------------------------------------------------------ seq */
struct Cmd { char op; int arg; dlb_barrier_t *h; char s[120]; };
struct Rep { int rc; dlb_barrier_t *h; };
struct Proc { int to, from; pid_t pid; bool on = false, bopt = true; string def; bool in_def = false; std::map<string, dlb_barrier_t*> known; };
static void child_loop(int in, int out) {
    Cmd c; while (read(in, &c, sizeof c) == (ssize_t)sizeof c) {
        Rep r = {0, NULL};
        switch (c.op) {
        case 'I': r.rc = DLB_Init(0, NULL, c.s); break;
        case 'F': r.rc = DLB_Finalize(); break;
        case 'R': r.h = c.arg & 8 ? DLB_BarrierNamedGet(c.s, (dlb_barrier_flags_t)(c.arg & 7)) : DLB_BarrierNamedRegister(c.s, (dlb_barrier_flags_t)(c.arg & 7)); break;
        case 'A': r.rc = c.h ? DLB_BarrierNamedAttach(c.h) : DLB_BarrierAttach(); break;
        case 'D': r.rc = c.h ? DLB_BarrierNamedDetach(c.h) : DLB_BarrierDetach(); break;
        case 'X': sleepus(c.arg); r.rc = c.h ? DLB_BarrierNamed(c.h) : DLB_Barrier(); break;
        case 'G': r.h = (dlb_barrier_t*)shmem_barrier__find(c.s); break;
        case 'Q': _exit(0);
        }
        if (write(out, &r, sizeof r) != (ssize_t)sizeof r) _exit(1);
    }
    _exit(0);
}
static vector<Proc> pr; static std::map<string, std::set<int>> model; static vector<string> hist;
static string tailhist() { string s; for (size_t i = hist.size() > 14 ? hist.size() - 14 : 0; i < hist.size(); i++) s += hist[i] + "; "; return s; }
static void send(int p, char op, dlb_barrier_t *h, int arg, const string &s) { Cmd c; memset(&c, 0, sizeof c); c.op = op; c.h = h; c.arg = arg; snprintf(c.s, sizeof c.s, "%s", s.c_str()); if (write(pr[p].to, &c, sizeof c) != (ssize_t)sizeof c) { V("B02/died", "process %d died; %s", p, tailhist().c_str()); emit("DONE"); exit(99); } }
static bool recv_(int p, Rep &r, int ms) { struct pollfd f = {pr[p].from, POLLIN, 0}; int n; do n = poll(&f, 1, ms); while (n < 0 && errno == EINTR); if (n <= 0) return false; ssize_t k = read(pr[p].from, &r, sizeof r); if (k != (ssize_t)sizeof r) { fprintf(stderr, "process %d died\n", p); V("B02/died", "process %d died; %s", p, tailhist().c_str()); exit(99); } return true; }
static Rep call(int p, char op, dlb_barrier_t *h, int arg, const string &s) { send(p, op, h, arg, s); Rep r; if (!recv_(p, r, 30000)) { V("B02/stuck", "call %c(%s) of process %d did not return; %s", op, s.c_str(), p, tailhist().c_str()); for (auto &q : pr) kill(q.pid, SIGKILL); exit(99); } return r; }
static string key31(const string &s) { return s.substr(0, BARRIER_NAME_MAX - 1); }
static bool eqrc(int rc, std::initializer_list<int> l) { for (int x : l) if (x == rc) return true; return false; }

static std::set<string> sigs; static long evals, crossed, full_names;
static void seq(int ops, const char *key) {
    int P = rrange(&R, 1, 4), MAXBAR = rrange(&R, P + 1 < 2 ? 2 : P + 1, 7);
    mu_testing_set_sys(MAXBAR, MAXBAR, 1);
    { char b[100]; snprintf(b, sizeof b, "seq seed=%s procs=%d max=%d", seedstr.c_str(), P, MAXBAR); cfgs = b; }
    pr.assign(P, Proc()); model.clear(); hist.clear();
    for (int p = 0; p < P; p++) { int a[2], b[2]; if (pipe(a) || pipe(b)) HARNESS_ERROR("pipe"); pid_t pid = fork();
        if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (int q = 0; q < p; q++) { close(pr[q].to); close(pr[q].from); } close(a[1]); close(b[0]); child_loop(a[0], b[1]); }
        close(a[0]); close(b[1]); pr[p].to = a[1]; pr[p].from = b[0]; pr[p].pid = pid; }
    vector<string> names = {"n1", "n2", "n3", "N1", "", "a name that is exactly 31 chars", "a name that is exactly 31 charsX", "a name that is exactly 31 charsYY", "default", "n1 ", "x,y", "%s%n", "n8", "n9"};
    auto fin = [&](int p) { for (auto it = model.begin(); it != model.end(); ) { it->second.erase(p); if (it->second.empty()) it = model.erase(it); else ++it; } pr[p].on = false; pr[p].in_def = false; pr[p].known.clear(); };
    auto H = [&](const char *f, ...) { char b[200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); hist.push_back(b); };
    for (int i = 0; i < ops && sh->viol < 5; i++) {
        int p = rnd(&R, P); Proc &q = pr[p]; evals++;
        if (!q.on) {
            q.bopt = !chance(&R, 1, 12); int id = chance(&R, 1, 4) ? rrange(&R, 1, 2) : 0;
            string o = string("--shm-key=") + key + " --quiet=yes" + (q.bopt ? "" : " --no-barrier") + (id ? " --barrier-id=" + std::to_string(id) : "");
            H("p%d init(id %d%s)", p, id, q.bopt ? "" : " no barrier"); Rep r = call(p, 'I', NULL, 0, o);
            if (r.rc != DLB_SUCCESS) { V("B02/init", "DLB_Init returned %d; %s", r.rc, tailhist().c_str()); return; }
            q.on = true; q.def = id ? "default (id: " + std::to_string(id) + ")" : "default";
            if (q.bopt) { if (model.count(q.def) || (int)model.size() < MAXBAR) { model[q.def].insert(p); q.in_def = true; } else { q.in_def = false; full_names++; } }
            continue;
        }
        int op = rnd(&R, 20);
        if (op == 0) { H("p%d fin", p); Rep r = call(p, 'F', NULL, 0, ""); if (r.rc != DLB_SUCCESS) V("B02/finalize", "DLB_Finalize returned %d; %s", r.rc, tailhist().c_str()); fin(p); continue; }
        if (op < 8) { /* register */
            string nm = names[rnd(&R, names.size())]; int fl = rnd(&R, 3) + (chance(&R, 1, 2) ? 8 : 0); string k = key31(nm);
            H("p%d reg(%s)", p, nm.c_str()); Rep r = call(p, 'R', NULL, fl, nm);
            if (!q.bopt) { if (r.h) V("B02/register-off", "a barrier was registered without --barrier"); sigs.insert("reg/off"); continue; }
            if (k == q.def) { if (r.h) V("B02/register-default", "the default barrier was registered again; %s", tailhist().c_str()); sigs.insert("reg/default"); continue; }
            auto it = model.find(k); bool was = it != model.end() && it->second.count(p);
            if (was) { if (r.h != q.known[k]) V("B02/handle", "registering '%s' again gave another handle; %s", nm.c_str(), tailhist().c_str()); sigs.insert("reg/again"); }
            else if (it != model.end() || (int)model.size() < MAXBAR) {
                if (!r.h) V("B02/register-failed", "registering '%s' failed with %zu of %d barriers in use; %s", nm.c_str(), model.size(), MAXBAR, tailhist().c_str());
                else { sigs.insert(it != model.end() ? "reg/join" : "reg/new"); model[k].insert(p);
                    for (auto &o : model) if (o.first != k) { Rep g = call(p, 'G', NULL, 0, o.first); if (g.h == r.h) V("B02/shared-handle", "'%s' and '%s' have the same handle; %s", nm.c_str(), o.first.c_str(), tailhist().c_str()); }
                    q.known[k] = r.h; }
            } else { full_names++; sigs.insert("reg/full"); if (r.h) V("B02/register-full", "registering '%s' with all the %d barriers in use gave a barrier; %s", nm.c_str(), MAXBAR, tailhist().c_str()); }
            continue;
        }
        if (op < 14) { /* attach, detach */
            bool att = op < 11; bool def = chance(&R, 1, 4) || q.known.empty(); string k; dlb_barrier_t *h = NULL;
            if (!def) { auto it = q.known.begin(); std::advance(it, rnd(&R, q.known.size())); k = it->first; h = it->second; } else k = q.def;
            H("p%d %s(%s)", p, att ? "att" : "det", k.c_str());
            if (!q.bopt) { Rep r = call(p, att ? 'A' : 'D', NULL, 0, ""); if (r.rc != DLB_ERR_NOCOMP) V("B02/off-rc", "without --barrier %s returned %d", att ? "attach" : "detach", r.rc); sigs.insert("att/off"); continue; }
            auto it = model.find(k); bool live = it != model.end(), in = live && it->second.count(p);
            if (!def && !live) { /* stale handle: only if no other barrier took its place */
                bool reused = false; for (auto &m : model) { Rep g = call(p, 'G', NULL, 0, m.first); if (g.h == h) reused = true; }
                if (reused) { hist.pop_back(); q.known.erase(k); continue; } }
            if (!def && live && !in) { Rep g = call(p, 'G', NULL, 0, k); if (g.h != h) { hist.pop_back(); q.known.erase(k); continue; } } /* created again elsewhere */
            Rep r = call(p, att ? 'A' : 'D', h, 0, "");
            if (att) {
                if (in) { if (!eqrc(r.rc, {DLB_ERR_PERM, DLB_NOUPDT}) || (def && r.rc != DLB_ERR_PERM)) V("B02/attach-twice", "attaching twice to '%s' returned %d; %s", k.c_str(), r.rc, tailhist().c_str()); sigs.insert(def ? "att/def/twice" : "att/twice"); }
                else if (live || (def && (int)model.size() < MAXBAR)) { model[k].insert(p); int n = model[k].size(); if (def) q.in_def = true; sigs.insert(string(def ? "att/def/" : "att/") + std::to_string(n));
                    if (r.rc != n) V("B02/attach-count", "attaching to '%s' returned %d, it has %d participants; %s", k.c_str(), r.rc, n, tailhist().c_str()); }
                else if (def) { full_names++; if (r.rc != DLB_ERR_NOMEM) V("B02/attach-full", "attaching to a default barrier that does not fit returned %d", r.rc); sigs.insert("att/def/full"); }
                else { if (r.rc != DLB_ERR_PERM) V("B02/attach-dead", "attaching to '%s', which everybody left, returned %d; %s", k.c_str(), r.rc, tailhist().c_str()); sigs.insert("att/dead"); }
            } else {
                if (in) { model[k].erase(p); int n = model[k].size(); if (!n) model.erase(k); if (def) q.in_def = false; sigs.insert(string(def ? "det/def/" : "det/") + std::to_string(n));
                    if (r.rc != n) V("B02/detach-count", "detaching from '%s' returned %d, %d participants stay; %s", k.c_str(), r.rc, n, tailhist().c_str()); }
                else { if (!eqrc(r.rc, {DLB_ERR_PERM, DLB_NOUPDT})) V("B02/detach-twice", "detaching from '%s' without being attached returned %d; %s", k.c_str(), r.rc, tailhist().c_str()); sigs.insert(def ? "det/def/twice" : "det/twice"); }
            }
            continue;
        }
        /* cross */
        if (!q.bopt) { Rep r = call(p, 'X', NULL, 0, ""); if (r.rc != DLB_ERR_NOCOMP) V("B02/off-rc", "without --barrier DLB_Barrier returned %d", r.rc); continue; }
        { bool def = chance(&R, 1, 3) || q.known.empty(); string k; if (def) k = q.def; else { auto it = q.known.begin(); std::advance(it, rnd(&R, q.known.size())); k = it->first; }
          auto it = model.find(k); bool in = it != model.end() && it->second.count(p);
          if (!in) { if (!def) { bool same = false; for (auto &m : model) { Rep g = call(p, 'G', NULL, 0, m.first); if (g.h == q.known[k]) same = true; } if (same) { q.known.erase(k); continue; } }
              H("p%d cross-out(%s)", p, k.c_str()); Rep r = call(p, 'X', def ? NULL : q.known[k], 0, ""); if (r.rc != DLB_NOUPDT) V("B01/detached", "crossing '%s' without being attached returned %d; %s", k.c_str(), r.rc, tailhist().c_str()); sigs.insert("cross/out"); continue; }
          vector<int> m(it->second.begin(), it->second.end()); for (size_t a = m.size(); a > 1; a--) std::swap(m[a-1], m[rnd(&R, a)]);
          H("cross(%s) by %zu", k.c_str(), m.size()); int times = rrange(&R, 1, 3);
          for (int t = 0; t < times && sh->viol < 5; t++) {
              auto hd = [&](int z) { return pr[z].def == k && pr[z].in_def ? (dlb_barrier_t*)NULL : pr[z].known[k]; };
              for (size_t a = 0; a + 1 < m.size(); a++) { send(m[a], 'X', hd(m[a]), 0, ""); if (chance(&R, 1, 3)) sleepus(rnd(&R, 500)); }
              if (m.size() > 1 && chance(&R, 1, 3)) { usleep(rrange(&R, 200, 4000)); for (size_t a = 0; a + 1 < m.size(); a++) { Rep r; if (recv_(m[a], r, 0)) { V("B01/early-release", "process %d left '%s' (rc %d) before the last of %zu participants entered; %s", m[a], k.c_str(), r.rc, m.size(), tailhist().c_str()); for (auto &z : pr) kill(z.pid, SIGKILL); return; } } }
              send(m.back(), 'X', hd(m.back()), 0, "");
              for (int z : m) { Rep r; if (!recv_(z, r, 30000)) { V("B01/left-behind", "process %d does not leave '%s' although its %zu participants entered; %s", z, k.c_str(), m.size(), tailhist().c_str()); for (auto &y : pr) kill(y.pid, SIGKILL); return; }
                  if (r.rc != DLB_SUCCESS) V("B01/rc", "crossing '%s' returned %d; %s", k.c_str(), r.rc, tailhist().c_str()); }
              crossed++; sigs.insert("cross/" + std::to_string(m.size()) + (def ? "d" : "n"));
          } }
    }
    for (int p = 0; p < P; p++) if (pr[p].on) call(p, 'F', NULL, 0, "");
    for (int p = 0; p < P; p++) { send(p, 'Q', NULL, 0, ""); int st; waitpid(pr[p].pid, &st, 0); close(pr[p].to); close(pr[p].from); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "child status %x\n", st); exit(99); } }
    string f = string("/dev/shm/DLB_barrier_") + key; if (!access(f.c_str(), F_OK)) V("S01/left-behind", "%s still exists", f.c_str());
}

/* ------------------------------------------------------------------ lewi */
static std::atomic<int> cur; static std::atomic<unsigned> cpus;
static void cb_num(int n, void *) { cur = n; }
static void cb_en(int c, void *) { cpus |= 1u << c; }
static void cb_dis(int c, void *) { cpus &= ~(1u << c); }
static void wait_step(int s) { double t = now_s(); while (sh->step < s) { if (now_s() - t > 40) { V("B01/stuck", "no progress at step %d of %d", sh->step.load(), s); _exit(0); } usleep(100); } }
static void lewi_iter(const char *key, int it) {
    bool mask = chance(&R, 1, 2), def = chance(&R, 1, 2), keep = chance(&R, 1, 4), back = chance(&R, 1, 2); int flag = rnd(&R, 3); /* ON OFF RUNTIME */
    int sel = rnd(&R, 4); int lb = rnd(&R, 3); string nm = "bar", opts = string("--shm-key=") + key + " --quiet=yes --lewi --barrier"; if (keep) opts += " --lewi-keep-one-cpu";
    if (lb == 1) opts += " --lewi-barrier=yes"; if (lb == 2) opts += " --no-lewi-barrier";
    const char *s = sel == 0 ? "" : sel == 1 ? "other,bar" : sel == 2 ? "default,other" : "ba,barr"; if (*s) opts += string(" --lewi-barrier-select=") + s;
    bool expect_lend = def ? (sel == 0 ? lb != 2 : sel == 2) : flag == 0 ? true : flag == 1 ? false : sel == 1;
    static const dlb_barrier_flags_t FL[] = {DLB_BARRIER_LEWI_ON, DLB_BARRIER_LEWI_OFF, DLB_BARRIER_LEWI_RUNTIME};
    if (chance(&R, 1, 5) && expect_lend) {} int rounds = rrange(&R, 1, 3); bool pre = chance(&R, 1, 2);
    { char b[300]; snprintf(b, sizeof b, "lewi seed=%s iter=%d %s %s flag=%d '%s'", seedstr.c_str(), it, mask ? "mask" : "classic", def ? "default" : "named", flag, opts.c_str()); cfgs = b; }
    sh->step = 0; sh->got = 0; pinit(&sh->all, 2);
    cpu_set_t avail; sched_getaffinity(0, sizeof avail, &avail); int c4[8], n = 0; for (int c = 0; c < 32 && n < 8; c++) if (CPU_ISSET(c, &avail)) c4[n++] = c;
    if (n < 4) { emit("STAT too_few_cpus=1"); return; }
    int sys = c4[n-1] + 1; pid_t pids[2];
    for (int p = 0; p < 2; p++) { pid_t pid = fork(); if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); mu_testing_set_sys(sys < 4 ? 4 : sys, sys < 4 ? 4 : sys, 1);
        cpu_set_t own, me; CPU_ZERO(&own); CPU_ZERO(&me); unsigned ownb = 0; for (int k = 0; k < 2; k++) { CPU_SET(c4[2*p+k], &own); ownb |= 1u << c4[2*p+k]; } int keptcpu = c4[2*p];
        sched_setaffinity(0, sizeof own, &own);
        int rc = mask ? DLB_Init(0, &own, (opts + " --lewi-affinity=mask").c_str()) : DLB_Init(2, NULL, (opts + " --lewi-affinity=none").c_str());
        if (rc) V("B01/init", "DLB_Init returned %d", rc); cur = 2; cpus = ownb;
        DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_num, NULL); DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, NULL); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, NULL);
        dlb_barrier_t *h = def ? NULL : DLB_BarrierNamedRegister(nm.c_str(), FL[flag]); if (!def && !h) V("B01/register", "register failed");
        pthread_barrier_wait(&sh->all);
        if (pre) for (int k = 0; k < 20; k++) { if (def) DLB_Barrier(); else DLB_BarrierNamed(h); } /* some crossings in a row first */
        pthread_barrier_wait(&sh->all); cur = 2; cpus = ownb; DLB_Reclaim(); cpus = ownb; cur = 2; pthread_barrier_wait(&sh->all);
        for (int r = 0; r < rounds; r++) {
            if (p == 0) {
                sh->step++; rc = def ? DLB_Barrier() : DLB_BarrierNamed(h); if (rc) V("B01/rc", "returned %d", rc);
                if (sh->got % 1000 == 0 && expect_lend) {}
                if (!mask && expect_lend && cur != 2) V("B01/not-back", "after the barrier the process has %d CPUs instead of 2 (%s)", cur.load(), back ? "given back" : "still borrowed");
            } else {
                while (sh->step < 1 + 2 * r) usleep(50);
                usleep(1000); long before = mask ? __builtin_popcount(cpus) : cur.load(); bool got = false; double t = now_s(), lim = expect_lend ? 20 : 0.05;
                while (!got && now_s() - t < lim) { DLB_Borrow(); got = (mask ? __builtin_popcount(cpus) : cur.load()) > before; if (!got) usleep(300); }
                if (expect_lend && !got) V("B01/not-lent", "nothing could be borrowed while a process waits in a barrier with LeWI");
                if (!expect_lend && got) V("B01/lent", "CPUs could be borrowed while a process waits in a barrier without LeWI");
                sh->lent += got; sh->stopped++;
                if (mask && got) { unsigned ex = cpus & ~ownb; if (keep && (ex >> c4[0] & 1) == 1 && 0) {} if (__builtin_popcount(ex) > 2) V("B01/too-many", "borrowed CPUs %x", ex); }
                if (!mask && got) { if (cur > 4) V("B01/too-many", "%d CPUs in use by one process of 4", cur.load()); if (keep && cur > 3) V("B01/keep-one", "the waiting process did not keep one CPU: the other one has %d of 4", cur.load()); }
                if (back || mask) { if (mask) { for (int c = 0; c < 32; c++) if (cpus >> c & 1 && !(ownb >> c & 1)) { DLB_LendCpu(c); cpus &= ~(1u << c); } } else { DLB_Lend(); DLB_Reclaim(); } }
                (void)keptcpu;
                rc = def ? DLB_Barrier() : DLB_BarrierNamed(h); if (rc) V("B01/rc", "returned %d", rc); sh->step++;
            }
            pthread_barrier_wait(&sh->all);
            if (mask && p == 0) { /* its CPUs are its own again: nobody can borrow them */ }
            if (p == 1 && expect_lend) { long before = mask ? __builtin_popcount(cpus) : cur.load(); for (int k = 0; k < 5; k++) DLB_Borrow(); long after = mask ? __builtin_popcount(cpus) : cur.load();
                if (after > before) V("B01/still-lent", "after the barrier CPUs of the process that waited can still be borrowed (%ld -> %ld)", before, after);
                if (!mask) { DLB_Lend(); DLB_Reclaim(); } }
            pthread_barrier_wait(&sh->all);
        }
        DLB_Finalize(); fflush(NULL); _exit(0); } pids[p] = pid; }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { for (pid_t q : pids) kill(q, SIGKILL); fprintf(stderr, "child ended with status %x\n", st); exit(99); } }
    char b[80]; snprintf(b, sizeof b, "lewi/%d%d%d%d%d%d", mask, def, keep, flag, sel, lb); sigs.insert(b); evals++;
    for (const char *m : {"barrier", "lewi", "cpuinfo", "procinfo"}) { string f = string("/dev/shm/DLB_") + m + "_" + key; if (!access(f.c_str(), F_OK)) { V("S01/left-behind", "%s still exists", f.c_str()); unlink(f.c_str()); } }
}

int main(int argc, char **argv) {
    if (argc < 5) return 2; string mode = argv[1]; seedstr = argv[2]; R.s = strtoull(argv[2], 0, 10) * 104729 + 7;
    sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    signal(SIGPIPE, SIG_IGN);
    if (mode == "mp") { int P = atoi(argv[3]), NB = atoi(argv[4]), ph = atoi(argv[5]); char b[100]; snprintf(b, sizeof b, "mp seed=%s procs=%d barriers=%d phases=%d", argv[2], P, NB, ph); cfgs = b;
        mp(P, NB, ph < MAXPH ? ph : MAXPH, argv[6]); evals = sh->crossings + sh->nonmember;
        for (int i = 0; i < 4096; i++) if (sh->sig[i]) emit("SIG mp/%d", i); }
    else if (mode == "seq") { int ops = atoi(argv[3]); for (int k = 0; k < 6 && !sh->viol; k++) seq(ops, argv[4]); }
    else { int n = atoi(argv[3]); for (int i = 0; i < n && !sh->viol; i++) lewi_iter(argv[4], i); }
    emit("STAT evaluations=%ld", evals); emit("STAT crossings=%ld", (long)sh->crossings + crossed); emit("STAT nonmember=%ld", (long)sh->nonmember); emit("STAT attaches=%ld", (long)sh->attaches);
    emit("STAT detaches=%ld", (long)sh->detaches); emit("STAT registers=%ld", (long)sh->registers); emit("STAT waits=%ld", (long)sh->waits); emit("STAT other_barrier_busy=%ld", (long)sh->overlap); emit("STAT full=%ld", full_names);
    emit("STAT lent=%d", sh->lent.load()); emit("STAT lewi_rounds=%d", sh->stopped.load());
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("DONE");
}
