/* Sequential LeWI-mask differential harness: random histories of the public (subprocess) API by several
 * processes of one node, compared call by call with a model of CPU assignment (owner, lent/reclaimed state,
 * user), for any machine shape. Callbacks are recorded and compared with the model's.
 * usage: lewi_seq seed ncpus ncores nnodes nprocs nops async(0/1) affinity postmortem(0/1) key */
#include "vh.h"
extern "C" {
#include <dlb_sp.h>
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
int vh_spd_id(void *h);
void shmem_async_wait_for_completion(pid_t pid);
unsigned int shmem_cpuinfo_testing__get_num_proc_requests(void);
unsigned int shmem_cpuinfo_testing__get_num_cpu_requests(int cpuid);
}
#include <dlb_errors.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <mutex>
using std::set; using std::vector; using std::string;

typedef set<int> S;
enum { DIS = 0, BUSY = 1, LENT = 2, UNK = 3 };   /* UNK: owner uses it, busy or lent (both allowed) */
static int N, C, NODES, P;
static bool async_mode; static string aff; static bool postmortem;
static rng_t R;
static bool smt, loose; static const bool dbg = getenv("VH_DBG") != nullptr;

struct Cpu { int owner = -1, st = DIS, guest = -1; std::deque<int> req; };
struct Req { int p; int howmany; S allowed; };
struct Proc { dlb_handler_t h = nullptr; bool alive = false, enabled = false; S mask; int maxpar = 0; int pid; };
static vector<Cpu> cpu;
static vector<Proc> pr;
static std::deque<Req> greq;
static S kept;           /* CPUs whose owner holds or has reclaimed them, by its own calls */
static vector<S> H;                 /* what each process was told to use, from observed events only */

struct Ev { int p; bool en; int c; };
static vector<Ev> evs; static std::mutex evm;
static vector<string> hist; static const int HN = getenv("VH_HIST") ? atoi(getenv("VH_HIST")) : 14;
static bool bad; static const char *seedstr;

static string str(const S &s) { string r; for (int c : s) r += (r.empty() ? "" : ",") + std::to_string(c); return "{" + r + "}"; }
static bool lost;      /* the model no longer follows the library: only the observation-based monitors go on */
static void Vout(const char *tag, const char *key, const string &msg);
static void V(const char *tag, const char *key, const string &msg) { if (lost) return; Vout(tag, key, msg); bad = true; }
static int monviol;
static void Vmon(const char *tag, const char *key, const string &msg) { Vout(tag, key, msg); monviol++; }
static void Vout(const char *tag, const char *key, const string &msg) {
    string tailh; for (size_t i = hist.size() > (size_t)HN ? hist.size() - HN : 0; i < hist.size(); i++) tailh += " ; " + hist[i];
    emit("VIOL %s/%s %s [seed=%s n=%d cores=%d nodes=%d procs=%d %s aff=%s] history:%s", tag, key, msg.c_str(), seedstr, N, C, NODES, P, async_mode ? "async" : "polling", aff.c_str(), tailh.c_str());
}
static void cb_en(int c, void *a) { std::lock_guard<std::mutex> g(evm); evs.push_back({(int)(long)a, true, c}); }
static void cb_dis(int c, void *a) { std::lock_guard<std::mutex> g(evm); evs.push_back({(int)(long)a, false, c}); }

static int core_of(int c) { return c / (N / C); }
static int node_of(int c) { return c / (N / NODES); }
static void core_range(int c, int &a, int &b) { int w = N / C; a = core_of(c) * w; b = a + w; }
static bool core_elig(int p, int c) {
    if (!smt) return cpu[c].owner == p || cpu[c].guest == p || cpu[c].guest < 0;
    int a, b; core_range(c, a, b);
    for (int i = a; i < b; i++) if ((cpu[i].guest != p && cpu[i].guest >= 0) || (cpu[i].st == BUSY && cpu[i].owner != p)) return false;
    return true;
}
static S held(int p) { S r; for (int c = 0; c < N; c++) if (cpu[c].guest == p) r.insert(c); return r; }

/* affinity classes a process may use: 0 own, 1 nearby, 2 rest; -1 never (not before free nodes) */
static int cls(int p, int c) {
    if (pr[p].mask.count(c)) return 0;
    bool near = false; for (int m : pr[p].mask) if (node_of(m) == node_of(c)) near = true;
    if (aff == "mask" || aff == "auto" || aff == "nearby-first") return near ? 1 : 2;
    if (aff == "nearby-only") return near ? 1 : -1;
    return -1;   /* spread-ifempty */
}

/* ---------------- expectations of one call ---------------- */
struct Exp { S en, dis; std::map<int, S> oen, odis; set<int> rcs; bool exact = true; } X;

static int find_guest(int c) {
    if (cpu[c].st == BUSY) return cpu[c].owner;
    if (!async_mode || cpu[c].st == DIS) return -1;
    for (auto it = cpu[c].req.begin(); it != cpu[c].req.end(); ++it) if (core_elig(*it, c)) { int p = *it; cpu[c].req.erase(it); return p; }
    for (auto it = greq.begin(); it != greq.end(); ++it) if (it->allowed.count(c) && core_elig(it->p, c)) {
        int p = it->p; if (--it->howmany == 0) greq.erase(it); return p; }
    return -1;
}
static void exp_en(int self, int p, int c) { if (p == self) X.en.insert(c); else if (async_mode) X.oen[p].insert(c); }
static void grant(int self, int c, int g) { cpu[c].guest = g; if (cpu[c].owner == g && cpu[c].st == LENT) cpu[c].st = UNK; exp_en(self, g, c); }
static set<int> touched; static long reqfull;
static void m_lend(int p, int c) {
    if (cpu[c].owner == p) cpu[c].st = LENT;
    else cpu[c].req.erase(std::remove(cpu[c].req.begin(), cpu[c].req.end(), p), cpu[c].req.end());
    if (cpu[c].guest == p) cpu[c].guest = -1;
    if (loose) {     /* which request is served first is not modelled with whole cores: see adopt() */
        if (cpu[c].guest < 0) { touched.insert(core_of(c)); if (cpu[c].st == BUSY) grant(p, c, cpu[c].owner); }
        return;
    }
    if (cpu[c].guest < 0) {
        int g = find_guest(c);
        if (g >= 0) grant(p, c, g);
        int a, b; core_range(c, a, b);
        for (int i = a; i < b; i++) if (i != c && cpu[i].guest < 0) { int g2 = find_guest(i); if (g2 >= 0) grant(p, i, g2); }
    }
}
/* a CPU keeps a bounded number of requests; once full, new ones are refused (and a reclaimed guest is not queued) */
static bool addreq(int c, int p) { if (cpu[c].req.size() >= 7) { reqfull++; return false; } cpu[c].req.push_back(p); return true; }
/* owner takes back: returns rc */
static int m_reclaim(int p, int c) {
    if (cpu[c].owner != p) return DLB_ERR_PERM;
    cpu[c].st = BUSY;
    if (cpu[c].guest == p) return DLB_NOUPDT;
    X.en.insert(c);
    if (cpu[c].guest < 0) { cpu[c].guest = p; return DLB_SUCCESS; }
    if (async_mode) { int g = cpu[c].guest; X.odis[g].insert(c); cpu[c].guest = p; addreq(c, g); }
    return DLB_NOTED;
}
static bool can_borrow(int p, int c) { return cpu[c].guest < 0 && core_elig(p, c) && (cpu[c].owner == p || cpu[c].st == LENT); }
static void m_borrow(int p, int c) { if (cpu[c].owner == p) cpu[c].st = BUSY; cpu[c].guest = p; X.en.insert(c); }
static int worse(int a, int b) { return a == DLB_NOTED || b == DLB_NOTED ? DLB_NOTED : (a == DLB_SUCCESS || b == DLB_SUCCESS) ? DLB_SUCCESS : DLB_NOUPDT; }

/* what the call actually enabled for the caller (from callbacks) */
static S obs_en, obs_dis; static std::map<int, S> obs_oen, obs_odis;
static void collect(int p) {
    if (async_mode) for (int q = 0; q < P; q++) if (pr[q].alive) shmem_async_wait_for_completion(pr[q].pid);
    obs_en.clear(); obs_dis.clear(); obs_oen.clear(); obs_odis.clear();
    std::lock_guard<std::mutex> g(evm);
    for (auto &e : evs) {
        if (e.c < 0 || e.c >= N) { V("L03", "cpu-out-of-range", "callback for CPU " + std::to_string(e.c)); continue; }
        S &s = e.p == p ? (e.en ? obs_en : obs_dis) : (e.en ? obs_oen[e.p] : obs_odis[e.p]);
        if (!s.insert(e.c).second) V(e.p == p ? "L03" : "L04", "duplicate-callback", "process " + std::to_string(e.p) + " told twice to " + (e.en ? "enable " : "disable ") + std::to_string(e.c));
    }
    if (async_mode) for (auto &e : evs) {
        /* orders in which a process learns about its CPUs: never enable a CPU already held, never disable one not held */
    }
}
static void gave(int p, int c) { H[p].erase(c); if (cpu[c].owner == p) kept.erase(c); }
/* Observation-only exclusivity monitor. */
static void monitor(int p) {
    std::lock_guard<std::mutex> g(evm);
    for (auto &e : evs) if (!e.en) { H[e.p].erase(e.c); if (e.c >= 0 && e.c < N && cpu[e.c].owner == e.p) kept.erase(e.c); }
    for (auto &e : evs) if (e.en) {
        if (e.c < 0 || e.c >= N) continue;
        if (cpu[e.c].owner < 0 && !postmortem) Vmon("L01", "unregistered-cpu", "process " + std::to_string(e.p) + " was given CPU " + std::to_string(e.c) + " that nobody registered");
        for (int q = 0; q < P; q++) if (q != e.p && H[q].count(e.c) && cpu[e.c].owner != e.p)
            Vmon("L01", "two-users", "CPU " + std::to_string(e.c) + " given to process " + std::to_string(e.p) + " while process " + std::to_string(q) + " uses it and neither owns it... owner " + std::to_string(cpu[e.c].owner));
        H[e.p].insert(e.c);
    }
    evs.clear();
}

/* Whole-core machines, asynchronous mode: every grant seen must answer a pending request on an idle lent CPU of
 * a core that nobody else uses, and no such request may stay unanswered for the cores where CPUs were released. */
static void adopt(int self, const char *op) {
    vector<std::pair<int,int>> got;
    for (int q = 0; q < P; q++) { S &o = q == self ? obs_en : obs_oen[q]; S &e = q == self ? X.en : X.oen[q]; for (int c : o) if (!e.count(c)) got.push_back({q, c}); }
    for (auto &g : got) {
        int q = g.first, c = g.second; Cpu &k = cpu[c];
        if (touched.empty() || !touched.count(core_of(c))) continue;        /* reported by the caller */
        if (k.guest >= 0 || k.st == DIS) { V("L04", "granted-busy", string(op) + ": process " + std::to_string(q) + " was given CPU " + std::to_string(c) + " which is not idle"); continue; }
        auto it = std::find(k.req.begin(), k.req.end(), q); bool ok = false;
        if (it != k.req.end()) { k.req.erase(it); ok = true; }
        else for (auto r = greq.begin(); r != greq.end(); ++r) if (r->p == q && r->allowed.count(c)) { if (--r->howmany == 0) greq.erase(r); ok = true; break; }
        if (!ok) V("L04", "unrequested", string(op) + ": process " + std::to_string(q) + " was given CPU " + std::to_string(c) + " without a pending request for it");
        grant(self, c, q);
    }
    for (auto &g : got) if (touched.count(core_of(g.second)) && !core_elig(g.first, g.second)) V("L04", "split-core", string(op) + ": process " + std::to_string(g.first) + " was given CPU " + std::to_string(g.second) + " of a core that another process uses");
    for (int k : touched) for (int c = 0; c < N; c++) if (core_of(c) == k && cpu[c].guest < 0 && cpu[c].st == LENT) {
        for (int q : cpu[c].req) if (core_elig(q, c)) V("L04", "unserved", string(op) + ": process " + std::to_string(q) + " waits for CPU " + std::to_string(c) + ", which is left idle");
        for (auto &r : greq) if (r.allowed.count(c) && core_elig(r.p, c)) V("L04", "unserved", string(op) + ": process " + std::to_string(r.p) + " waits for CPUs in " + str(r.allowed) + ", CPU " + std::to_string(c) + " is left idle");
    }
    touched.clear();
}

static void settle(int p, int rc, const char *op, const char *tag) {
    if (loose) adopt(p, op);
    if (!X.rcs.empty() && !X.rcs.count(rc)) {
        string want; for (int r : X.rcs) want += std::to_string(r) + " ";
        V(tag, (string("rc-") + op).c_str(), string(op) + " returned " + std::to_string(rc) + ", expected " + want + (obs_en.empty() ? "" : "enabled " + str(obs_en)));
    }
    if (obs_en != X.en) V(tag, (string("enabled-") + op).c_str(), string(op) + " enabled " + str(obs_en) + ", expected " + str(X.en));
    if (obs_dis != X.dis) V(tag, (string("disabled-") + op).c_str(), string(op) + " disabled " + str(obs_dis) + ", expected " + str(X.dis));
    for (int q = 0; q < P; q++) if (q != p) {
        if (obs_oen[q] != X.oen[q]) V(async_mode ? "L04" : "L01", "other-enabled", string(op) + ": process " + std::to_string(q) + " told to enable " + str(obs_oen[q]) + ", expected " + str(X.oen[q]));
        if (obs_odis[q] != X.odis[q]) V(async_mode ? "L02" : "L01", "other-disabled", string(op) + ": process " + std::to_string(q) + " told to disable " + str(obs_odis[q]) + ", expected " + str(X.odis[q]));
    }
    monitor(p);
}

static void to_cs(const S &s, cpu_set_t *m) { CPU_ZERO(m); for (int c : s) CPU_SET(c, m); }
static S rand_set(unsigned num, unsigned den) { S s; for (int c = 0; c < N; c++) if (chance(&R, num, den)) s.insert(c); return s; }
static S rand_mask() {
    switch (rnd(&R, 4)) {
        case 0: return rand_set(1, 4);
        case 1: return rand_set(3, 4);
        case 2: { S s; int a = rnd(&R, N), b = rnd(&R, N); for (int c = std::min(a, b); c <= std::max(a, b); c++) s.insert(c); return s; }
        default: return S{(int)rnd(&R, N)};
    }
}
/* distribute `n` over cores/CPUs picked in class order; returns error text if `got` is not a correct choice */
static string check_choice(int p, const S &cand, const S &got, int n, bool classes) {
    /* cand: CPUs individually available (already expanded to what whole cores deliver) */
    for (int c : got) if (!cand.count(c)) return "took CPU " + std::to_string(c) + " which was not available to it";
    int w = smt ? N / C : 1;
    std::map<int, S> units; for (int c : cand) units[core_of(c)].insert(c);
    std::map<int, S> taken; for (int c : got) taken[core_of(c)].insert(c);
    for (auto &t : taken) if (t.second != units[t.first]) return "took part of a core";
    (void)w;
    size_t tot = cand.size();
    if (got.size() < std::min<size_t>(tot, n < 0 ? 0 : n)) return "took " + std::to_string(got.size()) + " of " + std::to_string(tot) + " available, " + std::to_string(n) + " asked";
    if (n <= 0) { if (!got.empty()) return "took CPUs when none could be asked"; return ""; }
    size_t mx = 0; for (auto &t : taken) mx = std::max(mx, t.second.size());
    if (!got.empty() && got.size() - mx >= (size_t)n) return "took more than asked: " + std::to_string(got.size()) + " > " + std::to_string(n);
    if (classes) {
        auto k = [&](const S &u) { int b = 99; for (int c : u) { int q = cls(p, c); if (q < 0) q = 3; b = std::min(b, q); } return b; };
        int worst = -1, best = 99;
        for (auto &u : units) { if (taken.count(u.first)) worst = std::max(worst, k(u.second)); else best = std::min(best, k(u.second)); }
        if (worst > best) return "preferred a farther CPU while a nearer one was available";
    }
    return "";
}
/* what borrowing the cores that intersect `subset` gives; only idle cpus in `subset` trigger a core */
static S core_take(int p, const S &subset) {
    S r; set<int> done;
    for (int c : subset) {
        if (!smt) { if (can_borrow(p, c)) r.insert(c); continue; }
        int k = core_of(c); if (!done.insert(k).second) continue;
        int a, b; core_range(c, a, b);
        for (int i = a; i < b; i++) { if (can_borrow(p, i)) r.insert(i); else if (cpu[i].guest == p) continue; else break; }
    }
    return r;
}
static S prio(int p, const S *mask) { S r; for (int c = 0; c < N; c++) if (cls(p, c) >= 0 && (!mask || mask->count(c))) r.insert(c); return r; }

static void do_borrow(int p, int n, const S *mask, int rc, const char *op) {
    collect(p);
    X = Exp();
    int lim = n > 0 ? n : N;
    if (pr[p].maxpar > 0) lim = std::min(lim, pr[p].maxpar - (int)held(p).size());
    S sub = prio(p, mask), cand = core_take(p, sub), got1, got2;
    bool spread = aff == "spread-ifempty";
    if (!spread) {
        string e = check_choice(p, cand, obs_en, lim, true);
        if (!e.empty()) V("L03", (string("choice-") + op).c_str(), string(op) + " n=" + std::to_string(n) + " mask=" + (mask ? str(*mask) : "all") + " got " + str(obs_en) + " available " + str(cand) + ": " + e);
    } else {
        /* own CPUs first, then CPUs of NUMA nodes where every CPU is idle */
        S own, oth; for (int c : obs_en) (cand.count(c) ? own : oth).insert(c);
        string e = check_choice(p, cand, own, lim, true);
        if (!e.empty()) V("L03", (string("choice-") + op).c_str(), string(op) + " got " + str(obs_en) + " own available " + str(cand) + ": " + e);
        if (lim > 0) {
            Exp save = X; vector<Cpu> sc = cpu; for (int c : own) m_borrow(p, c);
            S nodes; for (int k = 0; k < NODES; k++) { bool all = true; for (int c = 0; c < N; c++) if (node_of(c) == k && !(cpu[c].guest < 0 && cpu[c].st != BUSY)) all = false;
                if (all) for (int c = 0; c < N; c++) if (node_of(c) == k) nodes.insert(c); }
            S cand2 = core_take(p, nodes);
            cpu = sc; X = save;
            int lim2 = lim - (int)own.size();
            /* a node with unregistered CPUs may or may not count as free: only what is taken must be right */
            for (int c : oth) if (!cand2.count(c)) V("L03", (string("choice-") + op).c_str(), string(op) + " took CPU " + std::to_string(c) + " outside its own and the free nodes " + str(cand2));
            if ((int)oth.size() > std::max(lim2, 0) + (smt ? N / C - 1 : 0)) V("L03", (string("choice-") + op).c_str(), string(op) + " took more than asked");
            S strict; for (int c : cand2) { bool reg = true; for (int d = 0; d < N; d++) if (node_of(d) == node_of(c) && cpu[d].st == DIS) reg = false; if (reg) strict.insert(c); }
            if ((int)oth.size() < std::min<int>(strict.size(), std::max(lim2, 0))) V("L03", (string("choice-") + op).c_str(), string(op) + " left CPUs of free nodes untaken: got " + str(obs_en) + " available " + str(strict));
        } else if (!oth.empty()) V("L03", (string("choice-") + op).c_str(), "took more than asked");
    }
    for (int c : obs_en) m_borrow(p, c);
    X.rcs = {obs_en.empty() ? DLB_NOUPDT : DLB_SUCCESS};
    settle(p, rc, op, "L03");
}

static void do_acquire(int p, int n, const S *mask, int rc, const char *op) {
    collect(p);
    X = Exp();
    int lim = n > 0 ? n : N;
    S sub = prio(p, mask);
    bool capped = false;
    if (pr[p].maxpar > 0) { int room = pr[p].maxpar - (int)held(p).size(); if (room <= 0) { capped = true; lim = 0; } else lim = std::min(lim, room); }
    S oi, on, no;
    for (int c : sub) { if (cpu[c].owner == p) { if (cpu[c].guest < 0) oi.insert(c); else if (cpu[c].guest != p) on.insert(c); } else if (cpu[c].guest < 0) no.insert(c); }
    /* whole cores: owned cores come back entirely */
    auto expand = [&](const S &s, bool idle) { if (!smt) return s; S r; for (int c : s) { int a, b; core_range(c, a, b); for (int i = a; i < b; i++) if (cpu[i].owner == p && cpu[i].guest != p) r.insert(i); } (void)idle; return r; };
    S cand1 = expand(oi, true), cand2 = expand(on, false); for (int c : cand1) cand2.erase(c);
    S got1, got2, got3; for (int c : obs_en) (cand1.count(c) ? got1 : cand2.count(c) ? got2 : got3).insert(c);
    string e = check_choice(p, cand1, got1, lim, false);
    int rem = lim - (int)got1.size();
    if (e.empty() && rem > 0) e = check_choice(p, cand2, got2, rem, false); else if (e.empty() && !got2.empty()) e = "took more than asked";
    rem -= (int)got2.size();
    bool noted = !got2.empty();
    for (int c : got1) if (cpu[c].guest >= 0) noted = true;
    vector<int> reclaimed(got2.begin(), got2.end());
    for (int c : got1) m_reclaim(p, c);
    for (int c : got2) m_reclaim(p, c);
    S cand3 = core_take(p, no);
    if (e.empty()) { if (rem > 0) e = check_choice(p, cand3, got3, rem, true); else if (!got3.empty()) e = "took more than asked " + str(got3); }
    if (!e.empty()) V("L03", (string("choice-") + op).c_str(), string(op) + " n=" + std::to_string(n) + " mask=" + (mask ? str(*mask) : "all") + " got " + str(obs_en) + " own idle " + str(cand1) + " own used " + str(cand2) + " lent " + str(cand3) + " limit " + std::to_string(lim) + ": " + e);
    for (int c : got3) m_borrow(p, c);
    X.en = obs_en;
    rem -= (int)got3.size();
    X.rcs = {noted ? DLB_NOTED : obs_en.empty() ? DLB_NOUPDT : DLB_SUCCESS};
    if (async_mode && !capped && n > 0 && rem > 0) {
        bool found = false;
        for (auto &r : greq) if (r.p == p && r.allowed == sub) { r.howmany += rem; found = true; break; }
        if (!found) greq.push_back({p, rem, sub});
        X.rcs = {DLB_NOTED};
    }
    settle(p, rc, op, "L03");
}

static void cancel(int p, bool owned_too) {
    greq.erase(std::remove_if(greq.begin(), greq.end(), [&](const Req &r) { return r.p == p; }), greq.end());
    for (auto &k : cpu) { (void)owned_too; k.req.erase(std::remove(k.req.begin(), k.req.end(), p), k.req.end()); }
}

static string opts(const char *key) {
    string o = string("--lewi --shm-key=") + key + " --lewi-affinity=" + aff + " --mode=" + (async_mode ? "async" : "polling") + " --quiet=yes --verbose=no";
    if (postmortem) o += " --debug-opts=lend-post-mortem";
    return o;
}
static long nops_done, nconf; static set<string> sigs;

static void start(int p, const char *key) {
    S freec; for (int c = 0; c < N; c++) if (cpu[c].owner < 0) freec.insert(c);
    S m;
    int w = smt ? N / C : 1;
    for (int k = 0; k < N / w; k++) { bool ok = true; for (int i = k * w; i < k * w + w; i++) if (!freec.count(i)) ok = false; if (ok && chance(&R, 2, (unsigned)P + 1)) for (int i = k * w; i < k * w + w; i++) m.insert(i); }
    if (m.empty()) return;
    cpu_set_t cs; to_cs(m, &cs);
    dlb_handler_t h = DLB_Init_sp(0, &cs, opts(key).c_str());
    hist.push_back("p" + std::to_string(p) + "=Init" + str(m));
    if (!h) { V("L03", "init-refused", "Init with free CPUs " + str(m) + " refused"); return; }
    pr[p].h = h; pr[p].alive = true; pr[p].enabled = true; pr[p].mask = m; pr[p].maxpar = 0;
    
    pr[p].pid = vh_spd_id(h);
    for (int c : m) { cpu[c].owner = p; cpu[c].st = BUSY; cpu[c].req.clear(); if (cpu[c].guest < 0) cpu[c].guest = p; }
    int e = 0;
    e |= DLB_CallbackSet_sp(h, dlb_callback_enable_cpu, (dlb_callback_t)cb_en, (void*)(long)p);
    e |= DLB_CallbackSet_sp(h, dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, (void*)(long)p);
    if (e) HARNESS_ERROR("callback registration failed");
    H[p] = m; kept.insert(m.begin(), m.end());  /* its own CPUs, from the start */
    { std::lock_guard<std::mutex> g(evm); evs.clear(); }
}

static void finish(int p) {
    hist.push_back("p" + std::to_string(p) + ".Finalize");
    X = Exp();
    cancel(p, false);
    for (int c = 0; c < N; c++) {
        if (cpu[c].owner == p) {
            kept.erase(c);
            if (postmortem) { m_lend(p, c); }
            else { if (async_mode && cpu[c].guest >= 0 && cpu[c].guest != p) X.odis[cpu[c].guest].insert(c);
                   /* the user of a finalized owner's CPU keeps it in polling mode until it returns or lends it */
                   if (async_mode) cpu[c].guest = -1;
                   if (cpu[c].guest == p) cpu[c].guest = -1;
                   cpu[c].st = DIS; cpu[c].req.clear(); }
            cpu[c].owner = -1;
        } else if (cpu[c].guest == p) m_lend(p, c);
    }
    int rc = DLB_Finalize_sp(pr[p].h);
    if (rc != DLB_SUCCESS) V("L03", "rc-Finalize", "Finalize returned " + std::to_string(rc));
    pr[p].alive = false; pr[p].h = nullptr;
    bool last = true; for (auto &q : pr) if (q.alive) last = false;
    if (last) { for (auto &k : cpu) k = Cpu(); greq.clear(); }     /* the shared memory is gone */
    collect(p);
    X.en = obs_en; X.dis = obs_dis;      /* orders to a process that is leaving are not checked */
    H[p].clear();
    { std::lock_guard<std::mutex> g(evm); evs.erase(std::remove_if(evs.begin(), evs.end(), [&](const Ev &e) { return e.p == p; }), evs.end()); }
    settle(p, rc, "Finalize", "L02");
    H[p].clear();
}

static void check_avail(int p, int c) {
    X = Exp();
    int rc = DLB_CheckCpuAvailability_sp(pr[p].h, c);
    collect(p);
    Cpu &k = cpu[c];
    if (k.owner != p && k.st == UNK) X.rcs = {DLB_ERR_PERM, DLB_NOTED};
    else if (k.owner != p && (k.st == BUSY || k.st == DIS)) X.rcs = {DLB_ERR_PERM};
    else if (k.guest == p) X.rcs = {DLB_SUCCESS};
    else if (k.guest < 0) { X.rcs = {DLB_SUCCESS}; k.guest = p; if (k.owner == p) k.st = UNK; }
    else if (k.owner == p && k.st == LENT) X.rcs = {DLB_NOUPDT};
    else X.rcs = {DLB_NOTED};
    if (rc == DLB_SUCCESS && k.owner != p) {
        if (k.owner >= 0 && kept.count(c)) Vmon("L02", "owner-lost", "process " + std::to_string(p) + " is told that CPU " + std::to_string(c) + " is available although its owner took it back");
        for (int q = 0; q < P; q++) if (q != p && H[q].count(c)) Vmon("L01", "two-users", "process " + std::to_string(p) + " is told that CPU " + std::to_string(c) + " is available while process " + std::to_string(q) + " uses it");
    }
    if (rc == DLB_SUCCESS) H[p].insert(c);
    settle(p, rc, "CheckCpuAvailability", k.owner != p ? "L02" : "L03");
}

static void step(int p) {
    dlb_handler_t h = pr[p].h;
    int op = rnd(&R, 30);
    int c = rnd(&R, N); S m = rand_mask(); int n = rrange(&R, -1, N + 1);
    if (chance(&R, 1, 2)) n = rrange(&R, 1, 3);
    cpu_set_t cs; to_cs(m, &cs);
    string nm;
    auto rec = [&](const string &s) { hist.push_back("p" + std::to_string(p) + "." + s); };
    X = Exp();
    int rc;
    if (!pr[p].enabled) {
        /* everything but Enable must answer 'disabled' and change nothing */
        switch (rnd(&R, 8)) {
            case 0: rec("Lend"); rc = DLB_Lend_sp(h); break;
            case 1: rec("ReclaimCpu"); rc = DLB_ReclaimCpu_sp(h, c); break;
            case 2: rec("Borrow"); rc = DLB_Borrow_sp(h); break;
            case 3: rec("AcquireCpus"); rc = DLB_AcquireCpus_sp(h, 2); break;
            case 4: rec("Return"); rc = DLB_Return_sp(h); break;
            case 5: rec("LendCpuMask"); rc = DLB_LendCpuMask_sp(h, &cs); break;
            default:
                rec("Enable"); rc = DLB_Enable_sp(h); collect(p); X.rcs = {DLB_SUCCESS}; settle(p, rc, "Enable", "L02"); pr[p].enabled = true; return;
        }
        collect(p); X.rcs = {DLB_ERR_DISBLD}; settle(p, rc, "while-disabled", "L03"); return;
    }
    switch (op) {
    case 0: rec("Lend"); for (int i = 0; i < N; i++) gave(p, i); rc = DLB_Lend_sp(h); for (int i = 0; i < N; i++) m_lend(p, i); collect(p); X.rcs = {DLB_SUCCESS}; settle(p, rc, "Lend", "L03"); break;
    case 1: case 2: case 3: { S hh = held(p); if (chance(&R, 3, 4) && !hh.empty()) { auto it = hh.begin(); std::advance(it, rnd(&R, hh.size())); c = *it; }
        bool oob = chance(&R, 1, 40); if (oob) { rec("LendCpu(out)"); rc = DLB_LendCpu_sp(h, N + (int)rnd(&R, 3)); collect(p); X.rcs = {DLB_ERR_PERM}; settle(p, rc, "LendCpu", "L03"); break; }
        rec("LendCpu(" + std::to_string(c) + ")"); gave(p, c); rc = DLB_LendCpu_sp(h, c); m_lend(p, c); collect(p); X.rcs = {DLB_SUCCESS}; settle(p, rc, "LendCpu", "L03"); break; }
    case 4: case 5: case 6: rec("LendCpuMask" + str(m)); for (int i : m) gave(p, i); rc = DLB_LendCpuMask_sp(h, &cs); for (int i : m) m_lend(p, i); collect(p); X.rcs = {DLB_SUCCESS}; settle(p, rc, "LendCpuMask", "L03"); break;
    case 7: { rec("Reclaim"); rc = DLB_Reclaim_sp(h); int e = DLB_NOUPDT; for (int i : pr[p].mask) { if (cpu[i].st == UNK) { continue; } if (cpu[i].owner == p) e = worse(e, m_reclaim(p, i)); }
        collect(p); X.rcs = {e}; settle(p, rc, "Reclaim", "L02"); break; }
    case 8: case 9: { if (chance(&R, 3, 4)) { auto it = pr[p].mask.begin(); std::advance(it, rnd(&R, pr[p].mask.size())); c = *it; }
        rec("ReclaimCpu(" + std::to_string(c) + ")"); rc = DLB_ReclaimCpu_sp(h, c); S others;
        bool was_other = cpu[c].owner == p && cpu[c].guest >= 0 && cpu[c].guest != p;
        int e = m_reclaim(p, c);
        if (was_other && smt && async_mode) { int a, b; core_range(c, a, b); for (int i = a; i < b; i++) if (i != c && cpu[i].guest >= 0 && cpu[i].guest != p) { X.odis[cpu[i].guest].insert(i); int g = cpu[i].guest; cpu[i].guest = cpu[i].st == BUSY ? cpu[i].owner : -1; addreq(i, g); } }
        collect(p); X.rcs = {e}; settle(p, rc, "ReclaimCpu", "L02"); break; }
    case 10: { rec("ReclaimCpus(" + std::to_string(n) + ")"); rc = DLB_ReclaimCpus_sp(h, n); collect(p);
        S cand; for (int i = 0; i < N; i++) if (cpu[i].owner == p && cpu[i].guest != p) cand.insert(i);
        string e = check_choice(p, cand, obs_en, n, false);
        if (!e.empty()) V("L02", "choice-ReclaimCpus", "ReclaimCpus(" + std::to_string(n) + ") got " + str(obs_en) + " lacking " + str(cand) + ": " + e);
        int r = DLB_NOUPDT; for (int i : obs_en) if (i < N) r = worse(r, m_reclaim(p, i)); X.en = obs_en; X.rcs = {r}; settle(p, rc, "ReclaimCpus", "L02"); break; }
    case 11: { rec("ReclaimCpuMask" + str(m)); rc = DLB_ReclaimCpuMask_sp(h, &cs); int e = DLB_NOUPDT; bool foreign = false, lent = false;
        for (int i : m) { if (cpu[i].owner != p) { foreign = true; if (cpu[i].owner >= 0 && cpu[i].st == LENT && cpu[i].guest < 0) lent = true; continue; } if (cpu[i].st == UNK) continue; e = worse(e, m_reclaim(p, i)); }
        collect(p); X.rcs = {e}; if (foreign) X.rcs.insert(DLB_ERR_PERM); if (lent) X.rcs = {DLB_ERR_PERM}; settle(p, rc, "ReclaimCpuMask", "L02"); break; }
    case 12: case 13: { rec("AcquireCpu(" + std::to_string(c) + ")"); rc = DLB_AcquireCpu_sp(h, c); int e;
        if (cpu[c].guest == p) e = DLB_NOUPDT; else if (cpu[c].owner == p) e = m_reclaim(p, c);
        else if (cpu[c].guest < 0 && cpu[c].st == LENT && core_elig(p, c)) { m_borrow(p, c); e = DLB_SUCCESS; }
        else if (cpu[c].st != DIS) { if (async_mode) { e = addreq(c, p) ? DLB_NOTED : DLB_ERR_REQST; } else e = DLB_NOUPDT; }
        else e = DLB_ERR_PERM;
        collect(p); X.rcs = {e}; settle(p, rc, "AcquireCpu", "L03"); break; }
    case 14: case 15: { rec("AcquireCpus(" + std::to_string(n) + ")"); rc = DLB_AcquireCpus_sp(h, n);
        if (n == 0) { cancel(p, true); collect(p); X.rcs = {DLB_SUCCESS}; settle(p, rc, "AcquireCpus0", async_mode ? "L04" : "L03"); }
        else if (n < 0) { collect(p); X.rcs = {DLB_NOUPDT}; settle(p, rc, "AcquireCpus-neg", "L03"); }
        else do_acquire(p, n, nullptr, rc, "AcquireCpus"); break; }
    case 16: rec("AcquireCpuMask" + str(m)); rc = DLB_AcquireCpuMask_sp(h, &cs); do_acquire(p, 0, &m, rc, "AcquireCpuMask"); break;
    case 17: rec("AcquireCpusInMask(" + std::to_string(n) + str(m) + ")"); rc = DLB_AcquireCpusInMask_sp(h, n, &cs); do_acquire(p, n, &m, rc, "AcquireCpusInMask"); break;
    case 18: rec("Borrow"); rc = DLB_Borrow_sp(h); do_borrow(p, 0, nullptr, rc, "Borrow"); break;
    case 19: { rec("BorrowCpu(" + std::to_string(c) + ")"); rc = DLB_BorrowCpu_sp(h, c); collect(p); int e = DLB_NOUPDT; if (can_borrow(p, c)) { m_borrow(p, c); e = DLB_SUCCESS; } X.rcs = {e}; settle(p, rc, "BorrowCpu", "L03"); break; }
    case 20: case 21: n = std::max(n, 1); rec("BorrowCpus(" + std::to_string(n) + ")"); rc = DLB_BorrowCpus_sp(h, n); do_borrow(p, n, nullptr, rc, "BorrowCpus"); break;
    case 22: rec("BorrowCpuMask" + str(m)); rc = DLB_BorrowCpuMask_sp(h, &cs); do_borrow(p, 0, &m, rc, "BorrowCpuMask"); break;
    case 23: n = std::max(n, 1); rec("BorrowCpusInMask(" + std::to_string(n) + str(m) + ")"); rc = DLB_BorrowCpusInMask_sp(h, n, &cs); do_borrow(p, n, &m, rc, "BorrowCpusInMask"); break;
    case 24: case 25: case 26: {
        int kind = op - 24; S tgt;
        if (kind == 0) { rec("Return"); for (int i = 0; i < N; i++) tgt.insert(i); rc = DLB_Return_sp(h); }
        else if (kind == 1) { S hh = held(p); if (chance(&R, 3, 4) && !hh.empty()) { auto it = hh.begin(); std::advance(it, rnd(&R, hh.size())); c = *it; } rec("ReturnCpu(" + std::to_string(c) + ")"); tgt.insert(c); rc = DLB_ReturnCpu_sp(h, c); }
        else { rec("ReturnCpuMask" + str(m)); tgt = m; rc = DLB_ReturnCpuMask_sp(h, &cs); }
        if (async_mode) { collect(p); X.rcs = {DLB_ERR_NOCOMP}; settle(p, rc, "Return", "L03"); break; }
        int e = DLB_NOUPDT; bool perm = kind == 1 && cpu[c].guest != p; bool unsure = false;
        S orphan;
        for (int i : tgt) {
            if (cpu[i].guest != p || cpu[i].owner == p) continue;
            if (cpu[i].st == LENT && core_elig(p, i)) continue;
            if (cpu[i].owner < 0 && kind != 1) { unsure = true; orphan.insert(i); continue; }
            cpu[i].guest = cpu[i].st == BUSY ? cpu[i].owner : -1; X.dis.insert(i); e = DLB_SUCCESS;
        }
        collect(p);
        /* CPUs whose owner is gone may be given up by any Return form */
        if (unsure) for (int i : orphan) if (obs_dis.count(i)) { cpu[i].guest = -1; X.dis.insert(i); e = DLB_SUCCESS; }
        X.rcs = {perm ? DLB_ERR_PERM : e}; settle(p, rc, kind == 0 ? "Return" : kind == 1 ? "ReturnCpu" : "ReturnCpuMask", "L02"); break; }
    case 27: { int mx = rrange(&R, 1, N);
        if (chance(&R, 1, 4)) { rec("UnsetMaxParallelism"); rc = DLB_UnsetMaxParallelism_sp(h); pr[p].maxpar = 0; collect(p); X.rcs = {DLB_SUCCESS}; settle(p, rc, "UnsetMaxParallelism", "L03"); break; }
        if (async_mode) cancel(p, true), DLB_AcquireCpus_sp(h, 0);
        rec("SetMaxParallelism(" + std::to_string(mx) + ")");
        S before = held(p);
        int own = 0; vector<int> g, order;
        S lent;
        for (int i = 0; i < N; i++) { if (cpu[i].owner == p) { if (++own > mx) order.push_back(i); } else if (cpu[i].guest == p) g.push_back(i); }
        for (size_t i = 0; i < g.size(); i++) if (mx < own + (int)i + 1) order.push_back(g[i]);
        lent.insert(order.begin(), order.end());
        rc = DLB_SetMaxParallelism_sp(h, mx); pr[p].maxpar = mx; collect(p);
        for (int i : order) { m_lend(p, i); X.dis.insert(i); }
        X.rcs = {DLB_SUCCESS};
        S must; for (int i : lent) if (before.count(i)) must.insert(i);
        for (int i : must) if (!obs_dis.count(i)) V("L03", "maxpar-not-disabled", "SetMaxParallelism took CPU " + std::to_string(i) + " without a disable callback");
        for (int i : obs_dis) if (!lent.count(i)) V("L03", "maxpar-disabled", "SetMaxParallelism disabled CPU " + std::to_string(i) + " that it keeps");
        X.dis = obs_dis;
        settle(p, rc, "SetMaxParallelism", "L03");
        if ((int)H[p].size() > mx) Vmon("L03", "maxpar", "holds " + str(H[p]) + " after SetMaxParallelism(" + std::to_string(mx) + ")");
        break; }
    case 28: { if (!chance(&R, 1, 4)) { rec("Check(" + std::to_string(c) + ")"); if (smt && !core_elig(p, c)) return; check_avail(p, c); break; }
        rec("Disable"); cancel(p, false);
        S g; for (int i = 0; i < N; i++) if (cpu[i].owner != p && cpu[i].guest == p) g.insert(i);
        for (int i = 0; i < N; i++) if (!pr[p].mask.count(i)) H[p].erase(i);
        rc = DLB_Disable_sp(h); collect(p);
        for (int i = 0; i < N; i++) { if (cpu[i].owner == p) m_reclaim(p, i); else if (cpu[i].guest == p) { m_lend(p, i); X.dis.insert(i); } }
        X.rcs = {DLB_SUCCESS}; settle(p, rc, "Disable", "L02"); pr[p].enabled = false; break; }
    case 29: rec("Check(" + std::to_string(c) + ")"); if (smt && !core_elig(p, c)) return; check_avail(p, c); break;
    }
    for (int q = 0; q < P; q++) if (pr[q].alive && H[q] != held(q) && !bad) {
        /* in polling mode the owner of a reclaimed CPU has been told to enable it already */
        S hh = held(q); S extra; for (int i : H[q]) if (!hh.count(i) && !(cpu[i].owner == q && cpu[i].st == BUSY)) extra.insert(i);
        S miss; for (int i : hh) if (!H[q].count(i)) miss.insert(i);
        if (!extra.empty() || !miss.empty()) V("L01", "told-vs-assigned", "process " + std::to_string(q) + " was told to use " + str(H[q]) + " but is assigned " + str(hh));
    }
    {
        char b[64]; int busy = 0, lent = 0, g = 0; for (auto &k : cpu) { busy += k.st == BUSY; lent += k.st == LENT && k.guest < 0; g += k.guest >= 0 && k.guest != k.owner; }
        snprintf(b, sizeof b, "%d-%d-%d-%d-%d", op, busy > 3 ? 3 : busy, lent > 3 ? 3 : lent, g > 3 ? 3 : g, rc); sigs.insert(b);
    }
    nops_done++;
    if (dbg && async_mode && !bad) {
        for (int i = 0; i < N; i++) if (shmem_cpuinfo_testing__get_num_cpu_requests(i) != cpu[i].req.size()) V("DBG", "reqs", "cpu " + std::to_string(i) + " lib " + std::to_string(shmem_cpuinfo_testing__get_num_cpu_requests(i)) + " model " + std::to_string(cpu[i].req.size()));
        if (shmem_cpuinfo_testing__get_num_proc_requests() != greq.size()) V("DBG", "greqs", "lib " + std::to_string(shmem_cpuinfo_testing__get_num_proc_requests()) + " model " + std::to_string(greq.size()));
    }
}

int main(int argc, char **argv) {
    if (argc < 11) return 77;
    seedstr = argv[1]; R.s = strtoull(argv[1], 0, 10); N = atoi(argv[2]); C = atoi(argv[3]); NODES = atoi(argv[4]); P = atoi(argv[5]);
    int nops = atoi(argv[6]); async_mode = atoi(argv[7]); aff = argv[8]; postmortem = atoi(argv[9]); const char *key = argv[10];
    smt = C < N;
    mu_testing_set_sys(N, C, NODES);
    cpu.resize(N); pr.resize(P); H.resize(P);
    long grants = 0;
    int left = 300;
    for (int i = 0; i < nops && (!lost || left-- > 0) && monviol < 3; i++) {
        if (bad) { lost = true; bad = false; }
        int p = rnd(&R, P);
        if (!pr[p].alive) { if (chance(&R, 1, 2)) start(p, key); continue; }
        if (chance(&R, 1, 150)) { finish(p); continue; }
        step(p);
        grants += obs_en.size(); for (auto &k : obs_oen) grants += k.second.size();
    }
    if (bad) { lost = true; bad = false; }
    /* quiescence: everybody lends what it does not own and reclaims: all get exactly their CPUs */
    if (!bad) {
        for (int p = 0; p < P; p++) if (pr[p].alive) { if (!pr[p].enabled) { DLB_Enable_sp(pr[p].h); pr[p].enabled = true; } if (async_mode) { cancel(p, true); DLB_AcquireCpus_sp(pr[p].h, 0); } }
        for (int p = 0; p < P && !bad; p++) if (pr[p].alive) {
            hist.push_back("p" + std::to_string(p) + ".final-Lend");
            X = Exp(); for (int i = 0; i < N; i++) gave(p, i); int rc = DLB_Lend_sp(pr[p].h); for (int i = 0; i < N; i++) m_lend(p, i); collect(p); X.rcs = {DLB_SUCCESS}; settle(p, rc, "Lend", "L02"); }
        for (int p = 0; p < P && !bad; p++) if (pr[p].alive) {
            hist.push_back("p" + std::to_string(p) + ".final-Reclaim");
            X = Exp(); int rc = DLB_Reclaim_sp(pr[p].h); int e = DLB_NOUPDT; for (int i : pr[p].mask) e = worse(e, m_reclaim(p, i)); collect(p); X.rcs = {e}; settle(p, rc, "Reclaim", "L02");
            if (H[p] != pr[p].mask) Vmon("L02", "quiescence", "after lending and reclaiming, process " + std::to_string(p) + " was told " + str(H[p]) + " instead of its own " + str(pr[p].mask)); }
    }
    for (int p = 0; p < P; p++) if (pr[p].alive) { if (bad) DLB_Finalize_sp(pr[p].h); else finish(p); }
    emit("STAT calls=%ld cpu_grants=%ld histories=1", nops_done, grants);
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("DONE");
    return 0;
}
