/* O03: every container against a model from the C++ library, for random operation histories.
 * usage: cont SEED HISTORIES OPS */
#include "vh.h"
#include "cont.h"
extern "C" {
#include "support/queues.h"
#include "support/gslist.h"
#include "support/gtree.h"
#include "apis/dlb_errors.h"
}
#include <deque>
#include <list>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
#include <cmath>

static rng_t R;
static unsigned long evals, wraps, fulls, rot;
static std::set<std::string> sigs;
static int viols;
#define V(key, ...) do { if (viols++ < 20) VIOL(key, __VA_ARGS__); } while (0)
static void sig(const char *what, size_t n, size_t cap, int rc) {
    char b[96]; snprintf(b, sizeof b, "%s/%s/%d", what, n == 0 ? "empty" : n == 1 ? "one" : n + 1 >= cap ? "full" : n * 2 > cap ? "high" : "low", rc);
    sigs.insert(b);
}

/* ---- circular queue ---- */
static void queue_hist(int which, int ops) {
    const qops_t *o = cont_queue(which);
    void *q = o->make();
    std::deque<item_t> m;
    size_t cap = o->n - 1;
    unsigned long enq = 0;
    int bias = rnd(&R, 3);
    for (int i = 0; i < ops && viols < 20; i++) {
        evals++;
        int op = rnd(&R, 20), nk = 1 + rnd(&R, 5);
        size_t before = m.size();
        if (op < 8 + 2 * bias) {
            item_t it = { (int)rnd(&R, nk), (int)(i + 1) };
            int rc = o->enqueue(q, it);
            if (m.size() == cap) fulls++;
            if ((rc == 0) != (m.size() < cap)) V("O03/queue", "enqueue returned %d with %zu of %zu elements", rc, m.size(), cap);
            if (rc == 0) { m.push_back(it); if (++enq % o->n == 0) wraps++; }
            sig("enqueue", before, cap, rc);
        } else if (op < 13) {
            item_t it = { -1, -1 };
            int rc = o->dequeue(q, &it);
            if ((rc == 0) != !m.empty()) V("O03/queue", "dequeue returned %d with %zu elements", rc, m.size());
            if (!m.empty()) {
                if (it.key != m.front().key || it.val != m.front().val) V("O03/queue", "dequeue gave %d:%d, expected %d:%d", it.key, it.val, m.front().key, m.front().val);
                m.pop_front();
            }
            sig("dequeue", before, cap, rc);
        } else if (op == 13) {
            int k = rnd(&R, nk);
            o->remove(q, k);
            size_t n = m.size();
            m.erase(std::remove_if(m.begin(), m.end(), [k](const item_t &x) { return x.key == k; }), m.end());
            sig("remove", before, cap, (int)std::min<size_t>(n - m.size(), 3));
        } else if (op == 14) {
            item_t it = { (int)rnd(&R, nk), -(i + 1) };
            o->replace(q, it);
            auto f = std::find_if(m.begin(), m.end(), [&](const item_t &x) { return x.key == it.key; });
            if (f != m.end()) *f = it;
            sig("replace", before, cap, f != m.end());
        } else if (op == 15) {
            int k = rnd(&R, nk);
            item_t *p = o->search(q, k);
            auto f = std::find_if(m.begin(), m.end(), [&](const item_t &x) { return x.key == k; });
            if ((p != NULL) != (f != m.end())) V("O03/queue", "search for %d %s", k, p ? "found a removed item" : "missed an item");
            else if (p && p->val != f->val) V("O03/queue", "search returned %d, first match is %d", p->val, f->val);
            sig("search", before, cap, p != NULL);
        } else if (op < 19) {
            if (m.empty()) continue;
            size_t at = rnd(&R, m.size());
            item_t *p = o->front(q);
            for (size_t j = 0; j < at && p; j++) p = o->next(q, p);
            if (!p) { V("O03/queue", "element %zu of %zu not reached with next", at, m.size()); break; }
            o->del(q, p);
            m.erase(m.begin() + at);
            sig("delete", before, cap, at == 0 ? 0 : at + 1 == before ? 2 : 1);
        } else if (chance(&R, 1, 10)) { o->clear(q); m.clear(); }
        /* full comparison */
        if (o->size(q) != m.size()) V("O03/queue", "size %zu, expected %zu (capacity %zu, op %d)", o->size(q), m.size(), cap, op);
        if (o->empty(q) != m.empty()) V("O03/queue", "empty() is %d with %zu elements", o->empty(q), m.size());
        item_t *f = o->front(q), *b = o->back(q);
        if ((f == NULL) != m.empty() || (b == NULL) != m.empty()) V("O03/queue", "front/back NULL-ness wrong with %zu elements", m.size());
        if (f && !m.empty() && f->val != m.front().val) V("O03/queue", "front is %d, expected %d", f->val, m.front().val);
        if (b && !m.empty() && b->val != m.back().val) V("O03/queue", "back is %d, expected %d", b->val, m.back().val);
        size_t n = 0;
        for (item_t *p = f; p && n <= m.size(); p = o->next(q, p), n++)
            if (n < m.size() && (p->val != m[n].val || p->key != m[n].key)) { V("O03/queue", "element %zu is %d:%d, expected %d:%d (after op %d)", n, p->key, p->val, m[n].key, m[n].val, op); break; }
        if (viols == 0 && n != m.size()) V("O03/queue", "iteration visited %zu elements of %zu", n, m.size());
    }
    o->destroy(q);
}

/* ---- lewi request queue ---- */
static void lewi_reqs(int ops) {
    queue_lewi_reqs_t *q = (queue_lewi_reqs_t*)malloc(sizeof *q);
    queue_lewi_reqs_init(q);
    std::map<int, unsigned> m;
    int np = chance(&R, 1, 3) ? 300 : chance(&R, 1, 2) ? 4 : 20;
    for (int i = 0; i < ops && viols < 20; i++) {
        evals++;
        int pid = 1 + rnd(&R, np);
        size_t before = m.size();
        switch (rnd(&R, 6)) {
            case 0: case 1: case 2: {
                unsigned h = chance(&R, 1, 12) ? 0 : 1 + rnd(&R, chance(&R, 1, 2) ? 3 : 40);
                if (chance(&R, 1, 40)) pid = 0;
                int rc = queue_lewi_reqs_push(q, pid, h);
                int exp = pid == 0 ? DLB_NOUPDT : h == 0 || m.count(pid) ? DLB_SUCCESS : m.size() == QUEUE_LEWI_REQS_SIZE - 1 ? DLB_ERR_REQST : DLB_SUCCESS;
                if (rc != exp) V("O03/lewi-reqs", "push(%d,%u) returned %d, expected %d (%zu entries)", pid, h, rc, exp, m.size());
                if (exp == DLB_ERR_REQST) fulls++;
                if (exp == DLB_SUCCESS) { if (h == 0) m.erase(pid); else m[pid] += h; }
                sig("lewi-push", before, QUEUE_LEWI_REQS_SIZE, rc);
                break; }
            case 3: {
                unsigned r = queue_lewi_reqs_remove(q, pid), e = m.count(pid) ? m[pid] : 0;
                if (r != e) V("O03/lewi-reqs", "remove(%d) returned %u, expected %u", pid, r, e);
                m.erase(pid);
                sig("lewi-remove", before, QUEUE_LEWI_REQS_SIZE, e > 0);
                break; }
            default: {
                unsigned n = rnd(&R, chance(&R, 1, 2) ? 8 : 200), maxr = chance(&R, 1, 3) ? 1 + rnd(&R, 5) : 300, nr = 999999;
                std::vector<lewi_request_t> out(maxr);
                unsigned left = queue_lewi_reqs_pop_ncpus(q, n, out.data(), &nr, maxr);
                if (nr > maxr || (nr > m.size())) { V("O03/lewi-reqs", "pop of %u CPUs reports %u grants with %zu requests and room for %u", n, nr, m.size(), maxr); break; }
                unsigned sum = 0; std::map<int, unsigned> g;
                for (unsigned j = 0; j < nr; j++) {
                    sum += out[j].howmany;
                    if (out[j].howmany == 0 || !m.count(out[j].pid) || g.count(out[j].pid) || out[j].howmany > m[out[j].pid])
                        V("O03/lewi-reqs", "grant of %u CPUs to %d, which asked for %u (granted twice: %d)", out[j].howmany, out[j].pid, m.count(out[j].pid) ? m[out[j].pid] : 0, (int)g.count(out[j].pid));
                    g[out[j].pid] = out[j].howmany;
                }
                if (sum + left != n) V("O03/lewi-reqs", "pop of %u CPUs granted %u and left %u", n, sum, left);
                if (maxr >= m.size()) {
                    unsigned lo = ~0u, hi = 0; bool unsat = false;   /* lo: least grant among the unsatisfied */
                    for (auto &p : m) { unsigned x = g.count(p.first) ? g[p.first] : 0; hi = std::max(hi, x); if (x < p.second) { unsat = true; lo = std::min(lo, x); } }
                    if (unsat && left) V("O03/lewi-reqs", "pop of %u CPUs left %u while requests stay unsatisfied", n, left);
                    if (unsat && hi > lo + 1) V("O03/lewi-reqs", "uneven distribution of %u CPUs: one process got %u and an unsatisfied one %u", n, hi, lo);
                }
                for (auto &p : g) { m[p.first] -= p.second; if (m[p.first] == 0) m.erase(p.first); }
                sig("lewi-pop", before, QUEUE_LEWI_REQS_SIZE, (left > 0) * 2 + (nr > 0));
                break; }
        }
        if (queue_lewi_reqs_size(q) != m.size()) V("O03/lewi-reqs", "size %u, expected %zu", queue_lewi_reqs_size(q), m.size());
        for (int p = 0; p <= np; p++) {
            unsigned g = queue_lewi_reqs_get(q, p), e = m.count(p) ? m[p] : 0;
            if (g != e) { V("O03/lewi-reqs", "get(%d) is %u, expected %u", p, g, e); break; }
        }
    }
    free(q);
}

/* ---- process request queue: compared unit by unit, since consecutive requests of one process are merged ---- */
static void proc_reqs(int ops) {
    queue_proc_reqs_t *q = (queue_proc_reqs_t*)malloc(sizeof *q);
    queue_proc_reqs_init(q);
    if (chance(&R, 3, 4)) q->head = q->tail = QUEUE_PROC_REQS_SIZE - 1 - rnd(&R, 20);   /* wrap soon */
    struct E { int pid; unsigned n; };
    std::list<E> m; unsigned long pushed = 0;
    auto allow = [](int pid, int cpu) { return ((pid * 2654435761u) >> (cpu % 16)) & 1; };   /* one mask per process */
    int np = 2 + rnd(&R, 6);
    if (chance(&R, 1, 8)) {   /* fill completely */
        unsigned k = 0; int rc;
        while ((rc = queue_proc_reqs_push(q, 1 + k % 2, 1, NULL)) == DLB_NOTED && k <= QUEUE_PROC_REQS_SIZE) { k++; }
        if (k != QUEUE_PROC_REQS_SIZE - 1 || rc != DLB_ERR_REQST) V("O03/proc-reqs", "a queue of %d slots took %u requests, then %d", QUEUE_PROC_REQS_SIZE, k, rc);
        if (queue_proc_reqs_size(q) != k) V("O03/proc-reqs", "full queue has size %u", queue_proc_reqs_size(q));
        fulls++;
        for (unsigned j = 0; j < k; j++) {
            process_request_t r; queue_proc_reqs_pop(q, &r);
            if (r.pid != (pid_t)(1 + j % 2) || r.howmany != 1) { V("O03/proc-reqs", "request %u popped as pid %d", j, r.pid); break; }
        }
        if (queue_proc_reqs_size(q) != 0) V("O03/proc-reqs", "queue not empty after popping everything");
    }
    for (int i = 0; i < ops && viols < 20; i++) {
        evals++;
        int pid = 1 + rnd(&R, np); size_t before = m.size();
        switch (rnd(&R, 8)) {
            case 0: case 1: case 2: case 3: {
                unsigned h = chance(&R, 1, 15) ? 0 : 1 + rnd(&R, 4);
                cpu_set_t s; CPU_ZERO(&s);
                for (int x = 0; x < 16; x++) if (allow(pid, x)) CPU_SET(x, &s);
                int rc = queue_proc_reqs_push(q, pid, h, &s);
                if (rc != (h ? DLB_NOTED : DLB_SUCCESS)) V("O03/proc-reqs", "push returned %d", rc);
                if (h) { m.push_back({ pid, h }); pushed++; } else m.remove_if([&](E &e) { return e.pid == pid; });
                sig("proc-push", before, 99, rc); break; }
            case 4: queue_proc_reqs_remove(q, pid); m.remove_if([&](E &e) { return e.pid == pid; }); sig("proc-remove", before, 99, 0); break;
            case 5: {
                if (m.empty()) { process_request_t r = {}; queue_proc_reqs_pop(q, &r); if (r.pid) V("O03/proc-reqs", "pop of an empty queue gave pid %d", r.pid); break; }
                process_request_t r = {}; queue_proc_reqs_pop(q, &r);
                if (r.pid != m.front().pid || r.howmany < m.front().n) { V("O03/proc-reqs", "pop gave %d:%u, expected %d:%u", r.pid, r.howmany, m.front().pid, m.front().n); break; }
                for (int x = 0; x < 16; x++) if (!!CPU_ISSET(x, &r.allowed) != !!allow(r.pid, x)) V("O03/proc-reqs", "popped request of %d has a wrong mask", r.pid);
                while (r.howmany && !m.empty() && m.front().pid == r.pid && m.front().n <= r.howmany) { r.howmany -= m.front().n; m.pop_front(); }
                if (r.howmany) V("O03/proc-reqs", "pop gave %u more CPUs than requested", r.howmany);
                sig("proc-pop", before, 99, 0); break; }
            default: {
                int cpu = rnd(&R, 16); pid_t g = -1;
                queue_proc_reqs_get(q, &g, cpu);
                auto it = std::find_if(m.begin(), m.end(), [&](E &e) { return allow(e.pid, cpu); });
                int e = it == m.end() ? 0 : it->pid;
                if (g != e) V("O03/proc-reqs", "get for CPU %d gave %d, expected %d", cpu, g, e);
                if (it != m.end() && --it->n == 0) m.erase(it);
                sig("proc-get", before, 99, e != 0); break; }
        }
    }
    /* drain */
    std::vector<int> a, b;
    for (auto &e : m) for (unsigned j = 0; j < e.n; j++) a.push_back(e.pid);
    for (int k = 0; k < 100000 && queue_proc_reqs_size(q); k++) { process_request_t r = {}; queue_proc_reqs_pop(q, &r); for (unsigned j = 0; j < r.howmany; j++) b.push_back(r.pid); }
    if (a != b) V("O03/proc-reqs", "draining gave %zu units, %zu pending", b.size(), a.size());
    free(q);
}

static void pid_queue(int ops) {
    queue_pids_t q; queue_pids_init(&q);
    std::deque<int> m; std::deque<int> slots;   /* slots includes the holes left by remove */
    for (int i = 0; i < ops && viols < 20; i++) {
        evals++;
        int pid = 1 + rnd(&R, 6); size_t before = m.size();
        switch (rnd(&R, 5)) {
            case 0: case 1: { int rc = queue_pids_push(&q, pid);
                if (rc == DLB_NOTED) m.push_back(pid), slots.push_back(pid);
                else { fulls++; if (rc != DLB_ERR_REQST || slots.size() < QUEUE_PIDS_SIZE - 1) V("O03/pids", "push returned %d with %zu elements", rc, m.size()); }
                if (m.size() > QUEUE_PIDS_SIZE - 1) V("O03/pids", "%zu elements in a queue of %d", m.size(), QUEUE_PIDS_SIZE - 1);
                sig("pids-push", before, QUEUE_PIDS_SIZE, rc); break; }
            case 2: queue_pids_remove(&q, pid); m.erase(std::remove(m.begin(), m.end(), pid), m.end());
                std::replace(slots.begin(), slots.end(), pid, 0); while (!slots.empty() && !slots.front()) slots.pop_front();
                sig("pids-remove", before, QUEUE_PIDS_SIZE, 0); break;
            default: { pid_t p = -1; queue_pids_pop(&q, &p); int e = m.empty() ? 0 : m.front();
                if (p != e) V("O03/pids", "pop gave %d, expected %d", p, e);
                if (!m.empty()) m.pop_front();
                while (!slots.empty() && slots.front() == 0) slots.pop_front();
                if (!slots.empty()) slots.pop_front();
                sig("pids-pop", before, QUEUE_PIDS_SIZE, e != 0); }
        }
        if (queue_pids_size(&q) > slots.size()) V("O03/pids", "size %u with %zu slots in use", queue_pids_size(&q), slots.size());
        if (queue_pids_size(&q) < m.size()) V("O03/pids", "size %u with %zu queued", queue_pids_size(&q), m.size());
    }
}

/* ---- singly linked list ---- */
static void fe(gpointer d, gpointer u) { ((std::vector<intptr_t>*)u)->push_back((intptr_t)d); }
static void slist(int ops) {
    GSList *l = NULL; std::deque<intptr_t> m;
    for (int i = 0; i < ops && viols < 20; i++) {
        evals++;
        intptr_t v = 1 + rnd(&R, 12); size_t before = m.size();
        switch (rnd(&R, 5)) {
            case 0: case 1: l = g_slist_prepend(l, (gpointer)v); m.push_front(v); sig("sl-prepend", before, 99, 0); break;
            case 2: case 3: { l = g_slist_remove(l, (gconstpointer)v); auto f = std::find(m.begin(), m.end(), v); sig("sl-remove", before, 99, f == m.end() ? 0 : f == m.begin() ? 1 : f + 1 == m.end() ? 2 : 3); if (f != m.end()) m.erase(f); break; }
            default: if (chance(&R, 1, 3)) { l = g_slist_reverse(l); std::reverse(m.begin(), m.end()); }
                else if (chance(&R, 1, 40)) { g_slist_free(l); l = NULL; m.clear(); }
        }
        std::vector<intptr_t> got; g_slist_foreach(l, fe, &got);
        if (g_slist_length(l) != m.size() || !std::equal(m.begin(), m.end(), got.begin(), got.end())) V("O03/slist", "list has %u elements, expected %zu, or another order", g_slist_length(l), m.size());
    }
    g_slist_free(l);
}

/* ---- balanced tree ---- */
static unsigned long kfree, vfree;
static std::multiset<intptr_t*> livek, livev;
static intptr_t* mk(std::multiset<intptr_t*> &s, intptr_t v) { intptr_t *p = (intptr_t*)malloc(16); p[0] = v; s.insert(p); return p; }
static void rel(std::multiset<intptr_t*> &s, gpointer p, const char *w) {
    auto f = s.find((intptr_t*)p);
    if (f == s.end()) { V("O03/tree", "%s released twice or never inserted", w); return; }
    s.erase(f); free(p);
}
static void kd(gpointer p) { kfree++; rel(livek, p, "key"); }
static void vd(gpointer p) { vfree++; rel(livev, p, "value"); }
static gint cmp(gconstpointer a, gconstpointer b, gpointer) { intptr_t x = *(const intptr_t*)a, y = *(const intptr_t*)b; return x < y ? -1 : x > y; }
static gint srch(gconstpointer a, gconstpointer u) { intptr_t x = *(const intptr_t*)a, y = *(const intptr_t*)u; return y < x ? -1 : y > x; }
struct FE { std::vector<std::pair<intptr_t, intptr_t>> got; size_t stop; };
static gboolean tfe(gpointer k, gpointer v, gpointer u) { FE *f = (FE*)u; f->got.push_back({ *(intptr_t*)k, *(intptr_t*)v }); return f->got.size() >= f->stop; }
static gboolean tfn(GTreeNode *n, gpointer u) { return tfe(g_tree_node_key(n), g_tree_node_value(n), u); }
static void tree(int ops) {
    livek.clear(); livev.clear();
    GTree *t = g_tree_new_full(cmp, NULL, kd, vd);
    std::map<intptr_t, std::pair<intptr_t*, intptr_t>> m;   /* key -> (key object, value) */
    int nk = chance(&R, 1, 3) ? 8 : chance(&R, 1, 2) ? 60 : 1500, mono = rnd(&R, 4); intptr_t mc = 0;
    for (int i = 0; i < ops && viols < 20; i++) {
        evals++;
        size_t before = m.size();
        intptr_t k = mono == 1 && chance(&R, 3, 4) ? mc++ % nk : mono == 2 && chance(&R, 3, 4) ? nk - (mc++ % nk) : (intptr_t)rnd(&R, nk);
        int op = rnd(&R, 12);
        if (op < 4) { intptr_t *ko = mk(livek, k); bool had = m.count(k); g_tree_insert(t, ko, mk(livev, i)); if (had) m[k].second = i; else m[k] = { ko, i }; sig("t-insert", before, nk, had); }
        else if (op == 4) { intptr_t *ko = mk(livek, k); bool had = m.count(k); g_tree_replace(t, ko, mk(livev, i)); m[k] = { ko, i }; sig("t-replace", before, nk, had); }
        else if (op < 8) { gboolean r = g_tree_remove(t, &k); bool had = m.erase(k); if (!!r != had) V("O03/tree", "remove returned %d, key %spresent", r, had ? "" : "not "); sig("t-remove", before, nk, had); rot++; }
        else if (op == 8) {
            gpointer ok = NULL, ov = NULL; gboolean f = g_tree_lookup_extended(t, &k, &ok, &ov);
            gboolean r = g_tree_steal(t, &k); bool had = m.count(k);
            if (!!r != had || !!f != had) V("O03/tree", "steal returned %d, lookup %d, key %spresent", r, f, had ? "" : "not ");
            if (had && f) { if (livek.count((intptr_t*)ok) == 0 || livev.count((intptr_t*)ov) == 0) V("O03/tree", "steal released what it must not"); else { rel(livek, ok, "key"); rel(livev, ov, "value"); } }
            m.erase(k); sig("t-steal", before, nk, had);
        } else {
            intptr_t *v = (intptr_t*)(op == 9 ? g_tree_lookup(t, &k) : g_tree_search(t, srch, &k)); auto f = m.find(k);
            if ((v != NULL) != (f != m.end()) || (v && *v != f->second.second)) V("O03/tree", "lookup of %ld wrong", (long)k);
            gpointer ok = NULL, ov = NULL; g_tree_lookup_extended(t, &k, &ok, &ov);
            if (f != m.end() && ok != f->second.first) V("O03/tree", "the stored key is not the one last kept");
            sig("t-lookup", before, nk, v != NULL);
        }
        if ((size_t)g_tree_nnodes(t) != m.size()) V("O03/tree", "nnodes %d, expected %zu", g_tree_nnodes(t), m.size());
        if (livek.size() != m.size() || livev.size() != m.size()) V("O03/tree", "%zu keys and %zu values alive for %zu nodes", livek.size(), livev.size(), m.size());
        int h = g_tree_height(t);
        if (h > 1.4405 * std::log2((double)m.size() + 2) + 0.5 || (m.size() && (1u << std::min(h, 30)) <= m.size())) V("O03/tree", "height %d with %zu nodes", h, m.size());
        if (i % 16 == 0 || nk <= 60) {
            FE f; f.stop = chance(&R, 1, 2) ? ~(size_t)0 : 1 + rnd(&R, 10);
            if (chance(&R, 1, 2)) g_tree_foreach(t, tfe, &f); else g_tree_foreach_node(t, tfn, &f);
            size_t n = 0; bool ok = f.got.size() == std::min(f.stop, m.size());
            for (auto &p : m) { if (n >= f.got.size()) break; if (f.got[n].first != p.first || f.got[n].second != p.second.second) { ok = false; break; } n++; }
            if (!ok) V("O03/tree", "foreach visited %zu nodes of %zu in a wrong order or with wrong values", f.got.size(), m.size());
            n = 0; auto it = m.begin();
            for (GTreeNode *p = g_tree_node_first(t); p; p = g_tree_node_next(p), n++) { if (it == m.end() || *(intptr_t*)g_tree_node_key(p) != it->first) { V("O03/tree", "forward iteration wrong at %zu", n); break; } ++it; }
            auto rit = m.rbegin(); size_t n2 = 0;
            for (GTreeNode *p = g_tree_node_last(t); p; p = g_tree_node_previous(p), n2++) { if (rit == m.rend() || *(intptr_t*)g_tree_node_key(p) != rit->first) { V("O03/tree", "backward iteration wrong at %zu", n2); break; } ++rit; }
            if (!viols && (n != m.size() || n2 != m.size())) V("O03/tree", "iterations visited %zu and %zu nodes of %zu", n, n2, m.size());
            FE g; g.stop = ~(size_t)0;
            g_tree_traverse(t, tfe, chance(&R, 1, 2) ? G_PRE_ORDER : G_POST_ORDER, &g);
            std::sort(g.got.begin(), g.got.end());
            if (g.got.size() != m.size() || !std::equal(g.got.begin(), g.got.end(), m.begin(), [](auto &a, auto &b) { return a.first == b.first; })) V("O03/tree", "pre/post-order traversal visited %zu of %zu nodes", g.got.size(), m.size());
        }
    }
    if (chance(&R, 1, 2)) { g_tree_ref(t); g_tree_unref(t); if (livek.size() != m.size()) V("O03/tree", "unref of a referenced tree removed nodes"); }
    g_tree_destroy(t);
    if (livek.size() || livev.size()) V("O03/tree", "%zu keys and %zu values leaked by destroy", livek.size(), livev.size());
}

static void arrays(int ops) {
    size_t cap = 1 + rnd(&R, 50); void *a = arr_new(cap); std::vector<int> m;
    for (int i = 0; i < ops && viols < 20; i++) {
        evals++;
        int op = rnd(&R, 10);
        if (op < 8) { if (m.size() < cap) { int v = (int)rnd(&R, 2000) - 1000; arr_push(a, v); m.push_back(v); } else fulls++; }
        else if (op == 8) { arr_sort(a); std::sort(m.begin(), m.end()); }
        else if (chance(&R, 1, 3)) { arr_clear(a); m.clear(); }
        if (arr_count(a) != m.size()) { V("O03/array", "count %zu, expected %zu", arr_count(a), m.size()); break; }
        for (size_t j = 0; j < m.size(); j++) if (arr_get(a, j) != m[j]) { V("O03/array", "element %zu is %d, expected %d", j, arr_get(a, j), m[j]); break; }
        sig("array", m.size(), cap + 1, op < 8);
    }
    arr_del(a);
    for (int i = 0; i < 6; i++) { size_t n = i == 0 ? 0 : rnd(&R, 200); if (small_arrays(n)) V("O03/small-array", "array of %zu elements lost a value", n); evals++; }
    for (size_t n : { 1u, 2u, 7u, 8u, 9u, 63u, 64u, 65u, 1024u, 1025u }) if (small_arrays(n)) V("O03/small-array", "array of %zu elements lost a value", n);
}

int main(int argc, char **argv) {
    if (argc < 4) return 77;
    R.s = strtoull(argv[1], 0, 0); int hist = atoi(argv[2]), ops = atoi(argv[3]);
    for (int h = 0; h < hist && viols < 20; h++) {
        for (int w = 0; w < 4; w++) queue_hist(w, ops);
        lewi_reqs(ops); proc_reqs(ops); pid_queue(ops); slist(ops); tree(ops * 2); arrays(ops);
    }
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("STAT operations=%lu", evals); emit("STAT queue_wraps=%lu", wraps); emit("STAT full_states=%lu", fulls);
    emit("STAT tree_removals=%lu", rot); emit("STAT key_frees=%lu", kfree);
    emit("DONE");
}
