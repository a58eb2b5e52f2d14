/* O02: mask text, set operations, topology relations and orderings against plain std::set definitions.
 * usage: masks SEED ROUNDS            random topologies through mu_testing_set_sys_masks
 *        masks sys SEED ROUNDS DIR    topologies read from a fake /sys written under DIR
 *        masks hw                     topology from hwloc (HWLOC_SYNTHETIC / HWLOC_XMLFILE), expected one in EXPECT
 */
#include "vh.h"
extern "C" {
#include "support/mask_utils.h"
#include "support/debug.h"
}
#include <set>
#include <vector>
#include <string>
#include <map>
#include <algorithm>
#include <sys/stat.h>
#include <dirent.h>

typedef std::set<int> S;
static rng_t R;
static unsigned long evals, longtext;
static std::set<std::string> sigs;
static int viols;
#define V(key, ...) do { if (viols++ < 20) VIOL(key, __VA_ARGS__); } while (0)
static void sig(const std::string &s) { sigs.insert(s); }

static cpu_set_t cs(const S &s) { cpu_set_t c; CPU_ZERO(&c); for (int i : s) CPU_SET(i, &c); return c; }
static S un(const cpu_set_t &c) { S s; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &c)) s.insert(i); return s; }
static std::string str(const S &s) { std::string r; for (int i : s) { if (r.size()) r += ','; r += std::to_string(i); if (r.size() > 300) { r += "..."; break; } } return "{" + r + "}"; }
static S sand(const S &a, const S &b) { S r; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end())); return r; }
static S sor(const S &a, const S &b) { S r = a; r.insert(b.begin(), b.end()); return r; }
static S sub(const S &a, const S &b) { S r; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end())); return r; }
static bool incl(const S &sup, const S &s) { return std::includes(sup.begin(), sup.end(), s.begin(), s.end()); }

static int N;                        /* system size */
static S Sys; static std::vector<S> Core, Node;
static std::vector<int> coreof;

/* random subset of [0,n): dense, sparse, one element, blocks, alternating, pairs, full, empty */
static S rset(int n, int *shape = NULL) {
    S s; int k = rnd(&R, 10); if (shape) *shape = k;
    switch (k) {
        case 0: break;
        case 1: for (int i = 0; i < n; i++) s.insert(i); break;
        case 2: s.insert(rnd(&R, n)); break;
        case 3: for (int i = 0; i < n; i += 2) s.insert(i); break;
        case 4: for (int i = 0; i < n; i++) if (i % 3) s.insert(i); break;
        case 5: { int a = rnd(&R, n), b = a + rnd(&R, n - a); for (int i = a; i <= b; i++) s.insert(i); break; }
        case 6: for (int j = 0; j < 3; j++) { int a = rnd(&R, n), l = rnd(&R, 4); for (int i = a; i <= a + l && i < n; i++) s.insert(i); } break;
        case 7: for (int i : { 0, 31, 32, 63, 64, 65, 127, 128, n - 1 }) if (i < n && chance(&R, 1, 2)) s.insert(i); break;
        case 8: for (int i = 0; i < n; i++) if (chance(&R, 9, 10)) s.insert(i); break;
        default: for (int i = 0; i < n; i++) if (chance(&R, 1, 4)) s.insert(i);
    }
    return s;
}

static cpu_set_t parse(const std::string &t) {
    cpu_set_t m; memset(&m, 0xa5, sizeof m);
    char *p = strdup(t.c_str());      /* exact allocation: an overread is reported by ASan */
    mu_parse_mask(p, &m);
    free(p);
    return m;
}
static void expect_text(const char *form, const std::string &t, const S &want, const S &from) {
    evals++;
    S got = un(parse(t));
    if (got != want) {
        static bool once; if (t.size() > 2047) { if (once) return; once = true; V("O02/long-list", "%s text of %zu characters for a set of %zu CPUs is read as a set of %zu", form, t.size(), from.size(), got.size()); viols--; return; }
        V("O02/text", "%s \"%.200s\" (machine of %d CPUs) denotes %s but is read as %s", form, t.c_str(), N, str(want).c_str(), str(got).c_str());
    }
}

static std::string list_text(const S &s) {      /* some valid list: ranges, singles, degenerate ranges, any order, duplicates */
    std::vector<std::string> parts;
    for (auto it = s.begin(); it != s.end();) {
        int a = *it, b = a; auto j = it; ++j;
        while (j != s.end() && *j == b + 1 && chance(&R, 4, 5)) { b = *j; ++j; }
        if (b > a) parts.push_back(std::to_string(a) + "-" + std::to_string(b));
        else parts.push_back(chance(&R, 1, 6) ? std::to_string(a) + "-" + std::to_string(a) : (chance(&R, 1, 15) ? "0" : "") + std::to_string(a));
        it = j;
    }
    if (chance(&R, 1, 3)) for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[rnd(&R, i)]);
    if (parts.size() && chance(&R, 1, 5)) parts.push_back(parts[rnd(&R, parts.size())]);
    std::string t; for (auto &p : parts) { if (t.size()) t += ","; t += p; }
    return t;
}
static std::string bin_text(const S &s, int width) { std::string t(width, '0'); for (int i : s) if (i < width) t[width - 1 - i] = '1'; return t; }
static std::string hex_text(const S &s, int digits) {
    std::string t; for (int d = digits; d-- > 0;) { int v = 0; for (int b = 0; b < 4; b++) if (s.count(4 * d + b)) v |= 1 << b; t += (chance(&R, 1, 2) ? "0123456789abcdef" : "0123456789ABCDEF")[v]; }
    return t;
}

static void text_round(void) {
    int shape; S s = rset(N, &shape);
    cpu_set_t m = cs(s);
    int hi = s.empty() ? 0 : *s.rbegin();
    char b[64]; snprintf(b, sizeof b, "text/%d/%d", shape, N > 512 ? 3 : N > 64 ? 2 : N == 64 ? 1 : 0); sig(b);
    /* printed forms */
    std::string p = mu_to_str(&m);
    if (p.size() < 2 || p[0] != '[' || p.back() != ']') V("O02/print", "printed as \"%.100s\"", p.c_str());
    else {
        std::string in = p.substr(1, p.size() - 2);
        for (char ch : in) if (!strchr("0123456789,-", ch)) { V("O02/print", "printed as \"%.100s\"", p.c_str()); break; }
        if (!s.empty()) expect_text("printed list", in, s, s); else if (!in.empty()) V("O02/print", "empty set printed as %s", p.c_str());
        size_t cap = in.size() + 3;
        char *q = (char*)malloc(cap); memset(q, 'Z', cap);
        mu_get_quoted_mask(&m, q, cap);
        if (std::string(q, strnlen(q, cap)) != "\"" + in + "\"") V("O02/print", "quoted form %.100s, list %.100s", q, in.c_str());
        free(q);
        for (int j = 0; j < 3; j++) {            /* smaller buffers: terminated, never overrun */
            size_t c2 = rnd(&R, (unsigned)cap); char *r = (char*)malloc(c2 + 1); r[c2] = 'Z';
            mu_get_quoted_mask(&m, r, c2);
            if (r[c2] != 'Z') V("O02/print", "quoted form wrote past %zu bytes", c2);
            if (c2 >= 2 && strnlen(r, c2) == c2) V("O02/print", "quoted form not terminated in %zu bytes", c2);
            free(r); evals++;
        }
    }
    char *sl = mu_parse_to_slurm_format(&m);
    if (!sl) V("O02/print", "no Slurm form"); else { if (!s.empty()) expect_text("Slurm form", sl, s, s); free(sl); }
    /* every documented input form; CPUs beyond the machine are ignored */
    S wide = s; if (chance(&R, 1, 3)) for (int j = 0; j < 3; j++) wide.insert(N + rnd(&R, 200));
    if (!wide.empty()) {
        std::string l = list_text(wide); if (l.size() < 2040) expect_text("list", l, s, s);
        int w = *wide.rbegin() + 1 + (chance(&R, 1, 2) ? (int)rnd(&R, 70) : 0);
        expect_text("binary", (chance(&R, 1, 2) ? "0b" : "0B") + bin_text(wide, w), s, s);
        expect_text("hexadecimal", (chance(&R, 1, 2) ? "0x" : "0X") + hex_text(wide, (w + 3) / 4), s, s);
    }
    if (!s.empty() && hi + 1 >= 2) { std::string t = bin_text(s, hi + 1); std::reverse(t.begin(), t.end()); if (t.size() > 1) expect_text("reversed bitmap", t + (chance(&R, 1, 2) ? "b" : "B"), s, s); }
    /* equivalence */
    S s2 = chance(&R, 1, 2) ? s : rset(N);
    if (!s.empty() && !s2.empty()) {
        std::string a = "0x" + hex_text(s, (N + 3) / 4), c = "0b" + bin_text(s2, N);
        if (mu_equivalent_masks(a.c_str(), c.c_str()) != (s == s2)) V("O02/text", "equivalence of %s and %s wrong", str(s).c_str(), str(s2).c_str());
        evals++;
    }
}

/* malformed text: terminates, no crash, result confined to the machine, deterministic (nothing left uninitialised) */
static void junk_round(void) {
    static const char *al[] = { "0123456789,-", "01b", "0xabcdefABCDEF,", "0123456789,- \t[]\"xbB", "" };
    std::string t; int a = rnd(&R, 5), len = chance(&R, 1, 30) ? 1000 + rnd(&R, 4000) : rnd(&R, 30);
    if (chance(&R, 1, 4)) t = a == 1 ? "0b" : "0x";
    for (int i = 0; i < len; i++) t += a == 4 ? (char)(1 + rnd(&R, 255)) : al[a][rnd(&R, strlen(al[a]))];
    cpu_set_t m1, m2; memset(&m1, 0xff, sizeof m1); memset(&m2, 0x00, sizeof m2);
    char *p = strdup(t.c_str()); mu_parse_mask(p, &m1); mu_parse_mask(p, &m2); free(p);
    evals += 2;
    if (t.empty()) return;
    if (!CPU_EQUAL(&m1, &m2)) V("O02/junk", "text of %zu characters \"%.60s\" leaves the set partly as it was", t.size(), t.c_str());
    else if (!incl(Sys, un(m1)) && (int)Sys.size() == N) V("O02/junk", "\"%.60s\" is read as CPUs outside the machine", t.c_str());
    sig("junk/" + std::to_string(a) + (len > 900 ? "/long" : "/short") + (CPU_COUNT(&m1) ? "/some" : "/none"));
}

static void ops_round(void) {
    int s1, s2; S a = rset(N, &s1), b = rset(N, &s2);
    if (chance(&R, 1, 3)) { b = a; if (chance(&R, 1, 2) && !b.empty()) b.erase(b.begin()); }
    cpu_set_t x = cs(a), y = cs(b), r;
#define OP(name, want) do { CPU_ZERO(&r); name(&r, &x, &y); evals++; if (un(r) != (want)) V("O02/setop", #name " of %s and %s gives %s", str(a).c_str(), str(b).c_str(), str(un(r)).c_str()); \
        r = x; name(&r, &r, &y); if (un(r) != (want)) V("O02/setop", #name " in place of %s and %s gives %s", str(a).c_str(), str(b).c_str(), str(un(r)).c_str()); } while (0)
    OP(mu_and, sand(a, b)); OP(mu_or, sor(a, b)); OP(mu_xor, sub(sor(a, b), sand(a, b))); OP(mu_substract, sub(a, b));
#define PR(e, want) do { evals++; if ((e) != (want)) V("O02/setop", #e " is wrong for %s and %s", str(a).c_str(), str(b).c_str()); } while (0)
    PR(mu_equal(&x, &y), a == b); PR(mu_is_subset(&x, &y), incl(b, a)); PR(mu_is_superset(&x, &y), incl(a, b));
    PR(mu_is_proper_subset(&x, &y), incl(b, a) && a != b); PR(mu_is_proper_superset(&x, &y), incl(a, b) && a != b);
    PR(mu_intersects(&x, &y), !sand(a, b).empty()); PR(mu_count(&x), (int)a.size());
    PR(mu_get_single_cpu(&x), a.size() == 1 ? *a.begin() : -1);
    PR(mu_get_first_cpu(&x), a.empty() ? -1 : *a.begin()); PR(mu_get_last_cpu(&x), a.empty() ? -1 : *a.rbegin());
    r = x; mu_zero(&r); PR(mu_count(&r), 0);
    for (int p = -2; p < N; p++) {
        auto it = a.upper_bound(p); int want = p < -1 || it == a.end() ? -1 : *it, got = mu_get_next_cpu(&x, p);
        if (got != want) { V("O02/iter", "next CPU of %s after %d is %d, expected %d", str(a).c_str(), p, got, want); break; }
        int u = p + 1; while (u < N && a.count(u)) u++;
        int gu = mu_get_next_unset(&x, p);
        if (p >= -1 && u < N && gu != u) { V("O02/iter", "next unset CPU of %s after %d is %d, expected %d", str(a).c_str(), p, gu, u); break; }
        if (p >= -1 && u >= N && gu != -1 && gu < N) { V("O02/iter", "next unset CPU of %s after %d is %d, expected none", str(a).c_str(), p, gu); break; }
        evals += 2;
    }
    char bf[64]; snprintf(bf, sizeof bf, "ops/%d/%d", s1, s2); sig(bf);
}

static void topo_check(const char *what) {
    evals++;
    if (mu_get_system_size() != N) V("O02/topology", "%s: system size %d, expected %d", what, mu_get_system_size(), N);
    cpu_set_t m; memset(&m, 0x5a, sizeof m); mu_get_system_mask(&m);
    if (un(m) != Sys) V("O02/topology", "%s: system mask %s, expected %s", what, str(un(m)).c_str(), str(Sys).c_str());
    if (mu_get_num_cores() != (int)Core.size()) { V("O02/topology", "%s: %d cores, expected %zu", what, mu_get_num_cores(), Core.size()); return; }
    if (mu_get_system_hwthreads_per_core() != (int)Core[0].size()) V("O02/topology", "%s: %d hardware threads per core, expected %zu", what, mu_get_system_hwthreads_per_core(), Core[0].size());
    if (mu_system_has_smt() != (Core[0].size() > 1)) V("O02/topology", "%s: SMT flag wrong", what);
    for (int c = -3; c < N + 70; c++) {
        int id = mu_get_core_id(c), want = c >= 0 && c < N ? coreof[c] : -1;
        if (id != want) { V("O02/topology", "%s: CPU %d is on core %d, expected %d", what, c, id, want); break; }
        const mu_cpuset_t *k = mu_get_core_mask(c);
        if ((k != NULL && k->set != NULL) != (want >= 0)) { V("O02/topology", "%s: CPU %d core mask %s", what, c, k ? "present" : "missing"); break; }
        if (want >= 0) {
            cpu_set_t t; CPU_ZERO(&t); mu_or(&t, &t, k->set);
            if (un(t) != Core[want]) { V("O02/topology", "%s: CPU %d core mask %s, expected %s", what, c, str(un(t)).c_str(), str(Core[want]).c_str()); break; }
            if (k->count != Core[want].size() || k->first_cpuid != *Core[want].begin() || k->last_cpuid != *Core[want].rbegin()) V("O02/topology", "%s: core %d descriptor %d/%d/%d", what, want, k->count, k->first_cpuid, k->last_cpuid);
        }
        evals++;
    }
    for (int c = -2; c < (int)Core.size() + 2; c++) {
        const mu_cpuset_t *k = mu_get_core_mask_by_coreid(c); bool in = c >= 0 && c < (int)Core.size();
        if ((k != NULL) != in) { V("O02/topology", "%s: core %d of %zu has %s mask", what, c, Core.size(), k ? "a" : "no"); break; }
        if (in) { cpu_set_t t; CPU_ZERO(&t); mu_or(&t, &t, k->set); if (un(t) != Core[c]) { V("O02/topology", "%s: core %d mask %s, expected %s", what, c, str(un(t)).c_str(), str(Core[c]).c_str()); break; } }
    }
}

static void topo_round(void) {
    int sh; S a = sand(rset(N, &sh), Sys); cpu_set_t x = cs(a), r;
    S ni, ns, ci, csu; int cc = 0, lastc = -1;
    for (auto &n : Node) { if (!sand(n, a).empty()) ni = sor(ni, n); if (incl(a, n)) ns = sor(ns, n); }
    for (size_t i = 0; i < Core.size(); i++) { auto &c = Core[i]; if (!sand(c, a).empty()) ci = sor(ci, c); if (incl(a, c)) { csu = sor(csu, c); cc++; lastc = (int)i; } }
#define TP(f, want) do { memset(&r, 0xff, sizeof r); f(&r, &x); evals++; if (un(r) != (want)) V("O02/topology", #f " of %s gives %s, expected %s", str(a).c_str(), str(un(r)).c_str(), str(want).c_str()); } while (0)
    TP(mu_get_nodes_intersecting_with_cpuset, ni); TP(mu_get_nodes_subset_of_cpuset, ns);
    TP(mu_get_cores_intersecting_with_cpuset, ci); TP(mu_get_cores_subset_of_cpuset, csu);
    if (mu_count_cores(&x) != cc) V("O02/topology", "%d complete cores in %s, expected %d", mu_count_cores(&x), str(a).c_str(), cc);
    if (mu_get_last_coreid(&x) != lastc) V("O02/topology", "last complete core of %s is %d, expected %d", str(a).c_str(), mu_get_last_coreid(&x), lastc);
    r = x; int tk = mu_take_last_coreid(&r);
    if (tk != lastc || un(r) != (lastc < 0 ? a : sub(a, Core[lastc]))) V("O02/topology", "taking the last core of %s took %d and left %s", str(a).c_str(), tk, str(un(r)).c_str());
    int k = rnd(&R, Core.size());
    r = x; mu_set_core(&r, k); if (un(r) != sor(a, Core[k])) V("O02/topology", "setting core %d in %s gives %s", k, str(a).c_str(), str(un(r)).c_str());
    r = x; mu_unset_core(&r, k); if (un(r) != sub(a, Core[k])) V("O02/topology", "unsetting core %d in %s gives %s", k, str(a).c_str(), str(un(r)).c_str());
    /* next CPU on a later core: first CPU of the mask after prev whose core is greater than prev's */
    for (int j = 0; j < 6; j++) {
        int p = (int)rnd(&R, N + 1) - 1, pc = p < 0 ? -1 : coreof[p], want = -1;
        for (auto it = a.upper_bound(p); it != a.end(); ++it) if (coreof[*it] > pc) { want = *it; break; }
        int got = mu_get_cpu_next_core(&x, p);
        if (got != want) V("O02/topology", "CPU of the next core of %s after %d is %d, expected %d", str(a).c_str(), p, got, want);
        evals++;
    }
    /* orderings */
    std::vector<cpuid_t> v; for (int i : Sys) if (coreof[i] >= 0) v.push_back(i);
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rnd(&R, i)]);
    auto key = [&](int c) { return std::make_pair(coreof[c], c); };
    S own = a; std::vector<cpuid_t> w = v;
    bool cov = !own.empty() && coreof[*own.begin()] >= 0;
    if (cov) {
        auto first = key(*own.begin());
        auto rank = [&](int c) { return std::make_tuple(own.count(c) ? 0 : key(c) > first ? 1 : 2, coreof[c], c); };
        qsort_r(v.data(), v.size(), sizeof(cpuid_t), mu_cmp_cpuids_by_ownership, &x);
        for (size_t i = 0; i + 1 < v.size(); i++) if (rank(v[i]) > rank(v[i + 1])) { V("O02/order", "ordering by ownership of %s puts CPU %d (core %d) before %d (core %d)", str(own).c_str(), v[i], coreof[v[i]], v[i + 1], coreof[v[i + 1]]); break; }
        S l1 = sor(own, ni), l2 = Sys; std::vector<cpu_set_t> aff = { x, cs(l1), cs(l2), cs({}) };
        if (chance(&R, 1, 4)) aff.erase(aff.begin() + 2);
        qsort_r(w.data(), w.size(), sizeof(cpuid_t), mu_cmp_cpuids_by_affinity, aff.data());
        auto rank2 = [&](int c) { int lev = own.count(c) ? 0 : l1.count(c) ? 1 : 2; return std::make_tuple(lev, lev == 1 ? (key(c) > first ? 0 : 1) : 0, coreof[c], c); };
        for (size_t i = 0; i + 1 < w.size(); i++) if (rank2(w[i]) > rank2(w[i + 1])) { V("O02/order", "ordering by affinity to %s puts CPU %d (core %d) before %d (core %d)", str(own).c_str(), w[i], coreof[w[i]], w[i + 1], coreof[w[i + 1]]); break; }
        std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end());
        if (v != w) V("O02/order", "sorting lost a CPU");
        evals += 2;
    }
    char b[64]; snprintf(b, sizeof b, "topo/%d/%d/%zu", sh, (int)std::min<size_t>(Core[0].size(), 4), std::min<size_t>(Node.size(), 5)); sig(b);
}

static void random_topology(bool sys_holes) {
    static const int sizes[] = { 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 66, 96, 127, 128, 129, 192, 256, 257, 300, 512 };
    N = sizes[rnd(&R, sizeof sizes / sizeof *sizes)];
    if (chance(&R, 1, 20)) N = 1024;
    int smt = N == 1 ? 1 : 1 + rnd(&R, std::min(N, 4)), nn = 1 + rnd(&R, std::min(N, 6));
    Core.clear(); Node.clear(); Sys.clear();
    std::vector<int> ids; for (int i = 0; i < N; i++) ids.push_back(i);
    if (sys_holes && chance(&R, 1, 3)) { std::vector<int> k; for (int i : ids) if (i == N - 1 || chance(&R, 4, 5)) k.push_back(i); ids = k; }
    Sys = S(ids.begin(), ids.end());
    int sty = rnd(&R, 3);       /* consecutive siblings, siblings a stride apart, shuffled */
    int nc = ((int)ids.size() + smt - 1) / smt;
    Core.resize(nc);
    if (sty == 2) for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[rnd(&R, i)]);
    for (size_t i = 0; i < ids.size(); i++) Core[sty == 1 ? i % nc : i / smt].insert(ids[i]);
    if (nn > nc) nn = nc;
    Node.resize(nn);
    for (int c = 0; c < nc; c++) { S &n = Node[sty == 1 ? c % nn : c * nn / nc]; n = sor(n, Core[c]); }
    coreof.assign(N, -1); for (int c = 0; c < nc; c++) for (int i : Core[c]) coreof[i] = c;
}

/* ---- fake /sys ---- */
static std::string fake_root;
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __real_fopen64(const char*, const char*);
extern "C" int __real_access(const char*, int);
extern "C" DIR* __real_opendir(const char*);
static std::string redir(const char *p) { return !fake_root.empty() && !strncmp(p, "/sys/", 5) ? fake_root + p : std::string(p); }
extern "C" FILE* __wrap_fopen(const char *p, const char *m) { return __real_fopen(redir(p).c_str(), m); }
extern "C" FILE* __wrap_fopen64(const char *p, const char *m) { return __real_fopen64(redir(p).c_str(), m); }
extern "C" int __wrap_access(const char *p, int m) { return __real_access(redir(p).c_str(), m); }
extern "C" DIR* __wrap_opendir(const char *p) { return __real_opendir(redir(p).c_str()); }
static void put(const std::string &rel, const std::string &text) {
    std::string f = fake_root + "/sys/devices/system/" + rel;
    for (size_t i = fake_root.size() + 1; i < f.size(); i++) if (f[i] == '/') mkdir(f.substr(0, i).c_str(), 0755);
    FILE *o = __real_fopen(f.c_str(), "w"); if (!o) HARNESS_ERROR("cannot write %s", f.c_str()); fputs(text.c_str(), o); fclose(o);
}
static std::string ranges(const S &s) { cpu_set_t m = cs(s); std::string t; for (auto it = s.begin(); it != s.end();) { int a = *it, b = a; while (++it != s.end() && *it == b + 1) b = *it; if (t.size()) t += ","; t += b > a ? std::to_string(a) + "-" + std::to_string(b) : std::to_string(a); } return t + "\n"; }

static void sys_round(const char *dir, int round) {
    do random_topology(false); while (N > 128);
    fake_root = std::string(dir) + "/r" + std::to_string(round);
    mkdir(fake_root.c_str(), 0755);
    /* core ids as machines number them: consecutive, with gaps, per package (repeated), or absent */
    int style = rnd(&R, 5), nc = Core.size(); std::vector<int> cid(nc);
    for (int c = 0, id = 0; c < nc; c++) { cid[c] = style == 0 ? c : style == 1 ? id : style == 2 ? c % std::max(1, nc / 2) : style == 3 ? -1 : 4 * c; id += 1 + (chance(&R, 1, 4) ? 1 + rnd(&R, 6) : 0); }
    put("cpu/present", ranges(Sys));
    for (int c = 0; c < nc; c++) for (int i : Core[c]) {
        put("cpu/cpu" + std::to_string(i) + "/topology/thread_siblings_list", ranges(Core[c]));
        if (cid[c] >= 0) put("cpu/cpu" + std::to_string(i) + "/topology/core_id", std::to_string(cid[c]) + "\n");
    }
    int nstyle = rnd(&R, 3);
    for (size_t n = 0; n < Node.size(); n++) put("node/node" + std::to_string(nstyle == 1 ? 8 * n : n) + "/cpulist", ranges(Node[n]));
    if (nstyle == 2) put("node/node" + std::to_string(Node.size()) + "/cpulist", "\n");       /* memory only node */
    mu_testing_init_nohwloc();
    /* any numbering of the cores is fine: take the one in use, provided it is a permutation */
    std::vector<S> seen; for (int c = 0; c < mu_get_num_cores(); c++) { const mu_cpuset_t *k = mu_get_core_mask_by_coreid(c); cpu_set_t t; CPU_ZERO(&t); if (k && k->set) mu_or(&t, &t, k->set); seen.push_back(un(t)); }
    auto a = seen, b = Core; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) V("O02/sysfs", "%d CPUs, core id style %d: %zu cores found, expected %zu, or different ones", N, style, seen.size(), Core.size());
    else { Core = seen; for (size_t c = 0; c < Core.size(); c++) for (int i : Core[c]) coreof[i] = c; topo_check("from /sys"); for (int i = 0; i < 20; i++) topo_round(); }
    sig("sysfs/" + std::to_string(style) + "/" + std::to_string(nstyle));
    mu_finalize();
    emit("STAT sysfs_topologies=1");
}

static void hw(void) {
    /* EXPECT: "N;core,core,...;node,node" with ranges a-b joined by + */
    std::string e = getenv("EXPECT"); auto set = [](const std::string &t) { S s; size_t i = 0; while (i < t.size()) { size_t j = t.find('+', i); std::string p = t.substr(i, j == std::string::npos ? j : j - i); int a, b; if (sscanf(p.c_str(), "%d-%d", &a, &b) == 2) { for (int k = a; k <= b; k++) s.insert(k); } else s.insert(atoi(p.c_str())); if (j == std::string::npos) break; i = j + 1; } return s; };
    auto split = [](const std::string &t, char c) { std::vector<std::string> r; size_t i = 0; for (;;) { size_t j = t.find(c, i); r.push_back(t.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; } return r; };
    auto f = split(e, ';'); N = atoi(f[0].c_str());
    Core.clear(); Node.clear(); for (auto &c : split(f[1], ',')) Core.push_back(set(c)); for (auto &n : split(f[2], ',')) Node.push_back(set(n));
    Sys.clear(); for (auto &c : Core) Sys = sor(Sys, c);
    coreof.assign(N, -1); for (size_t c = 0; c < Core.size(); c++) for (int i : Core[c]) coreof[i] = c;
    mu_init();
    topo_check("from hwloc"); for (int i = 0; i < 200; i++) topo_round();
    for (int i = 0; i < 100; i++) text_round();
    mu_finalize();
    sig("hwloc/" + e); emit("STAT hwloc_topologies=1");
}

int main(int argc, char **argv) {
    if (argc < 2) return 77;
    stderr = fopen("/dev/null", "w");     /* DLB warnings; the sanitizers use the descriptor */
    if (!strcmp(argv[1], "hw")) { R.s = 1; hw(); }
    else if (!strcmp(argv[1], "sys")) { R.s = strtoull(argv[2], 0, 0); for (int i = 0; i < atoi(argv[3]) && viols < 20; i++) sys_round(argv[4], i); }
    else {
        R.s = strtoull(argv[1], 0, 0);
        for (int i = 0; i < atoi(argv[2]) && viols < 20; i++) {
            random_topology(true);
            cpu_set_t sm = cs(Sys); std::vector<cpu_set_t> cm, nm; for (auto &c : Core) cm.push_back(cs(c)); for (auto &n : Node) nm.push_back(cs(n));
            mu_testing_set_sys_masks(&sm, cm.data(), cm.size(), nm.data(), nm.size());
            topo_check("set");
            for (int j = 0; j < 8 && viols < 20; j++) { text_round(); junk_round(); junk_round(); ops_round(); topo_round(); }
            emit("STAT topologies=1");
            if (chance(&R, 1, 4)) mu_finalize();
        }
    }
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("STAT evaluations=%lu", evals);
    emit("DONE");
}
