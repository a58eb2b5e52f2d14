/* O01: options against an independent reading of the documentation.
 * usage: options SEED ROUNDS       random API/environment arguments, Get/Set/Print, on the options module
 *        options api SEED ROUNDS K through DLB_Init/DLB_Init_sp and the public Get/Set/Print calls (shm key K) */
#include "vh.h"
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_sp.h"
#include "apis/dlb_errors.h"
#include "support/options.h"
#include "support/types.h"
}
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <climits>
#include <sys/mman.h>
#include <sys/wait.h>
#include <strings.h>
using std::string; using std::vector;

static rng_t R;
static unsigned long evals, n_invalid, n_unknown, n_over, n_long, n_print, n_set, n_aborts;
static std::set<string> sigs;
static int viols;
static string ctx;
static string printable(const string &s, size_t max = 300) {
    string o; for (unsigned char c : s) { if (o.size() > max) { o += "..."; break; }
        if (c >= 32 && c < 127) o += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } }
    return o; }
#define V(key, ...) do { if (viols++ < 10) { char _m[1500]; snprintf(_m, sizeof _m, __VA_ARGS__); \
    VIOL("O01/" key, "%s [%s]", _m, printable(ctx, 1200).c_str()); } } while (0)

/* ---- the documented options ---- */
enum Ty { BOOL, NEG, INT, STR, PATH, VERB, FMT, INST, DBG, AFF, MODE, MPISET, OMPT, SUM, MODEL, OMPTM };
enum { RO = 1, DEP = 2, HID = 4 };
struct Opt { const char *var, *name, *def; Ty ty; int fl; std::function<string(const options_t&)> get; };

static const vector<string> L_VERB = {"api","microlb","shmem","mpi_api","mpi_intercept","stats","drom","async","ompt","affinity","barrier","talp","instrument"};
static const vector<string> L_FMT = {"node","mpinode","mpirank","spid","thread","timestamp"};
static const vector<string> L_INST = {"mpi","lewi","drom","talp","barrier","ompt","cpus","callbacks"};
static const vector<string> L_DBG = {"return-stolen","werror","lend-post-mortem","warn-mpi-version"};
static const vector<string> L_OMPT = {"borrow","lend"};
static const vector<string> L_SUM = {"pop-metrics","pop-raw","node","process"};
static const vector<string> C_AFF = {"auto","none","mask","nearby-first","nearby-only","spread-ifempty"};
static const vector<string> C_MODE = {"polling","async"};
static const vector<string> C_MPI = {"none","all","barrier","collectives"};
static const vector<string> C_MODEL = {"hybrid-v1","hybrid-v2"};
static const vector<string> C_OMPTM = {"none","omp5","free-agents","role-shift"};

static string join(const std::set<string> &s) { string o = "{"; for (auto &x : s) o += x + ","; return o + "}"; }
static string bits(unsigned v, const vector<std::pair<unsigned, string>> &t) {
    std::set<string> s; for (auto &x : t) if (v & x.first) s.insert(x.second); return join(s); }
static string enumname(int v, const vector<std::pair<int, string>> &t) { for (auto &x : t) if (x.first == v) return x.second; return "?"; }
#define B(f) [](const options_t &o) { return string(o.f ? "yes" : "no"); }
#define NB(f) [](const options_t &o) { return string(o.f ? "no" : "yes"); }
#define I(f) [](const options_t &o) { return std::to_string((long)o.f); }
#define S(f) [](const options_t &o) { return string(o.f); }
static const vector<Opt> T = {
    {"LB_LEWI", "--lewi", "no", BOOL, RO, B(lewi)}, {"LB_DROM", "--drom", "no", BOOL, RO, B(drom)}, {"LB_TALP", "--talp", "no", BOOL, 0, B(talp)},
    {"LB_BARRIER", "--barrier", "yes", BOOL, RO, B(barrier)}, {0, "--ompt", "no", BOOL, RO, B(ompt)},
    {"LB_MODE", "--mode", "polling", MODE, RO, [](const options_t &o) { return enumname(o.mode, {{MODE_POLLING, "polling"}, {MODE_ASYNC, "async"}}); }},
    {0, "--quiet", "no", BOOL, RO, B(quiet)}, {0, "--silent", "no", BOOL, RO, B(silent)},
    {"LB_VERBOSE", "--verbose", "no", VERB, RO, [](const options_t &o) { return bits(o.verbose, {{VB_API, "api"}, {VB_MICROLB, "microlb"}, {VB_SHMEM, "shmem"},
        {VB_MPI_API, "mpi_api"}, {VB_MPI_INT, "mpi_intercept"}, {VB_STATS, "stats"}, {VB_DROM, "drom"}, {VB_ASYNC, "async"}, {VB_OMPT, "ompt"},
        {VB_AFFINITY, "affinity"}, {VB_BARRIER, "barrier"}, {VB_TALP, "talp"}, {VB_INSTR, "instrument"}}); }},
    {"LB_VERBOSE_FORMAT", "--verbose-format", "node:spid", FMT, RO, [](const options_t &o) { return bits(o.verbose_fmt, {{VBF_NODE, "node"}, {VBF_MPINODE, "mpinode"},
        {VBF_MPIRANK, "mpirank"}, {VBF_SPID, "spid"}, {VBF_THREAD, "thread"}, {VBF_TSTAMP, "timestamp"}}); }},
    {0, "--instrument", "all", INST, RO, [](const options_t &o) { return bits(o.instrument, {{INST_MPI, "mpi"}, {INST_LEWI, "lewi"}, {INST_DROM, "drom"}, {INST_TALP, "talp"},
        {INST_BARR, "barrier"}, {INST_OMPT, "ompt"}, {INST_CPUS, "cpus"}, {INST_CBCK, "callbacks"}}); }},
    {0, "--instrument-counters", "no", BOOL, RO, B(instrument_counters)}, {0, "--instrument-extrae-nthreads", "0", INT, RO, I(instrument_extrae_nthreads)},
    {0, "--lewi-keep-one-cpu", "no", BOOL, 0, B(lewi_keep_cpu_on_blocking_call)}, {0, "--lewi-respect-cpuset", "yes", BOOL, 0, B(lewi_respect_cpuset)},
    {0, "--lewi-respect-mask", "yes", BOOL, DEP, B(lewi_respect_cpuset)}, {0, "--lewi-mpi", "no", NEG, DEP, NB(lewi_keep_cpu_on_blocking_call)},
    {0, "--lewi-mpi-calls", "all", MPISET, 0, [](const options_t &o) { return enumname(o.lewi_mpi_calls, {{MPISET_NONE, "none"}, {MPISET_ALL, "all"}, {MPISET_BARRIER, "barrier"}, {MPISET_COLLECTIVES, "collectives"}}); }},
    {0, "--lewi-barrier", "yes", BOOL, RO, B(lewi_barrier)}, {0, "--lewi-barrier-select", "", STR, RO, S(lewi_barrier_select)},
    {0, "--lewi-affinity", "auto", AFF, 0, [](const options_t &o) { return enumname(o.lewi_affinity, {{LEWI_AFFINITY_AUTO, "auto"}, {LEWI_AFFINITY_NONE, "none"}, {LEWI_AFFINITY_MASK, "mask"},
        {LEWI_AFFINITY_NEARBY_FIRST, "nearby-first"}, {LEWI_AFFINITY_NEARBY_ONLY, "nearby-only"}, {LEWI_AFFINITY_SPREAD_IFEMPTY, "spread-ifempty"}}); }},
    {0, "--lewi-ompt", "borrow", OMPT, 0, [](const options_t &o) { return bits(o.lewi_ompt, {{OMPTOOL_OPTS_BORROW, "borrow"}, {OMPTOOL_OPTS_LEND, "lend"}}); }},
    {0, "--lewi-greedy", "no", BOOL, 0, B(lewi_greedy)}, {0, "--lewi-warmup", "no", BOOL, RO, B(lewi_warmup)},
    {0, "--lewi-max-parallelism", "0", INT, RO, I(lewi_max_parallelism)}, {0, "--lewi-color", "0", INT, RO, I(lewi_color)},
    {0, "--talp-openmp", "no", BOOL, RO, B(talp_openmp)}, {0, "--talp-papi", "no", BOOL, RO, B(talp_papi)},
    {"LB_TALP_SUMM", "--talp-summary", "pop-metrics", SUM, RO, [](const options_t &o) { return bits(o.talp_summary, {{SUMMARY_POP_METRICS, "pop-metrics"}, {SUMMARY_POP_RAW, "pop-raw"}, {SUMMARY_NODE, "node"}, {SUMMARY_PROCESS, "process"}}); }},
    {0, "--talp-output-file", "", PATH, RO, [](const options_t &o) { return string(o.talp_output_file ? o.talp_output_file : ""); }},
    {0, "--talp-external-profiler", "no", BOOL, RO, B(talp_external_profiler)}, {0, "--talp-regions-per-proc", "100", INT, RO | DEP, I(talp_regions_per_proc)},
    {0, "--talp-region-select", "", STR, RO, S(talp_region_select)},
    {0, "--talp-model", "hybrid-v2", MODEL, RO, [](const options_t &o) { return enumname(o.talp_model, {{TALP_MODEL_HYBRID_V1, "hybrid-v1"}, {TALP_MODEL_HYBRID_V2, "hybrid-v2"}}); }},
    {0, "--barrier-id", "0", INT, RO, I(barrier_id)}, {"LB_SHM_KEY", "--shm-key", "", STR, RO, S(shm_key)},
    {0, "--shm-size-multiplier", "1", INT, RO, I(shm_size_multiplier)}, {"LB_PREINIT_PID", "--preinit-pid", "0", INT, RO | HID, I(preinit_pid)},
    {0, "--ompt-thread-manager", "none", OMPTM, 0, [](const options_t &o) { return enumname(o.omptm_version, {{OMPTM_NONE, "none"}, {OMPTM_OMP5, "omp5"}, {OMPTM_FREE_AGENTS, "free-agents"}, {OMPTM_ROLE_SHIFT, "role-shift"}}); }},
    {"LB_DEBUG_OPTS", "--debug-opts", "", DBG, 0, [](const options_t &o) { return bits(o.debug_opts, {{DBG_RETURNSTOLEN, "return-stolen"}, {DBG_WERROR, "werror"}, {DBG_LPOSTMORTEM, "lend-post-mortem"}, {DBG_WARNMPI, "warn-mpi-version"}}); }},
};

static vector<string> split(const string &s, const char *seps) {
    vector<string> v; string cur;
    for (char c : s) { if (c && strchr(seps, c)) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) v.push_back(cur); return v; }
static string lower(string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
static const vector<string>& choices(Ty t) {
    static const vector<string> none;
    switch (t) { case VERB: return L_VERB; case FMT: return L_FMT; case INST: return L_INST; case DBG: return L_DBG; case OMPT: return L_OMPT; case SUM: return L_SUM;
        case AFF: return C_AFF; case MODE: return C_MODE; case MPISET: return C_MPI; case MODEL: return C_MODEL; case OMPTM: return C_OMPTM; default: return none; } }
static bool is_list(Ty t) { return t == VERB || t == FMT || t == INST || t == DBG || t == OMPT || t == SUM; }

/* canonical meaning of a text; false: not a value of that type */
static bool meaning(Ty t, const string &s, string &out, vector<string> *unknown = nullptr) {
    string l = lower(s);
    switch (t) {
    case BOOL: case NEG:
        if (l == "1" || l == "yes" || l == "true") { out = "yes"; return true; }
        if (l == "0" || l == "no" || l == "false") { out = "no"; return true; }
        return false;
    case INT: {
        size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        int base = 10; if (i + 1 < s.size() && s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X')) { base = 16; i += 2; } else if (i < s.size() && s[i] == '0') base = 8;
        if (base == 16 && (i >= s.size() || !isxdigit((unsigned char)s[i]))) { base = 8; i -= 1; }
        if (i >= s.size()) return false;
        __int128 v = 0;
        for (; i < s.size(); i++) { int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : isalpha((unsigned char)s[i]) ? tolower(s[i]) - 'a' + 10 : 99;
            if (d >= base) { if (base == 10 && i && isdigit((unsigned char)s[i-1])) break; if (base == 8) break; if (base == 16 && tolower(s[i-1]) != 'x') break; return false; } /* text after a number is ignored */
            v = v * base + d; if (v > (__int128)1 << 70) v = (__int128)1 << 70; }
        if (neg) v = -v; if (v < INT_MIN || v > INT_MAX) return false;
        out = std::to_string((long)v); return true; }
    case STR: case PATH: out = s; return true;
    case AFF: if (l == "any") { out = "mask"; return true; } /* fallthrough */
    case MODE: case MPISET: case MODEL: case OMPTM:
        for (auto &c : choices(t)) if (l == c) { out = c; return true; }
        return false;
    default: {
        std::set<string> r; const auto &c = choices(t);
        auto all = [&] { for (auto &x : c) if (t != SUM || (x != "pop-raw" && x != "node")) r.insert(x); };
        if (s == "yes" && (t == VERB || t == INST)) all();
        else if (s == "yes" && t == SUM) r.insert("pop-metrics");
        else if (s == "no" && (t == INST || t == SUM)) {}
        else for (auto &k : split(s, ":")) {
            if (std::find(c.begin(), c.end(), k) != c.end()) r.insert(k);
            else if (k == "all" && (t == VERB || t == INST || t == SUM)) all();
            else if ((k == "no" && t == VERB) || (k == "none" && (t == INST || t == SUM || t == OMPT))) {}
            else if (k == "app" && t == SUM) r.insert("pop-metrics");
            else if (unknown) unknown->push_back(k);
        }
        out = join(r); return true; }
    }
}
/* what the field holds for that meaning of the option, and back: only lewi-mpi is a negated view of another field, handled by getters */

/* ---- capturing DLB's messages ---- */
static int mfd;
static void cap_start() { fflush(stderr); if (ftruncate(mfd, 0)) {} lseek(mfd, 0, SEEK_SET); }
static string cap_end() { fflush(stderr); off_t n = lseek(mfd, 0, SEEK_CUR); string s(n, 0); if (n && pread(mfd, &s[0], n, 0) != n) s.clear(); return s; }

/* ---- generation ---- */
static string rword(int maxlen) {
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCZ0123456789_-./:,%{}[]()'\"\\#@!~^*";
    int n = rrange(&R, 1, maxlen); string s; for (int i = 0; i < n; i++) s += cs[rnd(&R, sizeof(cs) - 1)]; return s; }
static string rbytes(int maxlen) { int n = rrange(&R, 1, maxlen); string s; for (int i = 0; i < n; i++) { int c; do c = rrange(&R, 1, 255); while (isspace(c) || c == '='); s += (char)c; } return s; }
static string rcase(string s) { for (auto &c : s) if (chance(&R, 1, 2)) c = toupper((unsigned char)c); return s; }
static string good_value(Ty t) {
    char b[64];
    switch (t) {
    case BOOL: case NEG: { static const char *v[] = {"1", "0", "yes", "no", "true", "false"}; string s = v[rnd(&R, 6)]; return chance(&R, 1, 3) ? rcase(s) : s; }
    case INT: { static const long sp[] = {0, 1, -1, 7, 8, 9999999, 12345678, -1234567, INT_MAX, INT_MIN, 99999999, -99999999};
        long v = chance(&R, 1, 2) ? sp[rnd(&R, 12)] : (long)(int32_t)rng_next(&R);
        int k = rnd(&R, 6);
        if (k == 0 && v >= 0) snprintf(b, 64, "0x%lx", v); else if (k == 1 && v >= 0) snprintf(b, 64, "0%lo", v); else if (k == 2 && v >= 0) snprintf(b, 64, "+%ld", v); else snprintf(b, 64, "%ld", v);
        return b; }
    case STR: case PATH: { int k = rnd(&R, 8); int m = t == STR ? MAX_OPTION_LENGTH - 2 : 4000;
        if (k == 0) { string s = rword(m); s.resize(m, 'x'); n_long++; return s; }
        string s = rword(k == 1 ? m / 2 : 20); if (k == 2) s += "=" + rword(10) + "="; if (k == 3) s = "=" + s; return s; }
    default:
        if (!is_list(t)) { string s = choices(t)[rnd(&R, choices(t).size())]; return chance(&R, 1, 4) ? rcase(s) : s; }
        { int k = rnd(&R, 8); if (k == 0 && (t == VERB || t == INST || t == SUM)) return "all"; if (k == 1 && (t == INST || t == SUM || t == OMPT)) return "none";
          if (k == 2 && (t == VERB || t == INST || t == SUM)) return "yes"; if (k == 3 && (t == VERB || t == INST || t == SUM)) return "no";
          string s; int n = k == 4 ? (int)choices(t).size() : rrange(&R, 1, 4);
          for (int i = 0; i < n; i++) { string w = k == 4 ? choices(t)[i] : choices(t)[rnd(&R, choices(t).size())]; if (i) s += ":"; s += w; }
          if (chance(&R, 1, 10)) s = ":" + s + "::"; return s; }
    }
}
static string bad_value(Ty t) {
    static const char *v[] = {"2", "maybe", "yess", "0x", "12abc", "--", "99999999999", "-99999999999", "9223372036854775808", "1e3", "08", "-", "+", "'1'", "all,none", "nearby"};
    if (is_list(t)) { string s = good_value(t); return s + ":" + "zz" + rword(8).substr(0, 3) + "q"; }
    int k = rnd(&R, 20); if (k < 16) return v[k]; if (k == 16) return rbytes(60); if (k == 17) { n_long++; return string(rrange(&R, 60, 9000), 'z'); } return rword(40); }
static const char *WS[] = {" ", " ", " ", "  ", "\t", "\n", " \t ", "\v", "\f", "\r\n"};

struct Src { bool present = false; string text; std::map<int, vector<string>> given; vector<string> unknown, empties; };
static Src gen_src(int maxopt, bool quiet_ok, const vector<int> *only = nullptr) {
    Src s; s.present = true;
    int n = rrange(&R, 0, maxopt);
    if (chance(&R, 1, 3)) s.text += WS[rnd(&R, 10)];
    for (int i = 0; i < n; i++) {
        int k = rnd(&R, 20); string tok;
        if (k == 0) { static const char *u[] = {"--unknown", "--no-unknown", "lewi", "-lewi", "--lewi-", "--no---lewi", "=", "==x", "=--lewi", "--LEWI", "--no-", "--", "-", "--lewi:yes", "--nolewi", "---lewi=yes"};
            tok = chance(&R, 2, 3) ? u[rnd(&R, 16)] : rbytes(30);
            bool known = false; for (auto &o : T) { string nm = o.name; if (tok == nm || tok == "--no-" + nm.substr(2) || tok.compare(0, nm.size() + 1, nm + "=") == 0) known = true; }
            if (known) continue;
            s.unknown.push_back(tok); n_unknown++;
        } else {
            int o = only ? (*only)[rnd(&R, only->size())] : rnd(&R, T.size());
            if (!quiet_ok && (!strcmp(T[o].name, "--silent") || !strcmp(T[o].name, "--debug-opts"))) continue;
            string nm = T[o].name; Ty t = T[o].ty;
            if (k == 1) { tok = nm; s.given[o].push_back("yes"); }
            else if (k == 2) { tok = "--no-" + nm.substr(2); s.given[o].push_back("no"); }
            else if ((t == BOOL || t == NEG) && k < 9) { bool y = chance(&R, 1, 2); tok = y ? nm : "--no-" + nm.substr(2); s.given[o].push_back(y ? "yes" : "no"); }
            else if (k == 10) { tok = nm + "="; s.empties.push_back(nm); }
            else { string v = k == 11 || k == 12 ? bad_value(t) : good_value(t); tok = nm + "=" + v; s.given[o].push_back(v); }
        }
        s.text += tok; s.text += WS[rnd(&R, 10)];
    }
    if (chance(&R, 1, 2)) while (!s.text.empty() && isspace((unsigned char)s.text.back())) s.text.pop_back();
    return s;
}
static bool has_lb(const Opt &o) { return o.var != nullptr; }

/* ---- expectations ---- */
struct Exp { vector<string> ok; bool prefix = false; string full; bool any = false; };
static size_t maxlen(Ty t) { return t == PATH ? PATH_MAX - 1 : MAX_OPTION_LENGTH - 1; }
static string view(const Opt &o, const string &field_of_other) { return field_of_other; }

struct World { Src api, env; std::map<int, string> lb; };
/* expected meaning of every option, plus the names that must be mentioned in the messages */
static void expect(const World &w, vector<Exp> &e, std::set<string> &mention) {
    e.assign(T.size(), Exp());
    for (size_t i = 0; i < T.size(); i++) {
        const Opt &o = T[i];
        auto last = [&](const Src &s, string &v) { auto it = s.given.find(i); if (!s.present || it == s.given.end()) return false; v = it->second.back(); return true; };
        string a, v; bool have = false, ha = last(w.api, a); if (ha) { v = a; have = true; }
        string ev; bool he = last(w.env, ev); if (he) { v = ev; have = true; }
        bool lb = false; if (!have) { auto it = w.lb.find(i); if (it != w.lb.end() && o.var) { v = it->second; have = true; lb = true; } }
        if (ha && he) { n_over++; sigs.insert(string("both/") + o.name); }
        string d; meaning(o.ty, o.def, d);
        string m; vector<string> unk; bool ok = false;
        string used = v;
        if (have && !lb && v.size() >= maxlen(o.ty)) { mention.insert(o.name); used = v.substr(0, maxlen(o.ty) - 1); e[i].prefix = true; e[i].full = v; }
        if (have) { ok = meaning(o.ty, used, m, &unk); if (!ok) { n_invalid++; mention.insert(o.name); }
            if (!e[i].prefix && o.ty != DBG) for (auto &u : unk) mention.insert(u);
            if (o.fl & DEP) mention.insert(o.name);
            sigs.insert(string(o.name) + (he ? (ha ? "/over" : "/env") : ha ? "/api" : "/lb") + (ok ? (unk.empty() ? "/valid" : "/part") : "/bad")); }
        else sigs.insert(string(o.name) + "/default");
        if (ok) { e[i].ok = {m}; if (is_list(o.ty) && e[i].prefix) e[i].any = true; if (lb && (o.ty == STR) && v.size() >= MAX_OPTION_LENGTH) { e[i].prefix = true; e[i].full = v; } }
        else if (!(o.fl & DEP)) { e[i].ok = {d}; e[i].prefix = false;
            string am; if (have && he && ha && meaning(o.ty, a, am)) e[i].ok.push_back(am); } /* default, or the valid API value: both accepted */
        else e[i].any = true; /* deprecated and not given: no value of its own */
    }
    auto idx = [&](const char *n) { for (size_t i = 0; i < T.size(); i++) if (!strcmp(T[i].name, n)) return i; return (size_t)0; };
    /* two deprecated spellings are other names of an option: when valid they take effect on it */
    size_t rm = idx("--lewi-respect-mask"), rc = idx("--lewi-respect-cpuset"), lm = idx("--lewi-mpi"), ko = idx("--lewi-keep-one-cpu");
    if (!e[rm].any) e[rc] = e[rm]; else e[rm] = e[rc];
    auto neg = [](Exp x) { for (auto &s : x.ok) s = s == "yes" ? "no" : "yes"; return x; };
    if (!e[lm].any) e[ko] = neg(e[lm]); else e[lm] = neg(e[ko]);
    (void)view;
}
static bool matches(const Exp &e, const string &got) {
    if (e.any) return true;
    if (e.prefix) return !got.empty() && e.full.compare(0, got.size(), got) == 0 && got.size() >= 32;
    return std::find(e.ok.begin(), e.ok.end(), got) != e.ok.end();
}
static void check_get(const Opt &o, const Exp &e, const string &text, const char *how) {
    evals++;
    string m; vector<string> unk;
    if (!meaning(o.ty, text, m, &unk) || !unk.empty()) { V("unreadable", "%s of %s gives '%s', which is not a value of that option", how, o.name, printable(text).c_str()); return; }
    if (!matches(e, m)) V("value", "%s of %s gives '%s', expected %s", how, o.name, printable(text).c_str(), e.ok.empty() ? printable(e.full).c_str() : printable(e.ok[0]).c_str());
}

/* printed listing: name -> value text */
static std::map<string, string> parse_print(const string &out) {
    std::map<string, string> r; size_t i = 0;
    while ((i = out.find("--", i)) != string::npos) {
        if (i && out[i-1] != '\n') { i += 2; continue; }
        size_t c = i; while (c < out.size() && (isalnum((unsigned char)out[c]) || out[c] == '-')) c++;
        if (c >= out.size() || out[c] != ':') { i += 2; continue; }
        string nm = out.substr(i, c - i); size_t p = c + 1;
        while (p < out.size() && (out[p] == '\t' || out[p] == '\n')) p++;
        size_t q = p; while (q < out.size() && !isspace((unsigned char)out[q])) q++;
        r[nm] = out[p] == ' ' ? "" : out.substr(p, q - p); i = q;
    }
    return r;
}

static void check_mentions(const string &msg, const std::set<string> &mention, const Src &s, const char *who) {
    for (auto &m : mention) if (m.size() < 200 && msg.find(m) == string::npos) V("unreported", "nothing was said about '%s'", printable(m).c_str());
    if (s.present) for (auto &u : s.unknown) if (u.size() < 200 && msg.find(u) == string::npos) V("unreported", "%s: unknown flag '%s' not reported", who, printable(u).c_str());
}
static char* dupexact(const string &s) { char *p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static void set_env(const World &w) {
    unsetenv("DLB_ARGS"); unsetenv("LB_ARGS"); for (auto &o : T) if (o.var) unsetenv(o.var);
    if (w.env.present) setenv(chance(&R, 1, 12) ? "LB_ARGS" : "DLB_ARGS", w.env.text.c_str(), 1);
    for (auto &l : w.lb) if (T[l.first].var) setenv(T[l.first].var, l.second.c_str(), 1);
}

static void round_module() {
    World w; int mx = chance(&R, 1, 8) ? 60 : 10;
    if (chance(&R, 4, 5)) w.api = gen_src(mx, true);
    if (chance(&R, 3, 5)) w.env = gen_src(mx, true);
    if (chance(&R, 1, 4)) for (int k = rrange(&R, 1, 3); k--; ) { int o = rnd(&R, T.size()); if (has_lb(T[o]) && strcmp(T[o].name, "--debug-opts")) w.lb[o] = chance(&R, 1, 4) ? bad_value(T[o].ty) : good_value(T[o].ty); }
    ctx = "api='" + (w.api.present ? w.api.text : "-") + "' env='" + (w.env.present ? w.env.text : "-") + "'";
    for (auto &l : w.lb) ctx += string(" ") + T[l.first].var + "=" + l.second;
    set_env(w);
    vector<Exp> e; std::set<string> mention; expect(w, e, mention);
    size_t dbg = 0, sil = 0, of = 0; for (size_t i = 0; i < T.size(); i++) { if (!strcmp(T[i].name, "--debug-opts")) dbg = i; if (!strcmp(T[i].name, "--silent")) sil = i; if (!strcmp(T[i].name, "--talp-output-file")) of = i; }
    (void)of;
    /* silent in the environment hides the messages */
    bool silent = false; if (w.env.present && getenv("DLB_ARGS")) { auto it = w.env.given.find(sil); string m; if (it != w.env.given.end() && meaning(BOOL, it->second.back(), m) && m == "yes") silent = true; }
    bool maybe_abort = false; for (auto &x : e[dbg].ok) if (x.find("werror") != string::npos) maybe_abort = true;
    if (e[dbg].any) maybe_abort = true;
    bool leftover = (w.api.present && !w.api.unknown.empty()) || (w.env.present && !w.env.unknown.empty());
    if (maybe_abort && leftover) { /* documented: warnings are errors; must abort and nothing else */
        pid_t p = fork();
        if (p == 0) { char *a = w.api.present ? dupexact(w.api.text) : NULL; options_t o; memset(&o, 0, sizeof o); signal(SIGABRT, SIG_DFL); options_init(&o, a); _exit(0); }
        int st; waitpid(p, &st, 0); n_aborts++;
        if (!e[dbg].any && e[dbg].ok.size() == 1 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) && !(WIFEXITED(st) && WEXITSTATUS(st) != 0))
            V("werror", "an unrecognized flag with --debug-opts=werror did not abort (status %x)", st);
        return;
    }
    options_t o; memset(&o, 0xA5, sizeof o); o.talp_output_file = NULL;
    char *a = w.api.present ? dupexact(w.api.text) : NULL;
    cap_start();
    options_init(&o, a);
    string msg = cap_end();
    if (a) { if (w.api.text != a) V("modified", "the argument string was modified"); free(a); }
    if (!silent) { check_mentions(msg, mention, w.api, "DLB_Init"); check_mentions(msg, {}, w.env, "DLB_ARGS");
        bool quiet = mention.empty() && !leftover && w.lb.empty() && (!w.api.present || w.api.empties.empty()) && (!w.env.present || w.env.empties.empty());
        if (quiet && msg.find("Unrecognized") != string::npos) V("false-report", "everything was valid but it said: %s", printable(msg).c_str()); }
    size_t rp = 0; for (size_t i = 0; i < T.size(); i++) if (!strcmp(T[i].name, "--talp-regions-per-proc")) rp = i;
    if (e[rp].any) o.talp_regions_per_proc = 100;
    char *buf = (char*)malloc(PATH_MAX + 16);
    auto all = [&](const char *when) {
        for (size_t i = 0; i < T.size(); i++) {
            string f = T[i].get(o); evals++;
            if (!matches(e[i], f)) V("field", "%s: %s is '%s', expected %s", when, T[i].name, printable(f).c_str(), e[i].ok.empty() ? printable(e[i].full).c_str() : printable(e[i].ok[0]).c_str());
            string nm = has_lb(T[i]) && chance(&R, 1, 3) ? T[i].var : T[i].name; if (chance(&R, 1, 4)) nm = rcase(nm);
            memset(buf, 'Z', PATH_MAX + 15); buf[PATH_MAX + 15] = 0;
            int rc = options_get_variable(&o, nm.c_str(), buf);
            if (rc != DLB_SUCCESS) V("get-rc", "Get(%s) returns %d", nm.c_str(), rc); else {
                Exp x = e[i]; x.ok = {f}; x.prefix = false; x.any = e[i].any; check_get(T[i], x, buf, "Get"); }
        }
    };
    all("after init");
    /* set */
    for (int k = rrange(&R, 0, 8); k--; ) {
        size_t i = rnd(&R, T.size()); if (chance(&R, 2, 3)) do i = rnd(&R, T.size()); while (T[i].fl & RO);
        const Opt &p = T[i]; string nm = has_lb(p) && chance(&R, 1, 3) ? p.var : p.name; if (chance(&R, 1, 4)) nm = rcase(nm);
        bool unk = chance(&R, 1, 10); if (unk) { nm = chance(&R, 1, 2) ? rbytes(20) : string("--lewi-bogus"); }
        string v = chance(&R, 1, 4) ? bad_value(p.ty) : good_value(p.ty); if (chance(&R, 1, 20) && p.ty != INT) v = "";
        string m; bool ok = meaning(p.ty, v, m); string sctx = ctx; ctx += " Set(" + nm + "," + v + ")";
        int rc = options_set_variable(&o, nm.c_str(), v.c_str()); n_set++; evals++;
        int want = unk ? DLB_ERR_NOENT : (p.fl & RO) ? DLB_ERR_PERM : ok ? DLB_SUCCESS : DLB_ERR_NOENT;
        if (rc != want && !(want == DLB_ERR_NOENT && !unk && rc < 0)) V("set-rc", "Set returns %d, expected %d", rc, want);
        if (want == DLB_SUCCESS && rc == DLB_SUCCESS) {
            e[i] = Exp(); e[i].ok = {m};
            auto at = [&](const char *n) { for (size_t j = 0; j < T.size(); j++) if (!strcmp(T[j].name, n)) return j; return (size_t)0; };
            string neg = m == "yes" ? "no" : "yes"; string n = p.name;
            if (n == "--lewi-respect-mask") e[at("--lewi-respect-cpuset")] = e[i]; if (n == "--lewi-respect-cpuset") e[at("--lewi-respect-mask")] = e[i];
            if (n == "--lewi-mpi") { Exp x; x.ok = {neg}; e[at("--lewi-keep-one-cpu")] = x; } if (n == "--lewi-keep-one-cpu") { Exp x; x.ok = {neg}; e[at("--lewi-mpi")] = x; }
        }
        sigs.insert(string("set/") + (unk ? "unknown" : p.name) + (ok ? "/ok" : "/bad"));
        if (chance(&R, 1, 3)) all("after Set");
        if (chance(&R, 1, 2)) ctx = sctx;
    }
    all("at end");
    if (options_get_variable(&o, "--no-such-option", buf) != DLB_ERR_NOENT) V("get-rc", "Get of an unknown option does not say so");
    if (chance(&R, 1, 4)) {
        bool ext = chance(&R, 1, 2); cap_start(); options_print_variables(&o, ext); string out = cap_end(); n_print++;
        auto pr = parse_print(out);
        for (size_t i = 0; i < T.size(); i++) {
            if (T[i].fl & (DEP | HID)) continue;
            auto it = pr.find(T[i].name);
            if (it == pr.end()) { if (ext) V("print-missing", "%s is not in the printed list", T[i].name); continue; }
            string f = T[i].get(o); if (f.size() && strchr("([{", f[0]) && T[i].ty <= PATH) continue;
            Exp x; x.ok = {f}; check_get(T[i], x, it->second, "Print");
        }
    }
    free(buf);
    options_print_lewi_flags(&o);
    options_finalize(&o);
    if (o.talp_output_file) V("finalize", "output file name still set after finalize");
}

static void round_api(const char *key) {
    /* options that do not change how DLB can start on this machine */
    vector<int> safe; for (size_t i = 0; i < T.size(); i++) { string n = T[i].name;
        for (const char *s : {"--lewi", "--drom", "--talp", "--barrier", "--verbose-format", "--instrument-extrae-nthreads", "--lewi-keep-one-cpu", "--lewi-respect-cpuset", "--lewi-mpi-calls",
             "--lewi-barrier", "--lewi-barrier-select", "--lewi-ompt", "--lewi-greedy", "--talp-summary", "--talp-external-profiler", "--talp-region-select", "--talp-model", "--barrier-id", "--lewi-color"})
            if (n == s) safe.push_back(i); }
    World w; w.api = gen_src(8, false, &safe); if (chance(&R, 1, 2)) w.env = gen_src(5, false, &safe);
    string base = string(" --shm-key=") + key + " --quiet=yes --talp-summary=none";
    auto add = [&](Src &s, const char *n, const char *v) { for (size_t i = 0; i < T.size(); i++) if (!strcmp(T[i].name, n)) s.given[i].push_back(v); };
    w.api.text += base; add(w.api, "--shm-key", key); add(w.api, "--quiet", "yes"); add(w.api, "--talp-summary", "none");
    if (w.env.present) { w.env.text += base; add(w.env, "--shm-key", key); add(w.env, "--quiet", "yes"); add(w.env, "--talp-summary", "none"); }
    ctx = "DLB_Init '" + w.api.text + "' env '" + (w.env.present ? w.env.text : "-") + "'";
    set_env(w);
    vector<Exp> e; std::set<string> mention; expect(w, e, mention);
    auto idx = [&](const char *n) { for (size_t i = 0; i < T.size(); i++) if (!strcmp(T[i].name, n)) return i; return (size_t)0; };
    size_t af = idx("--lewi-affinity"), rp = idx("--talp-regions-per-proc");
    e[rp].any = true; e[af].any = true; /* auto is resolved while starting */
    bool sp = chance(&R, 1, 3); dlb_handler_t h = NULL, h2 = NULL;
    int rc = DLB_SUCCESS; cpu_set_t m; CPU_ZERO(&m); CPU_SET(0, &m);
    if (sp) { h = DLB_Init_sp(0, &m, w.api.text.c_str()); if (!h) rc = DLB_ERR_UNKNOWN; } else rc = DLB_Init(0, &m, w.api.text.c_str());
    if (rc != DLB_SUCCESS) { V("init", "DLB_Init with these options fails: %d", rc); return; }
    bool two = sp && chance(&R, 1, 2); std::map<string, string> before2; char *buf = (char*)malloc(PATH_MAX + 16);
    if (two) { cpu_set_t m2; CPU_ZERO(&m2); CPU_SET(1, &m2); h2 = DLB_Init_sp(0, &m2, base.c_str());
        if (h2) for (auto &o : T) { if (DLB_GetVariable_sp(h2, o.name, buf) == DLB_SUCCESS) before2[o.name] = buf; } }
    auto get = [&](const char *n) { return sp ? DLB_GetVariable_sp(h, n, buf) : DLB_GetVariable(n, buf); };
    auto all = [&](const char *when) { for (size_t i = 0; i < T.size(); i++) { int r = get(T[i].name); if (r != DLB_SUCCESS) V("get-rc", "%s: DLB_GetVariable(%s) returns %d", when, T[i].name, r); else check_get(T[i], e[i], buf, "DLB_GetVariable"); } };
    all("after init");
    for (int k = rrange(&R, 1, 6); k--; ) {
        size_t i = rnd(&R, T.size()); const Opt &p = T[i]; if (!strcmp(p.name, "--debug-opts") || !strcmp(p.name, "--ompt-thread-manager")) continue;
        string v = chance(&R, 1, 4) ? bad_value(p.ty) : good_value(p.ty); string mm; bool ok = meaning(p.ty, v, mm);
        string sctx = ctx; ctx += string(" Set(") + p.name + "," + v + ")";
        int r = sp ? DLB_SetVariable_sp(h, p.name, v.c_str()) : DLB_SetVariable(p.name, v.c_str()); n_set++; evals++;
        int want = (p.fl & RO) ? DLB_ERR_PERM : ok ? DLB_SUCCESS : DLB_ERR_NOENT;
        if (r != want && !(want == DLB_ERR_NOENT && r < 0)) V("set-rc", "DLB_SetVariable returns %d, expected %d", r, want);
        if (r == DLB_SUCCESS) { e[i] = Exp(); e[i].ok = {mm}; Exp x; x.ok = {mm == "yes" ? "no" : "yes"}; string n = p.name;
            if (n == "--lewi-respect-mask") e[idx("--lewi-respect-cpuset")] = e[i]; if (n == "--lewi-respect-cpuset") e[idx("--lewi-respect-mask")] = e[i];
            if (n == "--lewi-mpi") e[idx("--lewi-keep-one-cpu")] = x; if (n == "--lewi-keep-one-cpu") e[idx("--lewi-mpi")] = x; }
    }
    all("after Set");
    if (h2) { for (auto &o : T) { if (DLB_GetVariable_sp(h2, o.name, buf) == DLB_SUCCESS && before2.count(o.name) && before2[o.name] != buf) V("other-sp", "setting variables of a subprocess changed %s of another one: '%s' -> '%s'", o.name, before2[o.name].c_str(), buf); evals++; }
        DLB_Finalize_sp(h2); all("after other finalize"); }
    if (chance(&R, 1, 3)) { cap_start(); if (sp) DLB_PrintVariables_sp(h, 1); else DLB_PrintVariables(1); string out = cap_end(); n_print++;
        auto pr = parse_print(out);
        for (size_t i = 0; i < T.size(); i++) { if (T[i].fl & (DEP | HID)) continue; auto it = pr.find(T[i].name); if (it == pr.end()) { V("print-missing", "%s is not in the printed list", T[i].name); continue; }
            if (T[i].ty <= PATH && e[i].ok.size() && e[i].ok[0].size() && strchr("([{", e[i].ok[0][0])) continue;
            check_get(T[i], e[i], it->second, "DLB_PrintVariables"); } }
    free(buf);
    if (sp) DLB_Finalize_sp(h); else DLB_Finalize();
}

int main(int argc, char **argv) {
    mfd = memfd_create("err", 0); FILE *f = fdopen(dup(mfd), "w"); setvbuf(f, NULL, _IONBF, 0); stderr = f;
    bool api = argc > 1 && !strcmp(argv[1], "api"); if (api) { argv++; argc--; }
    R.s = strtoull(argv[1], 0, 10) * 7919 + 3; int n = atoi(argv[2]);
    /* the descriptor of the stream and mfd share the offset only if dup'ed: yes (dup) */
    for (int i = 0; i < n && viols < 10; i++) if (api) round_api(argv[3]); else round_module();
    emit("STAT evaluations=%lu", evals); emit("STAT invalid=%lu", n_invalid); emit("STAT unknown=%lu", n_unknown); emit("STAT overrides=%lu", n_over);
    emit("STAT long=%lu", n_long); emit("STAT prints=%lu", n_print); emit("STAT sets=%lu", n_set); emit("STAT werror_aborts=%lu", n_aborts);
    for (auto &s : sigs) emit("SIG %s", s.c_str());
    emit("DONE");
}
