/* T04: TALP reports. Writes records and runs whose values are known, in every format; checks/talpout.py parses the files. */
#include "vh.h"
#include <dlb.h>
#include <dlb_talp.h>
#include <locale.h>
#include <math.h>
#include <string>
#include <vector>
#include <map>
extern "C" {
#include "support/talp_output.h"
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
void vh_sync_into(int, int); void vh_sync_out(int, int);
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t, struct timespec *);
}
using std::string; using std::vector;
static int64_t vclock; static bool virt;
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    if (!virt || (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_COARSE)) return __real_clock_gettime(c, t);
    t->tv_sec = vclock / 1000000000; t->tv_nsec = vclock % 1000000000; return 0;
}
static rng_t r; static string dir; static std::map<string, long> st;
static string hex(const string &s) { string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o.empty() ? "-" : o; }
static string rname(bool plain) {
    static const char *W[] = {"Global", "Region 1", "solver", "I/O", "a,b", "a;b", "x\"y", "\"q\"", "a\\b", "\\", "<tag>", "a&b", "]]>", "&amp;", "%s%d%n", "{}", "key: v", "'", "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "\xf0\x9f\x98\x80", "tab\there", " lead", "trail ", "0", "-", "a\nb", "c\rd", "\x01\x02", "\xff\xfe", "\xc3", "lat\xe9n", "a=b", "# x", "null", "=1+1"};
    int n = plain ? 4 : (int)(sizeof W / sizeof *W); string s; int k = 1 + rnd(&r, 3); for (int i = 0; i < k; i++) s += W[rnd(&r, n)];
    if (chance(&r, 1, 8)) { s += string(rnd(&r, 140), plain ? 'x' : "x\"&\\\xc3"[rnd(&r, 5)]); } s += std::to_string(rnd(&r, 1000)); return s.substr(0, DLB_MONITOR_NAME_MAX - 1);
}
static int64_t big() { switch (rnd(&r, 6)) { case 0: return 0; case 1: return rnd(&r, 10); case 2: return INT64_MAX - rnd(&r, 3); case 3: return rng_next(&r) >> 2; default: return rnd(&r, 2000000000); } }
static float coef() { switch (rnd(&r, 5)) { case 0: return 0; case 1: return 1; case 2: return 1 + rnd(&r, 100) / 37.0f; default: return rnd(&r, 10001) / 10000.0f; } }
struct Reg { string name; vector<process_record_t> p; };
static vector<dlb_pop_metrics_t> P; static vector<vector<char>> N; static vector<Reg> R; static int res[3];
static void gen(bool plain) {
    P.clear(); N.clear(); R.clear(); int what = 1 + rnd(&r, 7); if (chance(&r, 1, 30)) what = 0; vector<string> used; memset(res, 0, sizeof res);
    auto uniq = [&]() { for (;;) { string s = rname(plain); bool dup = false; for (auto &x : used) if (x == s) dup = true; if (!dup) { used.push_back(s); return s; } } };
    if (what & 1) { int n = 1 + rnd(&r, 5); for (int i = 0; i < n; i++) { dlb_pop_metrics_t m; memset(&m, 0, sizeof m); snprintf(m.name, sizeof m.name, "%s", uniq().c_str());
        if (!chance(&r, 1, 8)) { m.num_cpus = rnd(&r, 1000); m.num_mpi_ranks = rnd(&r, 5) ? rnd(&r, 100000) : 0; m.num_nodes = rnd(&r, 1000); m.avg_cpus = rnd(&r, 100000) / 7.0f; m.cycles = big() / 1000; m.instructions = big() / 1000; if (chance(&r, 1, 10)) m.cycles = -5; if (chance(&r, 1, 10)) m.instructions = -1e9;
            m.num_measurements = big(); m.num_mpi_calls = big(); m.num_omp_parallels = big(); m.num_omp_tasks = big(); m.elapsed_time = 1 + big() / 2; m.useful_time = big(); m.mpi_time = big(); m.omp_load_imbalance_time = big(); m.omp_scheduling_time = big(); m.omp_serialization_time = big();
            m.useful_normd_app = big() / 4096; m.mpi_normd_app = big() / 4096 + 0.25; m.max_useful_normd_proc = big() / 4096; m.max_useful_normd_node = big() / 4096; m.mpi_normd_of_max_useful = big() / 4096;
            m.parallel_efficiency = coef(); m.mpi_parallel_efficiency = coef(); m.mpi_communication_efficiency = coef(); m.mpi_load_balance = coef(); m.mpi_load_balance_in = coef(); m.mpi_load_balance_out = coef(); m.omp_parallel_efficiency = coef(); m.omp_load_balance = coef(); m.omp_scheduling_efficiency = coef(); m.omp_serialization_efficiency = coef(); }
        P.push_back(m); }
        if (rnd(&r, 3)) { res[0] = rnd(&r, 10000); res[1] = rnd(&r, 100); res[2] = rnd(&r, 10000); } }
    if (what & 2) { int n = 1 + rnd(&r, 3); for (int i = 0; i < n; i++) { int k = rnd(&r, 6) ? 1 + rnd(&r, 8) : 0; vector<char> b(sizeof(node_record_t) + k * sizeof(process_in_node_record_t)); node_record_t *x = (node_record_t*)b.data(); x->node_id = rnd(&r, 5000); x->nelems = k; x->avg_useful_time = big(); x->avg_mpi_time = big(); x->max_useful_time = big(); x->max_mpi_time = big(); for (int j = 0; j < k; j++) x->processes[j] = (process_in_node_record_t){(int)rnd(&r, 4000000), big(), big()}; N.push_back(b); } }
    if (what & 4) { int n = 1 + rnd(&r, 4); used.clear(); for (int i = 0; i < n; i++) { Reg g; g.name = uniq(); int k = 1 + rnd(&r, 5); for (int j = 0; j < k; j++) { process_record_t x; memset(&x, 0, sizeof x); x.rank = j; x.pid = rnd(&r, 4000000); x.node_id = rnd(&r, 100); snprintf(x.hostname, sizeof x.hostname, "node%u-x.cluster", rnd(&r, 1000)); string c = std::to_string(rnd(&r, 8)); int e = rnd(&r, 10); int cpu = 10; for (int q = 0; q < e; q++) { cpu += 2 + rnd(&r, 5); c += "," + std::to_string(cpu); if (rnd(&r, 2)) { cpu += 3; c += "-" + std::to_string(cpu); } } snprintf(x.cpuset, sizeof x.cpuset, "%s", c.c_str()); snprintf(x.cpuset_quoted, sizeof x.cpuset_quoted, "\"%s\"", c.c_str());
            dlb_monitor_t &m = x.monitor; m.num_cpus = rnd(&r, 300); m.avg_cpus = rnd(&r, 1000) / 7.0f; m.cycles = big(); m.instructions = big(); if (chance(&r, 1, 10)) m.cycles = -1; if (chance(&r, 1, 10)) m.instructions = -1; m.num_measurements = rnd(&r, 100000); m.num_resets = rnd(&r, 100); m.num_mpi_calls = big(); m.num_omp_parallels = big(); m.num_omp_tasks = big(); m.elapsed_time = big(); m.useful_time = big(); m.mpi_time = big(); m.omp_load_imbalance_time = big(); m.omp_scheduling_time = big(); m.omp_serialization_time = big(); g.p.push_back(x); } R.push_back(g); } }
}
static void record() {
    /* kinds and ranks in any order: only the order within each list matters */
    vector<int> order = {0, 1, 2, 3}; for (int i = 3; i > 0; i--) std::swap(order[i], order[rnd(&r, i + 1)]);
    for (int k : order) { if (k == 0) for (auto &m : P) talp_output_record_pop_metrics(&m); if (k == 1) for (auto &b : N) talp_output_record_node((node_record_t*)b.data()); if (k == 3 && (res[0] || res[1] || res[2])) talp_output_record_resources(res[0], res[1], res[2]);
        if (k == 2) { for (auto &g : R) talp_output_record_process(g.name.c_str(), &g.p[0], g.p.size()); for (auto &g : R) for (size_t j = g.p.size(); j-- > 1;) talp_output_record_process(g.name.c_str(), &g.p[j], g.p.size()); } }
}
#define I(k, v) fprintf(f, " " k "=%lld", (long long)(v))
#define D(k, v) fprintf(f, " " k "=%.17g", (double)(v))
static void expPop(FILE *f, const dlb_pop_metrics_t &m) { fprintf(f, "POP %s", hex(m.name).c_str()); I("numCpus", m.num_cpus); I("numMpiRanks", m.num_mpi_ranks); I("numNodes", m.num_nodes); D("avgCpus", m.avg_cpus); D("cycles", m.cycles < 0 ? 0 : m.cycles); D("instructions", m.instructions < 0 ? 0 : m.instructions); I("numMeasurements", m.num_measurements); I("numMpiCalls", m.num_mpi_calls); I("numOmpParallels", m.num_omp_parallels); I("numOmpTasks", m.num_omp_tasks); I("elapsedTime", m.elapsed_time); I("usefulTime", m.useful_time); I("mpiTime", m.mpi_time); I("ompLoadImbalanceTime", m.omp_load_imbalance_time); I("ompSchedulingTime", m.omp_scheduling_time); I("ompSerializationTime", m.omp_serialization_time);
    D("usefulNormdApp", m.useful_normd_app); D("mpiNormdApp", m.mpi_normd_app); D("maxUsefulNormdProc", m.max_useful_normd_proc); D("maxUsefulNormdNode", m.max_useful_normd_node); D("mpiNormdOfMaxUseful", m.mpi_normd_of_max_useful); D("parallelEfficiency", m.parallel_efficiency); D("mpiParallelEfficiency", m.mpi_parallel_efficiency); D("mpiCommunicationEfficiency", m.mpi_communication_efficiency); D("mpiLoadBalance", m.mpi_load_balance); D("mpiLoadBalanceIn", m.mpi_load_balance_in); D("mpiLoadBalanceOut", m.mpi_load_balance_out); D("ompParallelEfficiency", m.omp_parallel_efficiency); D("ompLoadBalance", m.omp_load_balance); D("ompSchedulingEfficiency", m.omp_scheduling_efficiency); D("ompSerializationEfficiency", m.omp_serialization_efficiency); fprintf(f, "\n"); }
static void expProc(FILE *f, const process_record_t &x) { const dlb_monitor_t &m = x.monitor; fprintf(f, "PROC -"); I("rank", x.rank); I("pid", x.pid); I("nodeId", x.node_id); fprintf(f, " hostname=%s cpuset=%s", x.hostname, x.cpuset); I("numCpus", m.num_cpus); D("avgCpus", m.avg_cpus); I("cycles", m.cycles < 0 ? 0 : m.cycles); I("instructions", m.instructions < 0 ? 0 : m.instructions); I("numMeasurements", m.num_measurements); I("numResets", m.num_resets); I("numMpiCalls", m.num_mpi_calls); I("numOmpParallels", m.num_omp_parallels); I("numOmpTasks", m.num_omp_tasks); I("elapsedTime", m.elapsed_time); I("usefulTime", m.useful_time); I("mpiTime", m.mpi_time); I("ompLoadImbalanceTime", m.omp_load_imbalance_time); I("ompSchedulingTime", m.omp_scheduling_time); I("ompSerializationTime", m.omp_serialization_time); fprintf(f, "\n"); }
static void expected(const string &fn) {
    FILE *f = fopen(fn.c_str(), "w"); if (!f) HARNESS_ERROR("cannot write"); fprintf(f, "RES - numCpus=%d numNodes=%d numMpiRanks=%d\n", res[0], res[1], res[2]);
    for (auto &m : P) expPop(f, m);
    for (auto &b : N) { node_record_t *x = (node_record_t*)b.data(); fprintf(f, "NODE -"); I("id", x->node_id); I("avgUseful", x->avg_useful_time); I("avgMpi", x->avg_mpi_time); I("maxUseful", x->max_useful_time); I("maxMpi", x->max_mpi_time); fprintf(f, "\n"); for (int j = 0; j < x->nelems; j++) { fprintf(f, "NPROC -"); I("id", x->processes[j].pid); I("usefulTime", x->processes[j].useful_time); I("mpiTime", x->processes[j].mpi_time); fprintf(f, "\n"); } }
    for (auto &g : R) { fprintf(f, "REGION %s\n", hex(g.name).c_str()); for (auto &x : g.p) expProc(f, x); }
    fclose(f);
}
/* the locale of the thread, the global one and what they print are not changed by a report */
static locale_t tl; static string glob;
static string fl() { char b[32]; snprintf(b, sizeof b, "%.1f", 1.5); return b; }
static void pickLocale() { static const char *L[] = {"C", "C.UTF-8", "de_DE.UTF-8", ""}; const char *g = setlocale(LC_ALL, L[rnd(&r, 4)]); if (g) st[string("locale_") + (fl() == "1,5" ? "comma" : "point")]++; glob = setlocale(LC_ALL, nullptr); uselocale(LC_GLOBAL_LOCALE); if (tl) freelocale(tl); tl = 0; if (chance(&r, 1, 2)) { tl = newlocale(LC_ALL_MASK, L[rnd(&r, 3)], 0); if (tl) { uselocale(tl); st["thread_locale"]++; } } }
template <class F> static void withLocale(const char *what, F f) { locale_t b = uselocale(0); string p = fl(); f(); if (uselocale(0) != b || fl() != p || glob != setlocale(LC_ALL, nullptr)) { VIOL("T04/locale", "the report (%s) changed the locale: a float printed '%s', now '%s'", what, p.c_str(), fl().c_str()); uselocale(b); } st["locale_checked"]++; }
static void direct(int k) {
    bool plain = chance(&r, 1, 4); gen(plain); pickLocale(); string base = dir + "/d" + std::to_string(k); bool twice = chance(&r, 1, 4);
    static const char *E[] = {"json", "xml", "csv", "txt", "out.dat"};
    for (auto e : E) { string fn = base + "." + e; record(); withLocale(e, [&] { talp_output_finalize(fn.c_str()); }); st["files"]++; if (!strcmp(e, "csv") && twice) { record(); talp_output_finalize(fn.c_str()); } }
    if (chance(&r, 1, 6)) { record(); withLocale("unwritable", [&] { talp_output_finalize((dir + "/no/such/x." + E[rnd(&r, 4)]).c_str()); }); st["unwritable"]++; string after = base + ".after.json"; talp_output_finalize(after.c_str()); if (access(after.c_str(), F_OK) == 0) VIOL("T04/not-empty", "a report without records wrote a file: something of the previous report was left"); }
    { record(); FILE *o = stderr; string fn = base + ".err"; stderr = fopen(fn.c_str(), "w"); withLocale("printed", [&] { talp_output_finalize(nullptr); }); fclose(stderr); stderr = o; }
    uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); expected(base + ".exp");
    emit("CASE direct %s %d %d", base.c_str(), plain, twice); st["records"] += P.size() + N.size() + R.size();
}
static void e2e(int k, const char *key) {
    int ncpu = 1 + rnd(&r, 40); mu_testing_set_sys(ncpu, ncpu, 1); P.clear(); N.clear(); R.clear(); memset(res, 0, sizeof res); bool plain = chance(&r, 1, 4);
    int sum = 1 + rnd(&r, 3); static const char *S[] = {"", "pop-metrics", "process", "pop-metrics:process"}; static const char *E[] = {"json", "xml", "csv", "txt"}; string ext = E[rnd(&r, 4)]; string base = dir + "/e" + std::to_string(k), fn = base + "." + ext; int model = rnd(&r, 2);
    char a[600]; snprintf(a, sizeof a, "--talp --talp-summary=%s --talp-output-file=%s --talp-model=%s --shm-key=%s", S[sum], fn.c_str(), model ? "hybrid-v2" : "hybrid-v1", key); setenv("DLB_ARGS", "", 1);
    virt = true; vclock = 1000000000ll * (1 + rnd(&r, 100000)); cpu_set_t mask; CPU_ZERO(&mask); while (!CPU_COUNT(&mask)) for (int i = 0; i < ncpu; i++) if (rnd(&r, 2)) CPU_SET(i, &mask);
    pickLocale(); int rc = DLB_Init(0, &mask, a); if (rc) { VIOL("T04/init", "DLB_Init gives %d with %s", rc, a); return; }
    vector<dlb_monitor_t*> m; vector<bool> open; m.push_back(DLB_MonitoringRegionGetGlobal()); open.push_back(true); bool inmpi = false; DLB_MonitoringRegionStart(m[0]); open[0] = true;
    int ops = 5 + rnd(&r, 40); for (int o = 0; o < ops; o++) { vclock += rnd(&r, 4) ? rnd(&r, 2000000000) : rnd(&r, 3);
        switch (rnd(&r, 6)) { case 0: if (m.size() < 8) { dlb_monitor_t *x = DLB_MonitoringRegionRegister(rname(plain).c_str()); bool dup = false; for (auto y : m) if (y == x) dup = true; if (x && !dup) { m.push_back(x); open.push_back(false); } } break;
            case 1: case 2: { int i = rnd(&r, m.size()); if (open[i]) DLB_MonitoringRegionStop(m[i]); else DLB_MonitoringRegionStart(m[i]); open[i] = !open[i]; break; }
            case 3: if (chance(&r, 1, 3)) { int i = rnd(&r, m.size()); DLB_MonitoringRegionReset(m[i]); open[i] = false; } break;
            default: if (inmpi) vh_sync_out(1, 1); else vh_sync_into(1, 1); inmpi = !inmpi; } }
    if (inmpi) vh_sync_out(1, 1);
    vclock += rnd(&r, 1000); for (size_t i = 0; i < m.size(); i++) if (open[i]) DLB_MonitoringRegionStop(m[i]);
    string fe = base + ".exp"; FILE *f = fopen(fe.c_str(), "w"); if (!f) HARNESS_ERROR("cannot write"); uselocale(LC_GLOBAL_LOCALE); string g = glob; setlocale(LC_ALL, "C"); char ms[400]; ms[0] = 0; size_t o = 0; for (int i = 0; i < ncpu; i++) if (CPU_ISSET(i, &mask)) o += snprintf(ms + o, sizeof ms - o, o ? ",%d" : "%d", i); fprintf(f, "META - sum=%d model=%d pid=%d cpus=%s\n", sum, model, getpid(), ms);
    for (auto x : m) { process_record_t p; memset(&p, 0, sizeof p); p.monitor = *x; fprintf(f, "MON %s", hex(x->name).c_str()); I("numCpus", x->num_cpus); D("avgCpus", x->avg_cpus); I("cycles", x->cycles); I("instructions", x->instructions); I("numMeasurements", x->num_measurements); I("numResets", x->num_resets); I("numMpiCalls", x->num_mpi_calls); I("numOmpParallels", x->num_omp_parallels); I("numOmpTasks", x->num_omp_tasks); I("elapsedTime", x->elapsed_time); I("usefulTime", x->useful_time); I("mpiTime", x->mpi_time); I("ompLoadImbalanceTime", x->omp_load_imbalance_time); I("ompSchedulingTime", x->omp_scheduling_time); I("ompSerializationTime", x->omp_serialization_time); fprintf(f, "\n"); st["records"]++; }
    fclose(f); setlocale(LC_ALL, g.c_str()); glob = setlocale(LC_ALL, nullptr); if (tl) uselocale(tl);
    withLocale("end of run", [&] { int z = DLB_Finalize(); if (z) VIOL("T04/finalize", "DLB_Finalize gives %d", z); }); st["runs"]++; uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C");
    emit("CASE e2e %s %d %s", base.c_str(), plain, ext.c_str());
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    stderr = fopen("/dev/null", "w"); r.s = strtoull(argv[1], 0, 10) * 7919 + 3; int n = atoi(argv[2]); dir = argv[3];
    for (int i = 0; i < n; i++) { if (i % 2) direct(i); else e2e(i, argv[4]); }
    if (tl) freelocale(tl);
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
    emit("DONE"); return 0;
}
