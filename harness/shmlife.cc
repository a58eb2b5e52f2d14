/* S01: processes initialize, finalize, attach and detach at once; at quiescent points every mapping has to be of the
 * file with that name, files exist only while used, and the process list is the one of the processes initialized.
 * usage: shmlife SEED HISTORIES ROUNDS KEY */
#include "vh.h"
#include <dlb.h>
#include <dlb_drom.h>
#include <dlb_talp.h>
#include <dlb_stats.h>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
using std::string; using std::vector; using std::set; using std::map; using std::to_string;
enum { INIT, FIN, DATT, DDET, TATT, TDET, SINI, SFIN, BURST, LOOK, QUIT, NOPS };
static const char *ON[] = {"init", "finalize", "DROM attach", "DROM detach", "TALP attach", "TALP detach", "stats init", "stats finalize", "burst", "look", "quit"};
struct Cmd { int op, jitter, n; uint64_t seed; uint64_t mask; char key[64], opts[500]; };
struct Res { int rc, fds, npids, pids[64]; uint64_t masks[64]; int mrc[64]; int nmaps; char maps[12][100]; unsigned long ino[12]; int deleted[12]; char text[200]; };
static rng_t r; static map<string, long> st; static int NC; static string hist, base;
static void bad(const char *key, const string &t) { VIOL(key, "%s. %d CPUs, history: %s", t.c_str(), NC, hist.size() > 2200 ? hist.substr(hist.size() - 2200).c_str() : hist.c_str()); }
static void all(int fd, void *p, size_t n, bool w) { char *c = (char*)p; while (n) { ssize_t k = w ? write(fd, c, n) : read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(w ? 4 : 5); } c += k; n -= k; } }
static cpu_set_t tomask(uint64_t b) { cpu_set_t m; CPU_ZERO(&m); for (int i = 0; i < 64; i++) if (b >> i & 1) CPU_SET(i, &m); return m; }
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void worker(int in, int out, int uid) {
    if (uid && setuid(uid)) _exit(3);
    while (1) {
        Cmd c; all(in, &c, sizeof c, false); Res s; memset(&s, 0, sizeof s); if (c.jitter) usleep(c.jitter); cpu_set_t m = tomask(c.mask);
        char e[200]; if (c.key[0]) snprintf(e, sizeof e, "--shm-key=%s --quiet=yes", c.key); else snprintf(e, sizeof e, "--quiet=yes"); const char *cl = strstr(c.opts, "--lewi-color="); if (cl) { strcat(e, " "); strncat(e, cl, 14); } setenv("DLB_ARGS", e, 1);
        switch (c.op) {
            case INIT: s.rc = DLB_Init(2, &m, c.opts); break; case FIN: s.rc = DLB_Finalize(); break;
            case DATT: s.rc = DLB_DROM_Attach(); break; case DDET: s.rc = DLB_DROM_Detach(); break; case TATT: s.rc = DLB_TALP_Attach(); DLB_SetObserverRole(false); break; case TDET: s.rc = DLB_TALP_Detach(); break;
            case SINI: s.rc = DLB_Stats_Init(); break; case SFIN: s.rc = DLB_Stats_Finalize(); break;
            case BURST: { rng_t q; q.s = c.seed; for (int i = 0; i < c.n; i++) { int k = rnd(&q, 4); int a = 0, b = 0; const char *w = ""; if (k) { w = "init/finalize"; a = DLB_Init(2, &m, c.opts); if (rnd(&q, 3) == 0) usleep(rnd(&q, 80)); b = DLB_Finalize(); } else { w = "attach/detach"; a = DLB_DROM_Attach(); if (rnd(&q, 3) == 0) usleep(rnd(&q, 50)); int p[64], np = -1; int g = DLB_DROM_GetPidList(p, &np, 64); if (g || np < 0 || np > 64) a = g ? g : -99; b = DLB_DROM_Detach(); }
                if ((a || b) && !s.rc) { s.rc = a ? a : b; snprintf(s.text, sizeof s.text, "%s number %d gives %d, %d", w, i, a, b); } } break; }
            case LOOK: { s.fds = nfds(); s.npids = -1; s.rc = DLB_DROM_GetPidList(s.pids, &s.npids, 64); if (s.rc == DLB_SUCCESS && s.npids >= 0) for (int i = 0; i < s.npids; i++) { cpu_set_t g; CPU_ZERO(&g); s.mrc[i] = DLB_DROM_GetProcessMask(s.pids[i], &g, (dlb_drom_flags_t)0); for (int k = 0; k < 64; k++) if (CPU_ISSET(k, &g)) s.masks[i] |= 1ull << k; }
                FILE *f = fopen("/proc/self/maps", "r"); char l[1000]; while (fgets(l, sizeof l, f)) { char *p = strstr(l, "/dev/shm/DLB_"); if (!p || s.nmaps >= 12) continue; p[strcspn(p, "\n")] = 0; unsigned long ino = 0; sscanf(l, "%*s %*s %*s %*s %lu", &ino); char *x = strstr(p, " (deleted)"); s.deleted[s.nmaps] = x != nullptr; if (x) *x = 0; snprintf(s.maps[s.nmaps], 100, "%s", p); s.ino[s.nmaps++] = ino; } fclose(f); break; }
            case QUIT: all(out, &s, sizeof s, true); _exit(0);
        }
        all(out, &s, sizeof s, true);
    }
}
struct Mod { bool mask, talp, barrier, async, lewi; int color; }; struct W { pid_t pid; int in, out, uid, color = 0; string key; bool on = false; Mod m; uint64_t own = 0; int att = 0; bool atts[3] = {0, 0, 0}; Cmd c; Res s; int fd0 = -1; bool busy = false; };
static vector<W> ws; static bool dead;
static void send(W &w, int op) { w.c.op = op; snprintf(w.c.key, sizeof w.c.key, "%s", w.key.c_str()); w.busy = true; all(w.out, &w.c, sizeof w.c, true); }
static void recv_(W &w) { char *c = (char*)&w.s; size_t n = sizeof w.s; while (n) { ssize_t k = read(w.in, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; int stt; waitpid(w.pid, &stt, 0); bad("S01/died", string("a process ended during ") + ON[w.c.op] + " with status " + to_string(stt)); dead = true; return; } c += k; n -= k; } w.busy = false; }
static string S(uint64_t m) { string o; for (int i = 0; i < 64; i++) if (m >> i & 1) o += (o.empty() ? "" : ",") + to_string(i); return "{" + o + "}"; }
static void look() {
    for (auto &w : ws) { w.c.jitter = 0; send(w, LOOK); } for (auto &w : ws) { recv_(w); if (dead) return; }
    set<string> files; DIR *d = opendir("/dev/shm"); while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "DLB_", 4)) { string n = e->d_name; for (auto &w : ws) if (w.key.size() ? n.size() > w.key.size() && n.substr(n.size() - w.key.size()) == w.key : n.size() > 6 && n.substr(n.find_last_of('_') + 1) == to_string(w.uid)) { files.insert(n); break; } } closedir(d);
    set<string> used; st["looks"]++;
    for (auto &w : ws) {
        bool user = w.on || w.atts[0] || w.atts[1] || w.atts[2]; Res &s = w.s; set<string> mods;
        for (int i = 0; i < s.nmaps; i++) { string p = s.maps[i]; st["mappings"]++; string n = p.substr(9); if (!user) bad("S01/mapping", "process " + to_string(w.pid) + " uses nothing and maps " + p); used.insert(n); if (w.key.size() && (n.size() < w.key.size() || n.substr(n.size() - w.key.size()) != w.key)) bad("S01/key", "process with key " + w.key + " maps " + p); struct stat b; if (s.deleted[i]) bad("S01/deleted", "process " + to_string(w.pid) + " maps " + p + ", which was removed"); else if (stat(p.c_str(), &b) || b.st_ino != s.ino[i]) bad("S01/other-file", "the mapping of " + p + " is not the file of that name"); else if (b.st_mode & 077) bad("S01/mode", p + " may be used by other users"); mods.insert(n.substr(4, n.find_first_of("_", 4) - 4)); }
        if (w.on) { if (w.m.mask && (!mods.count("cpuinfo") || !mods.count("procinfo"))) bad("S01/missing", "an initialized process does not map its shared memory"); if (w.m.talp && !mods.count("talp")) bad("S01/missing", "no TALP mapping"); if (w.m.barrier && !mods.count("barrier")) bad("S01/missing", "no barrier mapping"); }
        if (w.fd0 < 0) w.fd0 = s.fds; else if (s.fds != w.fd0) { bad("S01/fd", to_string(s.fds - w.fd0) + " file descriptors more in process " + to_string(w.pid)); w.fd0 = s.fds; }
        bool proc = w.atts[0] || w.atts[1] || w.atts[2] || (w.on && (w.m.mask || w.m.talp));
        if (!proc) { if (s.rc == DLB_SUCCESS) bad("S01/list", "a process that is not attached can read the process list"); continue; }
        if (s.rc) { bad("S01/list", "reading the process list gives " + to_string(s.rc)); continue; }
        map<int, W*> want; for (auto &o : ws) if (o.on && (o.m.mask || o.m.talp) && o.key == w.key && o.uid == w.uid) want[o.pid] = &o; set<int> got(s.pids, s.pids + s.npids); st["lists"]++; st["listed"] += s.npids;
        if ((int)got.size() != s.npids) bad("S01/list", "process listed twice"); for (auto &x : want) if (!got.count(x.first)) bad("S01/list", "process " + to_string(x.first) + " is initialized and is not listed by " + to_string(w.pid)); for (int x : got) if (!want.count(x)) bad("S01/list", "process " + to_string(x) + " is listed by " + to_string(w.pid) + " and is not initialized");
        for (int i = 0; i < s.npids; i++) if (want.count(s.pids[i])) { W *o = want[s.pids[i]]; if (s.mrc[i] || s.masks[i] != o->own) bad("S01/mask", "mask of process " + to_string(s.pids[i]) + " is " + S(s.masks[i]) + " (code " + to_string(s.mrc[i]) + "), registered with " + S(o->own)); st["masks"]++; }
    }
    for (auto &f : files) if (!used.count(f)) { bad("S01/file", "file " + f + " remains and nobody uses it"); unlink(("/dev/shm/" + f).c_str()); }
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    r.s = strtoull(argv[1], 0, 10) * 7368787 + 3; int hs = atoi(argv[2]), rounds = atoi(argv[3]); base = argv[4]; signal(SIGPIPE, SIG_IGN);
    NC = chance(&r, 1, 6) ? 2 + rnd(&r, 3) : 8 + rnd(&r, 24); mu_testing_set_sys(NC, NC, 1);
    for (int h = 0; h < hs && !dead; h++) {
        int P = 2 + rnd(&r, 7); bool few = NC < 8; int kind = few ? 2 : rnd(&r, 5); /* 0,1 masks 2 barrier and attach only 3 sharing (TALP only, classic) 4 colors */ bool keys = rnd(&r, 3) == 0, longkey = chance(&r, 1, 6), users = !few && chance(&r, 1, 8) && getuid() == 0; hist = "kind " + to_string(kind) + ", " + to_string(P) + " processes; "; ws.clear(); ws.resize(P);
        for (int i = 0; i < P; i++) { W &w = ws[i]; int a[2], b[2]; if (pipe(a) || pipe(b)) HARNESS_ERROR("pipe"); w.uid = users ? 61234 + getpid() % 3000 * 2 + (int)rnd(&r, 2) : 0; w.key = users ? "" : base + (longkey ? "_a_long_key_that_uses_all_of_the_length_of_an_option" : "") + (keys && rnd(&r, 2) ? "b" : "a"); if (longkey && w.key.size() > 60) w.key = w.key.substr(0, 59) + w.key.back();
            w.color = kind == 4 ? 1 + rnd(&r, 2) : 0;
            w.pid = fork(); if (!w.pid) { close(a[1]); close(b[0]); for (int j = 0; j < i; j++) { close(ws[j].in); close(ws[j].out); } if (!getenv("VE")) { stderr = fopen("/dev/null", "w"); } worker(a[0], b[1], w.uid); } close(a[0]); close(b[1]); w.out = a[1]; w.in = b[0]; memset(&w.c, 0, sizeof w.c); if (w.color) snprintf(w.c.opts, 40, "--lewi-color=%d", w.color); }
        look(); if (dead) break;
        for (int t = 0; t < rounds && !dead; t++) {
            struct Old { bool on; uint64_t own; Mod m; }; vector<Old> old; for (auto &w : ws) old.push_back({w.on, w.own, w.m}); vector<int> who; hist += "| ";
            bool burst = chance(&r, 1, 10);
            for (int i = 0; i < P; i++) { W &w = ws[i]; if (!burst && rnd(&r, 3) == 0) continue; Cmd &c = w.c; c.jitter = rnd(&r, 2) ? rnd(&r, 150) : 0; int op; if (burst) { if (w.on || w.att) continue; op = BURST; c.n = 5 + rnd(&r, 40); c.seed = rng_next(&r); } else { int k = rnd(&r, 10); if (k < 6) op = w.on ? FIN : INIT; else { int j = rnd(&r, 3); op = (j == 0 ? DATT : j == 1 ? TATT : SINI) + (w.atts[j] ? 1 : 0); } }
                if (op == INIT || op == BURST) { Mod m; m.color = w.color; m.mask = kind == 0 || kind == 1 || kind == 4; m.barrier = kind == 2 || rnd(&r, 2); m.talp = kind == 3 ? true : m.mask ? rnd(&r, 3) == 0 : false; m.async = m.mask && rnd(&r, 3) == 0; m.lewi = m.mask ? m.async || rnd(&r, 3) : false; uint64_t b = 0; int from = NC * i / P, to = NC * (i + 1) / P; if (to <= from) { from = i % NC; to = from + 1; } for (int q = from; q < to; q++) b |= 1ull << q; if (op == INIT && chance(&r, 1, 4)) b = rng_next(&r) & ((1ull << NC) - 1) & (rnd(&r, 2) ? rng_next(&r) : ~0ull); if (!b) b = 1ull << from;
                    bool drom = m.mask && kind != 4 && (!m.lewi || rnd(&r, 2)); snprintf(c.opts, sizeof c.opts, "--quiet=yes %s%s %s %s %s %s --mode=%s", w.key.size() ? "--shm-key=" : "", w.key.c_str(), m.lewi || m.color ? "--lewi" : "--no-lewi", drom ? "--drom" : "--no-drom", m.talp ? "--talp --talp-external-profiler" : "--no-talp", m.barrier ? "--barrier" : "--no-barrier", m.async ? "async" : "polling"); if (m.mask) strcat(c.opts, " --lewi-affinity=mask"); if (m.color) { char x[40]; snprintf(x, 40, " --lewi-color=%d", m.color); strcat(c.opts, x); m.lewi = true; } c.mask = b; w.m = m; }
                who.push_back(i); hist += to_string(i) + ":" + ON[op] + (op == INIT || op == BURST ? S(c.mask) + (w.m.color ? "c" + to_string(w.m.color) : "") : "") + " "; c.op = op; }
            if (burst) { /* alone, and with nobody in the way: every operation has to succeed */ bool clash = false; for (int i : who) for (int j = 0; j < P; j++) if (j != i && old[j].on && ws[j].key == ws[i].key && ws[j].uid == ws[i].uid && (ws[i].c.mask & old[j].own)) clash = true; if (clash || !who.size()) { hist += "(no) "; continue; } }
            std::random_shuffle(who.begin(), who.end(), [](int n) { return rnd(&r, n); }); for (int i : who) send(ws[i], ws[i].c.op); for (int i : who) { recv_(ws[i]); if (dead) break; } if (dead) break;
            st["concurrent"] += who.size() > 1; emit("SIG %d %zu %d %d", kind, who.size(), P, burst);
            for (int i : who) { W &w = ws[i]; int rc = w.s.rc; st["ops"]++; st[string("op_") + to_string(w.c.op)]++;
                if (w.c.op == INIT) { bool rival = false, firm = false; for (int j = 0; j < P; j++) if (j != i && ws[j].key == w.key && ws[j].uid == w.uid) { bool concur = std::find(who.begin(), who.end(), j) != who.end() && (ws[j].c.op == INIT); bool was = old[j].on && (old[j].own & w.c.mask) && old[j].m.color == w.m.color; bool now = concur && (ws[j].c.mask & w.c.mask) && ws[j].m.color == w.m.color; bool fin = std::find(who.begin(), who.end(), j) != who.end() && ws[j].c.op == FIN; if (was && !fin) firm = true; if (was || now) rival = true; }
                    if (kind == 2 || kind == 3) { rival = firm = false; } if (rc == DLB_SUCCESS) { if (firm) bad("S01/init", "process " + to_string(i) + " was initialized with CPUs of another"); w.on = true; w.own = w.c.mask; st["inits"]++; } else { if (!rival) bad("S01/init", "DLB_Init of process " + to_string(i) + " gives " + to_string(rc) + " and nobody has its CPUs"); else if (rc != DLB_ERR_PERM) bad("S01/init", "DLB_Init gives " + to_string(rc) + " if CPUs are used"); st["init_refused"]++; } }
                else if (w.c.op == BURST) { if (rc) bad("S01/burst", "process " + to_string(i) + ": " + w.s.text); st["bursts"]++; }
                else { if (w.c.op == FIN) { w.on = false; w.own = 0; } else { int j = (w.c.op - DATT) / 2; w.atts[j] = !((w.c.op - DATT) % 2); w.att = w.atts[0] + w.atts[1] + w.atts[2]; } if (rc) bad("S01/code", string(ON[w.c.op]) + " of process " + to_string(i) + " gives " + to_string(rc)); } }
            /* concurrent initializations: two that succeed never share a CPU, and of those that only dispute among themselves one wins */
            if (kind != 2 && kind != 3) { for (int i : who) if (ws[i].c.op == INIT && ws[i].s.rc == DLB_SUCCESS) for (int j : who) if (j > i && ws[j].c.op == INIT && ws[j].s.rc == DLB_SUCCESS && ws[i].key == ws[j].key && ws[i].uid == ws[j].uid && ws[i].m.color == ws[j].m.color && (ws[i].own & ws[j].own)) bad("S01/shared", "two processes initialized at once with the same CPUs");
                for (int i : who) if (ws[i].c.op == INIT && ws[i].s.rc != DLB_SUCCESS) { bool lost = false; for (int j = 0; j < P; j++) if (j != i && ws[j].key == ws[i].key && ws[j].uid == ws[i].uid && ((old[j].on && (old[j].own & ws[i].c.mask)) || (ws[j].on && (ws[j].own & ws[i].c.mask)))) lost = true; if (!lost && kind != 4) bad("S01/nobody", "all the processes that disputed some CPUs were refused"); } }
            if (burst || rnd(&r, 3) == 0) look();
        }
        if (!dead) { for (auto &w : ws) { if (w.on) { send(w, FIN); recv_(w); w.on = false; } for (int j = 0; j < 3 && !dead; j++) if (w.atts[j]) { send(w, DDET + 2 * j); recv_(w); w.atts[j] = false; } w.att = 0; if (dead) break; } if (!dead) { hist += "| all finalized"; look(); } }
        for (auto &w : ws) { if (dead) kill(w.pid, SIGKILL); else { send(w, QUIT); recv_(w); } close(w.in); close(w.out); waitpid(w.pid, 0, 0); } st["histories"]++; if (keys) st["two_keys"]++; if (users) st["two_users"]++; if (longkey) st["long_keys"]++; if (kind == 4) st["colors"]++;
    }
    if (dead) { DIR *d = opendir("/dev/shm"); while (dirent *e = readdir(d)) if (strstr(e->d_name, base.c_str())) unlink((string("/dev/shm/") + e->d_name).c_str()); closedir(d); }
    for (auto &s : st) emit("STAT %s=%ld", s.first.c_str(), s.second);
    emit("DONE"); return 0;
}
