/* Shared helpers of the harnesses: deterministic PRNG and the line protocol read by lib/vp.py. */
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <stdbool.h>

typedef struct { uint64_t s; } rng_t;
static inline uint64_t rng_next(rng_t *r) {
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline unsigned rnd(rng_t *r, unsigned n) { return n ? (unsigned)(rng_next(r) % n) : 0; }
static inline int rrange(rng_t *r, int lo, int hi) { return lo + (int)rnd(r, (unsigned)(hi - lo + 1)); }
static inline bool chance(rng_t *r, unsigned num, unsigned den) { return rnd(r, den) < num; }

/* One atomic write per line, so that lines of several processes never mix. */
__attribute__((format(printf, 1, 2)))
static inline void emit(const char *fmt, ...) {
    char buf[4000];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf) - 2, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
    for (int i = 0; i < n; i++) if (buf[i] == '\n') buf[i] = '|';
    buf[n++] = '\n';
    ssize_t w = write(1, buf, n); (void)w;
}
#define VIOL(key, ...) do { char _b[3500]; snprintf(_b, sizeof _b, __VA_ARGS__); emit("VIOL %s %s", key, _b); } while (0)
#define HARNESS_ERROR(...) do { emit("HERR " __VA_ARGS__); _exit(77); } while (0)

static inline double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline const char* set_str(const cpu_set_t *s, char *buf, size_t len) {
    size_t o = 0; buf[0] = 0;
    for (int i = 0; i < CPU_SETSIZE && o + 8 < len; i++)
        if (CPU_ISSET(i, s)) o += snprintf(buf + o, len - o, o ? ",%d" : "%d", i);
    return buf;
}
#endif
