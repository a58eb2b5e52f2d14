/* The part of an MPI library that DLB itself uses, over shared memory: any number of ranks placed on any simulated node. Reductions combine in any order. */
#include <mpi.h>
#include <stdatomic.h>
#include "vh.h"
#include "mpi_mini.h"
#define MAXD (1 << 17)
struct mshm { atomic_int ncomm, stop; struct { atomic_int cnt, gen; } bar[1024]; struct { char op[32]; long bytes; char data[MAXD]; } slot[MINI_MAX]; };
struct comm { int id, n, me; int w[MINI_MAX]; };
struct type { int magic, nseg, committed; long size, extent; long disp[4096], len[4096]; };
struct op { void (*fn)(void*, void*, int*, MPI_Datatype*); };
static struct mshm *S; static struct comm world; static int myrank, nodeof[MINI_MAX]; static rng_t rr; long mini_colls, mini_live_types;
void *mini_new(void) { return NULL; }
size_t mini_size(void) { return sizeof(struct mshm); }
void mini_init(void *mem, int rank, int n, const int *node, uint64_t seed) { S = mem; myrank = rank; world.n = n; world.me = rank; world.id = 0; if (atomic_load(&S->ncomm) == 0) atomic_store(&S->ncomm, 1); for (int i = 0; i < n; i++) { world.w[i] = i; nodeof[i] = node[i]; } rr.s = seed; }
void mini_stop(void) { atomic_store(&S->stop, 1); }
static struct comm *C(long c) { if ((MPI_Comm)c == MPI_COMM_WORLD) return &world; struct comm *p = (struct comm*)c; if (c < 4096 || p->n <= 0 || p->n > MINI_MAX) { VIOL("M01/bad-communicator", "the library uses an invalid communicator"); _exit(3); } return p; }
static void bar(struct comm *c, const char *op) {
    if (c->n == 1) return;
    int g = atomic_load(&S->bar[c->id].gen);
    if (atomic_fetch_add(&S->bar[c->id].cnt, 1) + 1 == c->n) { atomic_store(&S->bar[c->id].cnt, 0); atomic_fetch_add(&S->bar[c->id].gen, 1); return; }
    time_t t0 = time(NULL); for (long k = 0; atomic_load(&S->bar[c->id].gen) == g; k++) { if (k > 100) { struct timespec ts = {0, 20000}; nanosleep(&ts, NULL); } else sched_yield();
        if (atomic_load(&S->stop)) _exit(3);
        if (time(NULL) - t0 > 60) { atomic_store(&S->stop, 1); VIOL("M01/ranks-disagree", "rank %d waits forever in a collective operation of the library (%s): not every rank of the communicator called it", myrank, op); _exit(3); } }
}
void mini_barrier(void) { bar(&world, "harness"); }
static void put(struct comm *c, const char *op, const void *b, long n) {
    mini_colls++;
    if (n > MAXD) HARNESS_ERROR("message too long: %ld", n); int w = c->w[c->me]; snprintf(S->slot[w].op, 32, "%s", op); S->slot[w].bytes = n; if (n) memcpy(S->slot[w].data, b, n); bar(c, op);
    for (int i = 0; i < c->n; i++) if (strcmp(S->slot[c->w[i]].op, op)) { atomic_store(&S->stop, 1); VIOL("M01/ranks-disagree", "rank %d is in %s while rank %d of the same communicator is in %s", myrank, op, c->w[i], S->slot[c->w[i]].op); _exit(3); }
}
static const void *get(struct comm *c, int i, long *n) { *n = S->slot[c->w[i]].bytes; return S->slot[c->w[i]].data; }
static long basic(MPI_Datatype t) { if (t == MPI_INT || t == MPI_FLOAT || t == MPI_UNSIGNED || t == MPI_INT32_T) return 4; if (t == MPI_DOUBLE || t == MPI_INT64_T || t == MPI_LONG || t == MPI_UINT64_T || t == MPI_LONG_LONG || t == MPI_AINT || t == MPI_UNSIGNED_LONG) return 8; if (t == MPI_CHAR || t == MPI_C_BOOL || t == MPI_BYTE || t == MPI_SIGNED_CHAR || t == MPI_INT8_T || t == MPI_UINT8_T || t == MPI_UNSIGNED_CHAR) return 1; if (t == MPI_SHORT) return 2; return 0; }
static struct type *T(MPI_Datatype t) { struct type *p = (struct type*)t; if ((long)p < 4096 || p->magic != 0x7e57) { VIOL("M01/bad-datatype", "the library communicates with an invalid datatype"); _exit(3); } return p; }
static long tsize(MPI_Datatype t) { return basic(t) ? basic(t) : T(t)->size; }
static long textent(MPI_Datatype t) { return basic(t) ? basic(t) : T(t)->extent; }
static void usable(MPI_Datatype t) { if (!basic(t) && !T(t)->committed) VIOL("M01/bad-datatype", "the library communicates with a datatype that is not committed"); }
static long pack(const void *b, long n, MPI_Datatype t, char *o) { usable(t); long s = basic(t); if (s) { memcpy(o, b, s * n); return s * n; } struct type *p = T(t); char *q = o; for (long i = 0; i < n; i++) for (int k = 0; k < p->nseg; k++) { memcpy(q, (const char*)b + i * p->extent + p->disp[k], p->len[k]); q += p->len[k]; } return q - o; }
static void unpack(const char *q, long bytes, void *b, long n, MPI_Datatype t, const char *op) {
    usable(t); if (bytes > n * tsize(t)) { VIOL("M01/truncated", "%s: a rank sends %ld bytes and the receiver has room for %ld", op, bytes, n * tsize(t)); bytes = n * tsize(t); }
    long s = basic(t); if (s) { memcpy(b, q, bytes); return; } struct type *p = T(t); const char *e = q + bytes;
    for (long i = 0; i < n; i++) for (int k = 0; k < p->nseg; k++) { long l = p->len[k]; if (q + l > e) l = e - q; if (l <= 0) return; memcpy((char*)b + i * p->extent + p->disp[k], q, l); q += l; }
}
static struct comm *newcomm(struct comm *par, int color, int key, const char *op) {
    int mine[2] = {color, key}; put(par, op, mine, sizeof mine); struct comm *c = calloc(1, sizeof *c); int keys[MINI_MAX]; int first = -1;
    for (int i = 0; i < par->n; i++) { long n; int v[2]; memcpy(v, get(par, i, &n), sizeof v); if (v[0] != color) continue; if (first < 0) first = i; int k = c->n++; while (k > 0 && keys[k - 1] > v[1]) { keys[k] = keys[k - 1]; c->w[k] = c->w[k - 1]; k--; } keys[k] = v[1]; c->w[k] = par->w[i]; }
    for (int i = 0; i < c->n; i++) if (c->w[i] == myrank) c->me = i;
    bar(par, op); int id = -1; if (par->me == first) id = atomic_fetch_add(&S->ncomm, 1); put(par, op, &id, sizeof id); long n; memcpy(&c->id, get(par, first, &n), sizeof id); bar(par, op); if (c->id >= 1024) HARNESS_ERROR("too many communicators"); return c;
}
#define NUM(TYPE) { TYPE *x = in, *y = io; for (int i = 0; i < n; i++) { if (op == MPI_SUM) y[i] += x[i]; else if (op == MPI_MAX) y[i] = x[i] > y[i] ? x[i] : y[i]; else if (op == MPI_MIN) y[i] = x[i] < y[i] ? x[i] : y[i]; else HARNESS_ERROR("reduction not supported"); } return; }
static void combine(void *in, void *io, int n, MPI_Datatype t, MPI_Op op) {
    if (op == MPI_SUM || op == MPI_MAX || op == MPI_MIN || op == MPI_LOR || op == MPI_LAND) { if (t == MPI_INT) { if (op == MPI_LOR || op == MPI_LAND) { int *x = in, *y = io; for (int i = 0; i < n; i++) y[i] = op == MPI_LOR ? x[i] || y[i] : x[i] && y[i]; return; } NUM(int) } if (t == MPI_DOUBLE) NUM(double) if (t == MPI_FLOAT) NUM(float) if (basic(t) == 8) NUM(int64_t) HARNESS_ERROR("reduction of a type not supported"); }
    ((struct op*)op)->fn(in, io, &n, &t);
}
static void reduce(struct comm *c, long sb, long rb, int n, MPI_Datatype t, MPI_Op op, int root, const char *name) {
    char *b = malloc(n * tsize(t) + 1); long l = pack((void*)sb == MPI_IN_PLACE ? (void*)rb : (void*)sb, n, t, b); put(c, name, b, l); free(b);
    if (root < 0 || root == c->me) {
        char *v[MINI_MAX]; int k = c->n; for (int i = 0; i < k; i++) { long m; const void *q = get(c, i, &m); v[i] = malloc(n * textent(t) + 1); memset(v[i], 0xA5, n * textent(t) + 1); unpack(q, m, v[i], n, t, name); }
        rng_t r2 = {0x5eed + (uint64_t)c->id * 77 + mini_colls * 0 + n}; rng_t *r = root < 0 ? &r2 : &rr;   /* same result everywhere for Allreduce */
        while (k > 1) { int i = rnd(r, k), j = rnd(r, k - 1); if (j >= i) j++; combine(v[i], v[j], n, t, op); free(v[i]); v[i] = v[k - 1]; k--; }
        char *o = malloc(n * tsize(t) + 1); long m = pack(v[0], n, t, o); unpack(o, m, (void*)rb, n, t, name); free(o); free(v[0]);
    }
    bar(c, name);
}
/* Returns 0 if done, -1 if it isn't one of the operations provided */
int mini_call(const char *f, const long *a) {
    f += 4;
#define IS(x) (!strcmp(f, x))
    if (IS("Init") || IS("Init_thread")) { if (IS("Init_thread") && a[3]) *(int*)a[3] = (int)a[2]; return 0; }
    if (IS("Finalize")) { bar(&world, f); return 0; }
    if (IS("Comm_rank")) { *(int*)a[1] = C(a[0])->me; return 0; }
    if (IS("Comm_size")) { *(int*)a[1] = C(a[0])->n; return 0; }
    if (IS("Comm_dup")) { *(struct comm**)a[1] = newcomm(C(a[0]), 0, C(a[0])->me, f); return 0; }
    if (IS("Comm_split")) { *(struct comm**)a[3] = newcomm(C(a[0]), (int)a[1], (int)a[2], f); return 0; }
    if (IS("Comm_split_type")) { *(struct comm**)a[4] = newcomm(C(a[0]), nodeof[myrank], (int)a[2], f); return 0; }
    if (IS("Comm_free")) { return 0; }
    if (IS("Op_create")) { struct op *o = malloc(sizeof *o); o->fn = (void*)a[0]; *(struct op**)a[2] = o; return 0; }
    if (IS("Op_free")) { free(*(struct op**)a[0]); return 0; }
    if (IS("Barrier")) { put(C(a[0]), f, NULL, 0); bar(C(a[0]), f); return 0; }
    if (IS("Initialized") || IS("Finalized")) { *(int*)a[0] = IS("Initialized"); return 0; }
    struct comm *c; char *b = NULL; long n, l;
    if (IS("Bcast")) { c = C(a[4]); b = malloc(a[1] * tsize((MPI_Datatype)a[2]) + 1); l = 0; if (c->me == a[3]) l = pack((void*)a[0], a[1], (MPI_Datatype)a[2], b); put(c, f, b, l); const void *q = get(c, a[3], &n); if (c->me != a[3]) unpack(q, n, (void*)a[0], a[1], (MPI_Datatype)a[2], f); bar(c, f); free(b); return 0; }
    if (IS("Gather") || IS("Allgather") || IS("Gatherv") || IS("Allgatherv")) {
        int v = f[strlen(f) - 1] == 'v', all = f[0] == 'A'; const long *p = a + 6 + v; int root = all ? -1 : (int)*p++; c = C(*p); MPI_Datatype st = (MPI_Datatype)a[2], rt = (MPI_Datatype)a[5 + v];
        b = malloc(a[1] * tsize(st) + 1); l = pack((void*)a[0], a[1], st, b); put(c, f, b, l); free(b);
        if (all || root == c->me) for (int i = 0; i < c->n; i++) { const void *q = get(c, i, &n); int cnt = v ? ((int*)a[4])[i] : (int)a[4]; long at = v ? ((int*)a[5])[i] : (long)i * cnt; unpack(q, n, (char*)a[3] + at * textent(rt), cnt, rt, f); }
        bar(c, f); return 0; }
    if (IS("Scatter")) { c = C(a[7]); int root = a[6]; MPI_Datatype st = (MPI_Datatype)a[2], rt = (MPI_Datatype)a[5]; l = 0; if (c->me == root) { b = malloc(c->n * a[1] * tsize(st) + 1); l = pack((void*)a[0], c->n * a[1], st, b); } put(c, f, b, l); free(b); const char *q = get(c, root, &n); unpack(q + c->me * (n / c->n), n / c->n, (void*)a[3], a[4], rt, f); bar(c, f); return 0; }
    if (IS("Reduce")) { reduce(C(a[6]), a[0], a[1], (int)a[2], (MPI_Datatype)a[3], (MPI_Op)a[4], (int)a[5], f); return 0; }
    if (IS("Allreduce")) { reduce(C(a[5]), a[0], a[1], (int)a[2], (MPI_Datatype)a[3], (MPI_Op)a[4], -1, f); return 0; }
    return -1;
}
void vh_unsupported(const char *f) { HARNESS_ERROR("the library calls %s, which the harness does not provide", f); }
#define BOTH(NAME, PAR, ARG, BODY) int PMPI_##NAME PAR BODY int MPI_##NAME PAR { return PMPI_##NAME ARG; }
BOTH(Get_library_version, (char *v, int *n), (v, n), { strcpy(v, "mini"); *n = 4; return 0; })
BOTH(Error_string, (int e, char *s, int *n), (e, s, n), { strcpy(s, "error"); *n = 5; return 0; })
BOTH(Comm_set_errhandler, (MPI_Comm c, MPI_Errhandler h), (c, h), { return 0; })
BOTH(Type_match_size, (int k, int s, MPI_Datatype *t), (k, s, t), { *t = k == MPI_TYPECLASS_INTEGER ? (s == 4 ? MPI_INT : s == 8 ? MPI_INT64_T : s == 2 ? MPI_SHORT : MPI_CHAR) : (s == 4 ? MPI_FLOAT : MPI_DOUBLE); return 0; })
BOTH(Type_create_struct, (int n, const int bl[], const MPI_Aint d[], const MPI_Datatype ty[], MPI_Datatype *t), (n, bl, d, ty, t), {
    struct type *p = calloc(1, sizeof *p); p->magic = 0x7e57; mini_live_types++;
    for (int i = 0; i < n; i++) { long s = basic(ty[i]); if (s) { p->disp[p->nseg] = d[i]; p->len[p->nseg++] = s * bl[i]; p->size += s * bl[i]; if (d[i] + s * bl[i] > p->extent) p->extent = d[i] + s * bl[i]; } else { struct type *q = T(ty[i]); for (int j = 0; j < bl[i]; j++) for (int k = 0; k < q->nseg; k++) { if (p->nseg >= 4096) HARNESS_ERROR("type too long"); p->disp[p->nseg] = d[i] + j * q->extent + q->disp[k]; p->len[p->nseg++] = q->len[k]; p->size += q->len[k]; } if (d[i] + bl[i] * q->extent > p->extent) p->extent = d[i] + bl[i] * q->extent; } }
    *t = (MPI_Datatype)p; return 0; })
BOTH(Type_create_resized, (MPI_Datatype o, MPI_Aint lb, MPI_Aint e, MPI_Datatype *t), (o, lb, e, t), { struct type *p = calloc(1, sizeof *p); mini_live_types++; if (basic(o)) { p->magic = 0x7e57; p->nseg = 1; p->len[0] = p->size = basic(o); } else *p = *T(o); p->committed = 0; p->extent = e; *t = (MPI_Datatype)p; return 0; })
BOTH(Type_contiguous, (int n, MPI_Datatype o, MPI_Datatype *t), (n, o, t), { MPI_Aint z = 0; return PMPI_Type_create_struct(1, &n, &z, &o, t); })
BOTH(Type_size, (MPI_Datatype t, int *n), (t, n), { *n = (int)tsize(t); return 0; })
BOTH(Type_commit, (MPI_Datatype *t), (t), { if (!basic(*t)) T(*t)->committed = 1; return 0; })
BOTH(Type_free, (MPI_Datatype *t), (t), { if (!basic(*t)) { struct type *p = T(*t); p->magic = 0; free(p); mini_live_types--; } *t = MPI_DATATYPE_NULL; return 0; })
