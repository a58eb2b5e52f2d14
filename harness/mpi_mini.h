#define MINI_MAX 12
#ifdef __cplusplus
extern "C" {
#endif
size_t mini_size(void); void mini_init(void *mem, int rank, int n, const int *node, uint64_t seed); void mini_barrier(void); void mini_stop(void);
int mini_call(const char *name, const long *args);
struct vh_call { const char *name; int nc, nf, ier; long (*fn[7])(long*); long (*leave[2])(long*); };
extern const struct vh_call vh_calls[]; extern const int vh_ncalls;
extern long mini_colls, mini_live_types;
#ifdef __cplusplus
}
#endif
