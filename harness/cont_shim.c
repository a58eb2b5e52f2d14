/* C instantiations of the container templates, as plain functions for cont.cc. */
#include "support/queues.h"
#include "support/types.h"
#include <stdbool.h>
#include "cont.h"

#define INST(TY, N) \
    void* TY##_new(void) { queue_##TY *q = malloc(sizeof *q); queue_##TY##_init(q); return q; } \
    void TY##_del(void *q) { free(q); } \
    void TY##_clr(void *q) { queue_##TY##_clear(q); } \
    size_t TY##_siz(void *q) { return queue_##TY##_size(q); } \
    bool TY##_emp(void *q) { return queue_##TY##_empty(q); } \
    item_t* TY##_fro(void *q) { return (item_t*)queue_##TY##_front(q); } \
    item_t* TY##_bac(void *q) { return (item_t*)queue_##TY##_back(q); } \
    item_t* TY##_nex(void *q, item_t *i) { return (item_t*)queue_##TY##_next(q, (TY*)i); } \
    int TY##_enq(void *q, item_t i) { return queue_##TY##_enqueue(q, i); } \
    int TY##_deq(void *q, item_t *i) { return queue_##TY##_dequeue(q, i); } \
    void TY##_delete(void *q, item_t *i) { queue_##TY##_delete(q, i); } \
    void TY##_rem(void *q, int k) { queue_##TY##_remove(q, k); } \
    void TY##_rep(void *q, item_t i) { queue_##TY##_replace(q, i); } \
    item_t* TY##_sea(void *q, int k) { return (item_t*)queue_##TY##_search(q, k); } \
    const qops_t TY##_ops = { N, TY##_new, TY##_del, TY##_clr, TY##_siz, TY##_emp, TY##_fro, TY##_bac, \
        TY##_nex, TY##_enq, TY##_deq, TY##_delete, TY##_rem, TY##_rep, TY##_sea };

typedef item_t q2_t; typedef item_t q4_t; typedef item_t q8_t; typedef item_t q37_t;
#define QUEUE_T q2_t
#define QUEUE_KEY_T int
#define QUEUE_SIZE 2
#include "support/queue_template.h"
#define QUEUE_T q4_t
#define QUEUE_KEY_T int
#define QUEUE_SIZE 4
#include "support/queue_template.h"
#define QUEUE_T q8_t
#define QUEUE_KEY_T int
#define QUEUE_SIZE 8
#include "support/queue_template.h"
#define QUEUE_T q37_t
#define QUEUE_KEY_T int
#define QUEUE_SIZE 37
#include "support/queue_template.h"
INST(q2_t, 2)
INST(q4_t, 4)
INST(q8_t, 8)
INST(q37_t, 37)
const qops_t* cont_queue(int i) {
    static const qops_t *t[] = { &q2_t_ops, &q4_t_ops, &q8_t_ops, &q37_t_ops };
    return t[i & 3];
}

#define ARRAY_T int
#include "support/array_template.h"
void* arr_new(size_t n) { array_int *a = malloc(sizeof *a); array_int_init(a, n); return a; }
void arr_del(void *a) { array_int_destroy(a); free(a); }
void arr_push(void *a, int v) { array_int_push(a, v); }
int arr_get(void *a, size_t i) { return array_int_get(a, i); }
size_t arr_count(void *a) { return array_int_count(a); }
void arr_clear(void *a) { array_int_clear(a); }
void arr_sort(void *a) { array_int_sort(a); }

#include "support/small_array.h"
/* writes and reads back n elements of each type; returns 0 if all values survive */
int small_arrays(size_t n) {
    SMALL_ARRAY(int, a, n);
    SMALL_ARRAY(pid_t, b, n);
    SMALL_ARRAY(cpuid_t, d, n);
    SMALL_ARRAY(lewi_request_t, e, n);
    for (size_t i = 0; i < n; i++) { a[i] = (int)i; b[i] = (pid_t)(2 * i); d[i] = (cpuid_t)(3 * i); e[i] = (lewi_request_t){ .pid = (pid_t)i, .howmany = (unsigned)(5 * i) }; }
    for (size_t i = 0; i < n; i++)
        if (a[i] != (int)i || b[i] != (pid_t)(2 * i) || d[i] != (cpuid_t)(3 * i) || e[i].pid != (pid_t)i || e[i].howmany != 5 * i) return 1;
    return 0;
}
