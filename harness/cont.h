#ifndef CONT_H
#define CONT_H
#include <stddef.h>
#include <stdbool.h>
typedef struct { int key; int val; } item_t;
typedef struct {
    int n;
    void* (*make)(void); void (*destroy)(void*); void (*clear)(void*);
    size_t (*size)(void*); bool (*empty)(void*); item_t* (*front)(void*); item_t* (*back)(void*);
    item_t* (*next)(void*, item_t*); int (*enqueue)(void*, item_t); int (*dequeue)(void*, item_t*);
    void (*del)(void*, item_t*); void (*remove)(void*, int); void (*replace)(void*, item_t); item_t* (*search)(void*, int);
} qops_t;
#ifdef __cplusplus
extern "C" {
#endif
const qops_t* cont_queue(int i);
void* arr_new(size_t n); void arr_del(void *a); void arr_push(void *a, int v); int arr_get(void *a, size_t i);
size_t arr_count(void *a); void arr_clear(void *a); void arr_sort(void *a);
int small_arrays(size_t n);
#ifdef __cplusplus
}
#endif
#endif
