// Calls of the library as a program makes them; stepped together with the library.
#include "conc.h"
static long w_malloc(struct carg *a) { a->p = a->global ? rseq_mempool_malloc(a->pool) : (void *) rseq_mempool_percpu_malloc(a->pool); return 0; }
static long w_zmalloc(struct carg *a) { a->p = a->global ? rseq_mempool_zmalloc(a->pool) : (void *) rseq_mempool_percpu_zmalloc(a->pool); return 0; }
static long w_init(struct carg *a) { a->p = a->global ? rseq_mempool_malloc_init(a->pool, a->init, a->len) : (void *) rseq_mempool_percpu_malloc_init(a->pool, a->init, a->len); return 0; }
static long w_free(struct carg *a) { if (a->global) rseq_mempool_free(a->p, a->stride); else rseq_mempool_percpu_free(a->p, a->stride); return 0; }
static long w_smalloc(struct carg *a) { a->p = (void *) rseq_mempool_set_percpu_malloc(a->set, a->len); return 0; }
static long w_szmalloc(struct carg *a) { a->p = (void *) rseq_mempool_set_percpu_zmalloc(a->set, a->len); return 0; }
static long w_sinit(struct carg *a) { a->p = (void *) rseq_mempool_set_percpu_malloc_init(a->set, a->init, a->len); return 0; }
static long w_sadd(struct carg *a) { return rseq_mempool_set_add_pool(a->set, a->pool); }
static long w_create(struct carg *a) { a->pool = rseq_mempool_create("vp", a->len, a->attr); return 0; }
static long w_destroy(struct carg *a) { return rseq_mempool_destroy(a->pool); }
long (*const co_fn[CO_N])(struct carg *) = { w_malloc, w_zmalloc, w_init, w_free, w_smalloc, w_szmalloc, w_sinit, w_sadd, w_create, w_destroy };
