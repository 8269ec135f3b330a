#pragma once
#include <stddef.h>
#include <stdint.h>
#include <rseq/mempool.h>
enum { CO_MALLOC, CO_ZMALLOC, CO_INIT, CO_FREE, CO_SET_MALLOC, CO_SET_ZMALLOC, CO_SET_INIT, CO_SET_ADD, CO_CREATE, CO_DESTROY, CO_N };
struct carg { struct rseq_mempool *pool; struct rseq_mempool_set *set; void *p; void *init; size_t len, stride; const struct rseq_mempool_attr *attr; int global; };
#ifdef __cplusplus
extern "C"
#endif
long (*const co_fn[CO_N])(struct carg *);
