#include <rseq/rseq.h>
#include "ds.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
#define cur_MC() rseq_cpu_start()
#define cur_MM() rseq_current_mm_cid()
#define MODE_MC RSEQ_PERCPU_CPU_ID
#define MODE_MM RSEQ_PERCPU_MM_CID
#define NOI static __attribute__((noinline))

#define DEF(S, M, MO) \
NOI long inc_##S(struct dsarg *a) { int ret, cpu; do { cpu = cur_##M(); a->idx = cpu; ret = rseq_load_add_store__ptr(RSEQ_MO_RELAXED, MODE_##M, &a->ds->c[cpu].count, a->n, cpu); } while (rseq_unlikely(ret)); return 0; } \
NOI long linc_##S(struct dsarg *a) { int ret, cpu; \
	for (;;) { cpu = cur_##M(); a->idx = cpu; ret = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, MODE_##M, &a->ds->c[cpu].lock, 0, 1, cpu); if (rseq_likely(!ret)) break; } \
	rseq_smp_acquire__after_ctrl_dep(); a->inside = 1; \
	intptr_t x = RSEQ_READ_ONCE(a->ds->c[cpu].locked_count); RSEQ_WRITE_ONCE(a->ds->c[cpu].locked_count, x + a->n); \
	a->inside = 2; rseq_smp_store_release(&a->ds->c[cpu].lock, 0); return 0; } \
NOI long push_##S(struct dsarg *a) { int ret, cpu; \
	do { struct percpu *p; intptr_t expect; cpu = cur_##M(); a->idx = cpu; p = &a->ds->c[cpu]; expect = (intptr_t) RSEQ_READ_ONCE(p->head); a->node->next = (struct node *) expect; \
		ret = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, MODE_##M, (intptr_t *) &p->head, expect, (intptr_t) a->node, cpu); } while (rseq_unlikely(ret)); return 0; } \
NOI long pop_##S(struct dsarg *a) { int ret, cpu; struct node *head; \
	for (;;) { struct percpu *p; cpu = cur_##M(); a->idx = cpu; p = &a->ds->c[cpu]; \
		ret = rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, MODE_##M, (intptr_t *) &p->head, (intptr_t) NULL, offsetof(struct node, next), (intptr_t *) &head, cpu); \
		if (rseq_likely(!ret)) { a->node = head; return 1; } if (ret > 0) return 0; } } \
NOI long bpush_##S(struct dsarg *a) { int ret, cpu; \
	for (;;) { struct percpu *p; intptr_t off; cpu = cur_##M(); a->idx = cpu; p = &a->ds->c[cpu]; off = RSEQ_READ_ONCE(p->boff); if (off == BUFLEN) return 0; \
		ret = rseq_load_cbne_store_store__ptr(MO, MODE_##M, &p->boff, off, (intptr_t *) &p->barr[off], (intptr_t) a->node, off + 1, cpu); if (rseq_likely(!ret)) return 1; } } \
NOI long bpop_##S(struct dsarg *a) { int ret, cpu; \
	for (;;) { struct percpu *p; intptr_t off; struct node *h; cpu = cur_##M(); a->idx = cpu; p = &a->ds->c[cpu]; off = RSEQ_READ_ONCE(p->boff); if (off == 0) return 0; \
		h = RSEQ_READ_ONCE(p->barr[off - 1]); \
		ret = rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, MODE_##M, &p->boff, off, (intptr_t *) &p->barr[off - 1], (intptr_t) h, off - 1, cpu); if (rseq_likely(!ret)) { a->node = h; return 1; } } } \
NOI long mpush_##S(struct dsarg *a) { int ret, cpu; \
	for (;;) { struct percpu *p; intptr_t off; cpu = cur_##M(); a->idx = cpu; p = &a->ds->c[cpu]; off = RSEQ_READ_ONCE(p->moff); if (off == BUFLEN) return 0; \
		ret = rseq_load_cbne_memcpy_store__ptr(MO, MODE_##M, &p->moff, off, (char *) &p->marr[off], (char *) &a->it, sizeof(a->it), off + 1, cpu); if (rseq_likely(!ret)) return 1; } } \
NOI long mpop_##S(struct dsarg *a) { int ret, cpu; \
	for (;;) { struct percpu *p; intptr_t off; cpu = cur_##M(); a->idx = cpu; p = &a->ds->c[cpu]; off = RSEQ_READ_ONCE(p->moff); if (off == 0) return 0; \
		ret = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, MODE_##M, &p->moff, off, (char *) &a->it, (char *) &p->marr[off - 1], sizeof(a->it), off - 1, cpu); if (rseq_likely(!ret)) return 1; } } \
NOI long ind_##S(struct dsarg *a) { int ret, cpu; do { cpu = cur_##M(); a->idx = cpu; ret = rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, MODE_##M, (intptr_t *) &a->ds->blk, (long) (sizeof(struct cell) * cpu + offsetof(struct cell, slot)), a->n, cpu); } while (rseq_unlikely(ret)); return 0; }

DEF(crel, MC, RSEQ_MO_RELEASE) DEF(crlx, MC, RSEQ_MO_RELAXED) DEF(mrel, MM, RSEQ_MO_RELEASE) DEF(mrlx, MM, RSEQ_MO_RELAXED)
#define E(S, M) { #S, MODE_##M, { inc_##S, linc_##S, push_##S, pop_##S, bpush_##S, bpop_##S, mpush_##S, mpop_##S, ind_##S } }
#ifdef __cplusplus
extern "C" {
#endif
extern const struct dsvar VARIANT;
const struct dsvar VARIANT = { STR(VARIANT), { E(crel, MC), E(crlx, MC), E(mrel, MM), E(mrlx, MM) } };
#ifdef __cplusplus
}
#endif
