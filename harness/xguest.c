/* Program for one of the other architectures: every helper shape of opsvar.c and
 * wrappers around the ordering and once-only accessors.  Freestanding. */
#include <stdio.h>
#include "opsvar.c"
#include "xguest.h"
ptrdiff_t rseq_offset; unsigned int rseq_size, rseq_flags;
const uint32_t vp_sig = RSEQ_SIG;
#ifdef VP_GUEST
FILE *stderr; int errno;
int fprintf(FILE *f, const char *s, ...) { (void) f; (void) s; return 0; }
__attribute__((noreturn)) void abort(void) { for (;;) *(volatile int *) 16 = 1; }
void _start(void) {}
void *memcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; while (n--) { *p++ = *q++; __asm__ __volatile__ ("" ::: "memory"); } return d; }
void *memset(void *d, int c, size_t n) { char *p = d; while (n--) { *p++ = (char) c; __asm__ __volatile__ ("" ::: "memory"); } return d; }
#endif
#ifndef VP_NOORD
#define P(T) ((T *) a->p)
#define Q(T) ((T *) a->q)
#define W(name, T, BODY) static NOI void CAT(CAT(o_, name), T)(struct ordargs *a) { BODY; }
typedef uint8_t t1; typedef uint16_t t2; typedef uint32_t t4; typedef uint64_t t8;
typedef int8_t s1; typedef int16_t s2; typedef int32_t s4; typedef int64_t s8;
#define ALLT(M) M(t1) M(t2) M(t4) M(t8) M(s1) M(s2) M(s4) M(s8)
#define DEF(T) \
	W(mb_sl, T, *P(T) = (T) a->val; rseq_smp_mb(); a->out = *Q(T)) \
	W(mb_ll, T, T x = *P(T); rseq_smp_mb(); a->out = *Q(T); a->out2 = x) \
	W(mb_ss, T, *P(T) = (T) a->val; rseq_smp_mb(); *Q(T) = (T) a->val2) \
	W(mb_ls, T, T x = *P(T); rseq_smp_mb(); *Q(T) = (T) a->val2; a->out2 = x) \
	W(rmb, T, T x = *P(T); rseq_smp_rmb(); a->out = *Q(T); a->out2 = x) \
	W(wmb, T, *P(T) = (T) a->val; rseq_smp_wmb(); *Q(T) = (T) a->val2) \
	W(acq_l, T, T x = rseq_smp_load_acquire(P(T)); a->out = *Q(T); a->out2 = x) \
	W(acq_s, T, T x = rseq_smp_load_acquire(P(T)); *Q(T) = (T) a->val2; a->out2 = x) \
	W(rel_s, T, *P(T) = (T) a->val; rseq_smp_store_release(Q(T), (T) a->val2)) \
	W(rel_l, T, T x = *P(T); rseq_smp_store_release(Q(T), (T) a->val2); a->out2 = x) \
	W(ctrl, T, if (RSEQ_READ_ONCE(*P(T))) { rseq_smp_acquire__after_ctrl_dep(); a->out = *Q(T); a->out2 = 1; }) \
	W(rd, T, T x = RSEQ_READ_ONCE(*P(T)); T y = RSEQ_READ_ONCE(*P(T)); a->out = x; a->out2 = y) \
	W(wr, T, RSEQ_WRITE_ONCE(*P(T), (T) a->val); RSEQ_WRITE_ONCE(*P(T), (T) a->val2))
ALLT(DEF)
W(cpu, s4, a->out = (uint64_t) (int64_t) rseq_current_cpu_raw())
W(cid, s4, a->out = (uint64_t) (int64_t) (int) rseq_current_mm_cid())
W(node, s4, a->out = (uint64_t) (int64_t) (int) rseq_current_node_id())
W(start, s4, a->out = (uint64_t) (int64_t) (int) rseq_cpu_start())
W(unload, s4, (void) a; rseq_prepare_unload())
#define E_(name, K, T) { #name "_" #T, K, sizeof(T), CAT(CAT(o_, name), T) },
#define ENTS(T) E_(mb_sl, O_MB_SL, T) E_(mb_ll, O_MB_LL, T) E_(mb_ss, O_MB_SS, T) E_(mb_ls, O_MB_LS, T) E_(rmb, O_RMB, T) E_(wmb, O_WMB, T) E_(acq_l, O_ACQ_L, T) E_(acq_s, O_ACQ_S, T) E_(rel_s, O_REL_S, T) E_(rel_l, O_REL_L, T) E_(ctrl, O_CTRL, T) E_(rd, O_RD, T) E_(wr, O_WR, T)
static const struct ordent oents[] = { ALLT(ENTS) E_(cpu, O_CPU, s4) E_(cid, O_CID, s4) E_(node, O_NODE, s4) E_(start, O_START, s4) E_(unload, O_UNLOAD, s4) };
#define NO_ (sizeof(oents) / sizeof(oents[0]))
#else
#define NO_ 0
static const struct ordent oents[1];
#endif
extern const struct ordvar vp_ord;
const struct ordvar vp_ord = { oents, NO_ };
