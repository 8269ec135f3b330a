/* Wrappers around every helper in several shapes.  Compiled many times (compilers,
 * languages, optimisation levels, RSEQ_COMPARE_TWICE) as VARIANT. */
#include <rseq/rseq.h>
#include "ops.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)

#define NOI __attribute__((noinline))
/* An index cut from a wider value whose upper bits the compiler may leave in the register. */
#define TRUNC(x) ((int) __extension__ ({ long t_ = (long) (x); __asm__ __volatile__ ("" : "+r" (t_)); t_; }))
#ifdef rseq_arch_has_load_add_load_load_add_store
#define IF3(...) __VA_ARGS__
#else
#define IF3(...)
#endif
#ifdef VP_XARCH	/* integer registers only */
#undef IF3
#define IF3(...)
#define FLV
#define FLC
#define FLS
#else
#define FLV double f0 = a->fl[0], f1 = a->fl[1];
#define FLC , "+x" (f0), "+x" (f1)
#define FLS a->flout[0] = f0; a->flout[1] = f1;
#endif
#ifndef VP_OPS	/* bit mask of the helpers to include */
#define VP_OPS 127
#endif
#if (VP_OPS >> 0) & 1
#define S0(...) __VA_ARGS__
#else
#define S0(...)
#endif
#if (VP_OPS >> 1) & 1
#define S1(...) __VA_ARGS__
#else
#define S1(...)
#endif
#if (VP_OPS >> 2) & 1
#define S2(...) __VA_ARGS__
#else
#define S2(...)
#endif
#if (VP_OPS >> 3) & 1
#define S3(...) __VA_ARGS__
#else
#define S3(...)
#endif
#if (VP_OPS >> 4) & 1
#define S4(...) __VA_ARGS__
#else
#define S4(...)
#endif
#if (VP_OPS >> 5) & 1
#define S5(...) __VA_ARGS__
#else
#define S5(...)
#endif
#if (VP_OPS >> 6) & 1
#define S6(...) __VA_ARGS__
#else
#define S6(...)
#endif
#ifndef VP_MODES	/* bit mask of orderings and modes */
#define VP_MODES 15
#endif
#if (VP_MODES >> 0) & 1
#define Mrc(...) __VA_ARGS__
#else
#define Mrc(...)
#endif
#if (VP_MODES >> 1) & 1
#define Mrm(...) __VA_ARGS__
#else
#define Mrm(...)
#endif
#if (VP_MODES >> 2) & 1
#define Msc(...) __VA_ARGS__
#else
#define Msc(...)
#endif
#if (VP_MODES >> 3) & 1
#define Msm(...) __VA_ARGS__
#else
#define Msm(...)
#endif
#define IF3X(...) IF3(S3(__VA_ARGS__))
#define LOCALS \
	intptr_t *v = a->v, *v2 = a->v2, *load = a->load; intptr_t expect = a->expect, expect2 = a->expect2, newv = a->newv, newv2 = a->newv2, count = a->count; \
	long off = a->off; char *dst = a->dst, *src = a->src; size_t len = a->len; int cpu = a->cpu; \
	(void) v; (void) v2; (void) load; (void) expect; (void) expect2; (void) newv; (void) newv2; (void) count; (void) off; (void) dst; (void) src; (void) len; (void) cpu;
#define OO \
	a->oo[0] = (intptr_t) v; a->oo[1] = (intptr_t) v2; a->oo[2] = (intptr_t) load; a->oo[3] = expect; a->oo[4] = expect2; a->oo[5] = newv; a->oo[6] = newv2; a->oo[7] = count; \
	a->oo[8] = off; a->oo[9] = (intptr_t) dst; a->oo[10] = (intptr_t) src; a->oo[11] = (intptr_t) len ^ ((intptr_t) cpu << 40); a->oo_valid = 1;
#define ENUM_MO(x) (x)

/* SHAPE(id, PREP, CALL): plain shape. */
#define SHAPE(id, PREP, CALL) \
	static void CAT(prep_, id)(struct opargs *a) { (void) a; PREP; } \
	static NOI int CAT(fn_, id)(struct opargs *a) { LOCALS return CALL; }
/* operands (as loaded) saved again afterwards */
#define SHAPE_OO(id, PREP, CALL) \
	static void CAT(prep_, id)(struct opargs *a) { (void) a; PREP; } \
	static NOI int CAT(fn_, id)(struct opargs *a) { LOCALS int r = CALL; OO return r; }
/* many values live across the call, in registers as far as possible */
#define SHAPE_LIVE(id, PREP, CALL) \
	static void CAT(prep_, id)(struct opargs *a) { (void) a; PREP; } \
	static NOI int CAT(fn_, id)(struct opargs *a) { LOCALS \
		uint64_t l0 = a->live[0], l1 = a->live[1], l2 = a->live[2], l3 = a->live[3], l4 = a->live[4], l5 = a->live[5], l6 = a->live[6], l7 = a->live[7], l8 = a->live[8], l9 = a->live[9], l10 = a->live[10], l11 = a->live[11], l12 = a->live[12], l13 = a->live[13]; \
		FLV \
		__asm__ __volatile__ ("" : "+r" (l0), "+r" (l1), "+r" (l2), "+r" (l3), "+r" (l4)); \
		__asm__ __volatile__ ("" : "+r" (l5), "+r" (l6), "+r" (l7), "+r" (l8), "+r" (l9)); \
		__asm__ __volatile__ ("" : "+r" (l10), "+r" (l11), "+r" (l12), "+r" (l13) FLC); \
		int r = CALL; \
		__asm__ __volatile__ ("" : "+r" (l0), "+r" (l1), "+r" (l2), "+r" (l3), "+r" (l4)); \
		a->liveout[0] = l0; a->liveout[1] = l1; a->liveout[2] = l2; a->liveout[3] = l3; a->liveout[4] = l4; a->liveout[5] = l5; a->liveout[6] = l6; a->liveout[7] = l7; a->liveout[8] = l8; a->liveout[9] = l9; a->liveout[10] = l10; a->liveout[11] = l11; a->liveout[12] = l12; a->liveout[13] = l13; FLS \
		OO return r; }

#define R0 RSEQ_MO_RELAXED
#define RR RSEQ_MO_RELEASE
#define MC RSEQ_PERCPU_CPU_ID
#define MM RSEQ_PERCPU_MM_CID
typedef enum rseq_mo mo_t;
typedef enum rseq_percpu_mode mode_t_;

/* The shapes of one helper for one (mo, mode): T is a token suffix. */
#define OP0(T, MO, MD) \
	SHAPE(s0_plain_##T, , rseq_load_cbne_store__ptr(MO, MD, v, expect, newv, cpu)) \
	SHAPE_OO(s0_oo_##T, , rseq_load_cbne_store__ptr(MO, MD, v, expect, newv, cpu)) \
	SHAPE_LIVE(s0_live_##T, , rseq_load_cbne_store__ptr(MO, MD, v, expect, newv, cpu)) \
	SHAPE(s0_k0_##T, a->expect = 0; a->newv = 1, rseq_load_cbne_store__ptr(MO, MD, v, 0, 1, cpu)) \
	SHAPE(s0_k1_##T, a->expect = -1; a->newv = 0x123456789abcdefL, rseq_load_cbne_store__ptr(MO, MD, v, -1, 0x123456789abcdefL, cpu)) \
	SHAPE_OO(s0_same_##T, a->newv = a->expect, rseq_load_cbne_store__ptr(MO, MD, v, expect, expect, cpu)) \
	SHAPE_OO(s0_self_##T, a->newv = (intptr_t) a->v, rseq_load_cbne_store__ptr(MO, MD, v, expect, (intptr_t) v, cpu)) \
	SHAPE_OO(s0_cpu_##T, a->newv = a->cpu, rseq_load_cbne_store__ptr(MO, MD, v, expect, (intptr_t) cpu, cpu)) \
	SHAPE(s0_idx_##T, a->off = (long) ((intptr_t) a->v - (intptr_t) a->cpu * 64), rseq_load_cbne_store__ptr(MO, MD, (intptr_t *) (off + (intptr_t) cpu * 64), expect, newv, cpu)) \
	SHAPE(s0_cpu_w_##T, a->off = (a->off & ~0xffffffffL) | (uint32_t) a->cpu, rseq_load_cbne_store__ptr(MO, MD, v, expect, newv, TRUNC(off)))
#define OP1(T, MO, MD) \
	SHAPE(s1_plain_##T, , rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, expect, off, load, cpu)) \
	SHAPE_OO(s1_oo_##T, , rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, expect, off, load, cpu)) \
	SHAPE_LIVE(s1_live_##T, , rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, expect, off, load, cpu)) \
	SHAPE(s1_k0_##T, a->expect = 0; a->off = 0, rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, 0, 0, load, cpu)) \
	SHAPE(s1_k8_##T, a->expect = 0; a->off = 8, rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, 0, 8, load, cpu)) \
	SHAPE(s1_km_##T, a->off = -16, rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, expect, -16, load, cpu)) \
	SHAPE_OO(s1_same_##T, a->expect = (intptr_t) a->load, rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, (intptr_t) load, off, load, cpu)) \
	SHAPE(s1_cpu_w_##T, a->count = (a->count & ~0xffffffffL) | (uint32_t) a->cpu, rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, expect, off, load, TRUNC(count)))
#define OP2(T, MO, MD) \
	SHAPE(s2_plain_##T, , rseq_load_add_store__ptr(MO, MD, v, count, cpu)) \
	SHAPE_OO(s2_oo_##T, , rseq_load_add_store__ptr(MO, MD, v, count, cpu)) \
	SHAPE_LIVE(s2_live_##T, , rseq_load_add_store__ptr(MO, MD, v, count, cpu)) \
	SHAPE(s2_k1_##T, a->count = 1, rseq_load_add_store__ptr(MO, MD, v, 1, cpu)) \
	SHAPE(s2_km1_##T, a->count = -1, rseq_load_add_store__ptr(MO, MD, v, -1, cpu)) \
	SHAPE(s2_kmax_##T, a->count = 0x7fffffffL, rseq_load_add_store__ptr(MO, MD, v, 0x7fffffffL, cpu)) \
	SHAPE(s2_kbig_##T, a->count = 0x80000000L, rseq_load_add_store__ptr(MO, MD, v, 0x80000000L, cpu)) \
	SHAPE(s2_khuge_##T, a->count = -0x123456789abL, rseq_load_add_store__ptr(MO, MD, v, -0x123456789abL, cpu)) \
	SHAPE_OO(s2_self_##T, a->count = (intptr_t) a->v, rseq_load_add_store__ptr(MO, MD, v, (intptr_t) v, cpu)) \
	SHAPE_OO(s2_cpu_##T, a->count = a->cpu, rseq_load_add_store__ptr(MO, MD, v, (intptr_t) cpu, cpu)) \
	SHAPE(s2_idx_##T, a->off = (long) ((intptr_t) a->v - (intptr_t) a->cpu * 8), rseq_load_add_store__ptr(MO, MD, (intptr_t *) off + cpu, count, cpu)) \
	SHAPE(s2_cpu_w_##T, a->off = (a->off & ~0xffffffffL) | (uint32_t) a->cpu, rseq_load_add_store__ptr(MO, MD, v, count, TRUNC(off)))
#define OP3(T, MO, MD) \
	SHAPE(s3_plain_##T, , rseq_load_add_load_load_add_store__ptr(MO, MD, v, off, count, cpu)) \
	SHAPE_OO(s3_oo_##T, , rseq_load_add_load_load_add_store__ptr(MO, MD, v, off, count, cpu)) \
	SHAPE_LIVE(s3_live_##T, , rseq_load_add_load_load_add_store__ptr(MO, MD, v, off, count, cpu)) \
	SHAPE(s3_k_##T, a->off = 0; a->count = 1, rseq_load_add_load_load_add_store__ptr(MO, MD, v, 0, 1, cpu)) \
	SHAPE(s3_k8_##T, a->off = 8; a->count = 0x80000000L, rseq_load_add_load_load_add_store__ptr(MO, MD, v, 8, 0x80000000L, cpu)) \
	SHAPE_OO(s3_same_##T, a->count = a->off, rseq_load_add_load_load_add_store__ptr(MO, MD, v, off, off, cpu))
#define OP4(T, MO, MD) \
	SHAPE(s4_plain_##T, , rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, newv2, newv, cpu)) \
	SHAPE_OO(s4_oo_##T, , rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, newv2, newv, cpu)) \
	SHAPE_LIVE(s4_live_##T, , rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, newv2, newv, cpu)) \
	SHAPE(s4_k_##T, a->expect = 0; a->newv2 = 7; a->newv = -1, rseq_load_cbne_store_store__ptr(MO, MD, v, 0, v2, 7, -1, cpu)) \
	SHAPE_OO(s4_same_##T, a->newv = a->newv2, rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, newv2, newv2, cpu)) \
	SHAPE_OO(s4_incr_##T, a->newv = a->expect + 1, rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, newv2, expect + 1, cpu)) \
	SHAPE_OO(s4_ptr_##T, a->newv2 = (intptr_t) a->v; a->newv = (intptr_t) a->v2, rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, (intptr_t) v, (intptr_t) v2, cpu)) \
	SHAPE(s4_cpu_w_##T, a->off = (a->off & ~0xffffffffL) | (uint32_t) a->cpu, rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, newv2, newv, TRUNC(off)))
#define OP5(T, MO, MD) \
	SHAPE(s5_plain_##T, , rseq_load_cbne_load_cbne_store__ptr(MO, MD, v, expect, v2, expect2, newv, cpu)) \
	SHAPE_OO(s5_oo_##T, , rseq_load_cbne_load_cbne_store__ptr(MO, MD, v, expect, v2, expect2, newv, cpu)) \
	SHAPE_LIVE(s5_live_##T, , rseq_load_cbne_load_cbne_store__ptr(MO, MD, v, expect, v2, expect2, newv, cpu)) \
	SHAPE(s5_k_##T, a->expect = 0; a->expect2 = 1; a->newv = 1L << 40, rseq_load_cbne_load_cbne_store__ptr(MO, MD, v, 0, v2, 1, 1L << 40, cpu)) \
	SHAPE_OO(s5_same_##T, a->expect2 = a->expect; a->newv = a->expect, rseq_load_cbne_load_cbne_store__ptr(MO, MD, v, expect, v2, expect, expect, cpu)) \
	SHAPE(s5_cpu_w_##T, a->off = (a->off & ~0xffffffffL) | (uint32_t) a->cpu, rseq_load_cbne_load_cbne_store__ptr(MO, MD, v, expect, v2, expect2, newv, TRUNC(off)))
#define OP6(T, MO, MD) \
	SHAPE(s6_plain_##T, , rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, newv, cpu)) \
	SHAPE_OO(s6_oo_##T, , rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, newv, cpu)) \
	SHAPE_LIVE(s6_live_##T, , rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, newv, cpu)) \
	SHAPE(s6_k_##T, a->expect = 0; a->len = a->len >= 16 ? 16 : 0; if (!a->len) a->newv = 1; else a->newv = 2, len ? rseq_load_cbne_memcpy_store__ptr(MO, MD, v, 0, dst, src, 16, 2, cpu) : rseq_load_cbne_memcpy_store__ptr(MO, MD, v, 0, dst, src, 0, 1, cpu)) \
	SHAPE_OO(s6_len_##T, a->newv = (intptr_t) a->len, rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, (intptr_t) len, cpu)) \
	SHAPE_OO(s6_src_##T, a->newv = (intptr_t) a->src, rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, (intptr_t) src, cpu)) \
	SHAPE_OO(s6_dst_##T, a->newv = (intptr_t) a->dst, rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, (intptr_t) dst, cpu)) \
	SHAPE_OO(s6_end_##T, a->newv = a->expect + (intptr_t) a->len, rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, expect + (intptr_t) len, cpu)) \
	SHAPE_OO(s6_rel_##T, a->dst = (char *) a->v + 8, rseq_load_cbne_memcpy_store__ptr(MO, MD, (intptr_t *) (dst - 8), expect, dst, src, len, newv, cpu)) \
	SHAPE_OO(s6_srel_##T, a->src = (char *) a->v + 8, rseq_load_cbne_memcpy_store__ptr(MO, MD, (intptr_t *) (src - 8), expect, dst, src, len, newv, cpu)) \
	SHAPE_OO(s6_elen_##T, a->expect = (intptr_t) a->len, rseq_load_cbne_memcpy_store__ptr(MO, MD, v, (intptr_t) len, dst, src, len, newv, cpu)) \
	SHAPE(s6_cpu_w_##T, a->off = (a->off & ~0xffffffffL) | (uint32_t) a->cpu, rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, newv, TRUNC(off)))

S0(Mrc(OP0(rc, R0, MC)) Mrm(OP0(rm, R0, MM)))
S1(Mrc(OP1(rc, R0, MC)) Mrm(OP1(rm, R0, MM)))
S2(Mrc(OP2(rc, R0, MC)) Mrm(OP2(rm, R0, MM)))
IF3X(Mrc(OP3(rc, R0, MC)) Mrm(OP3(rm, R0, MM)))
S4(Mrc(OP4(rc, R0, MC)) Mrm(OP4(rm, R0, MM)) Msc(OP4(sc, RR, MC)) Msm(OP4(sm, RR, MM)))
S5(Mrc(OP5(rc, R0, MC)) Mrm(OP5(rm, R0, MM)))
S6(Mrc(OP6(rc, R0, MC)) Mrm(OP6(rm, R0, MM)) Msc(OP6(sc, RR, MC)) Msm(OP6(sm, RR, MM)))

/* word on the wrapper's own stack (red zone, frame addressing) */
#define STK(id, CALL) \
	static void CAT(prep_, id)(struct opargs *a) { (void) a; } \
	static NOI int CAT(fn_, id)(struct opargs *a) { LOCALS intptr_t lv = *v; int r; v = &lv; r = CALL; *a->v = lv; return r; }
S0(STK(t0, rseq_load_cbne_store__ptr(R0, MC, v, expect, newv, cpu)))
S2(STK(t2, rseq_load_add_store__ptr(R0, MM, v, count, cpu)))
S1(static void prep_t1(struct opargs *a) { (void) a; }
static NOI int fn_t1(struct opargs *a) { LOCALS intptr_t ll = *load; int r = rseq_load_cbeq_store_add_load_store__ptr(R0, MC, v, expect, off, &ll, cpu); if (!r) *load = ll; return r; })
S6(static void prep_t6(struct opargs *a) { if (a->len > 64) a->len = 64; }
static NOI int fn_t6(struct opargs *a) { LOCALS char buf[64]; for (int i = 0; i < 64; i++) buf[i] = 0; for (size_t i = 0; i < len; i++) buf[i] = dst[i];
	int r = rseq_load_cbne_memcpy_store__ptr(R0, MC, v, expect, buf, src, len, newv, cpu); for (size_t i = 0; i < len; i++) dst[i] = buf[i]; return r; })

/* memory written by the caller just before the call and read again just after it */
#define MEM(id, CALL) \
	static void CAT(prep_, id)(struct opargs *a) { (void) a; } \
	static NOI int CAT(fn_, id)(struct opargs *a) { LOCALS intptr_t *tgt = a->tgt, pre = a->pre, pre2 = a->pre2; char ps = a->presrc; intptr_t b2 = *load, b3 = *tgt; char bd = *dst; \
		*v = pre; *v2 = pre2; *src = ps; __asm__ __volatile__ ("" : "+r" (pre), "+r" (pre2)); \
		int r = CALL; intptr_t q0 = *v, q1 = *v2, q2 = *load, q3 = *tgt; char qd = *dst, qe = *src; \
		a->q0 = q0; a->q1 = q1; a->q2 = q2; a->q3 = q3; a->qd = qd; a->qe = qe; if (b2 == 0x123456 && b3 == 77 && bd == 3) a->oo[0] = b2 + b3 + bd; return r; }
#define MEMALL(T, MO, MD) \
	S0(MEM(m0_##T, rseq_load_cbne_store__ptr(MO, MD, v, expect, newv, cpu))) \
	S1(MEM(m1_##T, rseq_load_cbeq_store_add_load_store__ptr(MO, MD, v, expect, off, load, cpu))) \
	S2(MEM(m2_##T, rseq_load_add_store__ptr(MO, MD, v, count, cpu))) \
	IF3X(MEM(m3_##T, rseq_load_add_load_load_add_store__ptr(MO, MD, v, off, count, cpu))) \
	S5(MEM(m5_##T, rseq_load_cbne_load_cbne_store__ptr(MO, MD, v, expect, v2, expect2, newv, cpu)))
#define MEMRES(T, MO, MD) \
	S4(MEM(m4_##T, rseq_load_cbne_store_store__ptr(MO, MD, v, expect, v2, newv2, newv, cpu))) \
	S6(MEM(m6_##T, rseq_load_cbne_memcpy_store__ptr(MO, MD, v, expect, dst, src, len, newv, cpu)))
Mrc(MEMALL(rc, R0, MC)) Mrm(MEMALL(rm, R0, MM)) Mrc(MEMRES(rc, R0, MC)) Mrm(MEMRES(rm, R0, MM)) Msc(MEMRES(sc, RR, MC)) Msm(MEMRES(sm, RR, MM))

/* run-time ordering and mode */
#define DYN(id, CALL) \
	static void CAT(prep_, id)(struct opargs *a) { (void) a; } \
	static NOI int CAT(fn_, id)(struct opargs *a) { LOCALS mo_t mo = (mo_t) a->mo; mode_t_ md = (mode_t_) a->mode; __asm__ __volatile__ ("" : "+r" (mo), "+r" (md)); return CALL; }
S0(DYN(d0, rseq_load_cbne_store__ptr(mo, md, v, expect, newv, cpu)))
S1(DYN(d1, rseq_load_cbeq_store_add_load_store__ptr(mo, md, v, expect, off, load, cpu)))
S2(DYN(d2, rseq_load_add_store__ptr(mo, md, v, count, cpu)))
IF3X(DYN(d3, rseq_load_add_load_load_add_store__ptr(mo, md, v, off, count, cpu)))
S4(DYN(d4, rseq_load_cbne_store_store__ptr(mo, md, v, expect, v2, newv2, newv, cpu)))
S5(DYN(d5, rseq_load_cbne_load_cbne_store__ptr(mo, md, v, expect, v2, expect2, newv, cpu)))
S6(DYN(d6, rseq_load_cbne_memcpy_store__ptr(mo, md, v, expect, dst, src, len, newv, cpu)))

#define ENT(id, op, mo, md, fl) { #id, op, mo, md, fl, CAT(prep_, id), CAT(fn_, id) },
#define T0(T, M, D) ENT(s0_plain_##T, 0, M, D, 0) ENT(s0_oo_##T, 0, M, D, 0) ENT(s0_live_##T, 0, M, D, F_PRESSURE) ENT(s0_k0_##T, 0, M, D, 0) ENT(s0_k1_##T, 0, M, D, 0) ENT(s0_same_##T, 0, M, D, F_ALIAS) ENT(s0_self_##T, 0, M, D, F_ALIAS) ENT(s0_cpu_##T, 0, M, D, F_ALIAS) ENT(s0_idx_##T, 0, M, D, F_ALIAS) ENT(s0_cpu_w_##T, 0, M, D, F_ALIAS)
#define T1(T, M, D) ENT(s1_plain_##T, 1, M, D, 0) ENT(s1_oo_##T, 1, M, D, 0) ENT(s1_live_##T, 1, M, D, F_PRESSURE) ENT(s1_k0_##T, 1, M, D, 0) ENT(s1_k8_##T, 1, M, D, 0) ENT(s1_km_##T, 1, M, D, 0) ENT(s1_same_##T, 1, M, D, F_ALIAS) ENT(s1_cpu_w_##T, 1, M, D, F_ALIAS)
#define T2(T, M, D) ENT(s2_plain_##T, 2, M, D, 0) ENT(s2_oo_##T, 2, M, D, 0) ENT(s2_live_##T, 2, M, D, F_PRESSURE) ENT(s2_k1_##T, 2, M, D, 0) ENT(s2_km1_##T, 2, M, D, 0) ENT(s2_kmax_##T, 2, M, D, 0) ENT(s2_kbig_##T, 2, M, D, 0) ENT(s2_khuge_##T, 2, M, D, 0) ENT(s2_self_##T, 2, M, D, F_ALIAS) ENT(s2_cpu_##T, 2, M, D, F_ALIAS) ENT(s2_idx_##T, 2, M, D, F_ALIAS) ENT(s2_cpu_w_##T, 2, M, D, F_ALIAS)
#define T3(T, M, D) ENT(s3_plain_##T, 3, M, D, 0) ENT(s3_oo_##T, 3, M, D, 0) ENT(s3_live_##T, 3, M, D, F_PRESSURE) ENT(s3_k_##T, 3, M, D, 0) ENT(s3_k8_##T, 3, M, D, 0) ENT(s3_same_##T, 3, M, D, F_ALIAS)
#define T4(T, M, D) ENT(s4_plain_##T, 4, M, D, 0) ENT(s4_oo_##T, 4, M, D, 0) ENT(s4_live_##T, 4, M, D, F_PRESSURE) ENT(s4_k_##T, 4, M, D, 0) ENT(s4_same_##T, 4, M, D, F_ALIAS) ENT(s4_incr_##T, 4, M, D, F_ALIAS) ENT(s4_ptr_##T, 4, M, D, F_ALIAS) ENT(s4_cpu_w_##T, 4, M, D, F_ALIAS)
#define T5(T, M, D) ENT(s5_plain_##T, 5, M, D, 0) ENT(s5_oo_##T, 5, M, D, 0) ENT(s5_live_##T, 5, M, D, F_PRESSURE) ENT(s5_k_##T, 5, M, D, 0) ENT(s5_same_##T, 5, M, D, F_ALIAS) ENT(s5_cpu_w_##T, 5, M, D, F_ALIAS)
#define T6(T, M, D) ENT(s6_plain_##T, 6, M, D, 0) ENT(s6_oo_##T, 6, M, D, 0) ENT(s6_live_##T, 6, M, D, F_PRESSURE) ENT(s6_k_##T, 6, M, D, 0) ENT(s6_len_##T, 6, M, D, F_ALIAS) ENT(s6_src_##T, 6, M, D, F_ALIAS) ENT(s6_dst_##T, 6, M, D, F_ALIAS) ENT(s6_end_##T, 6, M, D, F_ALIAS) ENT(s6_rel_##T, 6, M, D, F_ALIAS) ENT(s6_srel_##T, 6, M, D, F_ALIAS) ENT(s6_elen_##T, 6, M, D, F_ALIAS) ENT(s6_cpu_w_##T, 6, M, D, F_ALIAS)
static const struct opent ents[] = {
	S0(Mrc(T0(rc, R0, MC))) S0(Mrm(T0(rm, R0, MM))) S1(Mrc(T1(rc, R0, MC))) S1(Mrm(T1(rm, R0, MM))) S2(Mrc(T2(rc, R0, MC))) S2(Mrm(T2(rm, R0, MM))) IF3X(Mrc(T3(rc, R0, MC)) Mrm(T3(rm, R0, MM)))
	S4(Mrc(T4(rc, R0, MC))) S4(Mrm(T4(rm, R0, MM))) S4(Msc(T4(sc, RR, MC))) S4(Msm(T4(sm, RR, MM))) S5(Mrc(T5(rc, R0, MC))) S5(Mrm(T5(rm, R0, MM))) S6(Mrc(T6(rc, R0, MC))) S6(Mrm(T6(rm, R0, MM))) S6(Msc(T6(sc, RR, MC))) S6(Msm(T6(sm, RR, MM)))
	S0(ENT(t0, 0, R0, MC, F_NOSTEP)) S2(ENT(t2, 2, R0, MM, F_NOSTEP)) S1(ENT(t1, 1, R0, MC, F_NOSTEP)) S6(ENT(t6, 6, R0, MC, F_NOSTEP))
#define TM(T, M, D) S4(ENT(m4_##T, 4, M, D, F_MEM | F_NOSTEP)) S6(ENT(m6_##T, 6, M, D, F_MEM | F_NOSTEP))
#define TN(T, M, D) S0(ENT(m0_##T, 0, M, D, F_MEM | F_NOSTEP)) S1(ENT(m1_##T, 1, M, D, F_MEM | F_NOSTEP)) S2(ENT(m2_##T, 2, M, D, F_MEM | F_NOSTEP)) IF3X(ENT(m3_##T, 3, M, D, F_MEM | F_NOSTEP)) S5(ENT(m5_##T, 5, M, D, F_MEM | F_NOSTEP))
	Mrc(TN(rc, R0, MC)) Mrm(TN(rm, R0, MM)) Mrc(TM(rc, R0, MC)) Mrm(TM(rm, R0, MM)) Msc(TM(sc, RR, MC)) Msm(TM(sm, RR, MM))
	S0(ENT(d0, 0, 0, 0, F_DYN)) S1(ENT(d1, 1, 0, 0, F_DYN)) S2(ENT(d2, 2, 0, 0, F_DYN)) IF3X(ENT(d3, 3, 0, 0, F_DYN)) S4(ENT(d4, 4, 0, 0, F_DYN)) S5(ENT(d5, 5, 0, 0, F_DYN)) S6(ENT(d6, 6, 0, 0, F_DYN))
};
#ifdef __cplusplus
extern "C" {
#endif
#ifdef RSEQ_COMPARE_TWICE
#define CT 1
#else
#define CT 0
#endif
extern const struct opvar VARIANT;
const struct opvar VARIANT = { STR(VARIANT), CT, ents, sizeof(ents) / sizeof(ents[0]) };
#ifdef __cplusplus
}
#endif
