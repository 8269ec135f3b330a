/* Interface between the compiled helper variants (opsvar.c) and the harness. */
#ifndef VP_OPS_H
#define VP_OPS_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { OP_CBNE_STORE, OP_CBEQ_LIST, OP_ADD, OP_INDIRECT_ADD, OP_STORE_STORE, OP_CBNE_CBNE, OP_MEMCPY, OP_N };
enum { F_NOSTEP = 1, F_PRESSURE = 2, F_DYN = 4, F_ALIAS = 8, F_MEM = 16 };
#define NLIVE 14
struct opargs {
	intptr_t *v, *v2, *load;
	intptr_t expect, expect2, newv, newv2, count;
	long off;
	char *dst, *src;
	size_t len;
	int cpu, mo, mode;
	uint64_t live[NLIVE], liveout[NLIVE];
	double fl[2], flout[2];
	intptr_t oo[12];
	int oo_valid;
	intptr_t pre, pre2, q0, q1, q2, q3; char presrc, qd, qe;   /* memory seen by the caller around the call */
	intptr_t *tgt;
};
struct opent {
	const char *name;
	int op, mo, mode, flags;
	void (*prep)(struct opargs *);  /* makes the operands satisfy the shape's constraints */
	int (*fn)(struct opargs *);
};
struct opvar { const char *name; int compare_twice; const struct opent *e; int n; };
#ifdef __cplusplus
}
#endif
#endif
