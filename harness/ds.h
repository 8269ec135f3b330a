/* Per-CPU data structures as the repository's tests and documentation build them. */
#ifndef VP_DS_H
#define VP_DS_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define NIDX 6
#define BUFLEN 4
struct node { intptr_t data; struct node *next; };
struct item { uint64_t w[4]; };
struct cell { /* indirect counter: block -> slot -> counter */ intptr_t pad; intptr_t *slot; };
struct percpu {
	intptr_t count; intptr_t lock; intptr_t locked_count; struct node *head;
	intptr_t boff; struct node *barr[BUFLEN];
	intptr_t moff; struct item marr[BUFLEN];
} __attribute__((aligned(256)));
struct block { struct cell c[NIDX]; intptr_t counter[NIDX]; };
struct ds { struct percpu c[NIDX]; struct block *blk; struct block b[2]; };
struct dsarg { struct ds *ds; intptr_t n; struct node *node; struct item it; int idx; int inside; };
enum { DS_INC, DS_LOCKED_INC, DS_PUSH, DS_POP, DS_BPUSH, DS_BPOP, DS_MPUSH, DS_MPOP, DS_IND, DS_N };
struct dsent { const char *name; int mode; long (*fn[DS_N])(struct dsarg *); };
struct dsvar { const char *name; struct dsent e[4]; };
#ifdef __cplusplus
}
#endif
#endif
