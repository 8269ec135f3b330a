/* Interface between the guest programs for the other architectures (xguest.c) and xarch.cpp. */
#ifndef VP_XGUEST_H
#define VP_XGUEST_H
#include "ops.h"
enum { O_MB_SL, O_MB_LL, O_MB_SS, O_MB_LS, O_RMB, O_WMB, O_ACQ_L, O_ACQ_S, O_REL_S, O_REL_L, O_CTRL, O_RD, O_WR, O_CPU, O_CID, O_NODE, O_START, O_UNLOAD, O_N };
struct ordargs { uint64_t p, q, val, val2, out, out2; };
struct ordent { const char *name; uint64_t kind, size; void (*fn)(struct ordargs *); };
struct ordvar { const struct ordent *e; uint64_t n; };
#endif
