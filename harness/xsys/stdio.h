#pragma once
#include <stddef.h>
#include <sys/types.h>
typedef struct vp_file FILE;
#ifdef __cplusplus
extern "C" {
#endif
extern FILE *stderr;
int fprintf(FILE *, const char *, ...);
int printf(const char *, ...);
#ifdef __cplusplus
}
#endif
