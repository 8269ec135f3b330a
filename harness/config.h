/* What configure finds in this sandbox, for building the library's sources outside the build system. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#define HAVE_LIBNUMA 1
#define HAVE_DLFCN_H 1
#define HAVE_FORK 1
#define HAVE_GETPAGESIZE 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_MEMSET 1
#define HAVE_MMAP 1
#define HAVE_PTHREAD 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRERROR 1
#define HAVE_STRING_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
