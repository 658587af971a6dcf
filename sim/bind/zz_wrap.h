/* Included before everything else that C compiles in the simulated package:
   the allocator seam. */
#ifndef ZZ_WRAP_H
#define ZZ_WRAP_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
void *zz_malloc(size_t n);
void *zz_calloc(size_t n, size_t m);
void *zz_realloc(void *p, size_t n);
char *zz_strdup(const char *s);
void zz_free(void *p);
#ifndef ZZ_RAW
#undef strdup
#define malloc zz_malloc
#define calloc zz_calloc
#define realloc zz_realloc
#define strdup zz_strdup
#define free zz_free
#endif
#endif
