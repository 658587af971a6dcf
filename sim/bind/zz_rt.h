#ifndef ZZ_RT_H
#define ZZ_RT_H
#include <stdint.h>
#include <stddef.h>
typedef struct { char *p; size_t n, cap; } zz_buf;
enum { ZZ_ENTRY, ZZ_AGAIN, ZZ_EXIT, ZZ_RET, ZZ_TEXTS };
#define ZZ_CALLS 8192
void zz_put(zz_buf *b, const char *fmt, ...);
int zz_ok(zz_buf *b, const void *p, size_t n);
void zz_chars(zz_buf *b, const void *s);
void zz_hex(zz_buf *b, const void *p, size_t n);
void zz_rnd(void *p, size_t n, uint64_t *s);
void *zz_own(size_t n);
int zz_bad(int tk);
size_t zz_strsize(const void *p);
void zz_guard(void);
void zz_userdump(zz_buf *b, void *p);
void *zz_user(int k);
int zz_done(int tk, int which, zz_buf *b);
void zz_begin(int tk, const char *fn);
uint64_t zz_mix(uint64_t *s);
char *zz_static(uint64_t v);
void zz_viol(const char *fmt, ...);
char *zz_text(int tk, int which);
int zz_entered(int tk);
const char *zz_calledfn(int tk);
void zz_reset(int tk);
int zz_violations(void);
char *zz_violation(int i);
void zz_track(int on, int pointpm, uint64_t seed);
void zz_fail(int64_t k, int64_t every);
int64_t zz_live(void);
int64_t zz_stat(int which);
void zz_final(void);
void zz_drop(char *p);
void zz_print(char *p, int n);
int zz_check(void);
void zz_livedump(void);
uint64_t zz_alloc_seq(void);
#endif
