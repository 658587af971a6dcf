/* C side of the simulated bindings: a tracking allocator that never hands out
   an address twice, and logs of what C saw during each call. */
#define _GNU_SOURCE
#define ZZ_RAW
#include "zz_wrap.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#include <stdarg.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include "zz_rt.h"

extern void zzPoint(int32_t tk, int32_t where);

/* allocator */
#define ARENA ((char *)0x7a0000000000)
#define ARENASZ ((size_t)192 << 20)
#define RED 32
struct blk { size_t off, size; int freed; };
static struct blk blks[1 << 18];
static int nblk;
static size_t top = 4096;
static int tracking, pointpm, mapped;
static uint64_t prng;
static int64_t fail_at = -1, fail_every, seq, failed, frees, nlive;
static size_t bytes;

static char *viols[64];
static int nviol;
void zz_viol(const char *fmt, ...) {
	va_list ap;
	char *s;
	if (nviol >= 64) return;
	va_start(ap, fmt);
	if (vasprintf(&s, fmt, ap) < 0) s = "P12 out of memory";
	va_end(ap);
	for (int i = 0; i < nviol; i++)
		if (!strcmp(viols[i], s)) return;
	viols[nviol++] = s;
}
int zz_violations(void) { return nviol; }
char *zz_violation(int i) { return viols[i]; }

static void *take(size_t n, const char *who) {
	int64_t k = seq++;
	/* not from malloc: cgo's own calls of it must not call back into Go */
	if (tracking && pointpm && who[0] == 'c' && (int)(zz_mix(&prng) % 1000) < pointpm) zzPoint(-1, 8);
	/* malloc(0) may say NULL at any time, cgo then asks for one byte */
	if (n == 0 && who[0] == 'm') {}
	else if (k == fail_at || (fail_every && k > fail_at && fail_at >= 0 && (k - fail_at) % fail_every == 0)) {
		failed++;
		errno = ENOMEM;
		return NULL;
	}
	if (!mapped) {
		if (mmap(ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != ARENA) {
			static const char m[] = "zz: arena\n";
			if (write(2, m, sizeof m - 1)) {}
			_exit(94);
		}
		mapped = 1;
	}
	if (n > ARENASZ / 4 || top + n + 3 * RED > ARENASZ || nblk >= (1 << 18)) {
		zz_viol("P12 unbounded: %s of %zu bytes after %d live blocks", who, n, (int)nlive);
		errno = ENOMEM;
		return NULL;
	}
	size_t off = (top + RED + 15) & ~(size_t)15;
	memset(ARENA + off - RED, 0xA5, RED);
	memset(ARENA + off + n, 0xA5, RED);
	blks[nblk++] = (struct blk){off, n, 0};
	nlive++;
	bytes += n;
	top = off + n + RED;
	return ARENA + off;
}
void *zz_malloc(size_t n) {
	void *p = take(n, "malloc");
	if (p) memset(p, 0xCD, n);
	return p;
}
void *zz_calloc(size_t n, size_t m) {
	if (m && n > (size_t)-1 / m) return NULL;
	void *p = take(n * m, "calloc");
	if (p) memset(p, 0, n * m);
	return p;
}
void *zz_realloc(void *p, size_t n) {
	zz_viol("P12 realloc is not expected");
	return NULL;
}
char *zz_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *p = take(n, "strdup");
	if (p) memcpy(p, s, n);
	return p;
}
static struct blk *find(const void *q) {
	size_t off = (const char *)q - ARENA;
	int lo = 0, hi = nblk;
	if ((const char *)q < ARENA || (const char *)q >= ARENA + ARENASZ) return NULL;
	while (lo < hi) {
		int mid = (lo + hi) / 2;
		if (blks[mid].off <= off) lo = mid + 1; else hi = mid;
	}
	if (lo == 0) return NULL;
	struct blk *b = &blks[lo - 1];
	return off <= b->off + b->size ? b : NULL;
}
static void red(struct blk *b) {
	unsigned char *p = (unsigned char *)ARENA + b->off;
	for (int i = 1; i <= RED; i++)
		if (p[-i] != 0xA5) { zz_viol("P13 memory before a block of %zu bytes was overwritten", b->size); return; }
	for (int i = 0; i < RED; i++)
		if (p[b->size + i] != 0xA5) { zz_viol("P13 memory behind a block of %zu bytes was overwritten", b->size); return; }
}
void zz_free(void *p) {
	if (!p) return;
	if (tracking && pointpm && (int)(zz_mix(&prng) % 1000) < pointpm) zzPoint(-1, 9);
	frees++;
	struct blk *b = find(p);
	if (!b || ARENA + b->off != (char *)p) {
		zz_viol("P12 foreign-free: memory the bindings did not allocate is freed");
		return;
	}
	if (b->freed) {
		zz_viol("P12 double-free: a block of %zu bytes is freed again", b->size);
		return;
	}
	red(b);
	b->freed = 1;
	nlive--;
	memset(p, 0xDD, b->size);
}
void zz_track(int on, int pm, uint64_t seed) { tracking = on; pointpm = pm; prng = seed; }
void zz_fail(int64_t k, int64_t every) { fail_at = k < 0 ? -1 : seq + k; fail_every = every; }
int64_t zz_live(void) { return nlive; }
uint64_t zz_alloc_seq(void) { return seq; }
int64_t zz_stat(int w) { int64_t v[] = {seq, frees, failed, bytes, nblk}; return v[w]; }
int zz_check(void) {
	/* memory that was freed stays as free left it */
	int bad = 0;
	for (int i = 0; i < nblk; i++) {
		unsigned char *p = (unsigned char *)ARENA + blks[i].off;
		if (!blks[i].freed) { red(&blks[i]); continue; }
		for (size_t j = 0; j < blks[i].size; j++)
			if (p[j] != 0xDD) { zz_viol("P12 use-after-free: freed memory was written to"); bad++; break; }
	}
	return bad;
}
void zz_livedump(void) {
	int k = 0;
	zz_buf o = {0};
	for (int i = 0; i < nblk && k < 6; i++)
		if (!blks[i].freed) { zz_put(&o, " #%d:%zu", i, blks[i].size); k++; }
	zz_viol("P12 leak: %d of %d blocks are still allocated after every owner is gone:%s", (int)nlive, nblk, o.p ? o.p : "");
}

/* text buffers */
void zz_put(zz_buf *b, const char *fmt, ...) {
	va_list ap;
	char tmp[256];
	va_start(ap, fmt);
	int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
	va_end(ap);
	if (n < 0) return;
	if (n >= (int)sizeof tmp) n = sizeof tmp - 1;
	if (b->n + n + 1 > b->cap) {
		b->cap = (b->n + n + 64) * 2;
		b->p = realloc(b->p, b->cap);
	}
	memcpy(b->p + b->n, tmp, n + 1);
	b->n += n;
}
uint64_t zz_mix(uint64_t *s) {
	*s += 0x9e3779b97f4a7c15ull;
	uint64_t z = *s;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

static int readable(uintptr_t p) {
	unsigned char v;
	return mincore((void *)(p & ~(uintptr_t)4095), 1, &v) == 0;
}
/* zz_ok reports whether n bytes at p may be read, and writes down if not */
int zz_ok(zz_buf *b, const void *p, size_t n) {
	if (!p) { zz_put(b, "nil"); return 0; }
	if ((uintptr_t)p < 65536) { zz_put(b, "<WILD>"); return 0; }
	if ((const char *)p >= ARENA && (const char *)p < ARENA + ARENASZ) {
		struct blk *k = find(p);
		if (!k) { zz_put(b, "<OUTSIDE>"); return 0; }
		if (k->freed) { zz_put(b, "<FREED>"); return 0; }
		if ((size_t)((const char *)p - ARENA) + n > k->off + k->size) { zz_put(b, "<OUTSIDE>"); return 0; }
	} else if ((uintptr_t)p >> 47 || !readable((uintptr_t)p) || n && !readable((uintptr_t)p + n - 1)) {
		zz_put(b, "<WILD>");
		return 0;
	}
	return 1;
}
void zz_chars(zz_buf *b, const void *s) {
	const unsigned char *p = s;
	size_t max = (size_t)1 << 20;
	if (!zz_ok(b, p, 0)) return;
	struct blk *k = find(p);
	if (k) max = ARENA + k->off + k->size - (const char *)p;
	zz_put(b, "\"");
	for (size_t i = 0;; i++) {
		if (i >= max) { zz_put(b, "<UNTERMINATED>"); return; }
		if (!p[i]) break;
		if (p[i] >= 'a' && p[i] <= 'z') zz_put(b, "%c", p[i]); else zz_put(b, "%02X", p[i]);
	}
	zz_put(b, "\"");
}
static char users[64];
void *zz_user(int k) { return k == 0 ? NULL : &users[k & 63]; }
void zz_userdump(zz_buf *b, void *p) {
	if (!p) zz_put(b, "u0");
	else if ((char *)p >= users && (char *)p < users + 64) zz_put(b, "u%d", (int)((char *)p - users));
	else zz_put(b, "<WILD>");
}
/* strings C owns, as long as the process lives */
char *zz_static(uint64_t v) {
	static char tab[256][24];
	int i = v & 255;
	if (!tab[i][0]) {
		int n = 1 + (i * 7) % 20;
		for (int j = 0; j < n; j++) tab[i][j] = (i + j) % 11 == 5 ? 0x80 + (i * 3 + j) % 128 : 'a' + (i + j * 5) % 26;
	}
	return tab[i];
}

void zz_hex(zz_buf *b, const void *p, size_t n) {
	for (size_t i = 0; i < n; i++) zz_put(b, "%02X", ((const unsigned char *)p)[i]);
	zz_put(b, ",");
}
void zz_rnd(void *p, size_t n, uint64_t *s) {
	for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = zz_mix(s);
}
/* memory of C, never seen by the bindings' allocator */
void *zz_own(size_t n) { return calloc(1, n); }
size_t zz_strsize(const void *p) {
	size_t max = (size_t)1 << 20;
	struct blk *k = find(p);
	if (k) max = ARENA + k->off + k->size - (const char *)p;
	size_t n = strnlen(p, max);
	return n < max ? n + 1 : n;
}

/* calls */
static int64_t guard_failed;
void zz_guard(void) { guard_failed = failed; }

static struct { char *text[ZZ_TEXTS]; const char *fn; int entered; } calls[ZZ_CALLS];
void zz_begin(int tk, const char *fn) {
	if (tk < 0 || tk >= ZZ_CALLS) { zz_viol("P13 ticket: %s is entered with ticket %d", fn, tk); return; }
	if (tracking && failed != guard_failed) {
		/* said at once: the process may be about to crash */
		char m[300];
		int n = snprintf(m, sizeof m, "VIOL P15 entered: %s is entered although an allocation failed\n", fn);
		zz_print(m, n);
		guard_failed = failed;
	}
	calls[tk].fn = fn;
	calls[tk].entered++;
}
int zz_done(int tk, int which, zz_buf *b) {
	if (tk < 0 || tk >= ZZ_CALLS) return 0;
	if (!b->p) zz_put(b, "");
	free(calls[tk].text[which]);
	calls[tk].text[which] = b->p;
	b->p = NULL; b->n = b->cap = 0;
	return 0;
}
char *zz_text(int tk, int which) { return tk < 0 || tk >= ZZ_CALLS || !calls[tk].text[which] ? "" : calls[tk].text[which]; }
int zz_entered(int tk) { return calls[tk].entered; }
const char *zz_calledfn(int tk) { return calls[tk].fn ? calls[tk].fn : ""; }
int zz_bad(int tk) {
	for (int i = 0; i < 2; i++)
		if (calls[tk].text[i] && strchr(calls[tk].text[i], '<')) return 1;
	return 0;
}
void zz_reset(int tk) {
	for (int i = 0; i < ZZ_TEXTS; i++) { free(calls[tk].text[i]); calls[tk].text[i] = NULL; }
	calls[tk].entered = 0;
	calls[tk].fn = NULL;
}
void zz_drop(char *p) { free(p); }
void zz_print(char *p, int n) {
	while (n > 0) {
		ssize_t k = write(1, p, n);
		if (k <= 0) return;
		p += k; n -= k;
	}
}
