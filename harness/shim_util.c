/* libmy headers and files that the library does not build, behind plain functions. */
#include "shim_util.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <assert.h>
#include <math.h>
#include "libmy/my_alloc.h"
#include "libmy/tree.h"
#include "libmy/list.h"
#include "libmy/print_string.h"
#include "libmy/getenv_int.h"

/* ------------------------------------------------------------ trees */
struct rbn { struct unode u; RB_ENTRY(rbn) e; };
struct spn { struct unode u; SPLAY_ENTRY(spn) e; };
RB_HEAD(rbt, rbn);
SPLAY_HEAD(spt, spn);
/* only the sign of a comparison counts: small, a multiple of 256 or 65536, and the limits */
static int sign_of(int a, int b) {
	if (a == b) return 0;
	static const int up[] = {1, 256, 65536, 0x7fffffff, 0x10000000, 127, 32768, 3}; int v = up[((unsigned) a * 5 + (unsigned) b) % 8];
	return a > b ? v : v == 0x7fffffff ? -0x7fffffff - 1 : -v;
}
static int rbcmp(struct rbn *a, struct rbn *b) { return sign_of(a->u.key, b->u.key); }
static int spcmp(struct spn *a, struct spn *b) { return sign_of(a->u.key, b->u.key); }
RB_PROTOTYPE(rbt, rbn, e, rbcmp)
RB_GENERATE(rbt, rbn, e, rbcmp)
SPLAY_PROTOTYPE(spt, spn, e, spcmp)
SPLAY_GENERATE(spt, spn, e, spcmp)
void *st_new(int kind) {
	if (kind == 0) { struct rbt *t = malloc(sizeof *t); RB_INIT(t); return t; }
	struct spt *t = malloc(sizeof *t); SPLAY_INIT(t); return t;
}
void st_free(int kind, void *t) { free(t); }
struct unode *st_node(int kind, int key, unsigned id) {
	size_t n = kind == 0 ? sizeof(struct rbn) : sizeof(struct spn);
	struct unode *u = malloc(n); memset(u, 0xa5, n); u->key = key; u->id = id; u->priv = NULL; return u;
}
void st_node_free(int kind, struct unode *n) { free(n); }
struct unode *st_insert(int kind, void *t, struct unode *n) {
	if (kind == 0) return (struct unode *) RB_INSERT(rbt, (struct rbt *) t, (struct rbn *) n);
	return (struct unode *) SPLAY_INSERT(spt, (struct spt *) t, (struct spn *) n);
}
struct unode *st_remove(int kind, void *t, struct unode *n) {
	if (kind == 0) return (struct unode *) RB_REMOVE(rbt, (struct rbt *) t, (struct rbn *) n);
	return (struct unode *) SPLAY_REMOVE(spt, (struct spt *) t, (struct spn *) n);
}
struct unode *st_find(int kind, void *t, int key) {
	if (kind == 0) { struct rbn k; k.u.key = key; return (struct unode *) RB_FIND(rbt, (struct rbt *) t, &k); }
	struct spn k; k.u.key = key; return (struct unode *) SPLAY_FIND(spt, (struct spt *) t, &k);
}
struct unode *st_nfind(int kind, void *t, int key) { struct rbn k; k.u.key = key; return (struct unode *) RB_NFIND(rbt, (struct rbt *) t, &k); }
struct unode *st_next(int kind, void *t, struct unode *n) {
	if (kind == 0) return (struct unode *) RB_NEXT(rbt, (struct rbt *) t, (struct rbn *) n);
	return (struct unode *) SPLAY_NEXT(spt, (struct spt *) t, (struct spn *) n);
}
struct unode *st_prev(int kind, void *t, struct unode *n) { return (struct unode *) RB_PREV(rbt, (struct rbt *) t, (struct rbn *) n); }
struct unode *st_min(int kind, void *t) {
	if (kind == 0) return (struct unode *) RB_MIN(rbt, (struct rbt *) t);
	return (struct unode *) SPLAY_MIN(spt, (struct spt *) t);
}
struct unode *st_max(int kind, void *t) {
	if (kind == 0) return (struct unode *) RB_MAX(rbt, (struct rbt *) t);
	return (struct unode *) SPLAY_MAX(spt, (struct spt *) t);
}
bool st_empty(int kind, void *t) { return kind == 0 ? RB_EMPTY((struct rbt *) t) : SPLAY_EMPTY((struct spt *) t); }
size_t st_foreach(int kind, void *t, bool reverse, struct unode **out, size_t cap) {
	size_t n = 0;
	if (kind == 0) {
		struct rbn *x;
		if (reverse) { RB_FOREACH_REVERSE(x, rbt, (struct rbt *) t) { if (n < cap) out[n] = &x->u; if (++n > cap) break; } }
		else { RB_FOREACH(x, rbt, (struct rbt *) t) { if (n < cap) out[n] = &x->u; if (++n > cap) break; } }
	} else {
		struct spn *x;
		SPLAY_FOREACH(x, spt, (struct spt *) t) { if (n < cap) out[n] = &x->u; if (++n > cap) break; }
	}
	return n;
}
static const char *rbwalk(struct rbn *n, struct rbn *parent, long lo, long hi, unsigned *black, unsigned *height, size_t *count, unsigned depth) {
	if (n == NULL) { *black = 1; *height = 0; return NULL; }
	if (depth > 200) return "a path of more than 200 elements";
	if (n->u.key <= lo || n->u.key >= hi) return "an element out of order";
	if (RB_PARENT(n, e) != parent) return "a wrong parent link";
	if (RB_COLOR(n, e) != RB_RED && RB_COLOR(n, e) != RB_BLACK) return "an element without colour";
	if (parent && RB_COLOR(n, e) == RB_RED && RB_COLOR(parent, e) == RB_RED) return "a red element below a red one";
	unsigned b1, b2, h1, h2; const char *r;
	if ((r = rbwalk(RB_LEFT(n, e), n, lo, n->u.key, &b1, &h1, count, depth + 1))) return r;
	if ((r = rbwalk(RB_RIGHT(n, e), n, n->u.key, hi, &b2, &h2, count, depth + 1))) return r;
	if (b1 != b2) return "paths with different numbers of black elements";
	*black = b1 + (RB_COLOR(n, e) == RB_BLACK); *height = 1 + (h1 > h2 ? h1 : h2); ++*count; return NULL;
}
static const char *spwalk(struct spn *n, long lo, long hi, unsigned *height, size_t *count, unsigned depth) {
	if (n == NULL) { *height = 0; return NULL; }
	if (depth > 5000) return "a path of more than 5000 elements";
	if (n->u.key <= lo || n->u.key >= hi) return "an element out of order";
	unsigned h1, h2; const char *r;
	if ((r = spwalk(SPLAY_LEFT(n, e), lo, n->u.key, &h1, count, depth + 1))) return r;
	if ((r = spwalk(SPLAY_RIGHT(n, e), n->u.key, hi, &h2, count, depth + 1))) return r;
	*height = 1 + (h1 > h2 ? h1 : h2); ++*count; return NULL;
}
const char *st_verify(int kind, void *t, size_t *count, unsigned *height) {
	unsigned b; *count = 0;
	if (kind == 0) return rbwalk(RB_ROOT((struct rbt *) t), NULL, -(1L << 40), 1L << 40, &b, height, count, 0);
	return spwalk(SPLAY_ROOT((struct spt *) t), -(1L << 40), 1L << 40, height, count, 0);
}

/* ------------------------------------------------------------ lists */
typedef ISC_LIST(struct lnode) isc_list;
#define L(x) (*(isc_list *) (x))
void sl_init(struct llist *l) { ISC_LIST_INIT(L(l)); }
void sl_node_init(struct lnode *n) { ISC_LINK_INIT(n, link); }
bool sl_linked(struct lnode *n) { return ISC_LINK_LINKED(n, link); }
bool sl_empty(struct llist *l) { return ISC_LIST_EMPTY(L(l)); }
void sl_insert(int op, struct llist *l, struct lnode *at, struct lnode *n) {
	switch (op) {
	case SL_PREPEND: ISC_LIST_PREPEND(L(l), n, link); break;
	case SL_APPEND: ISC_LIST_APPEND(L(l), n, link); break;
	case SL_INITPREPEND: ISC_LIST_INITANDPREPEND(L(l), n, link); break;
	case SL_INITAPPEND: ISC_LIST_INITANDAPPEND(L(l), n, link); break;
	case SL_ENQUEUE: ISC_LIST_ENQUEUE(L(l), n, link); break;
	case SL_BEFORE: ISC_LIST_INSERTBEFORE(L(l), at, n, link); break;
	case SL_AFTER: ISC_LIST_INSERTAFTER(L(l), at, n, link); break;
	}
}
void sl_unlink(int op, struct llist *l, struct lnode *n) {
	switch (op) {
	case 0: ISC_LIST_UNLINK(L(l), n, link); break;
	case 1: ISC_LIST_DEQUEUE(L(l), n, link); break;
	case 2: ISC_LIST_UNLINK_TYPE(L(l), n, link, struct lnode); break;
	case 3: ISC_LIST_DEQUEUE_TYPE(L(l), n, link, struct lnode); break;
	}
}
void sl_join(struct llist *a, struct llist *b) { ISC_LIST_APPENDLIST(L(a), L(b), link); }
struct lnode *sl_next(struct lnode *n) { return ISC_LIST_NEXT(n, link); }
struct lnode *sl_prev(struct lnode *n) { return ISC_LIST_PREV(n, link); }
struct lnode *sl_head(struct llist *l) { return ISC_LIST_HEAD(L(l)); }
struct lnode *sl_tail(struct llist *l) { return ISC_LIST_TAIL(L(l)); }

/* ------------------------------------------------------------ time and rate, with stand-ins for the clock */
int (*fake_nanosleep)(const struct timespec *, struct timespec *);
int (*fake_clock_gettime)(struct timespec *);
int (*fake_clock_nanosleep)(int, const struct timespec *, struct timespec *);
static int my_ns(const struct timespec *a, struct timespec *b) { return fake_nanosleep(a, b); }
static int my_cg(clockid_t c, struct timespec *t) { return fake_clock_gettime(t); }
static int my_cn(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return fake_clock_nanosleep(f, a, b); }
#undef HAVE_CLOCK_GETTIME
#define HAVE_CLOCK_GETTIME 1
#define nanosleep my_ns
#define clock_gettime my_cg
#define clock_nanosleep my_cn
#include "libmy/my_time.h"
void su_ts_add(const struct timespec *a, struct timespec *b) { my_timespec_add(a, b); }
void su_ts_sub(const struct timespec *a, struct timespec *b) { my_timespec_sub(a, b); }
double su_ts_double(const struct timespec *a) { return my_timespec_to_double(a); }
void su_double_ts(double d, struct timespec *t) { my_timespec_from_double(d, t); }
void su_nanosleep(const struct timespec *t) { my_nanosleep(t); }

/* ------------------------------------------------------------ small ones */
void su_print_string(const void *d, size_t n, FILE *f) { print_string(d, n, f); }
bool su_getenv_int(const char *name, uint64_t *v) { return getenv_int(name, v); }
long (*fake_read)(int, void *, size_t);
static ssize_t my_rd(int fd, void *p, size_t n) { return fake_read(fd, p, n); }
#define read my_rd
#include "libmy/read_bytes.h"
#undef read
bool su_read_bytes(int fd, uint8_t *p, size_t n) { return read_bytes(fd, p, n); }
#include "libmy/my_byteorder.h"
uint32_t su_bswap32(uint32_t v) { return my_bswap32(v); }
uint32_t su_htole32(uint32_t v) { return my_htole32(v); }
uint32_t su_le32toh(uint32_t v) { return my_le32toh(v); }
#if __has_include("wdns/buf.h")
#include <arpa/inet.h>
#include "wdns/buf.h"
size_t su_buf_get(const uint8_t *p, size_t n, const uint8_t *widths, size_t nw, uint32_t *out) {
	const uint8_t *start = p;
	for (size_t i = 0; i < nw; i++) switch (widths[i]) {
	case 1: if (n < 1) return p - start; { uint8_t v; WDNS_BUF_GET8(v, p); out[i] = v; n -= 1; } break;
	case 2: if (n < 2) return p - start; { uint16_t v; WDNS_BUF_GET16(v, p); out[i] = v; n -= 2; } break;
	case 4: if (n < 4) return p - start; { uint32_t v; WDNS_BUF_GET32(v, p); out[i] = v; n -= 4; } break;
	default: if (n < 3) return p - start; WDNS_BUF_ADVANCE(p, n, 3); out[i] = (uint32_t) n;
	}
	return p - start;
}
#else
size_t su_buf_get(const uint8_t *p, size_t n, const uint8_t *widths, size_t nw, uint32_t *out) {
	size_t pos = 0;
	for (size_t i = 0; i < nw; i++) {
		size_t w = widths[i] == 1 || widths[i] == 2 || widths[i] == 4 ? widths[i] : 3; if (n - pos < w) break;
		uint32_t v = 0; for (size_t k = 0; k < w; k++) v = v << 8 | p[pos + k];
		pos += w; out[i] = w == 3 ? (uint32_t) (n - pos) : v;
	}
	return pos;
}
#endif

/* ------------------------------------------------------------ hashes */
#define HV(v) uint32_t hv##v##_hashword(const uint32_t *, size_t, uint32_t); void hv##v##_hashword2(const uint32_t *, size_t, uint32_t *, uint32_t *); \
	uint32_t hv##v##_hashlittle(const void *, size_t, uint32_t); void hv##v##_hashlittle2(const void *, size_t, uint32_t *, uint32_t *); uint32_t hv##v##_hashbig(const void *, size_t, uint32_t); \
	static void hv##v(int fn, const void *k, size_t n, uint32_t *a, uint32_t *b) { switch (fn) { case SH_WORD: *a = hv##v##_hashword(k, n, *a); break; case SH_WORD2: hv##v##_hashword2(k, n, a, b); break; \
	case SH_LITTLE: *a = hv##v##_hashlittle(k, n, *a); break; case SH_LITTLE2: hv##v##_hashlittle2(k, n, a, b); break; case SH_BIG: *a = hv##v##_hashbig(k, n, *a); break; } }
HV(0) HV(1) HV(2) HV(3)
void sh_hash(int variant, int fn, const void *key, size_t len, uint32_t *a, uint32_t *b) {
	switch (variant) { case 0: hv0(fn, key, len, a, b); break; case 1: hv1(fn, key, len, a, b); break; case 2: hv2(fn, key, len, a, b); break; default: hv3(fn, key, len, a, b); break; }
}
