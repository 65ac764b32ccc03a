#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
/* ordered sets: kind 0 red-black, 1 splay */
struct unode { int key; unsigned id; void *priv; };
void *st_new(int kind);
void st_free(int kind, void *t);                    /* only the head */
struct unode *st_node(int kind, int key, unsigned id);
void st_node_free(int kind, struct unode *n);
struct unode *st_insert(int kind, void *t, struct unode *n);   /* NULL or the element in the way */
struct unode *st_remove(int kind, void *t, struct unode *n);
struct unode *st_remove_key(int kind, void *t, int key, bool *removed_probe);
struct unode *st_find(int kind, void *t, int key);
struct unode *st_nfind(int kind, void *t, int key); /* red-black only */
struct unode *st_next(int kind, void *t, struct unode *n);
struct unode *st_prev(int kind, void *t, struct unode *n); /* red-black only */
struct unode *st_min(int kind, void *t);
struct unode *st_max(int kind, void *t);
bool st_empty(int kind, void *t);
size_t st_foreach(int kind, void *t, bool reverse, struct unode **out, size_t cap);
const char *st_verify(int kind, void *t, size_t *count, unsigned *height); /* NULL or what is wrong */
/* lists */
struct lnode { int id; struct { struct lnode *prev, *next; } link; };
struct llist { struct lnode *head, *tail; };
void sl_init(struct llist *l);
void sl_node_init(struct lnode *n);
bool sl_linked(struct lnode *n);
bool sl_empty(struct llist *l);
enum { SL_PREPEND, SL_APPEND, SL_INITPREPEND, SL_INITAPPEND, SL_ENQUEUE, SL_BEFORE, SL_AFTER };
void sl_insert(int op, struct llist *l, struct lnode *at, struct lnode *n);
void sl_unlink(int op, struct llist *l, struct lnode *n);
void sl_join(struct llist *a, struct llist *b);
struct lnode *sl_next(struct lnode *n);
struct lnode *sl_prev(struct lnode *n);
struct lnode *sl_head(struct llist *l);
struct lnode *sl_tail(struct llist *l);
/* hashes: variant 0 as configured, 1 little-endian by word, 2 little-endian with byte reads at the tail, 3 portable */
enum { SH_WORD, SH_WORD2, SH_LITTLE, SH_LITTLE2, SH_BIG };
void sh_hash(int variant, int fn, const void *key, size_t len, uint32_t *a, uint32_t *b);
/* time */
void su_ts_add(const struct timespec *a, struct timespec *b);
void su_ts_sub(const struct timespec *a, struct timespec *b);
double su_ts_double(const struct timespec *a);
void su_double_ts(double d, struct timespec *t);
void su_nanosleep(const struct timespec *t);
extern int (*fake_nanosleep)(const struct timespec *, struct timespec *);
extern int (*fake_clock_gettime)(struct timespec *);
extern int (*fake_clock_nanosleep)(int flags, const struct timespec *, struct timespec *);
/* rate limiter: variant 0 absolute sleeps, 1 relative sleeps */
void *su_rate_init(int variant, unsigned rate, unsigned freq);
void su_rate_sleep(int variant, void *r);
void su_rate_destroy(int variant, void **r);
/* spool directory and file sets */
extern const char *spool_scratch; extern int spool_escaped;
struct spooldir; struct my_fileset;
extern long fset_fail_at; extern unsigned fset_chunk; extern int fset_fail_open, fset_fired; /* reading the set file fails after that many octets (-1: never), or opening it */
extern int spool_fail_rename, spool_failed; /* moving a file fails */
extern unsigned long fake_usleep_total;
struct spooldir *spooldir_init(const char *path);
void spooldir_destroy(struct spooldir **);
char *spooldir_next(struct spooldir *);
/* small ones */
void su_print_string(const void *d, size_t n, FILE *f);
bool su_read_bytes(int fd, uint8_t *p, size_t n);
extern long (*fake_read)(int fd, void *p, size_t n);
bool su_getenv_int(const char *name, uint64_t *v);
// reads fields of 1, 2 and 4 octets and skips 3 for any other width; out gets the values, for a skip what is left
size_t su_buf_get(const uint8_t *p, size_t n, const uint8_t *widths, size_t nw, uint32_t *out);
uint32_t su_bswap32(uint32_t v);
uint32_t su_htole32(uint32_t v);
uint32_t su_le32toh(uint32_t v);
#ifdef __cplusplus
}
#endif
