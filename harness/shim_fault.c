/* Scripts over the containers and helpers of libmy, built with failing requests for memory. */
#include "shim_fault.h"
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "libmy/ubuf.h"
#include "libmy/string_replace.h"
#include "libmy/hex_decode.h"
#include "libmy/heap.h"
#include "libmy/my_rate.h"
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
VECTOR_GENERATE(wvec, uint64_t)
static void out(struct sf_out *o, const void *p, size_t n) { if (n > o->cap - o->n) n = o->cap - o->n; if (n) memcpy(o->p + o->n, p, n); o->n += n; }
static int cmp(const void *a, const void *b) { return *(const uint8_t *) a < *(const uint8_t *) b ? -1 : *(const uint8_t *) a > *(const uint8_t *) b; }
unsigned sf_run(unsigned kind, const uint8_t *a, size_t an, const char *s, const char *t, const char *u, struct sf_out *o) {
	size_t i; unsigned bad = 0;
	switch (kind) {
	case SF_UBUF: {
		ubuf *x = ubuf_init(an ? a[0] : 1), *y = ubuf_dup_cstr(s); wvec *w = wvec_init(1); uint8_t *d; size_t n;
		for (i = 1; i < an; i++) switch (a[i] % 10) {
		case 0: ubuf_add_cstr(x, s); break;
		case 1: ubuf_add_fmt(x, "%s-%u", t, a[i]); break;
		case 2: ubuf_cterm(x); break;
		case 3: ubuf_append(x, a, an); break;
		case 4: ubuf_extend(x, y); break;
		case 5: ubuf_add(y, a[i]); break;
		case 6: ubuf_detach(x, &d, &n); out(o, d, n); free(d); break;
		case 7: ubuf_reset(x); break;
		case 8: wvec_add(w, a[i]); break;
		default: ubuf_reserve(x, a[i] * 9); ubuf_clip(x, a[i]); break;
		}
		out(o, ubuf_data(x), ubuf_size(x)); out(o, ubuf_data(y), ubuf_size(y)); out(o, wvec_data(w), wvec_bytes(w));
		ubuf_destroy(&x); ubuf_destroy(&y); wvec_destroy(&w); break; }
	case SF_REPLACE: { char *r = string_replace(s, t, u); if (r) { out(o, r, strlen(r)); free(r); } else bad++; break; }
	case SF_HEX: { uint8_t *r = NULL; size_t n = 0; if (hex_decode(s, &r, &n)) { out(o, r, n); free(r); } else bad++; break; }
	case SF_HEAP: {
		struct heap *h = heap_init(cmp); if (!h) return 1;
		for (i = 0; i < an; i++) if (a[i] % 4) heap_push(h, (void *) &a[i]); else { uint8_t *p = heap_pop(h); if (p) out(o, p, 1); }
		size_t n = heap_size(h); out(o, &n, sizeof n); for (;;) { uint8_t *p = heap_pop(h); if (!p) break; out(o, p, 1); }
		heap_destroy(&h); break; }
	case SF_QUEUE: case SF_QUEUE_MUTEX: {
		const struct my_queue_ops *q = kind == SF_QUEUE ? &my_queue_mb_ops : &my_queue_mutex_ops; struct my_queue *p = q->init(1u << (an ? a[0] % 7 : 2), 1 + (an > 1 ? a[1] % 16 : 0)); if (!p) return 1;
		uint8_t e[16] = { 0 }; for (i = 2; i < an; i++) { unsigned k = 0; e[0] = a[i]; bool r = a[i] % 3 ? q->insert(p, e, &k) : q->remove(p, e, &k); out(o, &r, 1); out(o, &k, sizeof k); out(o, e, 1); }
		q->destroy(&p); break; }
	case SF_RATE: { struct my_rate *r = my_rate_init(1000000000u, an ? a[0] : 0); if (!r) bad++; for (i = 0; i < 3; i++) my_rate_sleep(r); my_rate_destroy(&r); break; }
	}
	return bad;
}
