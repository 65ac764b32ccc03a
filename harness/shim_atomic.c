#include "shim_atomic.h"
#include <stdbool.h>
#include <stdlib.h>
#include "libmy/atomic.h"
#include "libmy/atomic_64.h"
#include "libmy/atomic_ptr.h"
const int at_has_result[AT_OPS] = { [AT_ZERO] = 1, [AT_SUB_TEST] = 1, [AT_DEC_TEST] = 1, [AT_INC_TEST] = 1, [AT_ADD_NEG] = 1 };
void *at_new(int wide, int64_t init) {
	if (wide) { atomic64_t *c = malloc(sizeof *c), i = ATOMIC64_INIT(init); *c = i; return c; }
	atomic_t *c = malloc(sizeof *c), i = ATOMIC_INIT((int) init); *c = i; return c;
}
void at_set(int wide, void *c, int64_t v) { if (wide) atomic64_set((atomic64_t *) c, v); else atomic_set((atomic_t *) c, (int) v); }
int64_t at_read(int wide, void *c) { return wide ? (int64_t) atomic64_read((atomic64_t *) c) : (int64_t) atomic_read((atomic_t *) c); }
int64_t at_op(int wide, void *p, int op, int64_t a) {
	if (wide) {
		atomic64_t *c = p;
		switch (op) {
		case AT_ADD: atomic64_add(a, c); return 0;
		case AT_SUB: atomic64_sub(a, c); return 0;
		case AT_ZERO: return atomic64_zero(c);
		case AT_SUB_TEST: return atomic64_sub_and_test(a, c);
		case AT_INC: atomic64_inc(c); return 0;
		case AT_DEC: atomic64_dec(c); return 0;
		case AT_DEC_TEST: return atomic64_dec_and_test(c);
		case AT_INC_TEST: return atomic64_inc_and_test(c);
		case AT_ADD_NEG: return atomic64_add_negative(a, c);
		}
	} else {
		atomic_t *c = p; int i = (int) a;
		switch (op) {
		case AT_ADD: atomic_add(i, c); return 0;
		case AT_SUB: atomic_sub(i, c); return 0;
		case AT_ZERO: return atomic_zero(c);
		case AT_SUB_TEST: return atomic_sub_and_test(i, c);
		case AT_INC: atomic_inc(c); return 0;
		case AT_DEC: atomic_dec(c); return 0;
		case AT_DEC_TEST: return atomic_dec_and_test(c);
		case AT_INC_TEST: return atomic_inc_and_test(c);
		case AT_ADD_NEG: return atomic_add_negative(i, c);
		}
	}
	abort();
}
void *ap_new(void *p) { atomic_ptr_t *a = malloc(sizeof *a); a->ptr = p; return a; }
void *ap_get(void *a) { return atomic_ptr_get((atomic_ptr_t *) a); }
int ap_set(void *a, void *p) { return atomic_ptr_set((atomic_ptr_t *) a, p); }
