/* The end of the program at a failed assertion, replaced while a request for memory fails. */
#include <stdio.h>
#include <stdlib.h>
extern int inj_fired;
void inj_throw(const char *what);
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
	if (inj_fired) inj_throw(e);
	fprintf(stderr, "%s:%u: %s: assertion `%s' failed\n", f, l, fn, e);
#undef abort
	abort();
}
