#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
struct sf_out { uint8_t *p; size_t n, cap; };  /* what the caller of the library gets to see */
enum { SF_UBUF, SF_REPLACE, SF_HEX, SF_HEAP, SF_QUEUE, SF_QUEUE_MUTEX, SF_RATE, SF_KINDS };
/* runs a script of calls; the number of failures that were reported */
unsigned sf_run(unsigned kind, const uint8_t *a, size_t an, const char *s, const char *t, const char *u, struct sf_out *o);
#ifdef __cplusplus
}
#endif
