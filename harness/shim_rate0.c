/* The rate limiter with absolute sleeps, on a clock of the harness. */
#include "shim_util.h"
#include <time.h>
#include <stdlib.h>
#include <errno.h>
#include <math.h>
static int my_ns(const struct timespec *a, struct timespec *b) { return fake_nanosleep(a, b); }
static int my_cg(clockid_t c, struct timespec *t) { return fake_clock_gettime(t); }
static int my_cn(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return fake_clock_nanosleep(f, a, b); }
#undef HAVE_CLOCK_GETTIME
#undef HAVE_CLOCK_NANOSLEEP
#define HAVE_CLOCK_GETTIME 1
#ifndef RATE_VARIANT
#define RATE_VARIANT 0
#endif
#if RATE_VARIANT == 0
#define HAVE_CLOCK_NANOSLEEP 1
#define my_rate_init my_rate0_init
#define my_rate_sleep my_rate0_sleep
#define my_rate_destroy my_rate0_destroy
#else
#define my_rate_init my_rate1_init
#define my_rate_sleep my_rate1_sleep
#define my_rate_destroy my_rate1_destroy
#endif
#define nanosleep my_ns
#define clock_gettime my_cg
#define clock_nanosleep my_cn
#include "libmy/my_rate.c"
