/* The rate limiter with relative sleeps. */
#define RATE_VARIANT 1
#include "shim_rate0.c"
struct my_rate *my_rate0_init(unsigned, unsigned); void my_rate0_sleep(struct my_rate *); void my_rate0_destroy(struct my_rate **);
void *su_rate_init(int variant, unsigned rate, unsigned freq) { return variant ? my_rate1_init(rate, freq) : my_rate0_init(rate, freq); }
void su_rate_sleep(int variant, void *r) { if (variant) my_rate1_sleep(r); else my_rate0_sleep(r); }
void su_rate_destroy(int variant, void **r) { if (variant) my_rate1_destroy((struct my_rate **) r); else my_rate0_destroy((struct my_rate **) r); }
