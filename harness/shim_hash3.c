/* lookup3 without a known byte order: octet by octet */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include <sys/param.h>
#undef HAVE_ENDIAN_H
#undef __BYTE_ORDER
#define my_hashword hv3_hashword
#define my_hashword2 hv3_hashword2
#define my_hashlittle hv3_hashlittle
#define my_hashlittle2 hv3_hashlittle2
#define my_hashbig hv3_hashbig
#include "libmy/lookup3.c"
