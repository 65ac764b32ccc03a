/* lookup3, variant 2: little endian, without reads past the key  */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#define HAVE_ENDIAN_H 1
#define VALGRIND 1
#define my_hashword hv2_hashword
#define my_hashword2 hv2_hashword2
#define my_hashlittle hv2_hashlittle
#define my_hashlittle2 hv2_hashlittle2
#define my_hashbig hv2_hashbig
#include "libmy/lookup3.c"
