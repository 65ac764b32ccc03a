/* lookup3, variant 1: little endian  */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#define HAVE_ENDIAN_H 1
#define my_hashword hv1_hashword
#define my_hashword2 hv1_hashword2
#define my_hashlittle hv1_hashlittle
#define my_hashlittle2 hv1_hashlittle2
#define my_hashbig hv1_hashbig
#include "libmy/lookup3.c"
