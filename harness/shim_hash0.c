/* lookup3, variant 0: as configured  */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>

#define my_hashword hv0_hashword
#define my_hashword2 hv0_hashword2
#define my_hashlittle hv0_hashlittle
#define my_hashlittle2 hv0_hashlittle2
#define my_hashbig hv0_hashbig
#include "libmy/lookup3.c"
