#pragma once
#include "ldns/ldns.h"
#ifdef __cplusplus
extern "C" {
#endif
#include "libmy/zonefile.h"
extern long zone_fail_at;    /* reading a plain file fails once that many octets were read; -1: never */
extern unsigned zone_chunk;  /* octets a read gives at most */
extern unsigned zone_calls;  /* calls of the record reader */
#define ZONE_CALLS 300000u
#ifdef __cplusplus
}
#endif
