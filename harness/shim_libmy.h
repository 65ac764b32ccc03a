#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "libmy/varint.h"
#include "libmy/heap.h"
void sh_ip(int op, const void *a, unsigned len, void *out); /* 0..5: ip4 lower upper incr, ip6 lower upper incr */
bool sh_hex(const char *t, uint8_t **raw, size_t *len);
char *sh_replace(const char *s, const char *o, const char *n);
uint32_t sh_crc(int impl, const uint8_t *p, size_t n); /* 0 selected, 1 portable, 2 hardware */
bool sh_crc_hw(void);
#ifdef __cplusplus
}
#endif
