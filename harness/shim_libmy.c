#include "shim_libmy.h"
#include <endian.h>
#include "libmy/ip_arith.h"
#include "libmy/hex_decode.h"
#include "libmy/string_replace.h"
#include "libmy/crc32c.h"
void sh_ip(int op, const void *a, unsigned len, void *out) {
	switch (op) {
	case 0: ip4_lower(a, len, out); break;
	case 1: ip4_upper(a, len, out); break;
	case 2: if (out != a) memcpy(out, a, 4); ip4_incr(out); break;
	case 3: ip6_lower(a, len, out); break;
	case 4: ip6_upper(a, len, out); break;
	case 5: if (out != a) memcpy(out, a, 16); ip6_incr(out); break;
	}
}
bool sh_hex(const char *t, uint8_t **raw, size_t *len) { return hex_decode(t, raw, len); }
char *sh_replace(const char *s, const char *o, const char *n) { return string_replace(s, o, n); }
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
#if defined(__x86_64__)
bool my_crc32c_sse42_supported(void);
uint32_t my_crc32c_sse42(const uint8_t *, size_t);
bool sh_crc_hw(void) { return my_crc32c_sse42_supported(); }
#else
bool sh_crc_hw(void) { return false; }
#endif
uint32_t sh_crc(int impl, const uint8_t *p, size_t n) {
#if defined(__x86_64__)
	if (impl == 2) return my_crc32c_sse42(p, n);
#endif
	return impl == 1 ? my_crc32c_slicing(p, n) : my_crc32c(p, n);
}
