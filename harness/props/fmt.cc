#include "../wapi.h"
#include "../shim_fmt.h"
#include <arpa/inet.h>
#include <algorithm>
extern "C" {
const char *fast_inet4_ntop(const void *src, char *dst, socklen_t size);
const char *fast_inet6_ntop(const void *src, char *dst, socklen_t size);
const char *fast_inet_ntop(int af, const void *src, char *dst, socklen_t size);
size_t base32_encode(char *dst, size_t dst_len, const void *src, size_t src_len);
size_t base32_decode(void *dst, size_t size, const char *data, size_t len);
typedef enum { est_A, est_B, est_C } est_t; typedef struct { est_t step; char result; } base64_encodestate;
typedef enum { dst_a, dst_b, dst_c, dst_d } dst_t; typedef struct { dst_t step; char plainchar; } base64_decodestate;
void base64_init_encodestate(base64_encodestate *); char base64_encode_value(char);
int base64_encode_block(const char *, int, char *, base64_encodestate *); int base64_encode_blockend(char *, base64_encodestate *);
void base64_init_decodestate(base64_decodestate *); int base64_decode_value(char); int base64_decode_block(const char *, int, char *, base64_decodestate *);
size_t my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, size_t dst_size);
size_t my_uint16_to_hex_str(uint16_t num, bool is_upper, char *dst, size_t dst_size);
size_t my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start);
}

// ---------------------------------------------------------------- P27
static void one_addr(int af, const bytes &a, size_t size, uint8_t fill, bool direct) {
	char want[64]; if (!inet_ntop(af, a.data(), want, sizeof want)) fail("inet_ntop failed");
	size_t need = strlen(want) + 1, full = af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN;
	Exact in(a), out(size, fill); char *d = (char *) out.p;
	const char *r = !direct ? fast_inet_ntop(af, in.p, d, (socklen_t) size) : af == AF_INET ? fast_inet4_ntop(in.p, d, (socklen_t) size) : fast_inet6_ntop(in.p, d, (socklen_t) size);
	CHECK(in.str() == a, "the address was modified");
	if (!r) {
		CHECK(size < full, "address %s refused with a buffer of %zu octets", want, size);
		CHECK(out.str() == bytes(size, (char) fill), "an error, but the buffer was written to");
		return;
	}
	CHECK(size >= need, "address %s accepted with a buffer of %zu octets", want, size);
	CHECK(r == d, "a different buffer was returned");
	CHECK(memchr(d, 0, size) && !strcmp(d, want), "address %s is formatted as \"%.*s\"", want, (int) size, d);
	uint8_t back[16]; CHECK(inet_pton(af, d, back) == 1 && !memcmp(back, a.data(), a.size()), "\"%s\" does not read back", d);
}
static void p27(Src &s, Case &c) {
	int af = s.below(4) ? AF_INET6 : AF_INET; bytes a;
	if (af == AF_INET) { static const uint8_t b[] = {0, 1, 9, 10, 11, 99, 100, 101, 109, 110, 199, 200, 201, 249, 250, 255}; for (int i = 0; i < 4; i++) a.push_back((char) (s.flip() ? b[s.below(16)] : s.byte())); }
	else {
		unsigned mode = s.below(5), mask = s.byte(); static const uint16_t w[] = {0, 1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xfffe, 0x8000, 0xa, 0xa0b0};
		for (int i = 0; i < 8; i++) put16(a, mode == 0 ? (unsigned) s.u(2) : mask >> i & 1 ? 0 : w[s.below(13)]);
		if (mode == 3) { for (int i = 0; i < 10; i++) a[i] = 0; if (s.flip()) { a[10] = a[11] = (char) 0xff; } else if (s.flip()) a[10] = a[11] = 0; }
		if (mode == 4) { unsigned from = s.below(8), n = s.below(9 - from); for (unsigned i = from * 2; i < 2 * (from + n); i++) a[i] = 0; }
	}
	static const size_t sz[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 39, 40, 45, 46, 47, 64, 128};
	size_t size = s.below(3) == 0 ? sz[s.below(16)] : s.flip() ? (af == AF_INET ? 16 : 46) : s.below(70);
	c.note("address=%s buffer=%zu", hex(a).c_str(), size);
	one_addr(af, a, size, 0xaa, s.flip());
	if (s.below(20) == 0) { int bad = (int) s.below(40); if (bad != AF_INET && bad != AF_INET6) { Exact in(a), out(64, 0xaa); CHECK(!fast_inet_ntop(bad, in.p, (char *) out.p, 64), "address family %d accepted", bad); CHECK(out.str() == bytes(64, (char) 0xaa), "an error, but the buffer was written to"); } c.label("unknown family"); }
	c.nontrivial = size >= (af == AF_INET ? 16 : 46); c.label(af == AF_INET ? "IPv4" : "IPv6"); if (!c.nontrivial) c.label("buffer too small");
}
static void x27(Case &c) { // every zero pattern with short and long words, every octet in every place
	uint64_t n = 0;
	for (unsigned m = 0; m < 256; m++) for (unsigned k = 0; k < 8; k++) { bytes a; static const uint16_t w[] = {1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff}; for (unsigned i = 0; i < 8; i++) put16(a, m >> i & 1 ? 0 : w[(i + k) & 7]); one_addr(AF_INET6, a, 46, 0xaa, k & 1); n++; }
	for (unsigned m = 0; m < 256; m++) for (unsigned i = 0; i < 4; i++) for (unsigned o = 0; o < 2; o++) { bytes a(4, o ? (char) 255 : 0); a[i] = (char) m; one_addr(AF_INET, a, 16, 0xaa, m & 1); bytes b(12, 0); if (o) b[10] = b[11] = (char) 255; one_addr(AF_INET6, b + a, 46, 0xaa, m & 1); n += 2; }
	for (unsigned v = 0; v < 65536; v++) { bytes a(16, (char) 1); a[8] = (char) (v >> 8); a[9] = (char) v; one_addr(AF_INET6, a, 46, 0xaa, true); n++; }
	add_evals(n);
}
static PropReg r27({"P27", p27, "IPv4 and IPv6 addresses (random, every zero-run pattern with words of every digit count, embedded IPv4, boundary octets) formatted into exactly sized buffers of 0 to 128 octets, compared with inet_ntop and read back with inet_pton; every run also covers all 256 zero patterns, all 65536 values of a word and all octet values; non-trivial: the buffer is large enough", 6000000, 30000000, true, 0, x27, 71680, 0});

// ---------------------------------------------------------------- P28
static bytes ref_b32(const bytes &b) { static const char *A = "0123456789ABCDEFGHIJKLMNOPQRSTUV"; bytes o; size_t bits = b.size() * 8; for (size_t i = 0; i < bits; i += 5) { unsigned v = 0; for (size_t k = i; k < i + 5; k++) v = v << 1 | (k < bits ? u8at(b, k / 8) >> (7 - k % 8) & 1 : 0); o.push_back(A[v]); } return o; }
static bytes ref_unb32(const bytes &d) { bytes o; unsigned acc = 0, nb = 0; for (char ch : d) { unsigned v = ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; acc = acc << 5 | v; nb += 5; if (nb >= 8) { nb -= 8; o.push_back((char) (acc >> nb)); acc &= (1u << nb) - 1; } } return o; }
static bool is_b32(char ch) { return (ch >= '0' && ch <= '9') || ((ch | 32) >= 'a' && (ch | 32) <= 'v'); }
static void p28(Src &s, Case &c) {
	bool big = s.chance(1, 3000); bytes b = gen_blob(s, big ? gen_large(s, 200000) : gen_len(s, 300));
	if (s.flip()) { // encode, then decode
		bytes want = ref_b32(b); size_t size = s.below(3) ? want.size() + s.below(3) : s.below((uint32_t) want.size() + 1);
		c.note("bytes=%s destination=%zu", hex(b).c_str(), size);
		Exact in(b), out(size, 0xaa); size_t n = base32_encode((char *) out.p, size, in.p, in.n), w = std::min(size, want.size());
		CHECK(n == w, "encoding %s reports %zu digits, expected %zu", hex(b).c_str(), n, w);
		CHECK(out.str() == want.substr(0, w) + bytes(size - w, (char) 0xaa), "encoding %s gives %s, expected %s", hex(b).c_str(), cstr(out.str()).c_str(), want.substr(0, w).c_str());
		bytes d = want; uint64_t mix = 0; size_t mi = 0; for (char &x : d) { if (mi++ % 64 == 0) mix = s.u(8); if (isalpha((unsigned char) x) && mix >> mi % 64 & 1) x |= 32; }
		size_t z = s.below(3) ? b.size() + s.below(2) : s.below((uint32_t) b.size() + 1);
		Exact din(d), dout(z, 0xaa); n = base32_decode(dout.p, z, (char *) din.p, din.n); w = std::min(z, b.size());
		CHECK(n == w && dout.str() == b.substr(0, w) + bytes(z - w, (char) 0xaa), "decoding %s gives %s (%zu octets), expected %s", d.c_str(), hex(dout.str()).c_str(), n, hex(b.substr(0, w)).c_str());
		c.label("round trip"); c.nontrivial = !b.empty();
	} else {
		static const char *A = "0123456789abcdefghijklmnopqrstuvABCDEFGHIJKLMNOPQRSTUV"; bytes d; unsigned n = big ? (unsigned) gen_large(s, 20000) : s.below(40), mode = s.below(3);
		while (n--) d.push_back(mode == 0 || s.below(mode == 1 ? 12 : 4) ? A[s.below(54)] : s.below(3) ? '=' : (char) s.byte());
		size_t z = big && s.flip() ? d.size() * 5 / 8 + s.below(3) : s.below(30); size_t bad = bytes::npos; bool pad = d.find('=') != bytes::npos; for (size_t i = 0; i < d.size(); i++) if (!is_b32(d[i]) && d[i] != '=') { bad = i; break; }
		c.note("digits=%s destination=%zu", cstr(d).c_str(), z);
		Exact in(d), out(z, 0xaa); size_t r = base32_decode(out.p, z, (char *) in.p, in.n);
		if (bad == bytes::npos && !pad) { bytes want = ref_unb32(d); size_t w = std::min(z, want.size()); CHECK(r == w && out.str() == want.substr(0, w) + bytes(z - w, (char) 0xaa), "decoding %s gives %s (%zu octets), expected %s", d.c_str(), hex(out.str()).c_str(), r, hex(want.substr(0, w)).c_str()); c.label("digits"); }
		else if (bad != bytes::npos && z > d.size()) { CHECK(r == (size_t) -1, "octet %02x in %s is accepted as a digit", u8at(d, bad), cstr(d).c_str()); c.label("not a digit"); }
		else { CHECK(r == (size_t) -1 || r <= z, "%zu octets reported for a destination of %zu", r, z); if (bad == bytes::npos) { size_t e = d.find_first_not_of('=', d.find('=')); if (e == bytes::npos) { bytes want = ref_unb32(d.substr(0, d.find('='))); size_t w = std::min(z, want.size()); CHECK(r == w && out.str().substr(0, w) == want.substr(0, w), "decoding %s gives %s (%zu octets), expected %s", d.c_str(), hex(out.str()).c_str(), r, hex(want.substr(0, w)).c_str()); c.label("padded digits"); } } }
		c.nontrivial = d.size() > 1;
	}
}
static void x28(Case &c) { for (unsigned a = 0; a < 256; a++) for (unsigned l = 0; l < 9; l++) { bytes b(l, 0); if (l) b[a % l] = (char) a; bytes w = ref_b32(b); Exact in(b), out(w.size(), 0); CHECK(base32_encode((char *) out.p, out.n, in.p, in.n) == w.size() && out.str() == w, "encoding %s", hex(b).c_str());
	bytes d(2, '0'); d[0] = (char) a; Exact di(d), dn(1, 0); size_t r = base32_decode(dn.p, 1, (char *) di.p, 2); if (is_b32((char) a)) CHECK(r == 1 && dn.str() == ref_unb32(d), "digit %02x", a); else if (a != '=') CHECK(r == (size_t) -1, "octet %02x is accepted as a digit", a); } add_evals(256 * 9); }
static PropReg r28({"P28", p28, "byte strings to 300 octets encoded and decoded with destinations smaller, equal and larger than needed, random digit strings in either case of any length, with padding and foreign octets; exactly sized buffers, bitwise reference codec; every run also decodes all 256 octets as digits; non-trivial: not empty", 4800000, 24000000, true, 0, x28, 2304, 0});

// ---------------------------------------------------------------- P29
static const char *kB64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static bytes ref_b64(const bytes &b) { bytes o; for (size_t i = 0; i < b.size(); i += 3) { unsigned v = u8at(b, i) << 16 | (i + 1 < b.size() ? u8at(b, i + 1) << 8 : 0) | (i + 2 < b.size() ? u8at(b, i + 2) : 0); o += kB64[v >> 18]; o += kB64[v >> 12 & 63]; o += i + 1 < b.size() ? kB64[v >> 6 & 63] : '='; o += i + 2 < b.size() ? kB64[v & 63] : '='; } return o; }
static bytes ref_unb64(const bytes &t) { bytes o; unsigned acc = 0, nb = 0; for (char ch : t) { const char *p = ch ? strchr(kB64, ch) : NULL; if (!p) continue; acc = acc << 6 | (unsigned) (p - kB64); nb += 6; if (nb >= 8) { nb -= 8; o.push_back((char) (acc >> nb)); acc &= (1u << nb) - 1; } } return o; }
static std::vector<size_t> splits(Src &s, size_t n) { std::vector<size_t> v; size_t i = 0; unsigned mode = s.below(3), little = n > 2000 ? 700 : 3; while (i < n) { size_t k = mode == 0 ? n - i : mode == 1 ? 1 + s.below(little) : s.below((uint32_t) (n - i) + 1); if (k > n - i) k = n - i; v.push_back(k); i += k; } if (s.below(4) == 0) v.push_back(0); return v; }
static bytes dec64(Src &s, const bytes &t) {
	base64_decodestate st; memset(&st, 0xa5, sizeof st); base64_init_decodestate(&st); bytes o; size_t i = 0;
	for (size_t k : splits(s, t.size())) { // the decoder may use one octet beyond its output
		Exact in(t.substr(i, k)), out(k + 1, 0xaa); int n = base64_decode_block((char *) in.p, (int) k, (char *) out.p, &st); CHECK(n >= 0 && (size_t) n <= k, "%d octets from %zu characters", n, k);
		o += out.str().substr(0, (size_t) n); i += k; }
	return o;
}
static void p29(Src &s, Case &c) {
	if (s.below(3)) {
		bool big = s.chance(1, 3000); bytes b = gen_blob(s, big ? gen_large(s, 200000) : gen_len(s, 300)), want = ref_b64(b), got; if (big) c.label("large");
		c.note("bytes=%s", hex(b).c_str());
		base64_encodestate st; memset(&st, 0xa5, sizeof st); base64_init_encodestate(&st); size_t i = 0, parts = 0;
		for (size_t k : splits(s, b.size())) { size_t exact = (i + k) * 8 / 6 - i * 8 / 6; Exact in(b.substr(i, k)), out(exact, 0xaa); int n = base64_encode_block((char *) in.p, (int) k, (char *) out.p, &st); CHECK(n >= 0 && (size_t) n <= exact, "block of %zu octets at %zu gives %d characters, expected %zu", k, i, n, exact); got += out.str().substr(0, (size_t) n); i += k; parts++; }
		size_t tail = want.size() - b.size() * 8 / 6; Exact end(tail, 0xaa); int n = base64_encode_blockend((char *) end.p, &st); CHECK(n >= 0 && (size_t) n <= tail, "the end gives %d characters, expected %zu", n, tail); got += end.str().substr(0, (size_t) n);
		CHECK(got == want, "encoding %s in %zu blocks gives %s, expected %s", hex(b).c_str(), parts, got.c_str(), want.c_str());
		bytes noisy = want; if (s.flip()) { unsigned k = big ? s.below(80) : s.below(6); while (k--) { char ch = (char) s.byte(); if (ch && strchr(kB64, ch)) ch = "\n\r =-_\x80"[s.below(7)]; noisy.insert(s.below((uint32_t) noisy.size() + 1), 1, ch); } c.label("with foreign characters"); }
		bytes back = dec64(s, noisy); CHECK(back == b, "decoding %s gives %s, expected %s", cstr(noisy).c_str(), hex(back).c_str(), hex(b).c_str());
		c.label("round trip"); if (parts > 1) c.label("several blocks"); c.nontrivial = !b.empty();
	} else {
		bytes t; unsigned n = s.chance(1, 3000) ? (unsigned) gen_large(s, 20000) : s.below(60), d = 1 + s.below(8); while (n--) t.push_back(s.below(d) ? kB64[s.below(64)] : (char) s.byte());
		c.note("text=%s", cstr(t).c_str()); bytes want = ref_unb64(t), got = dec64(s, t);
		CHECK(got == want, "decoding %s gives %s, expected %s", cstr(t).c_str(), hex(got).c_str(), hex(want).c_str()); c.label("text"); c.nontrivial = t.size() > 1;
	}
}
static void x29(Case &c) { for (int v = -128; v < 128; v++) { int r = base64_decode_value((char) v); const char *p = v > 0 ? strchr(kB64, v) : NULL; CHECK(p ? r == p - kB64 : r < 0, "character %d has value %d", v, r); if (v >= 0 && v < 64) CHECK(base64_encode_value((char) v) == kB64[v], "value %d is written as %c", v, base64_encode_value((char) v)); if (v >= 64) CHECK(base64_encode_value((char) v) == '=', "value %d, no digit, is written as %c", v, base64_encode_value((char) v)); } add_evals(384); }
static PropReg r29({"P29", p29, "byte strings to 300 octets encoded in one block, tiny blocks and random splits into exactly sized buffers, decoded again in other splits with foreign characters inserted, and random texts over all 256 characters; compared with a reference codec; every run also covers all character values; non-trivial: not empty", 2000000, 10000000, true, 0, x29, 384, 0});

// ---------------------------------------------------------------- P30
static void dec_case(uint64_t v, size_t size) {
	std::string full = std::to_string(v); Exact out(size, 0xaa); const char *st = (const char *) 1; size_t want = size == 0 ? 0 : std::min(full.size(), size - 1);
	bool nul = (v ^ size) % 5 == 0; size_t n = my_uint64_to_str(v, (char *) out.p, size, nul ? NULL : &st);
	CHECK(n == want, "%s in a buffer of %zu octets reports %zu digits, expected %zu", full.c_str(), size, n, want);
	if (!size) { if (!nul) CHECK(st == (char *) out.p, "a buffer of no octets leaves the start of the digits unset"); return; }
	bytes digits = full.substr(full.size() - want), exp = bytes(size - 1 - want, (char) 0xaa) + digits + bytes(1, 0);
	CHECK(out.str() == exp, "%s in a buffer of %zu octets gives %s, expected %s", full.c_str(), size, cstr(out.str()).c_str(), cstr(exp).c_str());
	if (!nul) CHECK(st == (char *) out.p + size - 1 - want, "%s in a buffer of %zu octets: digits are said to start at %zd, they start at %zu", full.c_str(), size, (ssize_t) (st - (char *) out.p), size - 1 - want);
}
static void hex_case(const bytes &b, bool up, size_t size, bool u16) {
	std::string full; char t[4]; for (unsigned char x : b) { snprintf(t, sizeof t, up ? "%02X" : "%02x", x); full += t; }
	Exact in(b), out(size, 0xaa); size_t want = size == 0 ? 0 : std::min(full.size(), (size - 1) / 2 * 2);
	size_t n = u16 ? my_uint16_to_hex_str((uint16_t) get16(b, 0), up, (char *) out.p, size) : my_bytes_to_hex_str(in.p, in.n, up, (char *) out.p, size);
	CHECK(n == want, "%s in a buffer of %zu octets reports %zu characters, expected %zu", full.c_str(), size, n, want);
	if (!size) return;
	CHECK(out.str() == full.substr(0, want) + bytes(1, 0) + bytes(size - 1 - want, (char) 0xaa), "%s in a buffer of %zu octets gives %s", full.c_str(), size, cstr(out.str()).c_str());
}
static void p30(Src &s, Case &c) {
	switch (s.below(3)) {
	case 0: { uint64_t v = s.u(8) >> s.below(64); static const uint64_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000, 10000000000000000000ull}; if (s.below(3) == 0) v = p10[s.below(20)] - s.below(2); if (s.below(50) == 0) v = ~0ull - s.below(2);
		size_t z = s.flip() ? s.below(26) : std::to_string(v).size() + s.below(3); c.note("number=%llu buffer=%zu", (unsigned long long) v, z); dec_case(v, z); c.label("decimal"); c.nontrivial = v > 9 && z > 1; break; }
	case 1: { bytes b = gen_blob(s, s.chance(1, 3000) ? gen_large(s, 140000) : gen_len(s, 60)); size_t z = s.flip() ? s.below(b.size() > 60 ? 2 * (uint32_t) b.size() : 130) : 2 * b.size() + s.below(4); bool up = s.flip(); c.note("bytes=%s buffer=%zu", hex(b).c_str(), z); hex_case(b, up, z, false); c.label("hexadecimal"); c.nontrivial = !b.empty() && z > 2; break; }
	default: { bytes b = s.raw(2); size_t z = s.below(8); c.note("number=%s buffer=%zu", hex(b).c_str(), z); hex_case(b, s.flip(), z, true); c.label("16-bit hexadecimal"); c.nontrivial = z > 2; }
	}
}
static void x30(Case &c) { for (unsigned v = 0; v < 65536; v++) { dec_case(v, 6); dec_case(v, v % 8); bytes b; put16(b, v); hex_case(b, v & 1, 5, true); } for (unsigned i = 0; i < 64; i++) for (size_t z = 0; z < 23; z++) { dec_case(1ull << i, z); dec_case((1ull << i) - 1, z); } add_evals(65536 * 3 + 64 * 46); }
static PropReg r30({"P30", p30, "64-bit numbers of every magnitude, powers of ten and their neighbours, byte strings to 60 octets, with buffers of 0 to 130 octets, exactly sized and pre-filled; compared with a reference incl. untouched octets; every run also covers all 16-bit numbers and all powers of two with every buffer size to 22; non-trivial: more than one digit fits", 7500000, 30000000, true, 0, x30, 199552, 0});

// ---------------------------------------------------------------- P31
static void p31(Src &s, Case &c) {
	struct B { int k; void *v; bytes m; };
	static const size_t esz[] = {1, 4, 12};
	struct W { std::vector<B> b; std::vector<std::pair<void *, bytes>> out; ~W() { for (auto &x : b) sv_destroy(x.k, &x.v); for (auto &o : out) free(o.first); } } W;
	auto fresh = [&]() { B b; b.k = s.below(2) ? 0 : 1 + s.below(2); if (b.k == 0 && s.flip()) { if (s.flip()) b.v = sv_new(); else { bytes t = gen_blob(s, s.below(20)); for (char &x : t) if (!x) x = 'z'; ExactStr e(t); b.v = sv_dup(e.p); b.m = t; } } else b.v = sv_init(b.k, s.below(3) ? s.below(5) : s.chance(1, 300) ? (unsigned) gen_large(s, 70000) : s.below(100)); W.b.push_back(b); };
	fresh(); fresh(); unsigned steps = 1 + s.small(g_tier ? 120 : 50), kinds = 0;
	auto strip0 = [](bytes &m) { if (!m.empty() && m.back() == 0) m.pop_back(); };
	for (unsigned st = 0; st < steps; st++) {
		B &b = W.b[s.below((uint32_t) W.b.size())]; size_t e = esz[b.k]; unsigned op = s.below(19); kinds |= 1u << op;
		switch (op) {
		case 0: case 1: { bytes x = s.raw(e); if (e == 1 && s.below(4) == 0) x[0] = 0; c.note("[%u] add %s", st, hex(x).c_str()); bytes y = x + bytes(16, 0); sv_add(b.k, b.v, y.data()); b.m += x; break; }
		case 2: case 3: { size_t n = s.below(3) ? s.below(9) : s.chance(1, 1500) ? gen_large(s, 140000) : s.below(200); bytes x = gen_blob(s, n * e); c.note("[%u] append %zu", st, n); Exact in(x); sv_append(b.k, b.v, in.p, n); b.m += x; break; }
		case 4: { size_t n = s.chance(1, 1500) ? gen_large(s, 140000) : s.below(150); bytes x = gen_blob(s, n * e); c.note("[%u] reserve %zu and fill", st, n); sv_reserve(b.k, b.v, n); CHECK((uint8_t *) sv_ptr(b.k, b.v) == (uint8_t *) sv_data(b.k, b.v) + b.m.size(), "after reserving, the write pointer is not at the end"); memcpy(sv_ptr(b.k, b.v), x.data(), x.size()); size_t use = n ? s.below((uint32_t) n + 1) : 0; sv_advance(b.k, b.v, use); b.m += x.substr(0, use * e); break; }
		case 5: { size_t n = s.below((uint32_t) (b.m.size() / e) + 3); c.note("[%u] clip %zu", st, n); sv_clip(b.k, b.v, n); if (n * e < b.m.size()) b.m.resize(n * e); break; }
		case 6: c.note("[%u] reset", st); sv_reset(b.k, b.v); b.m.clear(); break;
		case 7: { B &o = W.b[s.below((uint32_t) W.b.size())]; if (&o == &b || o.k != b.k) break; c.note("[%u] extend", st); sv_extend(b.k, b.v, o.v); b.m += o.m; break; }
		case 8: { void *p = NULL; size_t n = 77; c.note("[%u] detach", st); sv_detach(b.k, b.v, &p, &n); CHECK(n * e == b.m.size(), "detached %zu elements, expected %zu", n, b.m.size() / e); CHECK(!memcmp(p, b.m.data(), b.m.size()), "detached content differs"); W.out.push_back({p, b.m}); b.m.clear(); break; }
		case 9: if (b.k == 0) { bytes t = gen_blob(s, s.chance(1, 1000) ? gen_large(s, 70000) : s.below(30)); for (char &x : t) if (!x) x = 'y'; ExactStr z(t); c.note("[%u] add string %s", st, cstr(t).c_str()); su_add_cstr(b.v, z.p); strip0(b.m); b.m += t; } break;
		case 10: if (b.k == 0) { c.note("[%u] terminate", st); su_cterm(b.v); if (b.m.empty() || b.m.back()) b.m += bytes(1, 0); } break;
		case 11: if (b.k == 0) { c.note("[%u] as string", st); char *p = su_cstr(b.v); if (b.m.empty() || b.m.back()) b.m += bytes(1, 0); CHECK(!strcmp(p, b.m.c_str()), "string is %s, expected %s", cstr(p).c_str(), cstr(b.m.c_str()).c_str()); } break;
		case 12: if (b.k == 0) { bytes t(s.below(2) ? s.below(9) : s.chance(1, 300) ? gen_large(s, 70000) : s.below(300), 'f'), u(s.below(5), 'g'); unsigned n = (unsigned) s.u(4); ExactStr z(t), y(u); c.note("[%u] format %zu/%u/%zu", st, t.size(), n, u.size()); su_fmt_s(b.v, z.p, n, y.p); strip0(b.m); b.m += t + ":" + std::to_string(n) + ":" + u; } break;
		case 13: if (b.k == 0) { c.note("[%u] format nothing", st); su_fmt_empty(b.v); strip0(b.m); } break;
		case 14: if (b.k == 0) { char ch = !b.m.empty() && s.flip() ? b.m.back() : (char) s.byte(); c.note("[%u] strip %02x", st, (uint8_t) ch); su_rstrip(b.v, ch); if (!b.m.empty() && b.m.back() == ch) b.m.pop_back(); } break;
		case 15: if (b.k == 0) { bytes t = gen_blob(s, s.below(30)); Exact z(t); c.note("[%u] append %zu characters", st, t.size()); su_append_cstr(b.v, (char *) z.p, t.size()); b.m += t; if (s.flip()) { su_append_lit(b.v); b.m += "literal"; } } break;
		case 16: if (W.b.size() < 5) fresh(); break;
		case 17: { unsigned h = s.below(20); c.note("[%u] reinit %u", st, h); sv_reinit(b.k, b.v, h); b.m.clear(); break; }
		case 18: if (b.k == 0) { bytes t = gen_blob(s, s.chance(1, 1000) ? gen_large(s, 70000) : s.below(60)); size_t piece = 1 + s.below((uint32_t) t.size() + 3); if (t.size() > 1000 && piece < 50) piece = 50; c.note("[%u] pack %zu octets in pieces of %zu", st, t.size(), piece); Exact z(t); su_pb_append(b.v, z.p, t.size(), piece); b.m += t; } break;
		}
		for (auto &x : W.b) {
			size_t z = esz[x.k]; CHECK(sv_size(x.k, x.v) * z == x.m.size() && sv_bytes(x.k, x.v) == x.m.size(), "after step %u: %zu elements, %zu octets, expected %zu octets", st, sv_size(x.k, x.v), sv_bytes(x.k, x.v), x.m.size());
			CHECK(!memcmp(sv_data(x.k, x.v), x.m.data(), x.m.size()), "after step %u: content is %s, expected %s", st, hex(bytes((char *) sv_data(x.k, x.v), x.m.size())).c_str(), hex(x.m).c_str());
			CHECK((uint8_t *) sv_ptr(x.k, x.v) == (uint8_t *) sv_data(x.k, x.v) + x.m.size(), "after step %u: the write pointer is not at the end", st);
			if (!x.m.empty()) { size_t i = s.replay && s.pos >= s.len ? 0 : st % (x.m.size() / z); char t[16]; sv_value(x.k, x.v, i, t); CHECK(!memcmp(t, x.m.data() + i * z, z), "after step %u: element %zu differs", st, i); }
		}
		for (auto &o : W.out) CHECK(!memcmp(o.first, o.second.data(), o.second.size()), "after step %u: detached content changed", st);
	}
	c.nontrivial = steps >= 4 && __builtin_popcount(kinds) >= 3;
}
static PropReg r31({"P31", p31, "histories of up to 120 operations on up to five buffers of 1-, 4- and 12-octet elements with every initial size; size, content, write pointer, elements and detached blocks compared with model sequences after every step under AddressSanitizer; non-trivial: four operations of three kinds", 2400000, 12000000, true, 0, NULL, 0, 0});
