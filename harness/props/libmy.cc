// libmy: variable-length integers, heap, CRC-32C, address arithmetic, hexadecimal
// decoding and string replacement.
#include "../engine.h"
#include "../gen.h"
#include "../ref.h"
#include "../shim_libmy.h"
#include <string.h>
#include <stdlib.h>
#include <algorithm>

// ---------------------------------------------------------------- P33
static bytes ref_varint(uint64_t v) { bytes o; while (v > 127) { o.push_back((char) (v % 128 + 128)); v /= 128; } o.push_back((char) v); return o; }
static unsigned ref_packed(const bytes &b, size_t lim) { for (size_t i = 0; i < b.size() && i < lim; i++) if (!((uint8_t) b[i] & 128)) return (unsigned) i + 1; return 0; }
static void one_varint(uint64_t v, const bytes &tail) {
	bytes want = ref_varint(v); size_t n = want.size();
	CHECK(varint_length(v) == n, "the length of %llu is said to be %u, it is %zu", (unsigned long long) v, varint_length(v), n);
	for (int w = 0; w < 2; w++) {
		if (w == 0 && v > 0xffffffffu) continue;
		Exact out(n, 0xaa); size_t k = w ? varint_encode64(out.p, v) : varint_encode32(out.p, (uint32_t) v);
		CHECK(k == n && out.str() == want, "%llu is encoded in %zu octets as %s, expected %s", (unsigned long long) v, k, hex(out.str()).c_str(), hex(want).c_str());
	}
	for (int w = 0; w < 3; w++) {
		if (w == 0 && v > 0xffffffffu) continue;
		Exact in(w == 2 ? want : want + tail); uint64_t x = ~0ull; uint32_t y = ~0u; size_t k = w ? varint_decode64(in.p, &x) : varint_decode32(in.p, &y); if (!w) x = y;
		CHECK(k == n && x == v, "%s is decoded by the %d-bit decoder as %llu from %zu octets, expected %llu from %zu", hex(in.str()).c_str(), w ? 64 : 32, (unsigned long long) x, k, (unsigned long long) v, n);
		CHECK(varint_length_packed(in.p, in.n) == n, "%s is said to end after %u octets", hex(in.str()).c_str(), varint_length_packed(in.p, in.n));
		if (n) { Exact cut(want.substr(0, n - 1)); CHECK(varint_length_packed(cut.p, cut.n) == 0, "%s is said to end after %u octets", hex(cut.str()).c_str(), varint_length_packed(cut.p, cut.n)); }
	}
}
static void p33(Src &s, Case &c) {
	if (s.below(3)) {
		uint64_t v = s.u(8) >> s.below(64); if (s.below(3) == 0) { unsigned k = s.below(64); v = (1ull << k) + s.below(5) - 2; } if (s.below(40) == 0) v = ~0ull - s.below(3);
		bytes tail = s.raw(s.below(12)); if (s.chance(1, 50)) tail += bytes(240 + s.below(20) + 256 * s.below(3), (char) s.byte()); else if (s.chance(1, 4000)) tail += bytes(65530 + s.below(20), (char) s.byte()); c.note("number=%llu", (unsigned long long) v); one_varint(v, tail); c.nontrivial = v > 127; c.label(v > 0xffffffffu ? "64 bit" : v > 127 ? "32 bit" : "one octet");
	} else {
		bytes b; unsigned n = s.below(14), d = s.below(8); while (n--) { uint8_t x = s.byte(); if (s.below(8) < d) x |= 128; b.push_back((char) x); }
		if (s.chance(1, 100)) b += bytes(s.chance(1, 20) ? 65500 + s.below(100) : 230 + s.below(60), (char) (s.byte() | 128)) + s.raw(s.below(4));
		c.note("octets=%s", hex(b).c_str()); Exact in(b); unsigned k = varint_length_packed(in.p, in.n), want = ref_packed(b, b.size());
		CHECK(k == want, "%s is said to end after %u octets, expected %u", hex(b).c_str(), k, want);
		if (want && want <= 10) {
			uint64_t v = 0, x = ~0ull; for (unsigned i = want; i-- > 0;) v = v * 128 + ((uint8_t) b[i] & 127);
			size_t m = varint_decode64(in.p, &x); CHECK(m == want && x == v, "%s is decoded as %llu from %zu octets, expected %llu from %u", hex(b).c_str(), (unsigned long long) x, m, (unsigned long long) v, want);
			if (want <= 5) { uint32_t y = ~0u; m = varint_decode32(in.p, &y); CHECK(m == want && y == (uint32_t) v, "%s is decoded as %u from %zu octets, expected %u from %u", hex(b).c_str(), y, m, (uint32_t) v, want); }
		} else if (b.size() >= 10) { uint64_t x; CHECK(varint_decode64(in.p, &x) == 0, "%s is accepted", hex(b).c_str()); }
		c.label("octets"); c.nontrivial = b.size() > 1;
	}
}
static void x33(Case &) { for (unsigned k = 0; k < 64; k++) for (int d = -3; d <= 3; d++) one_varint((1ull << k) + (uint64_t) d, bytes("\x80\x01\xff", 3)); for (uint64_t v = 0; v < 70000; v++) one_varint(v, bytes("\xff", 1)); add_evals(70448); }
static PropReg r33({"P33", p33, "numbers of every magnitude and around every power of two, encoded into exactly sized buffers and decoded alone and with octets following, and random octet strings with mostly continued octets; compared with a reference; every run also covers 0..69999 and all powers of two with neighbours; non-trivial: more than one octet", 6000000, 40000000, true, 0, x33, 70448, 0});

// ---------------------------------------------------------------- P34
struct El { int key; int id; };
static int cmp_up(const void *a, const void *b) { int x = ((const El *) a)->key, y = ((const El *) b)->key; return x < y ? -1 : x > y; }
static int cmp_down(const void *a, const void *b) { return cmp_up(b, a); }
static int cmp_big(const void *a, const void *b) { int x = ((const El *) a)->key, y = ((const El *) b)->key; return x < y ? INT32_MIN : x > y ? INT32_MAX : 0; }
static int cmp_odd(const void *a, const void *b) { int x = ((const El *) a)->key % 7, y = ((const El *) b)->key % 7; return (x - y) * 1000; }
static heap_compare_func cmps[] = {cmp_up, cmp_down, cmp_big, cmp_odd};
static void heap_state(struct heap *h, const std::vector<El *> &m, heap_compare_func f, unsigned st) {
	CHECK(heap_size(h) == m.size(), "after step %u: %zu elements are reported, %zu were put in and not taken out", st, heap_size(h), m.size());
	std::vector<void *> a, b; for (size_t i = 0; i < m.size(); i++) { a.push_back(heap_get(h, i)); b.push_back(m[i]); }
	std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "after step %u: the elements differ from those put in", st);
	CHECK(!heap_get(h, m.size()) && !heap_get(h, m.size() + 1000) && !heap_get(h, (size_t) -1), "after step %u: an element beyond the last one", st);
	void *p = heap_peek(h); if (m.empty()) CHECK(!p, "after step %u: an element of an empty heap", st);
	else for (El *e : m) CHECK(f(p, e) <= 0, "after step %u: key %d is first, key %d is smaller", st, ((El *) p)->key, e->key);
}
static void heap_take(void *p, std::vector<El *> &m, heap_compare_func f, unsigned st) {
	auto it = std::find(m.begin(), m.end(), (El *) p); CHECK(it != m.end(), "step %u yields something that is not in the heap", st);
	for (El *e : m) CHECK(f(p, e) <= 0, "step %u yields key %d although key %d is smaller", st, ((El *) p)->key, e->key);
	m.erase(it);
}
static void p34(Src &s, Case &c) {
	heap_compare_func f = cmps[s.below(4)]; struct G { struct heap *h; std::vector<El *> all; ~G() { heap_destroy(&h); for (El *e : all) delete e; } } G; G.h = heap_init(f);
	std::vector<El *> m; unsigned keys = s.flip() ? 4 : s.flip() ? 40 : 100000, n = 1 + s.small(g_tier ? 200 : 80), bias = 1 + s.below(5), pops = 0; bool every = s.below(4) == 0, big = s.chance(1, 8000); if (big) { n = (unsigned) gen_large(s, 2000); bias = 4; every = false; c.label("many elements"); }
	auto el = [&]() { El *e = new El; e->key = (int) s.below(keys) - (s.flip() ? (int) keys / 2 : 0); e->id = (int) G.all.size(); G.all.push_back(e); return e; };
	for (unsigned st = 0; st < n; st++) {
		switch (s.below(3 + bias)) {
		case 0: { c.note("[%u] pop", st); void *p = heap_pop(G.h); if (m.empty()) CHECK(!p, "step %u yields an element of an empty heap", st); else { heap_take(p, m, f, st); pops++; } break; }
		case 1: { El *e = el(); c.note("[%u] replace by %d", st, e->key); void *p = heap_replace(G.h, e); if (m.empty()) CHECK(!p, "step %u yields an element of an empty heap", st); else { heap_take(p, m, f, st); m.push_back(e); pops++; } break; }
		case 2: if (!m.empty() && s.below(6) == 0) { El *e = m[s.below((uint32_t) m.size())]; c.note("[%u] push %d once more", st, e->key); heap_push(G.h, e); m.push_back(e); break; } // fall through
		default: { El *e = el(); c.note("[%u] push %d", st, e->key); heap_push(G.h, e); m.push_back(e); }
		}
		if (every || st % (big ? 512 : 16) == 0) heap_state(G.h, m, f, st); else CHECK(heap_size(G.h) == m.size(), "after step %u: wrong size", st);
	}
	heap_state(G.h, m, f, n); if (s.flip()) { c.label("drained"); while (!m.empty()) { heap_take(heap_pop(G.h), m, f, n); pops++; } heap_state(G.h, m, f, n); }
	struct heap *h = G.h; heap_destroy(&G.h); CHECK(!G.h, "destroying leaves the pointer"); heap_destroy(&G.h); (void) h; c.nontrivial = pops >= 3;
}
// a heap of more elements than sixteen bits count
static void heap_of(size_t n) {
	std::vector<El> el(n + 3000); std::multiset<int> keys; uint32_t x = (uint32_t) n; std::vector<char> seen(el.size(), 0); struct heap *h = heap_init(cmp_up); struct G { struct heap *h; ~G() { heap_destroy(&h); } } G{h};
	for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; el[i] = {(int) (x >> 8) % 1000000, (int) i}; heap_push(h, &el[i]); keys.insert(el[i].key); }
	auto out = [&](void *p, const char *what) { El *e = (El *) p; CHECK(e >= &el[0] && e < &el[0] + el.size() && !seen[e->id], "%s a heap of %zu elements yields no element of it", what, keys.size()); seen[e->id] = 1; CHECK(e->key == *keys.begin(), "%s a heap of %zu elements yields %d, the least is %d", what, keys.size(), e->key, *keys.begin()); keys.erase(keys.begin()); };
	for (size_t i = n; i < el.size(); i++) { x = x * 1664525u + 1013904223u; el[i] = {(int) (x >> 8) % 1000000, (int) i}; out(heap_replace(h, &el[i]), "replacing in"); keys.insert(el[i].key); CHECK(heap_size(h) == keys.size(), "wrong size"); }
	for (size_t i = 0; i < n; i += 997) { El *e = (El *) heap_get(h, i); CHECK(e >= &el[0] && e < &el[0] + el.size() && !seen[e->id], "element %zu is none of the heap", i); } CHECK(!heap_get(h, n), "an element behind the last one");
	while (!keys.empty()) { CHECK(heap_size(h) == keys.size(), "wrong size"); out(heap_pop(h), "popping from"); } CHECK(!heap_pop(h) && !heap_peek(h) && !heap_size(h), "an emptied heap is not empty");
}
static void x34(Case &) {
	heap_of(70000); heap_of(140001);
	for (unsigned n = 1; n <= 7; n++) { std::vector<int> q; for (unsigned i = 0; i < n; i++) q.push_back((int) i / 2 * (n > 5 ? 1 : 2) + (int) (i & 1) * (n & 1)); std::sort(q.begin(), q.end()); do {
		struct heap *h = heap_init(cmp_up); std::vector<El> el(n); std::vector<El *> m; for (unsigned i = 0; i < n; i++) { el[i] = {q[i], (int) i}; heap_push(h, &el[i]); m.push_back(&el[i]); heap_state(h, m, cmp_up, i); }
		El mid{n > 2 ? q[n / 2] : 0, 99}; heap_take(heap_replace(h, &mid), m, cmp_up, n); m.push_back(&mid); heap_state(h, m, cmp_up, n); while (!m.empty()) { heap_take(heap_pop(h), m, cmp_up, n); heap_state(h, m, cmp_up, n); } heap_destroy(&h);
	} while (std::next_permutation(q.begin(), q.end())); }
}
static PropReg r34({"P34", p34, "histories of up to 200 push, pop and replace operations with repeated keys and elements and four orders; every element yielded is checked to be present and minimal, size, content, peek and indexed access are compared with a model multiset; every run also covers all arrangements of up to 7 keys with ties, and heaps of 70000 and 140001 elements; non-trivial: three elements taken out", 2000000, 10000000, true, 0, x34, 1000, 0});

// ---------------------------------------------------------------- P35
static uint32_t ref_crc(const bytes &b) { uint32_t r = 0xffffffffu; for (char ch : b) { r ^= (uint8_t) ch; for (int i = 0; i < 8; i++) r = r & 1 ? r >> 1 ^ 0x82f63b78u : r >> 1; } return ~r; }
static void one_crc(const bytes &b, size_t align) {
	uint32_t want = ref_crc(b); size_t n = b.size() + align; uint8_t *q = (uint8_t *) malloc(n ? n : 1); memset(q, 0x77, align); memcpy(q + align, b.data(), b.size()); struct F { uint8_t *q; ~F() { free(q); } } F{q};
	static const char *nm[] = {"selected", "portable", "hardware"};
	for (int i = 0; i < 3; i++) { if (i == 2 && !sh_crc_hw()) continue; uint32_t got = sh_crc(i, q + align, b.size()); CHECK(got == want, "the %s implementation gives %08x for %zu octets at offset %zu: %s, expected %08x", nm[i], got, b.size(), align, hex(b.substr(0, 100)).c_str(), want); CHECK(!memcmp(q + align, b.data(), b.size()), "the octets were modified"); }
}
static void p35(Src &s, Case &c) {
	size_t n = s.below(3) ? s.below(80) : s.chance(1, 2000) ? gen_large(s, 1100000) : gen_len(s, 3000), al = s.below(17); bytes b; switch (s.below(4)) { case 0: b = bytes(n, (char) s.byte()); break; case 1: b = bytes(n, 0); if (n) b[s.below((uint32_t) n)] = (char) (1 << s.below(8)); break; default: b = gen_blob(s, n); }
	c.note("offset=%zu octets=%s", al, hex(b).c_str()); one_crc(b, al); c.nontrivial = n > 8; c.label(n > 64 ? "long" : n > 8 ? "medium" : "short"); if (al % 8) c.label("unaligned");
}
static void x35(Case &) { for (size_t n = 0; n < 64; n++) for (size_t al = 0; al < 16; al++) { bytes b; for (size_t i = 0; i < n; i++) b.push_back((char) (i * 37 + al * 11 + 200)); one_crc(b, al); }
	for (unsigned pos = 0; pos < 24; pos++) for (unsigned v = 0; v < 256; v++) { bytes b(24, 0); b[pos] = (char) v; one_crc(b, 0); one_crc(b, 3); one_crc(b.substr(0, pos + 1), pos); }
	CHECK(sh_crc(0, (const uint8_t *) "123456789", 9) == 0xe3069283u, "the check value is wrong"); add_evals(64 * 16 + 24 * 256 * 3); }
static PropReg r35({"P35", p35, "byte strings of 0 to 3000 octets (constant, single bits, arbitrary) at every offset to 16, ending exactly at the end of their block, through all three implementations; compared with a bitwise reference; every run also covers every length to 63 at 16 offsets and every octet value at every position of 24; non-trivial: more than eight octets", 4800000, 24000000, true, 0, x35, 19456, 0});

// ---------------------------------------------------------------- P36
static bytes ref_bound(const bytes &a, unsigned len, bool up) { bytes o = a; for (unsigned i = len; i < a.size() * 8; i++) { uint8_t bit = (uint8_t) (128 >> i % 8); if (up) o[i / 8] = (char) (o[i / 8] | bit); else o[i / 8] = (char) (o[i / 8] & ~bit); } return o; }
static bytes ref_next(bytes a) { for (size_t i = a.size(); i-- > 0;) { a[i] = (char) (a[i] + 1); if (a[i]) break; } return a; }
static void one_ip(const bytes &a, unsigned len, unsigned off) {
	unsigned base = a.size() == 4 ? 0 : 3; static const char *nm[] = {"lower bound", "upper bound", "successor"};
	for (unsigned op = 0; op < 3; op++) for (int inplace = 0; inplace < 2; inplace++) {
		bytes want = op == 2 ? ref_next(a) : ref_bound(a, len, op == 1); Exact in(bytes(off, 'x') + a), out(a.size() + off, 0xaa); uint8_t *d = inplace ? in.p + off : out.p + off; sh_ip((int) (base + op), in.p + off, len, d);
		bytes got((char *) d, a.size()); CHECK(got == want, "the %s of %s/%u is %s, expected %s", nm[op], hex(a).c_str(), len, hex(got).c_str(), hex(want).c_str());
		if (!inplace) CHECK(in.str().substr(off) == a, "the address was modified");
	}
}
static void p36(Src &s, Case &c) {
	size_t n = s.flip() ? 4 : 16; bytes a = s.raw(n); switch (s.below(6)) { case 4: { static const char V[] = "\x00\x01\x7f\x80\xfe\xff"; for (auto &x : a) x = V[s.below(6)]; break; } case 5: { char fill = s.flip() ? (char) 0xff : 0; for (auto &x : a) x = fill; for (unsigned k = 1 + s.below(3); k--;) { unsigned b = s.below((uint32_t) n * 8); a[b / 8] ^= (char) (0x80 >> b % 8); } break; } case 0: { unsigned k = s.below((uint32_t) n + 1); for (size_t i = n - k; i < n; i++) a[i] = (char) 0xff; break; } case 1: { for (size_t i = 0; i < n; i++) if (s.flip()) a[i] = s.flip() ? 0 : (char) 0xff; break; } default: break; }
	unsigned len = s.below((uint32_t) n * 8 + 1); c.note("address=%s prefix=%u", hex(a).c_str(), len); one_ip(a, len, s.below(4)); c.nontrivial = len > 0 && len < n * 8; c.label(n == 4 ? "IPv4" : "IPv6");
}
static void x36(Case &) { for (unsigned n = 4; n <= 16; n += 12) for (unsigned len = 0; len <= n * 8; len++) for (int k = 0; k < 4; k++) { bytes a(n, k == 0 ? 0 : k == 1 ? (char) 0xff : k == 2 ? (char) 0xa5 : 0x5a); one_ip(a, len, 0); for (unsigned i = 0; i <= n; i++) { bytes q = a; for (unsigned j = i; j < n; j++) q[j] = (char) 0xff; one_ip(q, len, 1); } if (k < 2) for (unsigned b = 0; b < n * 8; b++) { bytes q = a; q[b / 8] ^= (char) (0x80 >> b % 8); one_ip(q, len, 2); } } add_evals(33 * 4 * 6 + 129 * 4 * 18); }
static PropReg r36({"P36", p36, "arbitrary addresses, addresses of 0x00/0xff octets and with trailing 0xff octets, every prefix length, in place and into another (also unaligned) place; compared with bit-by-bit references; every run also covers every prefix length over four patterns with every carry length; non-trivial: prefix neither empty nor full", 5000000, 40000000, true, 0, x36, 10080, 0});

// ---------------------------------------------------------------- P38
static int hexval(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static void one_hex(const bytes &t) {
	bytes want; bool ok = !t.empty() && t.size() % 2 == 0; for (size_t i = 0; ok && i < t.size(); i += 2) { int h = hexval(t[i]), l = hexval(t[i + 1]); if (h < 0 || l < 0) ok = false; else want.push_back((char) (h * 16 + l)); }
	ExactStr e(t); uint8_t *raw = NULL; size_t n = 12345; size_t before = live_allocs(); bool r = sh_hex(e.p, &raw, &n);
	if (r) { bytes got((char *) raw, n); free(raw); CHECK(ok, "\"%s\" is accepted as %s", cstr(t).c_str(), hex(got).c_str()); CHECK(got == want, "\"%s\" is decoded as %s, expected %s", cstr(t).c_str(), hex(got).c_str(), hex(want).c_str()); }
	else { CHECK(!ok, "\"%s\" is refused", cstr(t).c_str()); CHECK(live_allocs() == before, "refusing \"%s\" leaves memory allocated", cstr(t).c_str()); }
}
static void p38(Src &s, Case &c) {
	if (s.below(2)) {
		bytes t; unsigned n = s.chance(1, 4000) ? (unsigned) gen_large(s, 140000) : s.below(40), bad = s.below(3) ? 0 : n > 1000 ? 2000 : 1 + s.below(30); static const char H[] = "0123456789abcdefABCDEF"; if (n > 1000) { t = gen_blob(s, n); for (char &x : t) x = H[(uint8_t) x % 22]; n = 0; if (bad) t[s.below((uint32_t) t.size())] = 'g'; } while (n--) { char ch = bad && s.below(bad) == 0 ? (char) s.byte() : H[s.below(22)]; if (!ch) ch = 'g'; t.push_back(ch); }
		if (s.below(4) && t.size() % 2) t.push_back('7'); if (bad && !t.empty() && s.flip()) { char ch = "gG/:@`xX \xb0"[s.below(10)]; t[s.below((uint32_t) t.size())] = ch; } c.note("text=%s", cstr(t).c_str()); one_hex(t); c.nontrivial = t.size() > 1; c.label("hexadecimal");
	} else {
		unsigned ab = 1 + s.below(3); auto txt = [&](unsigned max) { bytes t; unsigned n = s.chance(1, 6000) ? (unsigned) gen_large(s, 6000) : s.chance(1, 40000) ? (unsigned) gen_large(s, 140000) : s.below(max + 1); while (n--) t.push_back((char) ('a' + s.below(ab))); return t; };
		bytes str = txt(s.flip() ? 12 : 60), o = txt(s.flip() ? 2 : 5), nw = txt(s.flip() ? 3 : 20); if (s.below(4) == 0) { str += o; } if (s.below(4) == 0) str = o + str; if (s.below(5) == 0) nw = o + nw; if (s.below(12) == 0) o = str; if (s.below(20) == 0) { str += (char) (128 + s.below(128)); } if (s.chance(1, 8000)) { str.insert(s.below((uint32_t) str.size() + 1), bytes(gen_large(s, 140000), 'z')); c.label("long run"); }
		bytes want; size_t i = 0, hits = 0; if (o.empty()) want = str; else while (i < str.size()) if (str.compare(i, o.size(), o) == 0) { want += nw; i += o.size(); hits++; } else want += str[i++];
		c.note("text=%s old=%s new=%s", cstr(str).c_str(), cstr(o).c_str(), cstr(nw).c_str()); ExactStr a(str), b(o), d(nw); char *r = sh_replace(a.p, b.p, d.p); CHECK(r, "no result"); bytes got(r); free(r);
		CHECK(got == want, "replacing \"%s\" by \"%s\" in \"%s\" gives \"%s\", expected \"%s\"", cstr(o).c_str(), cstr(nw).c_str(), cstr(str).c_str(), cstr(got).c_str(), cstr(want).c_str()); c.nontrivial = hits > 0; c.label(hits > 1 ? "several occurrences" : hits ? "one occurrence" : "no occurrence");
	}
}
static void x38(Case &) { for (unsigned a = 1; a < 256; a++) for (unsigned b = 1; b < 256; b++) { bytes t; t.push_back((char) a); t.push_back((char) b); one_hex(t); } one_hex(""); one_hex("0"); add_evals(65027);  }
static PropReg r38({"P38", p38, "hexadecimal texts with and without foreign characters and odd lengths, and replacements over alphabets of one to three letters with overlapping, adjacent, leading and trailing occurrences; compared with references; every run also covers all two-character texts; non-trivial: two characters or one occurrence", 6000000, 30000000, true, 0, x38, 65027, 0});
