#include "gen.h"
#include <string.h>
#include <map>

bytes gen_blob(Src &s, size_t n) {
	if (n <= 40) return s.raw(n);
	uint64_t x = s.u(2); bytes b; b.reserve(n);
	if (!x) return bytes(n, 0);
	while (n--) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; b.push_back((char) (x >> 56)); }
	return b;
}
size_t gen_large(Src &s, size_t max) {
	size_t n; switch (s.below(4)) { case 0: n = s.below((uint32_t) std::min<size_t>(max, 0xfffffffe) + 1); break; case 1: { n = 1; unsigned k = 2 + s.below(5); while (k--) n *= 10; n += s.below(5); n -= 2; break; } default: n = ((size_t) 1 << (7 + s.below(14))) + s.below(9); n -= 4; }
	return n > max ? max - s.below(3) : n;
}
size_t gen_len(Src &s, size_t max) {
	unsigned k = s.below(16); size_t n;
	if (k < 9) n = s.below(6);
	else if (k < 12) n = s.below(24);
	else if (k < 14) n = s.below(max > 300 ? 301 : (uint32_t) max + 1);
	else if (k == 14) n = max - s.below(3);
	else n = s.below((uint32_t) max + 1);
	return n > max ? max : n;
}
static char gen_char(Src &s, unsigned mode) {
	static const char sp[] = {'.', '\\', 0, ' ', '"', 127, (char) 128, (char) 255, '@', '$', '(', ';', '\n', '\t', '!', '~', '0', '9', ',', '#', 'A', 'Z', '[', '`', '{', (char) 192, 31, '\r', 63, 64};
	switch (mode) {
	case 0: return (char) ('a' + s.below(26));
	case 1: { unsigned c = s.below(52); return (char) (c < 26 ? 'a' + c : 'A' + c - 26); }
	case 2: return "abcdefghij0123456789-_"[s.below(22)];
	case 3: return sp[s.below(sizeof sp)];
	}
	return (char) s.byte();
}
bytes gen_label(Src &s, size_t max) {
	unsigned k = s.below(16); size_t n = k < 10 ? 1 + s.below(3) : k < 13 ? 1 + s.below(12) : k == 13 ? max : k == 14 ? max - s.below(2) : 1 + s.below((uint32_t) max);
	if (n > max) n = max;
	if (n < 1) n = 1;
	unsigned mode = s.below(8); if (mode > 4) mode -= 4;
	bytes b;
	if (n > 40 && mode == 0) { b = gen_blob(s, n); for (char &c : b) c = 'a' + (uint8_t) c % 26; return b; }
	while (n--) b.push_back(gen_char(s, mode));
	return b;
}
bytes gen_caseflip(Src &s, bytes b) {
	unsigned m = s.byte();
	for (size_t i = 0, j = 0; i < b.size(); i += u8at(b, i) + 1) {
		if (!b[i]) break;
		for (size_t k = i + 1; k <= i + u8at(b, i); k++, j++)
			if (((b[k] | 32) >= 'a' && (b[k] | 32) <= 'z') && (m >> (j & 7) & 1)) b[k] ^= 32;
	}
	return b;
}
bytes gen_name(Src &s, NamePool *p) {
	unsigned k = s.below(16); bytes w;
	if (k == 0 || k == 1) w = bytes(1, 0);
	else if (p && !p->v.empty() && k < 5) w = s.pick(p->v);
	else if (p && !p->v.empty() && k < 7) w = gen_caseflip(s, s.pick(p->v));
	else if (p && !p->v.empty() && k < 10) {   // below or beside an earlier name
		std::vector<bytes> l = ref_labels(s.pick(p->v));
		unsigned drop = s.below((uint32_t) l.size() + 1); l.erase(l.begin(), l.begin() + drop);
		unsigned n = 1 + s.below(2);
		while (n--) { bytes t = ref_from_labels(l); size_t room = 255 - t.size(); if (room < 2) break; l.insert(l.begin(), gen_label(s, room - 1 > 63 ? 63 : room - 1)); }
		w = ref_from_labels(l);
	} else if (k == 15) {                       // long names, up to exactly 255 octets
		size_t total = 255 - s.below(4); std::vector<bytes> l;
		unsigned style = s.below(3), esc = s.below(8); if (esc > 3) esc = 0; size_t used = 1;
		while (used < total) {
			size_t room = total - used; if (room < 2) break;
			size_t n = style == 0 ? 63 : style == 1 ? 1 : 1 + s.below(63);
			if (n > room - 1) n = room - 1;
			if (room - n - 1 == 1) { if (n > 1) n--; else break; }
			bytes b; if (style == 1) b = bytes(1, gen_char(s, 4)); else { b = gen_blob(s, n); }
			if (esc) for (char &ch : b) ch = esc == 1 ? (char) ((uint8_t) ch % 161 < 33 ? (uint8_t) ch % 33 : 127 + (uint8_t) ch % 129) : esc == 2 ? ".\\"[ch & 1] : (ch & 7) ? (char) (ch | 0x80) : ch; // the longest texts
			l.push_back(b); used += b.size() + 1;
		}
		w = ref_from_labels(l);
	} else {
		unsigned n = 1 + s.below(4); std::vector<bytes> l; size_t used = 1;
		while (n--) { size_t room = 255 - used; if (room < 2) break; bytes b = gen_label(s, room - 1 > 63 ? 63 : room - 1); used += b.size() + 1; l.push_back(b); }
		w = ref_from_labels(l);
	}
	if (p && p->v.size() < 64) p->v.push_back(w);
	return w;
}
bytes gen_badname(Src &s) {
	bytes w = gen_name(s);
	switch (s.below(9)) {
	case 0: return w;
	case 1: w.resize(s.below((uint32_t) w.size() + 1)); return w;                 // truncated
	case 2: w.pop_back(); return w;                                              // no terminator
	case 3: { bytes l = gen_label(s); w.pop_back(); while (w.size() < 256 + s.below(20)) { w.push_back((char) l.size()); w += l; } w.push_back(0); return w; } // too long
	case 4: w[s.below((uint32_t) w.size())] = (char) s.byte(); return w;
	case 5: w[0] = (char) (64 + s.below(192)); return w;
	case 6: w += gen_blob(s, s.below(8)); return w;
	case 7: { w.pop_back(); w.push_back((char) (0xc0 | s.below(64))); if (s.flip()) w.push_back((char) s.byte()); return w; }
	}
	return s.raw(gen_len(s, 40));
}
uint16_t gen_known_type(Src &s, bool opt) {
	for (;;) { uint16_t t = kSchemas[s.below((uint32_t) kSchemas.size())].type; if (t != T_OPT) return t; if (opt) return t; if (s.replay && s.pos >= s.len) return 1; }
}
uint16_t gen_type(Src &s) {
	unsigned k = s.below(20);
	if (k < 16) return gen_known_type(s);
	if (k == 16) { if (s.below(3) == 0) { int d = (int) s.below(3) - 1; uint16_t t = (uint16_t) (kSchemas[s.below((uint32_t) kSchemas.size())].type + d); return t == T_OPT ? 40 : t; }
		static const uint16_t u[] = {0, 22, 25, 27, 37, 42, 53, 54, 63, 66, 98, 110, 249, 255, 258, 259, 32767, 32768, 32769, 32770, 65280, 65535}; return u[s.below(22)]; }
	if (k == 17) { uint16_t t = kTypes[s.below((uint32_t) kTypes.size())].n; return t == T_OPT ? 255 : t; }
	uint16_t t = (uint16_t) s.u(2); return t == T_OPT ? 40 : t;
}
uint16_t gen_class(Src &s) {
	unsigned k = s.below(16);
	if (k < 12) return 1;
	static const uint16_t c[] = {3, 4, 254, 255, 0, 2, 65535};
	if (k < 15) return c[s.below(7)];
	return (uint16_t) s.u(2);
}
uint16_t gen_rrtype_value(Src &s) {
	unsigned k = s.below(8);
	if (k < 5) return kTypes[s.below((uint32_t) kTypes.size())].n;
	if (k == 5) { static const uint16_t b[] = {1, 0, 255, 256, 257, 65535, 65280, 32768, 511, 512}; return b[s.below(10)]; }
	if (k == 6) return (uint16_t) s.below(300);
	return (uint16_t) s.u(2);
}
bytes flat(const Segs &v) { bytes b; for (auto &x : v) b += x.b; return b; }

static uint32_t gen_int(Src &s, unsigned w) {
	uint32_t max = w == 4 ? 0xffffffffu : (1u << 8 * w) - 1;
	switch (s.below(8)) {
	case 0: return 0;
	case 1: return max - s.below(2);
	case 2: case 3: return s.below(12);
	case 4: { uint32_t p = 1; unsigned e = s.below(w == 4 ? 10 : w == 2 ? 5 : 3); while (e--) p *= 10; uint32_t v = p - s.below(2); return v & max; }
	}
	return (uint32_t) s.u((int) w);
}
static bytes be(uint32_t v, unsigned w) { bytes b; while (w--) b.push_back((char) (v >> 8 * w)); return b; }
static bytes gen_ip4(Src &s) { if (s.below(4) == 0) { bytes b; for (int i = 0; i < 4; i++) b.push_back((char) gen_int(s, 1)); return b; } return s.raw(4); }
static bytes gen_ip6(Src &s) {
	switch (s.below(5)) {
	case 0: { bytes b; unsigned m = s.byte(); for (int i = 0; i < 8; i++) b += m >> i & 1 ? be(gen_int(s, 2), 2) : bytes(2, 0); return b; }
	case 1: return bytes(12, 0) + s.raw(4);
	case 2: return bytes(10, 0) + bytes(2, (char) 0xff) + s.raw(4);
	case 3: { bytes b; for (int i = 0; i < 8; i++) b += be(gen_int(s, 2), 2); return b; }
	}
	return s.raw(16);
}
static bytes gen_strbytes(Src &s, size_t max) {
	size_t n = gen_len(s, max);
	if (n > 60) return gen_blob(s, n);
	unsigned mode = s.below(5); bytes b;
	while (n--) b.push_back(gen_char(s, mode));
	return b;
}
static bytes lenstr(const bytes &b) { return bytes(1, (char) b.size()) + b; }
static bytes gen_bitmap(Src &s, bool canon) {
	if (canon || s.below(3)) {
		std::set<uint16_t> t; unsigned n = 1 + s.small(40);
		if (s.below(200) == 199) { // many windows, many types, whole windows
			uint64_t x = s.u(2) * 2 + 1; unsigned k = s.below(4); n = k == 0 ? 70000 : k == 1 ? s.below(8) == 7 ? s.range(2000, 90000) : 600 : s.range(40, 300);
			if (k == 0) { unsigned lo = s.below(256), hi = lo + s.below(2); for (unsigned i = lo << 8; i < (hi + 1) << 8 && i < 65536; i++) t.insert((uint16_t) i); }
			else while (n--) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; t.insert(k == 1 ? (uint16_t) (x >> 40) : k == 2 ? (uint16_t) (n * 256 + (x >> 60)) : (uint16_t) (x >> 40 & 1023)); }
		} else
		while (n--) t.insert(gen_rrtype_value(s));
		bytes o; int w = -1; bytes cur;
		auto flush = [&]() { if (w >= 0) { o.push_back((char) w); o.push_back((char) cur.size()); o += cur; } cur.clear(); };
		for (uint16_t x : t) {
			if (x >> 8 != w) { flush(); w = x >> 8; }
			unsigned i = (x & 255) / 8; if (cur.size() <= i) cur.resize(i + 1, 0);
			cur[i] = (char) (cur[i] | 0x80 >> x % 8);
		}
		flush(); return o;
	}
	bytes o; unsigned n = 1 + s.below(3);
	while (n--) { o.push_back((char) s.byte()); unsigned l = 1 + s.below(32); o.push_back((char) l); o += s.raw(l); }
	return o;
}
static bytes gen_svcval(Src &s, uint16_t key, unsigned flags) {
	bytes v;
	if (key < 7 && s.below(60) == 59) { // long lists
		unsigned n = s.below(3) ? s.range(5, 70) : s.range(64, 400); uint64_t x = s.u(2);
		auto rnd = [&]() { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t) (x >> 33); };
		if ((flags & GR_BIG) && s.below(8) == 7) n = 1 + gen_large(s, key == 0 ? 30000 : key == 4 ? 15000 : key == 6 ? 3700 : key == 5 ? 11000 : 12000);
		switch (key) {
		case 0: while (n--) v += be(rnd() % 3 ? rnd() % 8 : rnd() % 65535, 2); return v;
		case 1: while (n--) { bytes id; unsigned l = rnd() % 4 + 1; while (l--) id.push_back((char) (rnd() % 5 ? 'a' + rnd() % 26 : rnd())); v += lenstr(id); } return v;
		case 4: case 6: n *= key == 4 ? 4 : 16; while (n--) v.push_back((char) (rnd() % 3 ? rnd() : 0)); return v;
		case 5: return gen_blob(s, 100 + n * 5);
		}
	}
	switch (key) {
	case 0: { unsigned n = 1 + s.below(4); while (n--) { unsigned k = s.below(4) ? s.below(8) : gen_int(s, 2); if ((flags & GR_CANON) && k == 65535) k = 7; v += be(k, 2); } return v; }
	case 1: {
		unsigned n = 1 + s.below(4); bool any = false;
		while (n--) { bytes id = s.below(6) ? gen_strbytes(s, 20) : gen_strbytes(s, 255); if (id.size()) any = true; v += lenstr(id); }
		if ((flags & GR_CANON) && !any) v += lenstr("h2");
		return v;
	}
	case 2: return v;
	case 3: return be(gen_int(s, 2), 2);
	case 4: { unsigned n = 1 + s.below(4); while (n--) v += gen_ip4(s); return v; }
	case 5: v = gen_blob(s, gen_len(s, (flags & GR_BIG) && s.below(40) == 39 ? 3000 : 190)); if ((flags & GR_CANON) && v.empty()) v = bytes(1, 0); return v;
	case 6: { unsigned n = 1 + s.below(4); while (n--) v += gen_ip6(s); return v; }
	}
	if ((flags & GR_BIG) && s.below(300) == 299) return gen_blob(s, 60000 + s.below(5000));
	return gen_strbytes(s, 300);
}
static bytes gen_svc(Src &s, unsigned flags) {
	bytes o; unsigned n = 1 + s.below(4);
	if ((flags & GR_SVCLEN) && s.below(4) == 0) { // values of any length
		unsigned k = s.below(9), l = s.below(70); if (k == 8) k = 65535; if (s.below(6) == 5) l = 256 * s.range(1, 4) + s.below(5); if (s.flip()) o = be(3, 2) + be(2, 2) + be(53, 2); o += be(k, 2) + be(l, 2) + gen_blob(s, l); return o;
	}
	if (s.below(300) == 299) { // many parameters
		n = s.range(10, 300); uint64_t x = s.u(2);
		for (unsigned i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; bytes v = be((uint32_t) (x >> 32), 4); v.resize((size_t) (x >> 60) % 5); o += be(i < 7 && i != 3 ? 7 + i : i * 217 % 65535, 2); if (get16(o, o.size() - 2) < 7) { o.resize(o.size() - 2); continue; } o += be((uint32_t) v.size(), 2) + v; }
		return o;
	}
	while (n--) {
		uint16_t k = s.below(5) ? (uint16_t) s.below(7) : (uint16_t) gen_int(s, 2); if (k == 65535) k = 65534;
		bytes v = gen_svcval(s, k, flags);
		if (o.size() + v.size() > 65000) break;
		o += be(k, 2) + be((uint32_t) v.size(), 2) + v;
	}
	return o;
}
bytes gen_options(Src &s, bool valid) {
	bytes o; unsigned n = s.below(4), big = s.below(100);
	if (big == 99) n = s.range(4, 60);
	while (n--) {
		uint16_t c; bytes v;
		if (big >= 95 && s.below(4) == 0) { // long option data
			static const uint16_t k[] = {15, 3, 12, 65001}; c = k[s.below(4)];
			unsigned l = s.below(4) == 0 ? s.range(250, 262) : s.below(20) == 19 ? s.range(1000, 40000) : s.range(60, 700);
			if (o.size() + l > 65000) break;
			if (c == 15) v = be(s.below(27), 2);
			v += gen_blob(s, l); if (s.flip()) for (char &ch : v) if (&ch >= &v[c == 15 ? 2 : 0]) ch = (char) (32 + (uint8_t) ch % 95);
			o += be(c, 2) + be((uint32_t) v.size(), 2) + v; continue;
		}
		switch (s.below(6)) {
		case 0: c = 10; v = s.raw(8); break;
		case 1: case 2: {
			c = 8; unsigned fam = 1 + s.below(2); size_t w = fam == 1 ? 4 : 16;
			v = be(fam, 2); v.push_back((char) s.byte()); v.push_back((char) s.byte()); v += s.raw(s.below((uint32_t) w + 1));
			if (!valid && s.below(4) == 0) v = be(s.below(4), 2) + s.raw(s.below(24));
			else if (!valid && s.below(8) == 0) v = be(fam, 2) + s.raw(2) + gen_blob(s, w + 1 + s.below(3) + (s.flip() ? 256 * (1 + s.below(4)) - 1 - s.below((uint32_t) w + 3) : 0)); // too long an address
			break;
		}
		case 3: case 4: c = 15; v = be(s.below(3) ? s.below(27) : gen_int(s, 2), 2) + gen_strbytes(s, 60); if (!valid && s.below(4) == 0) v.resize(s.below(2)); break;
		default: c = (uint16_t) gen_int(s, 2); if (c == 8 || c == 15) c = 3; v = gen_strbytes(s, 80); break;
		}
		if (o.size() + v.size() > 65000) break;
		o += be(c, 2) + be((uint32_t) v.size(), 2) + v;
	}
	if (!valid && s.below(6) == 0) o.resize(s.below((uint32_t) o.size() + 1));
	return o;
}
Segs gen_rdata(Src &s, uint16_t type, uint16_t cls, unsigned flags, NamePool *p) {
	Segs v;
	if (mode_of(type, cls) != M_FIELDS) {
		size_t n = gen_len(s, 400);
		if ((flags & GR_BIG) && s.below(400) == 399) n = 65535 - s.below(3);
		v.push_back(Seg{false, gen_blob(s, n)});
		return v;
	}
	const Schema *sc = schema_of(type);
	size_t stop = sc->f.size();
	if ((flags & GR_TRUNC) && s.below(12) == 11) stop = s.below((uint32_t) stop + 1);
	for (size_t i = 0; i < stop; i++) {
		bytes b;
		switch (sc->f[i]) {
		case NAME:
			// an A6 record with prefix 0 has no name in text form and needs one otherwise
			if (sc->f[0] == A6P && (flags & GR_CANON) && i == 1 && u8at(v[0].b, 0) == 0) { i = stop; continue; }
			v.push_back(Seg{true, gen_name(s, p)}); continue;
		case I8: b = be(gen_int(s, 1), 1); break;
		case I16: b = be(gen_int(s, 2), 2); break;
		case I32: b = be(gen_int(s, 4), 4); break;
		case RRT: b = be(gen_rrtype_value(s), 2); break;
		case IP4: b = gen_ip4(s); break;
		case IP6: b = gen_ip6(s); break;
		case EUI48: b = s.raw(6); break;
		case EUI64: b = s.raw(8); break;
		case A6P: { unsigned pl = s.below(3) ? s.below(129) : 128 - s.below(2) * 128; b.push_back((char) pl); b += s.raw((128 - pl + 7) / 8); break; }
		case STR: b = lenstr(gen_strbytes(s, 255)); break;
		case SALT: case HASH: b = lenstr(gen_blob(s, gen_len(s, 255))); break;
		case REPSTR: {
			unsigned n = 1 + s.below(4), k = s.below(500);
			if ((flags & GR_BIG) && k == 499) n = 250; else if (k > 480) n = s.range(5, 40); else if (k == 480) { n = s.range(250, 600); bytes t = gen_blob(s, n * 3); while (n--) b += lenstr(t.substr(n * 3, n % 4)); break; }
			while (n--) b += lenstr(gen_strbytes(s, 255)); break; }
		case BITMAP: b = gen_bitmap(s, flags & GR_CANON); break;
		case SVC: b = gen_svc(s, flags); break;
		case OPTS: b = gen_options(s, flags & GR_OPTTEXT); break;
		case HEX: case B64: b = gen_blob(s, (flags & GR_BIG) && s.below(500) == 499 ? 60000 + s.below(5000) : gen_len(s, 300)); if ((flags & GR_CANON) && sc->f[i] == HEX && 0) b += "x"; break;
		case BSTR: b = gen_strbytes(s, 500); if ((flags & GR_CANON) && b.empty()) b = "x"; break;
		}
		v.push_back(Seg{false, b});
	}
	// A6: prefix 128 prints no address, so the text must go on with the name
	if (sc->f[0] == A6P && (flags & GR_CANON) && v.size() == 1 && u8at(v[0].b, 0) == 128) v.push_back(Seg{true, gen_name(s, p)});
	size_t total = 0; for (auto &x : v) total += x.b.size();
	while (total > 65535) { total -= v.back().b.size(); v.pop_back(); }
	return v;
}
bytes gen_rdata_raw(Src &s, uint16_t type, uint16_t cls) {
	if (s.below(12) == 11) return gen_blob(s, gen_len(s, 600));
	bytes b = flat(gen_rdata(s, type, cls, GR_TRUNC | GR_SVCLEN, NULL));
	switch (s.below(9)) {
	case 0: break;
	case 1: b.resize(s.below((uint32_t) b.size() + 1)); break;
	case 2: b += s.raw(1 + s.below(4)); break;
	case 3: if (b.size()) b[s.below((uint32_t) b.size())] = (char) s.byte(); break;
	case 4: if (b.size()) { size_t i = s.below((uint32_t) b.size()); b[i] = (char) (b[i] + (s.flip() ? 1 : -1)); } break;
	case 5: if (b.size()) b.pop_back(); break;
	case 6: if (b.size()) b.erase(s.below((uint32_t) b.size()), 1 + s.below(3)); break;
	case 7: b.insert(s.below((uint32_t) b.size() + 1), s.raw(1 + s.below(3))); break;
	case 8: if (b.size()) { static const uint8_t v[] = {0, 1, 32, 33, 63, 64, 127, 128, 129, 191, 192, 255}; b[s.below((uint32_t) b.size())] = (char) v[s.below(12)]; } break;
	}
	return b;
}

void each_rdata(const std::function<void(uint16_t, uint16_t, const bytes &)> &f) {
	std::vector<std::pair<uint16_t, uint16_t>> tk;
	for (auto &sc : kSchemas) { tk.push_back({sc.type, 1}); if (mode_of(sc.type, 3) == M_FOREIGN) tk.push_back({sc.type, 3}); else tk.push_back({sc.type, 254}); }
	for (unsigned t : {0u, 23u, 200u, 258u, 1000u, 32768u, 65280u, 65535u}) tk.push_back({(uint16_t) t, 1});
	static const uint8_t vals[] = {0, 1, 31, 32, 33, 63, 64, 127, 128, 192, 255};
	static uint8_t tape[1 << 16];
	for (auto &p : tk) {
		uint16_t t = p.first, k = p.second;
		for (size_t l = 0; l <= 40; l++) {
			for (int c : {0, 1, 2, 64, 128, 255}) f(t, k, bytes(l, (char) c));
			bytes b(l, 0); for (size_t i = 0; i < l; i++) b[i] = i & 1 ? 'A' : 1; f(t, k, b);
			for (size_t i = 0; i < l; i++) b[i] = (char) (l - i - 1); f(t, k, b);
		}
		unsigned made = 0;
		for (uint64_t seed = 1; made < 10 && seed < 60; seed++) {
			Src s(tape, sizeof tape); s.rng = seed * 0x9e3779b97f4a7c15ULL + t;
			bytes b = flat(gen_rdata(s, t, k, seed % 3 ? 0 : GR_TRUNC));
			if (b.size() > 120) continue;
			made++; f(t, k, b);
			for (size_t i = 0; i < b.size(); i++) {
				f(t, k, b.substr(0, i));
				bytes d = b; for (uint8_t v : vals) { d[i] = (char) v; f(t, k, d); }
				d = b; d[i]++; f(t, k, d); d[i] -= 2; f(t, k, d); d[i] = b[i] ^ 0x20; f(t, k, d);
				d = b; d.erase(i, 1); f(t, k, d);
			}
			f(t, k, b + bytes(1, 0)); f(t, k, b + "a"); f(t, k, b + bytes(2, 0)); f(t, k, b + b);
		}
	}
	// value lengths around the multiples of 256 too
	std::vector<unsigned> lens; for (unsigned l = 0; l < 40; l++) lens.push_back(l);
	for (unsigned m = 64; m <= 1024; m += 64) for (int d = -2; d <= 4; d++) lens.push_back(m + d);
	for (unsigned m : {4096u, 16384u, 32768u, 65472u}) for (int d = -2; d <= 4; d++) lens.push_back(m + d);
	for (unsigned l : lens) {
		bytes zero(l, 0), ones(l, 1), chain; for (unsigned i = 0; i < l; i++) chain.push_back((char) (i % 3 ? 'a' : 2));
		for (unsigned key : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 257u, 259u, 260u, 65534u, 65535u}) for (uint16_t t : {64, 65}) {
			if (l > 2000 && t == 65) continue;
			for (const bytes *v : {&zero, &ones, &chain}) { if (l > 2000 && v == &chain) continue;
				bytes par = be(key, 2) + be(l, 2) + *v; f(t, 1, bytes(3, 0) + par); if (l < 300) { f(t, 1, bytes(3, 0) + par + be(3, 2) + be(2, 2) + be(53, 2)); f(t, 1, bytes(3, 0) + be(3, 2) + be(2, 2) + be(53, 2) + par); f(t, 1, bytes(3, 0) + par.substr(0, par.size() - 1)); } }
		}
		for (unsigned code : {3u, 8u, 10u, 15u, 264u, 271u}) for (unsigned fam = 0; fam < 4; fam++) {
			if (l > 2000 && fam != 1) continue;
			bytes o = be(code, 2) + be(l + 4, 2) + be(fam, 2) + be(24 << 8, 2) + ones; f(T_OPT, 1232, o); if (l < 300) { f(T_OPT, 1232, o + o); f(T_OPT, 1232, o.substr(0, o.size() - 1)); f(T_OPT, 1232, be(code, 2) + be(l, 2) + ones); }
		}
		for (uint16_t t : {10, 18, 44, 52, 61, 49, 99, 255, 999}) f(t, 1, ones);
		if (l < 1100) for (uint16_t t : {13, 16, 19, 20, 22, 31, 35, 257}) f(t, 1, ones), f(t, 1, chain);
	}
	for (unsigned px = 0; px < 256; px++) for (unsigned n = 0; n < 19; n++) for (int nm = 0; nm < 3; nm++) f(38, 1, bytes(1, (char) px) + bytes(n, (char) 0x11) + (nm == 0 ? bytes() : nm == 1 ? bytes(1, 0) : bytes("\1Q\0", 3)));
	for (unsigned n = 0; n < 256; n++) for (int d = -2; d <= 2; d++) for (int fill : {0, 0x5a}) { int have = (int) n + d; if (have < 0) continue; bytes b = bytes(1, (char) n) + bytes(have, (char) fill);
		f(50, 1, bytes("\1\0\0\1", 4) + b); f(50, 1, bytes("\1\0\0\1", 4) + bytes(1, 0) + b); f(50, 1, bytes("\1\0\0\1\0", 5) + b + bytes("\0\1\x40", 3)); f(51, 1, bytes("\1\0\0\1", 4) + b); f(16, 1, b); f(13, 1, b + b); f(257, 1, bytes(1, 0) + b); f(47, 1, bytes(1, 0) + b); f(47, 1, bytes(1, 0) + bytes(1, (char) 3) + b); f(47, 1, bytes(1, 0) + b + b); }
}

// ------------------------------------------------------------------ messages
RMsg expect_of(const GMsg &g) {
	RMsg m; m.id = g.id; m.flags = g.flags; m.rcode = g.flags & 15;
	for (auto &x : g.recs) {
		if (x.r.type == T_OPT && !m.edns) {
			m.edns = true; m.esize = x.r.cls; m.ever = (uint8_t) (x.r.ttl >> 16); m.eflags = (uint16_t) x.r.ttl;
			m.has_opts = x.r.has_rdata; m.opts = x.r.rdata;
			m.rcode = (uint16_t) ((x.r.ttl >> 24 << 4) | (g.flags & 15));
		} else m.sec[x.sec].push_back(x.r);
	}
	return m;
}
GMsg gen_msg(Src &s, unsigned maxrec, unsigned flags) {
	GMsg g; NamePool pool;
	g.id = (uint16_t) s.u(2); g.flags = s.below(4) ? (uint16_t) s.u(2) : (uint16_t) (0x8180 | s.below(24));
	g.counts[0] = s.below(3);
	for (int i = 1; i < 4; i++) g.counts[i] = s.below(8) ? s.below(5) : s.small(maxrec);
	static const uint32_t ttls[] = {0, 1, 60, 3600, 86400, 0x7fffffff, 0x80000000u, 0xffffffffu};
	unsigned optmode = s.below(4); // 0: no OPT at all
	for (unsigned sec = 0; sec < 4; sec++) {
		size_t first = g.recs.size();
		for (unsigned n = 0; n < g.counts[sec]; n++) {
			GRec x; x.sec = sec;
			bool isopt = optmode && (sec == 3 ? s.below(5) == 4 : s.below(40) == 39);
			if (!isopt && g.recs.size() > first && s.below(2)) {
				// same or nearly the same RRset as an earlier record
				const RRec &o = g.recs[first + s.below((uint32_t) (g.recs.size() - first))].r;
				x.r.name = o.name; x.r.type = o.type; x.r.cls = o.cls;
				switch (s.below(6)) {
				case 0: case 1: break;
				case 2: x.r.name = gen_caseflip(s, o.name); break;
				case 3: x.r.cls = gen_class(s); break;
				case 4: x.r.type = gen_type(s); break;
				case 5: { // same length, one octet different
					x.r.name = gen_caseflip(s, o.name);
					size_t k = s.below((uint32_t) x.r.name.size());
					bytes t = x.r.name; size_t i = 0; bool isoct = true;
					for (; i < t.size() && i <= k; i += u8at(t, i) + 1) if (i == k) isoct = false;
					if (isoct) { static const uint8_t d[] = {1, 0x20, 0x40, 0x80}; t[k] = (char) (t[k] ^ d[s.below(4)]); x.r.name = t; }
					break;
				}
				}
				if (x.r.type == T_OPT && !optmode) x.r.type = 40;
			} else {
				x.r.name = gen_name(s, &pool); x.r.type = isopt ? T_OPT : gen_type(s); x.r.cls = gen_class(s);
				if (isopt) { if (s.below(3)) x.r.name = bytes(1, 0); x.r.cls = (uint16_t) s.u(2); }
			}
			if (sec) {
				x.r.ttl = s.below(3) ? ttls[s.below(8)] : (uint32_t) s.u(4);
				x.segs = gen_rdata(s, x.r.type, x.r.cls, flags, &pool);
				x.r.rdata = flat(x.segs); x.r.has_rdata = true;
			}
			g.recs.push_back(x);
		}
	}
	g.expect = expect_of(g);
	return g;
}
GMsg gen_mass(Src &s, unsigned scale) {
	// scale 1: up to 400 records; 2: up to 2500 distinct RRsets; 3: more than 10000 records in few RRsets
	GMsg g; g.id = (uint16_t) s.u(2); g.flags = (uint16_t) s.u(2);
	uint64_t x = s.u(3) * 2 + 1; auto rnd = [&]() { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t) (x >> 33); };
	unsigned main = s.below(4), sets, n, vary = s.below(4), order = s.below(3);
	if (scale == 1) { n = s.below(4) ? s.range(60, 400) : 254 + s.below(5); sets = s.flip() ? n : s.range(1, n); }
	else if (scale == 2) { sets = s.range(1000, main ? 2500 : 1500); n = sets + s.below(600); }
	else { n = s.range(9990, 10400); sets = s.range(1, 20); if (!main) main = 1; }
	bytes base = s.flip() ? bytes(1, 0) : gen_name(s); if (base.size() > 200) base = bytes(1, 0);
	uint16_t t0 = s.flip() ? 16 : 1, c0 = s.below(4) ? 1 : 3;
	for (unsigned sec = 0; sec < 4; sec++) {
		g.counts[sec] = sec == main ? n : s.below(4) ? s.below(3) : s.small(20);
		for (unsigned i = 0; i < g.counts[sec]; i++) {
			unsigned id = i < sets ? i : order == 0 ? rnd() % sets : order == 1 ? i - sets < sets ? i - sets : i % sets : (i * 7) % sets;
			GRec r; r.sec = sec; r.r.type = t0; r.r.cls = c0;
			bytes l; unsigned d = vary == 1 ? 0 : vary == 2 ? 0 : vary == 3 ? id / 3 : id;
			for (int k = 0; k < 3; k++) { l.push_back((char) ('a' + d % 26)); d /= 26; }
			if (rnd() % 3 == 0) for (char &ch : l) if (rnd() & 1) ch ^= 32;
			if (vary == 1) r.r.type = (uint16_t) (256 + id % 65000); else if (vary == 2) r.r.cls = (uint16_t) (1 + id % 65535); else if (vary == 3) { if (id % 3 == 1) r.r.type = 99; if (id % 3 == 2) r.r.cls = 4; }
			if (r.r.type == T_OPT) r.r.type = 257;
			r.r.name = lenstr(l) + base;
			if (sec) {
				r.r.ttl = rnd() % 4 ? 300 : rnd() % 1000; r.r.has_rdata = true; bytes rd;
				if (mode_of(r.r.type, r.r.cls) == M_FIELDS && r.r.type == 1) rd = be(rnd(), 4); else { bytes t; unsigned k = rnd() % 4; while (k--) t.push_back((char) ('a' + rnd() % 26)); rd = lenstr(t); }
				if (mode_of(r.r.type, r.r.cls) == M_FIELDS && r.r.type != 1 && r.r.type != 16 && r.r.type != 99) { r.r.type = 65280; }
				r.segs.push_back(Seg{false, rd}); r.r.rdata = rd;
			}
			g.recs.push_back(r);
		}
	}
	g.expect = expect_of(g);
	return g;
}
bool gen_massive(Src &s, GMsg *g) {
	unsigned k = s.below(3000);
	if (k < 2980) return false;
	*g = gen_mass(s, k < 2997 ? 1 : k < 2999 ? 2 : s.below(3) ? 2 : 3);
	return true;
}
void each_huge_count(const std::function<void(const bytes &pkt, const RMsg &)> &fn) {
	// (growing an array by one element at a time is slow under the sanitizers)
	static const struct { unsigned n, sec; } plan[] = {{16384, 0}, {32768, 2}, {16385, 1}, {32768, 0}, {65535, 3}, {65535, 0}, {65535, 1}};
	for (unsigned k = 0; k < (g_tier ? 7 : 2); k++) {
		unsigned sec = plan[k].sec;
		unsigned n = plan[k].n; RMsg m; m.id = (uint16_t) (n ^ sec); m.flags = 0x8180;
		bytes b; put16(b, m.id); put16(b, m.flags); for (unsigned i = 0; i < 4; i++) put16(b, i == sec ? n : i == (sec + 1) % 4 ? 1 : 0);
		for (unsigned i = 0; i < 4; i++) {
			unsigned cnt = i == sec ? n : i == (sec + 1) % 4 ? 1 : 0;
			for (unsigned j = 0; j < cnt; j++) {
				RRec r; r.name = bytes("\1", 1) + (char) ((j & 1 ? 'n' : 'N') + (j % 5 == 0)) + bytes(1, 0); r.type = 1; r.cls = 1;
				b += r.name; put16(b, r.type); put16(b, r.cls);
				if (i) { r.ttl = n - j; r.has_rdata = true; r.rdata = be(j * 2654435761u, 4); put32(b, r.ttl); put16(b, 4); b += r.rdata; }
				m.sec[i].push_back(r);
			}
		}
		fn(b, m);
	}
}
namespace {
struct Enc {
	Src &s; unsigned comp; bool chain; Encoded e; std::map<bytes, std::vector<size_t>> at; std::set<size_t> isptr;
	Enc(Src &x, unsigned c): s(x), comp(c & 255), chain(c & COMP_CHAIN) {}
	void name(const bytes &w) {
		e.namepos.push_back(e.b.size());
		for (size_t i = 0; i < w.size(); i += u8at(w, i) + 1) {
			bytes suf = w.substr(i);
			auto it = at.find(suf); size_t pos = e.b.size();
			bool can = it != at.end() && (comp >= 255 || s.below(255) < comp);
			if (can) {
				auto &v = it->second; size_t t = chain ? v.back() : v[s.below((uint32_t) v.size())];
				put16(e.b, 0xc000 | (unsigned) t); e.pointers++; e.ptrpos.push_back(pos);
				if (isptr.count(t)) e.ptrptr++;
				isptr.insert(pos);
				if (pos < 16384) at[suf].push_back(pos);
				return;
			}
			if (pos < 16384) at[suf].push_back(pos);
			e.b.append(w, i, u8at(w, i) + 1);
		}
	}
};
}
Encoded encode(Src &s, const GMsg &g, unsigned comp) {
	Enc x(s, comp);
	put16(x.e.b, g.id); put16(x.e.b, g.flags); for (int i = 0; i < 4; i++) put16(x.e.b, g.counts[i]);
	if (x.comp) for (size_t i = 0; i < 12; i++) if (!x.e.b[i]) x.at[bytes(1, 0)].push_back(i);
	for (auto &r : g.recs) {
		x.e.recpos.push_back(x.e.b.size());
		x.name(r.r.name);
		put16(x.e.b, r.r.type); put16(x.e.b, r.r.cls);
		if (r.sec == 0) continue;
		put32(x.e.b, r.r.ttl);
		size_t lp = x.e.b.size(); x.e.lenpos.push_back(lp); put16(x.e.b, 0);
		for (auto &sg : r.segs) if (sg.name) x.name(sg.b); else x.e.b += sg.b;
		size_t n = x.e.b.size() - lp - 2;
		if (n > 65535) fail("generator made oversized rdata");
		x.e.b[lp] = (char) (n >> 8); x.e.b[lp + 1] = (char) n;
	}
	return x.e;
}
bytes mutate(Src &s, const bytes &in, const Encoded *e) {
	bytes b = in; unsigned n = 1 + s.below(3);
	while (n--) {
		if (b.empty()) break;
		uint32_t sz = (uint32_t) b.size();
		auto rnd = [&](const std::vector<size_t> &v) { size_t i = v[s.below((uint32_t) v.size())]; return i < b.size() ? i : b.size() - 1; };
		unsigned k = s.below(14);
		if (k >= 7 && !e) k = s.below(7);
		switch (k) {
		case 0: b[s.below(sz)] = (char) s.byte(); break;
		case 1: b.resize(s.below(sz + 1)); break;
		case 2: { size_t i = s.below(sz); b[i] = (char) (b[i] ^ 1 << s.below(8)); break; }
		case 3: b.erase(s.below(sz), 1 + s.below(3)); break;
		case 4: b.insert(s.below(sz + 1), s.raw(1 + s.below(3))); break;
		case 5: { size_t i = 4 + s.below(8); if (i < b.size()) b[i] = (char) s.below(5); break; }
		case 6: b.resize(b.size() - 1 - s.below(b.size() > 3 ? 3 : 1)); break;
		case 7: case 8: if (e->lenpos.size()) { size_t i = rnd(e->lenpos); if (i + 1 < b.size()) { unsigned v = get16(b, i); static const int d[] = {1, -1, 2, -2, 4, 255, -255}; v += s.below(4) ? d[s.below(7)] : s.below(65536); b[i] = (char) (v >> 8); b[i + 1] = (char) v; } } break;
		case 9: case 10: if (e->namepos.size()) { // plant a pointer, often a near-miss
			size_t i = rnd(e->namepos); if (i + 1 >= b.size()) break;
			unsigned t; switch (s.below(5)) { case 0: t = (unsigned) i; break; case 1: t = i ? (unsigned) i - 1 : 0; break; case 2: t = (unsigned) i + 1 + s.below(4); break; case 3: t = (unsigned) b.size() - s.below(3); break; default: t = s.below(sz); }
			b[i] = (char) (0xc0 | (t >> 8 & 63)); b[i + 1] = (char) t; } break;
		case 11: if (e->ptrpos.size()) { size_t i = rnd(e->ptrpos); if (i + 1 < b.size()) { unsigned t = s.below(3) ? (unsigned) e->namepos[s.below((uint32_t) e->namepos.size())] : s.below(sz); if (s.below(4) == 0) t = (unsigned) i - 1 + s.below(3); b[i] = (char) (0xc0 | (t >> 8 & 63)); b[i + 1] = (char) t; } } break;
		case 12: if (e->recpos.size()) b.resize(rnd(e->recpos)); break;
		case 13: if (e->namepos.size()) { size_t i = rnd(e->namepos); static const uint8_t v[] = {0, 1, 63, 64, 128, 191, 192, 255}; b[i] = (char) v[s.below(8)]; } break;
		}
	}
	return b;
}
bytes gen_packet(Src &s, unsigned maxrec) {
	unsigned k = s.below(16);
	if (k == 0) return gen_blob(s, gen_len(s, 80));
	if (k == 1) { // plausible header, arbitrary rest
		bytes b = s.raw(4); for (int i = 0; i < 4; i++) put16(b, s.below(4)); return b + gen_blob(s, gen_len(s, 300));
	}
	GMsg g; if (maxrec < 12 || !gen_massive(s, &g)) g = gen_msg(s, maxrec);
	static const unsigned comps[] = {0, 128, 255, 200};
	if (k < 5) { // records whose data is damaged before encoding
		for (auto &r : g.recs) if (r.sec && s.below(2)) { r.segs.clear(); r.segs.push_back(Seg{false, gen_rdata_raw(s, r.r.type, r.r.cls)}); }
	}
	unsigned cm = comps[s.below(4)]; if (cm == 255 && s.flip()) cm |= COMP_CHAIN;
	Encoded e = encode(s, g, cm);
	if (k < 7) return e.b;
	if (k == 7) return e.b + s.raw(1 + s.below(6));
	return mutate(s, e.b, &e);
}
