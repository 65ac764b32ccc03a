#include "../wapi.h"
#include <arpa/inet.h>

static std::string to_text(const bytes &rd, uint16_t t, uint16_t k) {
	Exact in(rd);
	std::string s = take(wdns_rdata_to_str(in.p, (uint16_t) in.n, t, k));
	CHECK(in.str() == rd, "printing modified its input; type=%u class=%u rdata=%s", t, k, hex(rd).c_str());
	return s;
}
// reads a text; the outputs must stay untouched on failure
static bool read_text(const std::string &text, uint16_t t, uint16_t k, bytes *out) {
	ExactStr in(text);
	uint8_t mark; uint8_t *p = &mark; size_t n = 0x5a5a5a5a;
	wdns_res r = wdns_str_to_rdata(in.p, t, k, &p, &n);
	CHECK(known_res(r), "undocumented result %d for text \"%s\"", (int) r, cstr(text).c_str());
	CHECK(bytes(in.p) == text.c_str(), "reading modified the text");
	if (r != wdns_res_success) {
		CHECK(p == &mark && n == 0x5a5a5a5a, "a failed conversion stored an output; type=%u class=%u text=\"%s\"", t, k, cstr(text).c_str());
		return false;
	}
	CHECK(p != &mark && n != 0x5a5a5a5a, "a successful conversion stored no output; type=%u class=%u text=\"%s\"", t, k, cstr(text).c_str());
	*out = n ? bytes((char *) p, n) : bytes();
	free(p);
	return true;
}
static void pick_type(Src &s, uint16_t *t, uint16_t *k, bool opt) {
	*t = s.below(8) ? gen_known_type(s, opt) : gen_type(s);
	*k = gen_class(s);
}
static void type_label(Case &c, uint16_t t, uint16_t k) {
	switch (mode_of(t, k)) {
	case M_GENERIC: c.label("unknown type"); return;
	case M_FOREIGN: c.label("class-specific type in another class"); return;
	case M_FIELDS: break;
	}
	switch (t) {
	case 64: case 65: c.label("service binding"); break;
	case 47: case 50: case 62: c.label("type bitmap"); break;
	case 38: c.label("A6"); break;
	case 41: c.label("OPT"); break;
	case 16: case 99: case 13: case 20: case 19: case 35: c.label("character strings"); break;
	default: c.label("other known type");
	}
}

// ---------------------------------------------------------------- P12 round trip
static void p12(Src &s, Case &c) {
	uint16_t t, k; pick_type(s, &t, &k, false);
	if (mode_of(t, k) == M_FOREIGN) k = 1;
	if (t == T_OPT) t = 16;
	bytes rd = flat(gen_rdata(s, t, k, GR_CANON | GR_TRUNC | GR_BIG));
	c.note("type=%u class=%u rdata=%s", t, k, hex(rd).c_str());
	std::string text = to_text(rd, t, k);
	CHECK(!ends_marked(text), "text of well-formed data has the error marker; type=%u class=%u rdata=%s text=\"%s\"", t, k, hex(rd).c_str(), cstr(text).c_str());
	bytes back;
	CHECK(read_text(text, t, k, &back), "text of well-formed data is not readable; type=%u class=%u rdata=%s text=\"%s\"", t, k, hex(rd).c_str(), cstr(text).c_str());
	CHECK(back == rd, "data changed: type=%u class=%u rdata=%s text=\"%s\" read back as %s", t, k, hex(rd).c_str(), cstr(text).c_str(), hex(back).c_str());
	c.nontrivial = !rd.empty();
	type_label(c, t, k);
	if (rd.size() > 2000) c.label("large");
}
static PropReg r12({"P12", p12, "well-formed record data of every known type but OPT and of unknown types, drawn field by field (boundary integers, arbitrary octets in names and strings, service parameters, bitmaps, up to 65535 octets; sometimes ending early at a field boundary), printed and read back; non-trivial: not empty", 1600000, 8000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P13 reference rendering
static void p13(Src &s, Case &c) {
	uint16_t t, k; pick_type(s, &t, &k, true);
	bytes rd = flat(gen_rdata(s, t, k, GR_TRUNC | GR_BIG | GR_OPTTEXT));
	c.note("type=%u class=%u rdata=%s", t, k, hex(rd).c_str());
	std::string text = to_text(rd, t, k), want;
	if (!ref_rdata_text(rd, t, k, &want)) fail("generator made malformed data %s", hex(rd).c_str());
	CHECK(norm_text(text) == norm_text(want), "type=%u class=%u rdata=%s prints as \"%s\", expected \"%s\"", t, k, hex(rd).c_str(), cstr(text).c_str(), cstr(want).c_str());
	c.nontrivial = !rd.empty() && mode_of(t, k) != M_FOREIGN;
	type_label(c, t, k);
}
static PropReg r13({"P13", p13, "well-formed record data of every known type incl. OPT, unknown types and class-specific types in other classes, printed and compared with an independent rendering (blanks before line ends ignored); non-trivial: not empty and printable in its class", 2000000, 10000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P14 arbitrary text
static const char *kTok[] = {
	".", "a.", "example.com.", "a..b", "\\", "\\\\", "\\1", "\\12", "\\255", "\\256", "\\000", "a\\.b", "0", "1", "00", "255", "256", "65535", "65536", "4294967295", "4294967296",
	"18446744073709551616", "-1", "+1", "1x", "128", "129", "127", "1.2.3.4", "1.2.3", "::", "::1", "fe80::1", "1:2:3:4:5:6:7:8", "::1.2.3.4", "\"", "\"\"", "\"a\"", "\"a b\"", "\"a", "a\"", "\\\"",
	"\\#", "\\# 0", "\\# 1 00", "\\# 2 00", "00", "0", "g", "1g", "aabb", "AABBC", "-", "--", "w", "00000000", "vvvvvvvv", "=", "AA==", "QUJD", "QUI=", "A", "TYPE0", "TYPE1", "TYPE65535", "TYPE65536", "TYPE+1", "type 1",
	"NSEC", "mx", "CLASS1", "alpn=h2", "alpn=", "alpn=\"\"", "alpn=\"a,b\"", "alpn=\"a,\"", "alpn=\",\"", "alpn=\\\\,", "port=53", "port=65536", "port=+5", "port=-18446744073709551563", "key+9=a", "key-18446744073709551607=a", "port=", "port", "no-default-alpn", "no-default-alpn=", "ipv4hint=1.2.3.4", "ipv4hint=", "ipv6hint=::1,::2",
	"ech=AAAA", "ech=", "mandatory=alpn", "mandatory=key65535", "mandatory=", "key65535=a", "key7=a", "key8=\"\"", "key0=alpn", "key1=\"\"", "key3=\"\"", "key6=::1", "key=", "=a", "mandatory=\",\"", "port=\"\\000\"", "key9=\\000", "key2=a", "key2",
	"01-02-03-04-05-06", "01-02-03-04-05-06-07-08", "01-02-03-04-05-0g", "\t", "\r\n", "\v", "\f", "\x80", "\xff", "\x01", ",", ";", "#", "(", ")"};
static std::string gen_text(Src &s, uint16_t t, uint16_t k) {
	std::string o;
	unsigned m = s.below(8);
	if (m == 0) { bytes b = gen_blob(s, gen_len(s, 300)); for (char &x : b) if (!x) x = ' '; return b; }
	if (m == 1) { unsigned n = s.below(10); while (n--) { o += kTok[s.below(sizeof kTok / sizeof *kTok)]; if (s.below(5)) o += ' '; } return o; }
	uint16_t tt = s.below(12) ? t : gen_known_type(s, true);
	if (!ref_rdata_text(flat(gen_rdata(s, tt, tt == t ? k : 1, GR_TRUNC)), tt, tt == t ? k : 1, &o)) o = "x";
	unsigned n = s.below(4);
	while (n--) {
		uint32_t z = (uint32_t) o.size();
		switch (s.below(11)) {
		case 0: if (z) o.erase(s.below(z), 1 + s.below(4)); break;
		case 1: { std::string x = kTok[s.below(sizeof kTok / sizeof *kTok)]; o.insert(s.below(z + 1), x); break; }
		case 2: if (z) o[s.below(z)] = (char) (1 + s.below(255)); break;
		case 3: o.resize(s.below(z + 1)); break;
		case 4: case 5: case 6: { // replace, drop or repeat a token
			std::vector<std::pair<size_t, size_t>> tk; size_t i = 0;
			while (i < z) { while (i < z && o[i] == ' ') i++; size_t j = i; while (j < z && o[j] != ' ') j++; if (j > i) tk.push_back({i, j - i}); i = j; }
			if (tk.empty()) break;
			auto p = tk[s.below((uint32_t) tk.size())];
			std::string old = o.substr(p.first, p.second), x;
			switch (s.below(5)) {
			case 0: x = ""; break;
			case 1: x = old + " " + old; break;
			case 2: x = old + old; break;
			default: x = kTok[s.below(sizeof kTok / sizeof *kTok)];
			}
			o.replace(p.first, p.second, x); break;
		}
		case 7: { size_t reps[] = {64, 255, 256, 260, 520, 1300}; std::string x(reps[s.below(6)], "a0\\\".,"[s.below(6)]); o.insert(s.below(z + 1), x); break; }
		case 8: { std::string x(1 + s.below(3), " \t\n\r\v"[s.below(5)]); o.insert(s.below(z + 1), x); break; }
		case 9: if (z) { char &x = o[s.below(z)]; if (isalpha((unsigned char) x)) x ^= 32; else if (isdigit((unsigned char) x)) x = '0' + s.below(10); } break;
		case 10: if (s.below(400) == 399 && z) { size_t len = 66000 + s.below(70000); std::string x; size_t i = s.below(z); std::string piece = o.substr(i, 1 + s.below(60)); while (x.size() < len) x += piece; o.insert(i, x); } break;
		}
	}
	for (char &x : o) if (!x) x = '0';
	return o;
}
static void p14(Src &s, Case &c) {
	uint16_t t, k; pick_type(s, &t, &k, true);
	std::string text = gen_text(s, t, k);
	c.note("type=%u class=%u text=\"%s\"", t, k, cstr(text).c_str());
	bytes rd, again;
	bool ok = read_text(text, t, k, &rd);
	if (ok) {
		CHECK(rd.size() <= 65535, "type=%u class=%u text=\"%s\": %zu octets of data", t, k, cstr(text).c_str(), rd.size());
		CHECK(rdata_ok(rd, t, k), "type=%u class=%u text=\"%s\" gives malformed data %s", t, k, cstr(text).c_str(), hex(rd).c_str());
		std::string back = to_text(rd, t, k);
		CHECK(!ends_marked(back), "type=%u class=%u text=\"%s\" gives data %s that prints as \"%s\"", t, k, cstr(text).c_str(), hex(rd).c_str(), cstr(back).c_str());
		bytes pkt = bytes("\0\0\0\0\0\0\0\1\0\0\0\0\0", 13); put16(pkt, t); put16(pkt, k); put32(pkt, 0); put16(pkt, (unsigned) rd.size()); pkt += rd;
		Exact in(pkt); wdns_message_t m; wdns_res r = wdns_parse_message(&m, in.p, in.n);
		CHECK(r == wdns_res_success, "type=%u class=%u text=\"%s\" gives data %s that the message parser rejects", t, k, cstr(text).c_str(), hex(rd).c_str());
		bool same = t == T_OPT || (m.sections[1].n_rrs == 1 && rbytes(m.sections[1].rrs[0].rdata) == rd);
		wdns_clear_message(&m);
		CHECK(same, "type=%u class=%u text=\"%s\": data %s changes when parsed", t, k, cstr(text).c_str(), hex(rd).c_str());
		c.label("accepted");
	} else c.label("rejected");
	CHECK(read_text(text, t, k, &again) == ok && again == rd, "type=%u class=%u text=\"%s\": outcome differs the second time", t, k, cstr(text).c_str());
	c.nontrivial = !text.empty() && mode_of(t, k) != M_FOREIGN;
	type_label(c, t, k);
}
static PropReg r14({"P14", p14, "texts: random octets, sequences of field-like tokens, and renderings of record data with up to three edits (character, token, length, blanks, repetition to 64 KiB and more), for all types and classes; accepted data is judged by a reference layout checker, the printer and the message parser; non-trivial: non-empty text for a type readable in its class", 1200000, 6000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P15 variants and invalid fields
static std::string dec3(unsigned char c) { char t[8]; snprintf(t, sizeof t, "\\%03u", c); return t; }
static std::string v_case(Src &s, std::string x) { unsigned m = s.byte(); for (size_t i = 0; i < x.size(); i++) if (isalpha((unsigned char) x[i]) && (m >> (i & 7) & 1)) x[i] ^= 32; return x; }
static std::string v_hex(Src &s, const bytes &b) { std::string o; for (unsigned char c : b) { char t[4]; snprintf(t, sizeof t, s.flip() ? "%02x" : "%02X", c); o += t; } return o; }
static std::string v_num(Src &s, uint64_t v) { std::string z; if (s.below(3) == 0) z.assign(s.below(8) ? 1 + s.below(4) : 30, '0'); return z + std::to_string(v); }
static std::string v_name(Src &s, const bytes &w, bool dot) {
	std::vector<bytes> l = ref_labels(w);
	if (l.empty()) return ".";
	std::string o; unsigned mode = s.below(4);
	for (size_t i = 0; i < l.size(); i++) {
		if (i) o += '.';
		for (unsigned char c : l[i]) {
			bool must = c == '.' || c == '\\', ctl = c <= 32 || c >= 127;
			bool digit = c >= '0' && c <= '9';
			unsigned how = mode == 0 ? 0 : s.below(3);
			if (ctl || how == 2) o += dec3(c);
			else if (must) { o += '\\'; o += (char) c; }
			else if (how == 1 && !digit) { o += '\\'; o += (char) c; }
			else o += (char) c;
		}
	}
	if (dot || s.flip()) o += '.';
	return o;
}
// text of an octet string; quoted or not, may be forced
static std::string v_str(Src &s, const bytes &b, int quoted) {
	bool q = quoted == 1 || (quoted < 0 && (b.empty() || s.flip()));
	std::string o; unsigned mode = s.below(4);
	for (size_t i = 0; i < b.size(); i++) {
		unsigned char c = b[i];
		if (c < 32 || c > 126 || (c == ' ' && !q) || (mode && s.below(4) == 0)) o += dec3(c);
		else if (c == '\\') o += "\\\\";
		else if (c == '"') { if (!q && i && s.flip()) o += '"'; else o += "\\\""; }
		else o += (char) c;
	}
	return q ? "\"" + o + "\"" : o;
}
static std::string ip_str(int af, const bytes &b) { char t[64]; inet_ntop(af, b.data(), t, sizeof t); return t; }
static std::string v_ip6(Src &s, const bytes &b) {
	char t[64];
	switch (s.below(5)) {
	case 0: return ip_str(AF_INET6, b);
	case 1: { std::string o; for (int i = 0; i < 16; i += 2) { snprintf(t, sizeof t, s.flip() ? "%s%x" : "%s%04X", i ? ":" : "", get16(b, i)); o += t; } return o; }
	case 2: { std::string o; for (int i = 0; i < 12; i += 2) { snprintf(t, sizeof t, "%x:", get16(b, i)); o += t; } return o + ip_str(AF_INET, b.substr(12)); }
	case 3: { // compress some run of zero groups, not necessarily the longest
		std::vector<int> z; for (int i = 0; i < 8; i++) if (!get16(b, 2 * i)) z.push_back(i);
		if (z.empty()) break;
		int a = z[s.below((uint32_t) z.size())], e = a; while (e < 8 && !get16(b, 2 * e) && (e == a || s.below(3))) e++;
		std::string l, r;
		for (int i = 0; i < a; i++) { snprintf(t, sizeof t, "%s%x", i ? ":" : "", get16(b, 2 * i)); l += t; }
		for (int i = e; i < 8; i++) { snprintf(t, sizeof t, "%s%x", i > e ? ":" : "", get16(b, 2 * i)); r += t; }
		return v_case(s, l + "::" + r);
	}
	}
	return v_case(s, ip_str(AF_INET6, b));
}
static std::string v_type(Src &s, uint16_t t) {
	const char *n = ref_type_name(t);
	if (n && s.below(3)) return v_case(s, n);
	return v_case(s, "TYPE") + (t && s.below(4) == 0 ? "0" : "") + std::to_string(t);
}
static std::string v_b64(const bytes &b) {
	static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o; size_t n = b.size();
	for (size_t i = 0; i < n; i += 3) { uint32_t v = u8at(b, i) << 16 | (i + 1 < n ? u8at(b, i + 1) << 8 : 0) | (i + 2 < n ? u8at(b, i + 2) : 0); o += a[v >> 18]; o += a[v >> 12 & 63]; o += i + 1 < n ? a[v >> 6 & 63] : '='; o += i + 2 < n ? a[v & 63] : '='; }
	return o;
}
static std::string v_b32(const bytes &b) {
	static const char *a = "0123456789abcdefghijklmnopqrstuv"; std::string o; unsigned acc = 0; int nb = 0;
	for (unsigned char c : b) { acc = (acc << 8 | c) & 0xffff; nb += 8; while (nb >= 5) { o += a[acc >> (nb - 5) & 31]; nb -= 5; } }
	if (nb) o += a[acc << (5 - nb) & 31];
	return o;
}
static std::string spread(Src &s, const std::string &x, unsigned unit) { // blanks between groups
	if (s.below(3)) return x;
	std::string o; for (size_t i = 0; i < x.size(); i += unit) { if (i && s.below(4) == 0) o += std::string(1 + s.below(2), " \t\n"[s.below(3)]); o += x.substr(i, unit); }
	return o;
}
static std::string v_svc(Src &s, uint16_t key, const bytes &v) {
	static const char *n[] = {"mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint"};
	std::string k = key < 7 && s.below(4) ? n[key] : "key" + std::to_string(key);
	auto key_text = [&](uint16_t x) { return x < 7 && s.below(4) ? std::string(n[x]) : "key" + std::to_string(x); };
	std::string val; // as the value string before character-string escaping
	switch (key) {
	case 0: for (size_t i = 0; i < v.size(); i += 2) val += (i ? "," : "") + key_text(get16(v, i)); break;
	case 1: for (size_t i = 0; i < v.size(); i += u8at(v, i) + 1) { if (i) val += ','; for (char c : v.substr(i + 1, u8at(v, i))) { if (c == ',' || c == '\\') val += '\\'; val += c; } } break;
	case 2: return k;
	case 3: val = v_num(s, get16(v, 0)); break;
	case 4: for (size_t i = 0; i < v.size(); i += 4) val += (i ? "," : "") + ip_str(AF_INET, v.substr(i, 4)); break;
	case 5: val = v_b64(v); break;
	case 6: for (size_t i = 0; i < v.size(); i += 16) val += (i ? "," : "") + v_ip6(s, v.substr(i, 16)); break;
	default: val = v; break;
	}
	return k + "=" + v_str(s, val, -1);
}
static std::string field_text(Src &s, const Span &f, const bytes &v, bool a6) {
	switch (f.k) {
	case NAME: return v_name(s, v, a6);
	case I8: return v_num(s, u8at(v, 0));
	case I16: return v_num(s, get16(v, 0));
	case I32: return v_num(s, get32(v, 0));
	case IP4: return ip_str(AF_INET, v);
	case IP6: return v_ip6(s, v);
	case A6P: {
		unsigned p = u8at(v, 0); std::string o = v_num(s, p);
		if (p == 128 && s.flip()) return o;
		bytes a = (s.flip() ? s.raw(16) : bytes(16, 0)).substr(0, 16 - (v.size() - 1)) + v.substr(1);
		return o + std::string(1 + s.below(2), ' ') + v_ip6(s, a);
	}
	case EUI48: case EUI64: { std::string o; for (size_t i = 0; i < v.size(); i++) o += (i ? "-" : "") + v_hex(s, v.substr(i, 1)); return o; }
	case STR: return v_str(s, v.substr(1), -1);
	case REPSTR: { std::string o; for (size_t i = 0; i < v.size(); i += u8at(v, i) + 1) o += (i ? std::string(1 + s.below(2), " \t\n"[s.below(3)]) : "") + v_str(s, v.substr(i + 1, u8at(v, i)), -1); return o; }
	case RRT: return get16(v, 0) ? v_type(s, get16(v, 0)) : v_case(s, "TYPE0");
	case BITMAP: {
		std::vector<uint16_t> t;
		for (size_t i = 0; i < v.size(); i += 2 + u8at(v, i + 1)) for (unsigned b = 0; b < u8at(v, i + 1) * 8; b++) if (u8at(v, i + 2 + b / 8) & 0x80 >> b % 8) t.push_back(u8at(v, i) << 8 | b);
		for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[s.below((uint32_t) i)]);
		if (t.size() && s.below(3) == 0) t.push_back(t[s.below((uint32_t) t.size())]);
		std::string o; for (size_t i = 0; i < t.size(); i++) o += (i ? std::string(1 + s.below(2), " \t\n"[s.below(3)]) : "") + (t[i] ? v_type(s, t[i]) : v_case(s, "TYPE0"));
		return o;
	}
	case SALT: return v.size() == 1 ? "-" : v_hex(s, v.substr(1));
	case HASH: return v.size() == 1 ? "0" : v_case(s, v_b32(v.substr(1)));
	case SVC: { std::string o; for (size_t i = 0; i < v.size(); i += 4 + get16(v, i + 2)) o += (i ? std::string(1 + s.below(3), ' ') : "") + v_svc(s, get16(v, i), v.substr(i + 4, get16(v, i + 2))); return o; }
	case HEX: return spread(s, v_hex(s, v), 2);
	case B64: return spread(s, v_b64(v), 1 + s.below(9));
	case BSTR: return v_str(s, v, 1);
	default: return "";
	}
}
template <size_t N> static std::string pick_of(Src &s, const char *const (&a)[N]) { return a[s.below(N)]; }
// a spelling that is no number from 0 to max: too big by a little, by a multiple that wraps in 8..64 bits, very long, or with a foreign character
static std::string bad_num(Src &s, uint64_t max) {
	auto dec = [](unsigned __int128 v) { std::string o; do o.insert(o.begin(), (char) ('0' + (int) (v % 10))); while (v /= 10); return o; };
	uint64_t ok = s.below(3) ? s.u(8) % (max + 1) : s.below((uint32_t) std::min<uint64_t>(max, 300) + 1);
	static const char J[] = "+-.,;:xXeEhdgz'!#$%&()*/<=>?@[]^_`{|}~";
	switch (s.below(8)) {
	case 0: return dec((unsigned __int128) max + 1 + s.below(300));
	case 1: return dec((unsigned __int128) (max + 1) * (1 + s.below(s.flip() ? 8 : 1u << 30)) + ok);
	case 2: return dec(((unsigned __int128) 1 << (32 + s.below(33))) + ok);
	case 3: return dec(((unsigned __int128) (1 + s.below(1000)) << 64) + ok);
	case 4: { std::string o(1, (char) ('1' + s.below(9))); unsigned n = 20 + s.below(40); while (n--) o += (char) ('0' + s.below(10)); return o; }
	case 5: return dec(ok) + J[s.below(sizeof J - 1)];
	case 6: return std::string(1, J[s.below(sizeof J - 1)]) + dec(ok);
	default: { std::string o = dec(ok) + J[s.below(sizeof J - 1)] + std::to_string(s.below(100)); return o; }
	}
}
static std::string bad_escape(Src &s) { // a decimal escape of more than one octet, or not of three digits
	switch (s.below(3)) {
	case 0: return "\\" + std::to_string(256 + s.below(744));
	case 1: { std::string o = "\\" + std::to_string(100 + s.below(156)); o[2 + s.below(2)] = "agxAF-+./:;"[s.below(11)]; return o; }
	default: return "\\" + std::to_string(1 + s.below(9)) + "x";
	}
}
static std::string plain_text(Src &s) { std::string o; unsigned n = s.below(6); while (n--) o += (char) ('a' + s.below(26)); return o; }
static std::string bad_addr_0(Src &s, int af, const bytes &a) { // an address text with a foreign character, or one group too many or few
	std::string t = ip_str(af, a);
	static const char J[] = "gGxz;,_/%#+-!";
	switch (s.below(4)) {
	case 0: t.insert(s.below((uint32_t) t.size() + 1), 1, J[s.below(sizeof J - 1)]); return t;
	case 1: return t + (af == AF_INET ? "." : ":") + (s.flip() ? "1" : ":1:1:1:1:1:1:1:1");
	case 2: return (s.flip() ? "1" : "") + std::string(af == AF_INET ? "." : ":::") + t;
	default: if (af == AF_INET) { size_t q = t.rfind('.'); return s.flip() ? t.substr(0, q) : t.substr(0, q + 1) + std::to_string(256 + s.below(2000)); } return t + (s.flip() ? "12345" : ".1");
	}
}
static std::string bad_addr(Src &s, int af, const bytes &a) {
	std::string t = bad_addr_0(s, af, a); unsigned char x[16];
	return inet_pton(af, t.c_str(), x) == 1 ? t + "z" : t;
}
static std::string bad_field_0(Src &s, const Span &f, const bytes &v, bool last, bool a6);
static std::string bad_field(Src &s, const Span &f, const bytes &v, bool last, bool a6) {
	if (s.chance(1, 300)) { // lengths that 16 bits do not hold: taken modulo 65536 they would be fine
		size_t n = 65536 + s.below(256);
		switch (f.k) {
		case NAME: return std::string(n, 'a') + (s.flip() ? "." : "");
		case STR: case REPSTR: return s.flip() ? std::string(n, 'a') : "\"" + std::string(n, ' ') + "\"";
		case SALT: return std::string(2 * n, 'a');
		case HASH: return s.flip() ? std::string(n, (char) ('0' + s.below(10))) : v_b32(s.raw(64) + bytes(n - 64, (char) s.byte()));
		case SVC: { std::string o = s.flip() ? "alpn=" + std::string(n, 'h') : "key" + std::to_string(7 + s.below(600)) + "=" + std::string(n, 'v'); if (s.flip()) o = "port=53 " + o; return o; }
		default: break;
		}
	}
	if (s.below(3) == 0) return bad_field_0(s, f, v, last, a6);
	switch (f.k) {
	case NAME: { std::string o; unsigned n = s.below(4); while (n--) o += plain_text(s) + "l."; o += plain_text(s) + bad_escape(s); if (s.flip()) o += plain_text(s); if (s.flip()) o += ".x"; return o; }
	case I8: return bad_num(s, 255);
	case I16: return bad_num(s, 65535);
	case I32: return bad_num(s, 4294967295U);
	case IP4: return bad_addr(s, AF_INET, v);
	case IP6: return bad_addr(s, AF_INET6, v);
	case A6P: if (s.below(4) == 0) return v_num(s, 0) + " " + v_ip6(s, s.raw(16)) + std::string(1 + s.below(2), " \t\n\r"[s.below(4)]) + v_name(s, gen_name(s), true); // no name behind a prefix of length 0
		return s.flip() ? bad_num(s, 128) + " ::" : std::to_string(s.below(128)) + " " + bad_addr(s, AF_INET6, s.raw(16));
	case EUI48: case EUI64: {
		std::string o; for (size_t i = 0; i < v.size(); i++) o += (i ? "-" : "") + v_hex(s, v.substr(i, 1));
		size_t at = s.below((uint32_t) o.size());
		switch (s.below(3)) {
		case 0: o[at] = at % 3 == 2 ? ":.0aF_ "[s.below(7)] : "gG-xz:. "[s.below(8)]; break;
		case 1: o.erase(at, 1); break;
		default: o.insert(at, 1, "0-af"[s.below(4)]); break;
		}
		return o;
	}
	case STR: case REPSTR: {
		bool q = s.flip(); std::string b = plain_text(s) + bad_escape(s) + plain_text(s);
		if (s.below(6) == 0) { b = plain_text(s); char ch = (char) (s.flip() ? 127 + s.below(129) : 1 + s.below(8)); b.insert(s.below((uint32_t) b.size() + 1), 1, ch); }
		return q ? "\"" + b + "\"" : b;
	}
	case BSTR: return "\"" + plain_text(s) + bad_escape(s) + plain_text(s) + "\"";
	case RRT: return s.flip() ? "TYPE" + bad_num(s, 65535) : v_type(s, (uint16_t) s.u(2)) + "_x";
	case BITMAP: { std::string b = s.flip() ? "TYPE" + bad_num(s, 65535) : v_type(s, (uint16_t) s.u(2)) + "_x"; if (s.flip()) b = "A " + b; if (s.flip()) b += " NS"; return b; }
	case SALT: case HEX: { // digits with one foreign character or one digit too few
		std::string o = v_hex(s, v.size() > 1 ? v.substr(1) : bytes("ab")); size_t at = s.below((uint32_t) o.size());
		if (s.flip()) o.erase(at, 1); else o[at] = "gGxX-+.:zZ_@`/"[s.below(14)];
		if (f.k == SALT && s.below(8) == 0) { o = ""; unsigned n = 512 + 2 * s.below(700); while (n--) o += "0123456789abcdef"[s.below(16)]; }
		return o;
	}
	case HASH: {
		if (s.below(4) == 0) { bytes big = s.raw(s.below(2) ? 256 + s.below(6) : 256 + s.below(600)); return v_b32(big); }
		std::string o = v_b32(v.size() > 2 ? v.substr(1) : bytes("abc")); o[s.below((uint32_t) o.size())] = "wxyzWXYZ-+!_@[`{/:"[s.below(18)]; return o;
	}
	case SVC: {
		std::string b; auto kv = [&](const char *key, const std::string &val) { return std::string(key) + "=" + (s.flip() ? val : "\"" + val + "\""); };
		switch (s.below(11)) {
		case 8: { std::string n; unsigned k = 1 + s.below(6); while (k--) n += "keyabcdx-_"[s.below(10)]; if (n == "key") n = "kex"; b = kv((n + std::to_string(s.below(70000))).c_str(), plain_text(s)); break; }
		case 9: { std::string n = std::to_string(s.below(70000)); b = kv((s.flip() ? n : plain_text(s) + "key" + n).c_str(), plain_text(s)); if (b.rfind("key", 0) == 0) b = "x" + b; break; }
		case 0: b = kv("port", bad_num(s, 65535)); break;
		case 1: { std::string n = bad_num(s, 65534); for (char &ch : n) if (ch == '=') ch = '~'; b = kv(("key" + n).c_str(), plain_text(s)); break; }
		case 2: b = kv("ipv4hint", (s.flip() ? "1.2.3.4," : "") + bad_addr(s, AF_INET, s.raw(4)) + (s.flip() ? ",1.2.3.4" : "")); break;
		case 3: b = kv("ipv6hint", (s.flip() ? "::1," : "") + bad_addr(s, AF_INET6, s.raw(16)) + (s.flip() ? ",::" : "")); break;
		case 4: b = kv("mandatory", (s.flip() ? "alpn," : "") + std::string("key") + bad_num(s, 65534) + (s.flip() ? ",port" : "")); break;
		case 5: b = kv(s.flip() ? "alpn" : "key300", plain_text(s) + bad_escape(s) + plain_text(s)); break;
		case 6: { b = "alpn="; unsigned n = 1 + s.below(3), w = s.below(n); for (unsigned i = 0; i < n; i++) b += (i ? "," : "") + std::string(i == w ? 256 + s.below(700) : 1 + s.below(255), 'h'); break; }
		case 7: b = "no-default-alpn=" + plain_text(s); break;
		default: { static const char *const n[] = {"mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint"}; b = n[s.below(7)]; b[s.below((uint32_t) b.size())] ^= s.flip() ? 32 : 1; b += "=1"; break; }
		}
		// a blank in quotes ends the value, empty list items are ignored: leniencies, see DESIGN.md
		for (const char *e : {" ", ",,", ",\"", "\",", "=,"}) if (b.find(e) != std::string::npos) b = "port=x";
		if (b.back() == ',') b = "port=x";
		if (s.below(3) == 0) b = "port=53 " + b;
		if (s.below(3) == 0) b += " port=53";
		return b;
	}
	default: return bad_field_0(s, f, v, last, a6);
	}
}
static std::string bad_field_0(Src &s, const Span &f, const bytes &v, bool last, bool a6) {
	switch (f.k) {
	case NAME: {
		static const char *const a[] = {"a..b", ".a", "..", "a\\", "\\256", "\\12", "\\1a2", "a.b..", "x\\999.", "\\2555\\25", "b\\25"};
		switch (s.below(4)) {
		case 0: return std::string(64 + s.below(3), 'a') + (s.flip() ? "" : ".com");
		case 1: { std::string o; size_t n = 0; while (n < 255) { unsigned l = 1 + s.below(63); o += std::string(l, 'b') + "."; n += l + 1; } return o; }
		}
		return pick_of(s, a);
	}
	case I8: { static const char *const a[] = {"256", "257", "512", "65536", "65537", "4294967296", "18446744073709551616", "18446744073709551617", "-1", "1x", "0x1", "1.5", "+1", "a", "\"1\"", "999"}; return pick_of(s, a); }
	case I16: { static const char *const a[] = {"65536", "65537", "131072", "4294967296", "4294967297", "18446744073709551616", "-1", "1x", "0x1", "x", "99999", "+5"}; return pick_of(s, a); }
	case I32: { static const char *const a[] = {"4294967296", "4294967297", "8589934592", "18446744073709551616", "18446744073709551617", "99999999999", "-1", "1h", "0x1", "x", "1d"}; return pick_of(s, a); }
	case IP4: { static const char *const a[] = {"1.2.3", "1.2.3.256", "1.2.3.4.5", "a", "1.2.3.", "1..2.3", "1.2.3.4x", "::1", "1.2.3.-4", "16909060"}; return pick_of(s, a); }
	case IP6: { static const char *const a[] = {"1:2:3", ":::", "12345::", "g::", "1::2::3", "1:2:3:4:5:6:7:8:9", "1.2.3.4", "::1.2.3", "1:2:3:4:5:6:7:", ":1", "::ffff:1.2.3.256"}; return pick_of(s, a); }
	case A6P: {
		static const char *const a[] = {"129 ::", "255 ::", "256 ::", "257 ::1", "384 ::", "4294967296 ::", "-1 ::", "x ::", "64 1:2", "64 foo.", "0 example.", "127 :::", "0", "64", "12x ::"};
		return pick_of(s, a);
	}
	case EUI48: { static const char *const a[] = {"01-02-03-04-05", "01-02-03-04-05-06-07", "01:02:03:04:05:06", "01-02-03-04-05-0g", "010203040506", "01-02-03-04-05-6", "01-02-03-04-0506-", "01-02-03-04-05- 6"}; return pick_of(s, a); }
	case EUI64: { static const char *const a[] = {"01-02-03-04-05-06-07", "01-02-03-04-05-06-07-08-09", "01:02:03:04:05:06:07:08", "01-02-03-04-05-06-07-0x", "0102030405060708", "01-02-03-04-05-06-07-8"}; return pick_of(s, a); }
	case STR: case REPSTR: {
		static const char *const a[] = {"\"\\256\"", "\"\\9\"", "\"a\\x\"", "\"\\12a\"", "\x01", "\"\x7f\"", "\"\x80\"", "\\300", "\\25", "a\\q", "\"\t\""};
		if (s.below(3) == 0) return s.flip() ? "\"" + std::string(256 + s.below(300), 'a') + "\"" : std::string(256 + s.below(300), 'a');
		if (last && s.below(3) == 0) return "\"abc";
		return pick_of(s, a);
	}
	case RRT: { static const char *const a[] = {"BOGUS", "TYPE65536", "TYPE", "TYPE1x", "TYPE-1", "TYPE+1", "1", "TYPE4294967297", "TYP1", "TYPEA", "AA", "NSEC33"}; return pick_of(s, a); }
	case BITMAP: {
		static const char *const a[] = {"BOGUS", "TYPE65536", "TYPE", "TYPE1x", "TYPE-1", "1", "TYPE4294967297", "CLASS1", "A,NS"};
		std::string b = pick_of(s, a); if (s.flip()) b = "A " + b; if (s.flip()) b += " NS"; return b;
	}
	case SALT: {
		static const char *const a[] = {"abc", "zz", "a", "--", "-a", "ab-", "0x", "1g", "g1", "00 0"};
		if (s.below(4) == 0) return std::string(512, 'a');
		std::string b = pick_of(s, a); return b == "00 0" ? "000" : b;
	}
	case HASH: { static const char *const a[] = {"wwwwwwww", "00w0", "0-00", "zz", "0!", "0000000x"}; if (s.below(4) == 0) return std::string(411, '0'); return pick_of(s, a); }
	case HEX: { static const char *const a[] = {"a", "abc", "gg", "0g", "g0", "ab c", "ab xy", "0x00", "-1", "+1", "ab1"}; return pick_of(s, a); }
	case SVC: {
		static const char *const a[] = {"foo=1", "key65535=1", "key65536=1", "key=1", "keyx=1", "key1x=1", "port=65536", "port=x", "port=", "port=\"\"", "port", "alpn=\"\"", "alpn=", "alpn", "no-default-alpn=x", "no-default-alpn=\"\"", "ipv4hint=1.2.3", "ipv4hint=",
			"ipv4hint=\"\"", "ipv4hint=1.2.3.4,x", "ipv4hint=::1", "ipv6hint=1.2.3.4", "ipv6hint=:::", "ipv6hint=\"\"", "mandatory=bogus", "mandatory=\"\"", "mandatory=alpn,bogus", "mandatory=key65535", "mandatory", "ech=", "ech=\"\"", "key9", "key9=\"\\256\"", "key9=\"a\\z\"", "alpn=\"a\\\\bc\"", "alpn=\"a\\\\\"", "=x", "port=53x", "ALPN=h2", "port=+53", "port=-1", "port=-18446744073709551563", "key+9=a", "key-9=a", "key-18446744073709551607=a", "key18446744073709551625=a", "port=18446744073709551669", "mandatory=key+9", ",port=53", "port=53 ,alpn=h2", ";port=53", "port=53;alpn=h2", "port =53", "mandatory=alpn,key-18446744073709551607"};
		std::string b;
		if (s.below(8) == 0) { b = "alpn="; std::string id(256 + s.below(3) * 128, 'a'); b += s.flip() ? "h2," + id : s.flip() ? id + ",h2" : id; }
		else b = pick_of(s, a);
		if (s.below(3) == 0) b = "port=53 " + b;
		if (s.below(3) == 0) b += " port=53";
		return b;
	}
	case BSTR: { static const char *const a[] = {"abc", "\"abc", "abc\"", "\"\"", "\"a\\256\"", "\"a\\q\"", "\"\x80\"", "\"", "\"abc\\\""}; return pick_of(s, a); }
	default: return "";
	}
}
static bool closes_line(FK k) { return k == EUI48 || k == EUI64 || k == BSTR; } // accept nothing after them
static std::string gaps(Src &s, bool svc) { return s.below(4) ? " " : std::string(1 + s.below(3), svc ? ' ' : " \t\n\r"[s.below(4)]); }

// data around the largest size of a record
static void p15_limit(Src &s, Case &c) {
	static std::vector<const Schema *> open; if (open.empty()) for (auto &x : kSchemas) if (!x.f.empty() && (x.f.back() == REPSTR || x.f.back() == HEX || x.f.back() == B64 || x.f.back() == BSTR)) open.push_back(&x);
	const Schema *sc = s.pick(open); FK kind = sc->f.back();
	uint16_t t = sc->type; bytes rd; for (unsigned n = 0; n < 20 && rd.empty(); n++) rd = flat(gen_rdata(s, t, 1, GR_CANON)); if (rd.empty()) return;
	std::vector<Span> f; if (split_fields(rd, *sc, &f) != L_OK || f.empty()) return;
	size_t head = kind == REPSTR ? 0 : f.size() == sc->f.size() ? f.back().off : rd.size(); if (kind != REPSTR && f.size() != sc->f.size()) return; rd.resize(head);
	size_t want = s.below(4) ? 65530 + s.below(12) : 65537 + s.below(70000);
	if (kind == REPSTR) while (rd.size() < want) { size_t l = want - rd.size() > 256 ? s.below(8) ? 255 : 1 + s.below(254) : want - rd.size() - 1; if (want - rd.size() == 257 && l == 255) l = 254; rd.push_back((char) l); rd += bytes(l, 'a' + s.below(20)); }
	else rd += bytes(want - head, (char) s.byte());
	std::string text; if (!ref_rdata_text(rd, t, 1, &text)) return;
	c.note("type=%u %zu octets", t, rd.size()); c.label("around the largest size"); c.nontrivial = true; bytes got; bool ok = read_text(text, t, 1, &got);
	CHECK(ok == (rd.size() <= 65535), "text of type %u for %zu octets is %s", t, rd.size(), ok ? "accepted" : "refused"); if (ok) CHECK(got == rd, "text of type %u for %zu octets is read wrong", t, rd.size());
}
static void p15(Src &s, Case &c) {
	if (s.chance(1, 4000)) { p15_limit(s, c); return; }
	uint16_t t, k; pick_type(s, &t, &k, false);
	if (mode_of(t, k) == M_FOREIGN) k = 1;
	if (t == T_OPT) t = 15;
	bytes rd = flat(gen_rdata(s, t, k, GR_CANON | (s.below(3) ? 0 : GR_TRUNC)));
	bool bad = s.below(3) == 2;
	std::string text;
	if (mode_of(t, k) == M_GENERIC) {
		std::string hexpart = spread(s, v_hex(s, rd), 2), num = v_num(s, rd.size()), head = "\\#";
		bool glue = false;
		if (bad) switch (s.below(14)) {
		case 13: glue = true; break; // \# and the length must be separate words
		case 9: num = bad_num(s, 65535); break;
		case 10: do num = std::to_string(s.u(2)); while (num == std::to_string(rd.size())); break;
		case 11: case 12: if (hexpart.empty()) hexpart = "zz"; else { size_t at; do at = s.below((uint32_t) hexpart.size()); while (!isxdigit((unsigned char) hexpart[at])); hexpart[at] = "gGxX-+.:zZ_@`/"[s.below(14)]; } break;
		case 0: num = std::to_string(rd.size() + 1 + s.below(3)); break;
		case 1: if (rd.empty()) num = "1"; else num = std::to_string(rd.size() - 1); break;
		case 2: hexpart += "a"; break;
		case 3: hexpart += "0g"; break;
		case 4: head = s.flip() ? "#" : "\\"; break;
		case 5: num = std::to_string(65536 + rd.size()); break;
		case 6: num = "x"; break;
		case 7: num = std::to_string(4294967296ULL + rd.size()); break;
		case 8: hexpart += "00"; break;
		}
		text = head + (glue ? "" : gaps(s, false)) + num + (hexpart.empty() ? "" : gaps(s, false)) + hexpart;
		if (!bad && s.below(4) == 0) text += gaps(s, false);
	} else {
		const Schema *sc = schema_of(t); std::vector<Span> f;
		if (split_fields(rd, *sc, &f) != L_OK) fail("generator made malformed data");
		if (f.empty() && bad) bad = false;
		size_t badat = bad ? s.below((uint32_t) f.size()) : f.size();
		if (bad) { // base64 has no invalid digit, it skips them: choose another field
			size_t i = 0; for (; i < f.size(); i++) if (f[(badat + i) % f.size()].k != B64) break;
			if (i == f.size()) { bad = false; badat = f.size(); } else badat = (badat + i) % f.size();
		}
		bool open = true;
		for (size_t i = 0; i < f.size(); i++) {
			bool last = i + 1 == f.size(), a6 = sc->f[0] == A6P;
			std::string x = i == badat ? bad_field(s, f[i], rd.substr(f[i].off, f[i].len), last, a6) : field_text(s, f[i], rd.substr(f[i].off, f[i].len), a6);
			if (i) text += gaps(s, false);
			else if (s.below(6) == 0) text += gaps(s, false);
			text += x; open = !closes_line(f[i].k);
			// nothing behind an invalid address of an A6 prefix: the parser may stop there
			if (i == badat && f[i].k == A6P && s.flip()) break;
		}
		if (open && s.below(6) == 0 && !bad) text += gaps(s, !f.empty() && f.back().k == SVC);
	}
	c.note("type=%u class=%u %s rdata=%s text=\"%s\"", t, k, bad ? "invalid variant of" : "variant of", hex(rd).c_str(), cstr(text).c_str());
	bytes got; bool ok = read_text(text, t, k, &got);
	if (bad) CHECK(!ok, "invalid text accepted: type=%u class=%u text=\"%s\" read as %s", t, k, cstr(text).c_str(), hex(got).c_str());
	else {
		CHECK(ok, "valid text rejected: type=%u class=%u text=\"%s\" for rdata=%s", t, k, cstr(text).c_str(), hex(rd).c_str());
		CHECK(got == rd, "type=%u class=%u text=\"%s\" read as %s, expected %s", t, k, cstr(text).c_str(), hex(got).c_str(), hex(rd).c_str());
	}
	c.label(bad ? "one field invalid" : "variant spelling");
	type_label(c, t, k);
	c.nontrivial = !rd.empty() || bad;
}
static PropReg r15({"P15", p15, "field values of every readable type spelled in a randomly chosen equivalent way (blanks, zeros, case, quoting, escapes, order, address and name forms) and compared with the values' octets, or with exactly one field replaced by an invalid spelling and required to fail; non-trivial: not empty", 1600000, 8000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P16 arbitrary data
static bool check16(uint16_t t, uint16_t k, const bytes &rd) {
	std::string text = to_text(rd, t, k), want;
	for (unsigned char x : text) CHECK((x >= 32 && x < 127) || (x == '\n' && t == T_OPT), "type=%u class=%u rdata=%s: text contains octet %u: \"%s\"", t, k, hex(rd).c_str(), x, cstr(text).c_str());
	bool ok = ref_rdata_text(rd, t, k, &want);
	bool mark = ends_marked(text);
	if (!ok) CHECK(mark, "type=%u class=%u: malformed data %s prints without error marker: \"%s\"", t, k, hex(rd).c_str(), cstr(text).c_str());
	else CHECK(norm_text(text) == norm_text(want), "type=%u class=%u rdata=%s prints as \"%s\", expected \"%s\"", t, k, hex(rd).c_str(), cstr(text).c_str(), cstr(want).c_str());
	return ok;
}
static void p16(Src &s, Case &c) {
	uint16_t t, k; pick_type(s, &t, &k, true);
	bytes rd = gen_rdata_raw(s, t, k);
	if (rd.size() > 65535) rd.resize(65535);
	c.note("type=%u class=%u rdata=%s", t, k, hex(rd).c_str());
	if (check16(t, k, rd)) c.label("well-formed or with octets left over"); else c.label("malformed");
	c.nontrivial = !rd.empty() && mode_of(t, k) == M_FIELDS;
	type_label(c, t, k);
}
static void x16(Case &) {
	uint64_t n = 0;
	each_rdata([&](uint16_t t, uint16_t k, const bytes &rd) { if (rd.size() <= 65535) { check16(t, k, rd); n++; } });
	add_evals(n);
}
static PropReg r16({"P16", p16, "record data with random damage (cut anywhere, octets changed, inserted, removed, extended) and random octets for all types and classes in exactly sized buffers, and a fixed sweep of every cut, boundary value and counted length for all types; marker and text compared with a reference; non-trivial: not empty, of a known type in its class", 2400000, 12000000, true, 0, x16, 1, 0});

// ---------------------------------------------------------------- P19 case folding
static bool check19(uint16_t t, uint16_t k, const bytes &rd, Case *c) {
	bool ok; bytes want = ref_fold_rdata(rd, t, k, &ok);
	wdns_rdata_t *w = make_rdata(rd); struct G { wdns_rdata_t *w; ~G() { free(w); } } g{w};
	wdns_res r = wdns_downcase_rdata(w, t, k);
	CHECK((r == wdns_res_success) == ok, "type=%u class=%u rdata=%s is %s, but folding says %s", t, k, hex(rd).c_str(), ok ? "well-formed" : "malformed", wdns_res_to_str(r));
	CHECK(w->len == rd.size(), "folding changed the length");
	if (ok) {
		CHECK(rbytes(w) == want, "type=%u class=%u rdata=%s folds to %s, expected %s", t, k, hex(rd).c_str(), hex(rbytes(w)).c_str(), hex(want).c_str());
		CHECK(wdns_downcase_rdata(w, t, k) == wdns_res_success && rbytes(w) == want, "folding again changes type=%u class=%u rdata=%s", t, k, hex(rd).c_str());
		if (c) { if (want != rd) c->label("letters folded"); else c->label("nothing to fold"); }
	} else {
		bytes got = rbytes(w);
		for (size_t i = 0; i < rd.size(); i++) CHECK(got[i] == rd[i] || (rd[i] >= 'A' && rd[i] <= 'Z' && got[i] == rd[i] + 32), "folding malformed data changed octet %zu of %s", i, hex(rd).c_str());
		if (c) c->label("malformed");
	}
	return want != rd || !ok;
}
static void p19(Src &s, Case &c) {
	if (s.below(4) == 0) { // whole RRsets
		RSet set = gen_rrset(s, 0, 6);
		if (s.chance(1, 6000)) { // very many items
			static const uint16_t ts[] = {2, 15, 12, 33}; set.type = ts[s.below(4)]; set.rdatas.clear();
			unsigned n = s.flip() ? 65535 - s.below(3) : s.range(250, 65535); uint64_t x = s.u(2);
			while (n--) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; bytes d(set.type == 15 ? 2 : set.type == 33 ? 6 : 0, (char) (x >> 56)); unsigned l = 1 + (x >> 40 & 3); d.push_back((char) l); for (unsigned i = 0; i < l; i++) d.push_back((char) ((x >> (8 * i) & 1 ? 'A' : 'a') + (x >> (33 + i)) % 26)); d.push_back(0); set.rdatas.push_back(d); }
			c.label("RRset of 250 or more items");
		}
		bool damaged = s.below(4) == 0, okall = true;
		if (damaged) for (auto &d : set.rdatas) if (s.flip()) { d = gen_rdata_raw(s, set.type, set.cls); if (d.size() > 65535) d.resize(65535); }
		RSet want = set; want.name = ref_lower(set.name);
		for (auto &d : want.rdatas) { bool ok; d = ref_fold_rdata(d, set.type, set.cls, &ok); okall = okall && ok; }
		c.note("RRset name=%s type=%u class=%u items=%zu", hex(set.name).c_str(), set.type, set.cls, set.rdatas.size());
		wdns_rrset_t w = make_rrset(set);
		struct G { wdns_rrset_t *w; ~G() { wdns_clear_rrset(w); } } g{&w};
		wdns_res r = wdns_downcase_rrset(&w);
		CHECK((r == wdns_res_success) == okall, "folding the RRset: %s, but its data is %s", wdns_res_to_str(r), okall ? "well-formed" : "malformed");
		if (okall) check_rrset(w, want, "folded RRset");
		else CHECK(w.n_rdatas == set.rdatas.size() && w.name.len == set.name.size(), "folding changed the RRset's shape");
		c.label("RRset"); c.nontrivial = !set.rdatas.empty() && (want.name != set.name || want.rdatas != set.rdatas);
		return;
	}
	static const uint16_t fold[] = {38, 18, 5, 39, 36, 7, 3, 4, 8, 14, 9, 15, 35, 2, 30, 12, 26, 17, 21, 24, 6, 33};
	uint16_t t = s.below(3) ? fold[s.below(22)] : gen_type(s), k = gen_class(s);
	if (s.below(20) == 19) t = T_OPT;
	bytes rd = s.below(3) ? flat(gen_rdata(s, t, k, GR_TRUNC | GR_BIG)) : gen_rdata_raw(s, t, k);
	if (rd.size() > 65535) rd.resize(65535);
	c.note("type=%u class=%u rdata=%s", t, k, hex(rd).c_str());
	c.nontrivial = check19(t, k, rd, &c);
}
static void x19(Case &) {
	uint64_t n = 0;
	each_rdata([&](uint16_t t, uint16_t k, const bytes &rd) { if (rd.size() <= 65535) { check19(t, k, rd, NULL); n++; } });
	add_evals(n);
}
static PropReg r19({"P19", p19, "well-formed and damaged record data of all types and classes and whole RRsets (rarely up to 65535 items), and a fixed sweep of every cut, boundary value and counted length for all types, folded and compared with an independent folding; non-trivial: something to fold or malformed", 2400000, 12000000, true, 0, x19, 1, 0});
