#include "../wapi.h"

// ---------------------------------------------------------------- P06
// a buffer holding names, pointers and rubbish, and a start position
static bytes name_buffer(Src &s, size_t *off) {
	bytes b; std::vector<size_t> starts;
	unsigned n = 1 + s.below(6);
	if (s.below(12) == 11) b = gen_blob(s, s.below(2) ? 16300 + s.below(200) : s.below(2000));
	for (unsigned i = 0; i < n; i++) {
		starts.push_back(b.size());
		unsigned labs = s.below(4);
		if (s.below(20) == 19) labs += 4 * s.below(60);
		size_t ml = s.below(3) ? 6 : 63;
		while (labs--) {
			bytes l = gen_label(s, 1 + s.below((uint32_t) ml)); starts.push_back(b.size()); b.push_back((char) l.size()); b += l;
		}
		switch (s.below(10)) {
		case 0: case 1: case 2: b.push_back(0); break;
		case 3: case 4: case 5: case 6: if (b.size()) { size_t t = starts[s.below((uint32_t) starts.size())]; starts.push_back(b.size()); put16(b, 0xc000 | (t & 0x3fff)); } break;
		case 7: { size_t t = b.size() + s.below(6); t -= t ? s.below(4) > t ? 0 : s.below(4) : 0; put16(b, 0xc000 | (t & 0x3fff)); break; }   // near itself
		case 8: put16(b, 0xc000 | s.below(0x4000)); break;
		case 9: b.push_back((char) s.byte()); break;
		}
	}
	if (s.below(200) == 199) { // a long chain of pointers, each to the one before, with labels here and there
		size_t last = s.below(4) ? starts[s.below((uint32_t) starts.size())] : b.size(), k = 1 + (s.flip() ? s.small(300) : s.below(8000)), labs = s.below(4) ? s.below(140) : 0;
		if (last == b.size()) b.push_back(0);
		for (size_t i = 0; i < k && b.size() < 16384; i++) { size_t at = b.size(); if (i < labs) { b.push_back(1); b.push_back((char) ('a' + i % 26)); } put16(b, 0xc000 | (last & 0x3fff)); last = at; }
		starts.assign(1, last);
		if (s.below(4)) { *off = last; return b; }
	}
	if (s.below(4) == 0 && b.size()) b.resize(b.size() - s.below((uint32_t) (b.size() < 6 ? b.size() + 1 : 6)));
	if (s.below(4) == 0) *off = s.below((uint32_t) b.size() + 1);
	else { *off = starts[starts.size() - 1 - s.small((uint32_t) starts.size() - 1)]; if (*off > b.size()) *off = b.size(); }
	return b;
}
static void p06(Src &s, Case &c) {
	size_t off; bytes b = name_buffer(s, &off);
	c.note("buffer=%s start=%zu", hex(b).c_str(), off);
	Exact in(b); bytes want; bool ok = off < b.size() && ref_unpack(b, off, &want);
	Exact dst(255, 0xee); size_t sz = 12345;
	wdns_res r = wdns_unpack_name(in.p, in.end(), in.p + off, dst.p, &sz);
	CHECK(known_res(r), "undocumented result %d", r);
	CHECK((r == wdns_res_success) == ok, "name at %zu is %s but expansion says %s; buffer=%s", off, ok ? "legal" : "illegal", wdns_res_to_str(r), hex(b).c_str());
	if (ok) {
		CHECK(sz == want.size(), "length is %zu, expected %zu; buffer=%s start=%zu", sz, want.size(), hex(b).c_str(), off);
		CHECK(bytes((char *) dst.p, sz) == want, "expanded to %s, expected %s", hex(dst.p, sz).c_str(), hex(want).c_str());
	}
	Exact dst2(255, 0x11);
	wdns_res r2 = wdns_unpack_name(in.p, in.end(), in.p + off, dst2.p, NULL);
	CHECK(r2 == r, "result without a size pointer differs");
	if (ok) CHECK(bytes((char *) dst2.p, want.size()) == want, "octets without a size pointer differ");
	// skipping, within a buffer that may end early
	size_t end = s.below(3) ? b.size() : off + s.below((uint32_t) (b.size() - off) + 1);
	Exact in2(b.substr(0, end));
	const uint8_t *q = in2.p + off; size_t skipped = wdns_skip_name(&q, in2.end());
	size_t w = ref_skip(b, off, end);
	CHECK(q == in2.p + w, "skipping from %zu goes to %td, expected %zu; buffer=%s", off, q - in2.p, w, hex(in2.str()).c_str());
	CHECK(skipped == w - off, "skip reports %zu octets, moved %zu", skipped, w - off);
	if (off < b.size() && s.below(4) == 0) { // a start before the message is refused
		size_t later = off + 1 + s.below((uint32_t) (b.size() - off)); Exact d3(255, 0);
		CHECK(wdns_unpack_name(in.p + later, in.end(), in.p + off, d3.p, &sz) != wdns_res_success, "a name that starts before its message is accepted");
	}
	CHECK(in.str() == b, "input was modified");
	bool ptr = false; for (size_t i = off; i < b.size() && !ptr; i += u8at(b, i) + 1) { if (u8at(b, i) >= 0xc0) ptr = true; if (!b[i]) break; }
	c.nontrivial = b.size() > 1 && (ok ? want.size() > 1 : true);
	if (ok) c.label(ptr ? "legal, compressed" : "legal, uncompressed"); else c.label(ptr ? "illegal, compressed" : "illegal, uncompressed");
	if (ok && want.size() > 240) c.label("legal, longer than 240 octets");
}
static PropReg r06({"P06", p06, "buffers of labels, terminators, backward/forward/self/chained pointers and damaged octets (also past 16 KiB), cut at the end, with a start position; expansion and skipping in exactly sized buffers compared with a reference; non-trivial: more than one octet and, if legal, at least one label", 2500000, 12500000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P07
static void p07(Src &s, Case &c) {
	bytes pre = gen_blob(s, s.below(4)), nm = gen_badname(s), b = pre + nm; size_t off = pre.size();
	if (s.below(8) == 7) b += gen_blob(s, s.below(70));
	if (s.below(4000) == 3999) b += bytes(65536 * (1 + s.below(2)) - s.below(2) * (b.size() - off) + s.small(300), (char) s.byte());   // in a very large buffer
	if (s.below(16) == 15) off = s.below((uint32_t) b.size() + 1);
	c.note("buffer=%s start=%zu", hex(b).c_str(), off);
	size_t len = 0; bool ok = ref_valid_name(b, off, b.size(), &len);
	Exact in(b), dst(255, 0xee); size_t sz = 777;
	wdns_res r = wdns_copy_uname(in.p, in.end(), in.p + off, dst.p, &sz);
	CHECK((r == wdns_res_success) == ok, "name at %zu is %s but copying says %s; buffer=%s", off, ok ? "valid" : "invalid", wdns_res_to_str(r), hex(b).c_str());
	if (ok) CHECK(sz == len && bytes((char *) dst.p, sz) == b.substr(off, len), "copied %s (%zu octets), expected %s", hex(dst.p, sz).c_str(), sz, hex(b.substr(off, len)).c_str());
	Exact d2(255, 1); CHECK(wdns_copy_uname(in.p, in.end(), in.p + off, d2.p, NULL) == r, "result without a size pointer differs");
	if (ok) CHECK(bytes((char *) d2.p, len) == b.substr(off, len), "octets without a size pointer differ");
	if (off < b.size() && s.below(4) == 0) { // a start before the message is refused
		size_t later = off + 1 + s.below((uint32_t) (b.size() - off)); Exact d3(255, 0);
		CHECK(wdns_copy_uname(in.p + later, in.end(), in.p + off, d3.p, &sz) != wdns_res_success, "a name that starts before its message is copied");
	}
	sz = 777;
	r = wdns_len_uname(in.p + off, in.end(), &sz);
	CHECK((r == wdns_res_success) == ok, "name at %zu is %s but measuring says %s (%zu octets); buffer=%s", off, ok ? "valid" : "invalid", wdns_res_to_str(r), sz, hex(b).c_str());
	if (ok) CHECK(sz == len, "measured %zu octets, expected %zu; buffer=%s", sz, len, hex(b.substr(off)).c_str());
	CHECK(in.str() == b, "input was modified");
	c.nontrivial = b.size() - off > 1; c.label(ok ? "valid" : "invalid");
	if (ok && off + len == b.size()) c.label("valid, ending at the buffer end");
	if (ok && len == 255) c.label("valid, 255 octets");
	if (b.size() - off > 65535) c.label("in a buffer past 64 KiB");
}
static PropReg r07({"P07", p07, "valid names (up to 255 octets), and truncated, unterminated, over-long and damaged ones, at any offset of exactly sized buffers; copying and measuring compared with a reference; non-trivial: at least two octets", 3000000, 15000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P08
static bytes to_text(const bytes &w, const bytes &behind, size_t *rd) {
	Exact in(w + behind), out(WDNS_PRESLEN_NAME, 0x5a);
	*rd = wdns_domain_to_str(in.p, in.n, (char *) out.p);
	const void *e = memchr(out.p, 0, out.n);
	CHECK(e != NULL, "text of %s is not terminated within %d octets", hex(w).c_str(), WDNS_PRESLEN_NAME);
	return bytes((char *) out.p);
}
static void p08(Src &s, Case &c) {
	bytes w = gen_name(s); size_t rd;
	if (s.below(64) == 63) { // every octet value, label by label
		std::vector<bytes> l; unsigned start = s.byte(); bytes x; for (unsigned i = 0; i < 250; i++) { x.push_back((char) (start + i)); if (x.size() == 62) { l.push_back(x); x.clear(); } } w = ref_from_labels(l);
	}
	bytes t = to_text(w, "", &rd);
	c.note("name=%s text=%s", hex(w).c_str(), cstr(t).c_str());
	CHECK(rd == w.size(), "reported %zu octets, name has %zu: %s", rd, w.size(), hex(w).c_str());
	for (unsigned char ch : t) CHECK(ch > 32 && ch < 127, "unprintable character in %s", cstr(t).c_str());
	CHECK(t == ref_name_text(w), "text is %s, expected %s", cstr(t).c_str(), ref_name_text(w).c_str());
	if (s.flip()) { bytes junk = gen_blob(s, 1 + s.below(9)); bytes t2 = to_text(w, junk, &rd); CHECK(t2 == t && rd == w.size(), "octets behind the name change its text: %s / %zu octets", cstr(t2).c_str(), rd); }
	ExactStr in(t); wdns_name_t n;
	wdns_res r = wdns_str_to_name_case(in.p, &n);
	CHECK(r == wdns_res_success, "text %s cannot be read back: %s", cstr(t).c_str(), wdns_res_to_str(r));
	bytes back = nbytes(n); free(n.data);
	CHECK(back == w, "read back as %s, was %s", hex(back).c_str(), hex(w).c_str());
	r = wdns_str_to_name(in.p, &n);
	CHECK(r == wdns_res_success, "text %s cannot be read back with case folding: %s", cstr(t).c_str(), wdns_res_to_str(r));
	back = nbytes(n); free(n.data);
	CHECK(back == ref_lower(w), "read back with case folding as %s, was %s", hex(back).c_str(), hex(w).c_str());
	CHECK(t == bytes(in.p), "text was modified");
	if (t != ".") { // an absolute name is the same without its last dot
		ExactStr in2(t.substr(0, t.size() - 1)); r = wdns_str_to_name_case(in2.p, &n);
		CHECK(r == wdns_res_success, "text %s cannot be read without its last dot", cstr(t).c_str()); back = nbytes(n); free(n.data);
		CHECK(back == w, "without its last dot read as %s, was %s", hex(back).c_str(), hex(w).c_str());
	}
	// a different name has a different text
	bytes v = w; if (v.size() > 1) { size_t i = s.below((uint32_t) v.size()); v[i] ^= 1 << s.below(8); }
	size_t l; if (v != w && ref_valid_name(v, 0, v.size(), &l) && l == v.size()) { bytes tv = to_text(v, "", &rd); CHECK(tv != t, "%s and %s have the same text", hex(v).c_str(), hex(w).c_str()); c.label("compared with a neighbour"); }
	// the length given bounds what is read: a name cut short never makes it read on
	if (s.below(4) == 0) { Exact cut(w.substr(0, s.below((uint32_t) w.size()))), out(WDNS_PRESLEN_NAME, 0x5a); if (cut.n) { wdns_domain_to_str(cut.p, cut.n, (char *) out.p); c.label("cut short"); } }
	c.nontrivial = w.size() > 2;
	if (w.size() >= 250) c.label("250 octets and more");
	if (t.find('\\') != bytes::npos) c.label("with escapes");
}
static PropReg r08({"P08", p08, "valid names: plain, special characters, any octets, lengths up to exactly 255 octets; text compared with a reference, read back with and without case folding, and against a neighbouring name; non-trivial: more than one octet of content", 1500000, 7500000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P09
static bytes gen_text_name(Src &s) {
	bytes t;
	switch (s.below(6)) {
	case 0: { // atoms
		unsigned n = s.below(20);
		while (n--) switch (s.below(9)) {
			case 0: case 1: t += (char) ('a' + s.below(26)); break; case 2: t += '.'; break; case 3: t += '\\'; break;
			case 4: t += (char) ('0' + s.below(10)); break; case 5: t += (char) (1 + s.below(255)); break;
			case 6: { char x[8]; snprintf(x, sizeof x, "\\%03u", s.below(300)); t += x; break; }
			case 7: t += (char) ('A' + s.below(26)); break; case 8: t += '\\'; t += (char) (1 + s.below(255)); break;
		}
		break;
	}
	case 1: { // one label around 63, alone or between others
		if (s.flip()) t += "x."; bytes l; unsigned n = 58 + s.below(10); bool esc = s.flip();
		while (n--) if (esc && s.below(4) == 0) { char x[8]; snprintf(x, sizeof x, "\\%03u", s.below(256)); l += x; } else l += 'a';
		t += l; if (s.flip()) t += "."; if (s.flip()) t += "y"; break;
	}
	case 2: { // total length around 255
		unsigned total = 250 + s.below(10), used = 1, st = 1 + s.below(63);
		while (used < total) { unsigned n = st; if (n > total - used - 1) n = total - used - 1; if (!n) break; t += bytes(n, 'b'); t += '.'; used += n + 1; }
		if (s.flip() && t.size()) t.pop_back(); if (s.below(4) == 0) t += s.flip() ? "c" : "\\"; break;
	}
	case 3: case 4: { // a well-formed text with one edit
		t = ref_name_text(gen_name(s)); unsigned k = s.below(4);
		size_t i = s.below((uint32_t) t.size() + 1);
		static const char ed[] = {'.', '\\', '0', '9', 'a', 'Z', ' ', (char) 0x80};
		if (k == 0) t.insert(i, 1, ed[s.below(8)]); else if (k == 1 && i < t.size()) t.erase(i, 1); else if (k == 2) t.resize(i);
		break;
	}
	default: t = gen_blob(s, gen_len(s, 1200)); for (char &ch : t) if (!ch) ch = '.';
	}
	size_t z = t.find('\0'); if (z != bytes::npos) t.resize(z);
	return t;
}
static void p09(Src &s, Case &c) {
	bytes t = gen_text_name(s), want; bool ok = ref_text_name(t, &want);
	c.note("text=%s expected %s", cstr(t).c_str(), ok ? hex(want).c_str() : "error");
	ExactStr in(t); bytes got[2];
	for (int k = 0; k < 2; k++) {
		uint8_t stale; wdns_name_t n; n.len = 77; n.data = &stale;
		size_t l0 = live_allocs();
		wdns_res r = k ? wdns_str_to_name(in.p, &n) : wdns_str_to_name_case(in.p, &n);
		CHECK((r == wdns_res_success) == ok, "text %s %s a name but reading it%s says %s", cstr(t).c_str(), ok ? "spells" : "does not spell", k ? " with case folding" : "", wdns_res_to_str(r));
		if (r != wdns_res_success) CHECK(n.data == NULL, "a refused text leaves a name whose data are neither there nor NULL");
		uint8_t copy[256]; size_t cl = 0;
		if (r == wdns_res_success) { memcpy(copy, n.data, n.len); cl = n.len; free(n.data); }
		size_t l1 = live_allocs(); got[k] = bytes((char *) copy, cl);
		CHECK(l1 == l0, "%s left %zd allocations", r == wdns_res_success ? "a freed name" : "an error", (ssize_t) (l1 - l0));
	}
	if (ok) {
		CHECK(got[0] == want, "text %s reads as %s, expected %s", cstr(t).c_str(), hex(got[0]).c_str(), hex(want).c_str());
		CHECK(ref_lower(got[1]) == ref_lower(want), "text %s reads with case folding as %s, expected %s", cstr(t).c_str(), hex(got[1]).c_str(), hex(want).c_str());
		if (t.find('\\') == bytes::npos) CHECK(got[1] == ref_lower(want), "case folding of %s gives %s", cstr(t).c_str(), hex(got[1]).c_str());
	}
	CHECK(bytes(in.p) == t, "text was modified");
	c.nontrivial = t.size() > 2; c.label(ok ? "name" : "not a name");
	if (t.find('\\') != bytes::npos) c.label("with backslashes");
}
static PropReg r09({"P09", p09, "texts: random atoms (letters, dots, backslashes, digits, escapes), labels around 63 and names around 255 octets, well-formed texts with one edit, random octets; outcome and octets compared with a reference reader, text in an exactly sized buffer; non-trivial: more than two characters", 2000000, 10000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P10
static void p10(Src &s, Case &c) {
	bytes w = s.below(3) ? gen_name(s) : gen_badname(s);
	if (w.size() > 255) w.resize(255);
	size_t len = 0; bool complete = ref_valid_name(w, 0, w.size(), &len), valid = complete && len == w.size();
	c.note("name=%s (%s)", hex(w).c_str(), valid ? "valid" : "malformed");
	Exact in(w); wdns_name_t n; n.len = (uint8_t) w.size(); n.data = in.p;
	std::vector<bytes> ls = complete ? ref_labels(w.substr(0, len)) : std::vector<bytes>();
	size_t k = 999; wdns_res r = wdns_count_labels(&n, &k);
	if (complete) CHECK(r == wdns_res_success && k == ls.size(), "counted %zu labels (%s), expected %zu in %s", k, wdns_res_to_str(r), ls.size(), hex(w).c_str());
	else CHECK(r != wdns_res_success, "counted %zu labels in malformed name %s", k, hex(w).c_str());
	wdns_name_t ch; memset(&ch, 0, sizeof ch);
	r = wdns_left_chop(&n, &ch);
	if (valid) {
		bytes want = ls.empty() ? w : ref_from_labels(std::vector<bytes>(ls.begin() + 1, ls.end()));
		CHECK(r == wdns_res_success && nbytes(ch) == want, "chopping %s gives %s, expected %s", hex(w).c_str(), r == wdns_res_success ? hex(nbytes(ch)).c_str() : "an error", hex(want).c_str());
		// chopping down to the root takes one step per label
		wdns_name_t x = n; for (size_t i = 0; i < ls.size(); i++) { wdns_name_t y; CHECK(wdns_left_chop(&x, &y) == wdns_res_success, "chop %zu failed", i); x = y; }
		CHECK(x.len == 1 && x.data[0] == 0, "chopping %zu labels off %s does not end at the root", ls.size(), hex(w).c_str());
	} else if (w.size() == 0 || u8at(w, 0) > w.size() - 1) CHECK(r != wdns_res_success, "chopping malformed name %s succeeded", hex(w).c_str());
	else if (r == wdns_res_success) CHECK(ch.data + ch.len == in.end() && ch.data >= in.p, "chopping malformed name %s leaves its bounds", hex(w).c_str());
	{
		Exact rev(w.size(), 0x77); r = wdns_reverse_name(in.p, w.size(), rev.p);
		if (valid) {
			bytes want = ref_from_labels(std::vector<bytes>(ls.rbegin(), ls.rend()));
			CHECK(r == wdns_res_success && rev.str() == want, "reversing %s gives %s, expected %s", hex(w).c_str(), hex(rev.str()).c_str(), hex(want).c_str());
			Exact r2(w.size(), 0x33); CHECK(wdns_reverse_name(rev.p, w.size(), r2.p) == wdns_res_success && r2.str() == w, "reversing twice changes %s", hex(w).c_str());
		} else if (!complete) CHECK(r != wdns_res_success, "reversing malformed name %s succeeded", hex(w).c_str());
	}
	CHECK(in.str() == w, "name was modified");
	{
		Exact d(w); wdns_name_t dn; dn.len = (uint8_t) w.size(); dn.data = d.p; wdns_downcase_name(&dn);
		if (valid) { CHECK(d.str() == ref_lower(w), "folding %s gives %s", hex(w).c_str(), hex(d.str()).c_str()); CHECK(dn.len == w.size() && dn.data == d.p, "folding moved the name"); }
	}
	c.nontrivial = w.size() > 2; c.label(valid ? "valid" : "malformed"); if (ls.size() > 100) c.label("more than 100 labels");
}
static PropReg r10({"P10", p10, "valid and malformed names of 0..255 octets in exactly sized buffers; count, chop (down to the root), reverse (twice) and fold compared with a reference; non-trivial: more than two octets", 2400000, 12000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P11
static bool is_suffix(const std::vector<bytes> &a, const std::vector<bytes> &b) { // a strictly below b
	if (a.size() <= b.size()) return false;
	return std::equal(b.begin(), b.end(), a.end() - b.size());
}
static void p11(Src &s, Case &c) {
	NamePool p; bytes a = gen_name(s), b;
	std::vector<bytes> la = ref_labels(a);
	switch (s.below(9)) {
	case 0: b = gen_name(s); break;
	case 1: case 2: case 3: { // a proper suffix, or the name itself
		std::vector<bytes> l(la.begin() + s.below((uint32_t) la.size() + 1), la.end()); b = ref_from_labels(l); break; }
	case 4: { // suffix with a changed octet or case
		std::vector<bytes> l(la.begin() + s.below((uint32_t) la.size() + 1), la.end()); if (!l.empty()) { size_t i = s.below((uint32_t) l.size()); l[i][s.below((uint32_t) l[i].size())] ^= s.flip() ? 32 : 1 << s.below(8); } b = ref_from_labels(l); break; }
	case 5: { // octets match but labels do not: cut inside a label
		std::vector<bytes> l = la; if (!l.empty()) { size_t i = s.below((uint32_t) l.size()); if (l[i].size() > 1) l[i].erase(0, 1 + s.below((uint32_t) l[i].size() - 1)); l.erase(l.begin(), l.begin() + i); } b = ref_from_labels(l); break; }
	case 6: { // merge two labels into one whose octets look the same
		std::vector<bytes> l = la; if (l.size() > 1) { size_t i = s.below((uint32_t) l.size() - 1); bytes m = l[i] + bytes(1, (char) l[i + 1].size()) + l[i + 1]; if (m.size() <= 63) { l.erase(l.begin() + i, l.begin() + i + 2); l.insert(l.begin() + i, m); } } b = ref_from_labels(l); if (s.flip()) std::swap(a, b); break; }
	case 7: b = gen_badname(s); break;
	case 8: { std::vector<bytes> l(la.begin() + s.below((uint32_t) la.size() + 1), la.end()); b = ref_from_labels(l); std::swap(a, b); break; }
	}
	if (b.size() > 255) b.resize(255);
	if (s.below(24) == 23) std::swap(a, b);
	c.note("%s below %s?", hex(a).c_str(), hex(b).c_str());
	size_t lena, lenb; bool ca = ref_valid_name(a, 0, a.size(), &lena), cb = ref_valid_name(b, 0, b.size(), &lenb), va = ca && lena == a.size(), vb = cb && lenb == b.size();
	Exact ea(a), eb(b); wdns_name_t na, nb; na.len = (uint8_t) a.size(); na.data = ea.p; nb.len = (uint8_t) b.size(); nb.data = eb.p;
	bool out = false; wdns_res r = wdns_is_subdomain(&na, &nb, &out);
	if (!ca || !cb) CHECK(r != wdns_res_success, "comparison with a malformed name succeeded: %s / %s", hex(a).c_str(), hex(b).c_str());
	else if (va && vb) {
		bool want = is_suffix(ref_labels(a), ref_labels(b));
		CHECK(r == wdns_res_success && out == want, "%s below %s: says %d (%s), expected %d", hex(a).c_str(), hex(b).c_str(), out, wdns_res_to_str(r), want);
		c.label(want ? "below" : "not below");
		out = true; r = wdns_is_subdomain(&na, &na, &out); CHECK(r == wdns_res_success && !out, "%s is below itself", hex(a).c_str());
		uint8_t z = 0; wdns_name_t root; root.len = 1; root.data = &z;
		r = wdns_is_subdomain(&na, &root, &out); CHECK(r == wdns_res_success && out == (a.size() > 1), "relation of %s to the root is wrong", hex(a).c_str());
		r = wdns_is_subdomain(&root, &na, &out); CHECK(r == wdns_res_success && !out, "the root is below %s", hex(a).c_str());
		if (want) { // and transitively below every suffix of b
			wdns_name_t x = nb; while (x.data[0]) { wdns_name_t y; if (wdns_left_chop(&x, &y) != wdns_res_success) break; x = y; r = wdns_is_subdomain(&na, &x, &out); CHECK(r == wdns_res_success && out, "%s is below %s but not below %s", hex(a).c_str(), hex(b).c_str(), hex(nbytes(x)).c_str()); add_evals(1); }
		}
	}
	CHECK(ea.str() == a && eb.str() == b, "a name was modified");
	c.nontrivial = a.size() > 2 && b.size() > 2;
}
static PropReg r11({"P11", p11, "pairs of names: unrelated, suffixes, suffixes with one changed octet or letter case, cuts inside a label, merged labels, malformed names; relation compared with label-list suffixes, also against itself, the root and all ancestors; non-trivial: both names have content", 2400000, 12000000, true, 0, NULL, 0, 0});
