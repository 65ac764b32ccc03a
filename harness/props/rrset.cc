#include "../wapi.h"
#include <algorithm>

// what print functions write to a stream
template <class F> static std::string printed(F f) {
	char *p = NULL; size_t n = 0; FILE *fp = open_memstream(&p, &n);
	if (!fp) { fprintf(stderr, "open_memstream failed\n"); abort(); }
	f(fp); fclose(fp); std::string o(p, n); free(p); return o;
}
static RSet any_rrset(Src &s) {
	RSet r;
	switch (s.below(8)) {
	case 0: case 1: case 2: case 3: r = gen_rrset(s, GR_TRUNC, 12); break;
	case 4: r = gen_rrset(s, GR_TRUNC, 3); for (auto &d : r.rdatas) if (s.flip()) { d = gen_rdata_raw(s, r.type, r.cls); if (d.size() > 65535) d.resize(65535); } break;
	case 5: { r = gen_rrset(s, 0, 1); r.rdatas.clear(); unsigned n = s.small(40); while (n--) r.rdatas.push_back(gen_blob(s, gen_len(s, 60))); break; }
	case 6: { r.name = gen_blob(s, s.below(256)); r.type = (uint16_t) s.u(2); r.cls = (uint16_t) s.u(2); r.ttl = (uint32_t) s.u(4); unsigned n = s.below(4); while (n--) r.rdatas.push_back(gen_blob(s, gen_len(s, 60))); break; }
	default: {
		r = gen_rrset(s, 0, 1); r.rdatas.clear();
		static const size_t big[] = {255, 256, 257, 4095, 32767, 32768, 65534, 65535};
		switch (s.below(12)) {
		case 11: { size_t n[] = {255, 256, 257, 1000}; size_t k = n[s.below(4)]; bytes d = gen_blob(s, s.below(3)); while (k--) r.rdatas.push_back(d); break; }
		case 10: if (s.below(20) == 19) { size_t k = 65535 - s.below(3); while (k--) r.rdatas.push_back(bytes()); break; } // fall through
		default: r.rdatas.push_back(gen_blob(s, big[s.below(8)])); if (s.flip()) r.rdatas.push_back(gen_blob(s, s.below(10)));
		}
	}
	}
	return r;
}
struct SetGuard { wdns_rrset_t *w; ~SetGuard() { wdns_clear_rrset(w); } };

// ---------------------------------------------------------------- P17
static void p17(Src &s, Case &c) {
	RSet set = any_rrset(s);
	bytes want = ref_serialize(set);
	c.note("RRset name=%s type=%u class=%u ttl=%u items=%zu", hex(set.name).c_str(), set.type, set.cls, set.ttl, set.rdatas.size());
	wdns_rrset_t w = make_rrset(set); SetGuard g{&w};
	wdns_rrset_t copy = w;
	size_t n = s.flip() ? 0 : 0x5a5a5a5a;
	CHECK(wdns_serialize_rrset(&w, NULL, &n) == wdns_res_success, "computing the size failed");
	CHECK(n == want.size(), "size is %zu, expected %zu", n, want.size());
	{
		Exact out(n, (uint8_t) s.byte());
		size_t n2 = 7; bool both = s.flip();
		CHECK(wdns_serialize_rrset(&w, out.p, both ? &n2 : NULL) == wdns_res_success, "serializing failed");
		if (both) CHECK(n2 == n, "size with a buffer is %zu, without %zu", n2, n);
		CHECK(out.str() == want, "serialized bytes are %s, expected %s", hex(out.str()).c_str(), hex(want).c_str());
		CHECK(!memcmp(&copy, &w, sizeof w), "serializing changed the RRset");
		check_rrset(w, set, "after serializing");
		bytes keep = out.str();
		wdns_rrset_t d; memset(&d, s.flip() ? 0xa5 : 0, sizeof d);
		CHECK(wdns_deserialize_rrset(&d, out.p, out.n) == wdns_res_success, "serialized bytes are not readable: %s", hex(want).c_str());
		SetGuard g2{&d};
		CHECK(out.str() == keep, "deserializing modified its input");
		memset(out.p, 0xdd, out.n); // the RRset owns copies
		check_rrset(d, set, "read back");
		size_t n3; CHECK(wdns_serialize_rrset(&d, NULL, &n3) == wdns_res_success && n3 == n, "size after reading back is %zu", n3);
		Exact again(n3, 0);
		CHECK(wdns_serialize_rrset(&d, again.p, NULL) == wdns_res_success && again.str() == want, "serializing again gives %s, expected %s", hex(again.str()).c_str(), hex(want).c_str());
	}
	c.nontrivial = !set.rdatas.empty() && set.name.size() > 1;
	if (set.rdatas.size() > 255) c.label("more than 255 items"); else if (set.rdatas.size() > 1) c.label("several items"); else if (set.rdatas.empty()) c.label("no items"); else c.label("one item");
	for (auto &d : set.rdatas) if (d.size() > 255) { c.label("item longer than 255 octets"); break; }
	if (want.size() > 65535) c.label("past 64 KiB");
}
static PropReg r17({"P17", p17, "RRsets over names (valid and arbitrary octets up to 255), types, classes, TTLs, 0 to 65535 data items of 0 to 65535 octets (boundary sizes over-sampled), serialized into exactly sized buffers, compared with an independent serialization, read back and serialized again; non-trivial: a name longer than the root and at least one item", 750000, 3750000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P18
static bytes any_serial(Src &s) {
	unsigned k = s.below(10);
	if (k == 0) return gen_blob(s, gen_len(s, 300));
	RSet set = any_rrset(s);
	bytes b = ref_serialize(set);
	if (k < 3) return b;
	unsigned m = 1 + s.below(3);
	while (m--) switch (s.below(7)) {
	case 0: case 1: b.resize(s.below((uint32_t) b.size() + 1)); break;
	case 2: { // the announced number of items or a length
		size_t at = 1 + set.name.size() + 8; unsigned j = s.below((uint32_t) set.rdatas.size() + 1);
		if (j) { at += 2; for (unsigned i = 0; i + 1 < j; i++) at += 2 + set.rdatas[i].size(); }
		if (at + 2 <= b.size()) { uint16_t v; memcpy(&v, &b[at], 2); static const int d[] = {1, -1, 2, -2, 255, 256, -256}; v = s.below(3) ? (uint16_t) (v + d[s.below(7)]) : (uint16_t) s.u(2); memcpy(&b[at], &v, 2); }
		break;
	}
	case 3: if (b.size()) b[0] = (char) s.byte(); break;
	case 4: if (b.size()) b[s.below((uint32_t) b.size())] = (char) s.byte(); break;
	case 5: b += s.raw(1 + s.below(6)); break;
	case 6: if (b.size()) b.erase(s.below((uint32_t) b.size()), 1); break;
	}
	return b;
}
static void p18(Src &s, Case &c) {
	bytes b = any_serial(s);
	RSet want; bool ok = ref_deserialize(b, &want);
	c.note("bytes=%s; expected %s", hex(b).c_str(), ok ? "readable" : "truncated");
	wdns_rrset_t w;
	{
		Exact in(b); memset(&w, 0xa5, sizeof w);
		wdns_res r = wdns_deserialize_rrset(&w, in.p, in.n);
		SetGuard g{&w};
		CHECK(known_res(r), "undocumented result %d", (int) r);
		CHECK((r == wdns_res_success) == ok, "bytes are %s but reading says %s: %s", ok ? "complete" : "incomplete", wdns_res_to_str(r), hex(b).c_str());
		CHECK(in.str() == b, "reading modified its input");
		if (!ok) {
			CHECK(!w.name.data && !w.rdatas && !w.n_rdatas, "after a failure the RRset still refers to memory");
			wdns_clear_rrset(&w); wdns_clear_rrset(&w);
			c.label("incomplete"); c.nontrivial = b.size() > 2; return;
		}
		check_rrset(w, want, "read");
		memset(in.p, 0xdd, in.n);
		unsigned ops = 1 + s.below(4); bool folded = false;
		while (ops--) switch (s.below(4)) {
		case 0: { unsigned sec = s.below(4); std::string a = take(wdns_rrset_to_str(&w, sec)), p = printed([&](FILE *f) { wdns_print_rrset(f, &w, sec); });
			CHECK(a == p, "printed text differs from the returned one");
			if (!folded) check_rrset(w, want, "after printing"); break; }
		case 1: { wdns_res q = wdns_sort_rrset(&w); CHECK(q == wdns_res_success, "sorting failed");
			std::sort(want.rdatas.begin(), want.rdatas.end(), [](const bytes &x, const bytes &y) { return x.size() != y.size() ? x.size() < y.size() : x < y; });
			if (!folded) check_rrset(w, want, "after sorting"); break; }
		case 2: wdns_downcase_rrset(&w); folded = true; break;
		case 3: { size_t n; CHECK(wdns_serialize_rrset(&w, NULL, &n) == wdns_res_success && n <= b.size(), "size is %zu of %zu", n, b.size()); Exact o(n, 0); CHECK(wdns_serialize_rrset(&w, o.p, NULL) == wdns_res_success, "serializing failed"); if (!folded) CHECK(o.str() == ref_serialize(want), "serialized again as %s", hex(o.str()).c_str()); break; }
		}
		c.label("complete"); c.nontrivial = !want.rdatas.empty();
		size_t l; if (!ref_valid_name(want.name, 0, want.name.size(), &l) || l != want.name.size()) c.label("name not well-formed");
	}
	CHECK(!w.name.data && !w.rdatas && !w.n_rdatas, "after clearing the RRset still refers to memory");
	wdns_clear_rrset(&w);
}
// every truncation of one encoding
static void x18(Case &c) {
	uint8_t tape[600]; Src s(tape, sizeof tape); s.rng = 42; uint64_t n = 0;
	for (int i = 0; i < 40; i++) {
		RSet set; set.name = bytes("\1a\0", 3); set.type = 1; set.cls = 1; set.ttl = 5;
		for (int j = 0; j < i % 5; j++) set.rdatas.push_back(bytes((size_t) (i * 7 + j) % 23, (char) j));
		bytes b = ref_serialize(set);
		for (size_t l = 0; l <= b.size(); l++) {
			Exact in(b.substr(0, l)); wdns_rrset_t w; wdns_res r = wdns_deserialize_rrset(&w, in.p, in.n); bool ok = r == wdns_res_success;
			if (ok) wdns_clear_rrset(&w);
			CHECK(ok == (l == b.size()), "%zu of %zu octets of %s: %s", l, b.size(), hex(b).c_str(), wdns_res_to_str(r)); n++;
		}
	}
	add_evals(n);
}
static PropReg r18({"P18", p18, "byte strings: serialized RRsets (valid and arbitrary names and data), truncated anywhere, with changed counts, lengths and octets, extended, and random bytes, each in an exactly sized buffer; outcome against a reference decoder, followed by printing, sorting, folding, serializing and repeated clears; non-trivial: more than two octets and not complete, or complete with at least one item", 250000, 4000000, true, 0, x18, 800, 0});

// ---------------------------------------------------------------- P20
static bool canon_less(const bytes &a, const bytes &b) { if (a.size() != b.size()) return a.size() < b.size(); for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return (uint8_t) a[i] < (uint8_t) b[i]; return false; }
static void p20(Src &s, Case &c) {
	RSet set; set.name = gen_name(s); set.type = gen_type(s); set.cls = gen_class(s); set.ttl = (uint32_t) s.u(4);
	unsigned n = s.below(200) == 199 ? s.below(200) == 199 ? (s.flip() ? 65535 - s.below(3) : s.range(32760, 65535)) : 200 + s.below(3000) : s.below(3) ? s.below(8) : s.small(60), mode = s.below(5);
	static const size_t lens[] = {0, 1, 2, 3, 4, 4, 4, 5, 8, 16, 20, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535};
	size_t L = lens[s.below(n > 40 ? 12 : 20)]; bytes base = gen_blob(s, L);
	for (unsigned i = 0; i < n; i++) {
		bytes d;
		switch (mode) {
		case 0: d = gen_blob(s, s.below(5)); break;
		case 1: case 2: { // equal length, late or early differences with signs that matter
			d = base; if (L) { static const uint8_t v[] = {0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff}; size_t at = mode == 1 ? L - 1 - s.below(2 < L ? 2 : (uint32_t) L) : s.below((uint32_t) L); d[at] = (char) v[s.below(7)]; } break; }
		case 3: d = base.substr(0, s.below((uint32_t) L + 1)); break; // prefixes of each other
		case 4: if (!set.rdatas.empty() && s.below(3)) d = s.pick(set.rdatas); else d = gen_blob(s, lens[s.below(17)]); break;
		}
		set.rdatas.push_back(d);
	}
	c.note("type=%u items=%u", set.type, n); if (c.want_desc && n < 20) for (auto &d : set.rdatas) c.note("%s", hex(d).c_str());
	RSet want = set; std::stable_sort(want.rdatas.begin(), want.rdatas.end(), canon_less);
	wdns_rrset_t w = make_rrset(set); SetGuard g{&w};
	std::vector<wdns_rdata_t *> ptrs(w.rdatas, w.rdatas + n); std::sort(ptrs.begin(), ptrs.end());
	uint8_t *nm = w.name.data; wdns_rdata_t **arr = w.rdatas;
	CHECK(wdns_sort_rrset(&w) == wdns_res_success, "sorting failed");
	check_rrset(w, want, "after sorting");
	CHECK(w.name.data == nm && w.rdatas == arr, "sorting replaced the RRset's memory");
	std::vector<wdns_rdata_t *> p2(w.rdatas, w.rdatas + n); std::sort(p2.begin(), p2.end());
	CHECK(ptrs == p2, "sorting lost or duplicated an item");
	CHECK(wdns_sort_rrset(&w) == wdns_res_success, "sorting again failed"); check_rrset(w, want, "after sorting twice");
	if (n > 1 && s.flip()) { // the same RRset in another order
		for (size_t i = n; i > 1; i--) std::swap(w.rdatas[i - 1], w.rdatas[s.below((uint32_t) i)]);
		CHECK(wdns_sort_rrset(&w) == wdns_res_success, "sorting failed"); check_rrset(w, want, "rearranged and sorted again");
	}
	// any other initial order gives the same
	RSet sh = set; unsigned how = s.below(3);
	if (how == 0) std::reverse(sh.rdatas.begin(), sh.rdatas.end()); else for (size_t i = sh.rdatas.size(); i > 1; i--) std::swap(sh.rdatas[i - 1], sh.rdatas[s.below((uint32_t) i)]);
	wdns_rrset_t v = make_rrset(sh); SetGuard g2{&v};
	CHECK(wdns_sort_rrset(&v) == wdns_res_success, "sorting failed"); check_rrset(v, want, "shuffled and sorted");
	c.nontrivial = want.rdatas != set.rdatas;
	bool dup = false, same = false; for (size_t i = 1; i < want.rdatas.size(); i++) { if (want.rdatas[i] == want.rdatas[i - 1]) dup = true; else if (want.rdatas[i].size() == want.rdatas[i - 1].size()) same = true; }
	if (dup) c.label("duplicates"); if (same) c.label("equal lengths, different octets"); if (n > 100) c.label("more than 100 items"); if (n < 2) c.label("fewer than two items");
}
static PropReg r20({"P20", p20, "RRsets of 0 to 3200 items (rarely up to 65535): random, equal length differing in one octet around the sign bit, prefixes of each other, duplicates, lengths to 65535; sorted twice and from a shuffled order, compared with a reference order; non-trivial: not already in order", 480000, 2400000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P22
static GMsg text_msg(Src &s) {
	GMsg g; if (!gen_massive(s, &g)) g = gen_msg(s, 12, GR_TRUNC);
	if (s.below(3) == 0 && g.counts[3] < 65535) { // an OPT record at the end of the additional section
		GRec x; x.sec = 3; x.r.name = bytes(1, 0); x.r.type = T_OPT; x.r.cls = (uint16_t) s.u(2); x.r.ttl = s.flip() ? (uint32_t) s.u(4) : s.flip() ? 0x8000 : 0; x.r.has_rdata = true;
		x.segs.push_back(Seg{false, gen_options(s, s.below(4) != 0)}); x.r.rdata = flat(x.segs); g.recs.push_back(x); g.counts[3]++;
		g.expect = expect_of(g);
	}
	return g;
}
static void p22(Src &s, Case &c) {
	GMsg g = text_msg(s); RMsg &E = g.expect;
	Encoded e1 = encode(s, g, 0), e2 = encode(s, g, 255);
	if (c.want_desc) c.note("packet=%s", hex(e2.b).c_str());
	for (unsigned n : g.counts) { if (n > 9999) c.label("section of 10000 or more records"); else if (n > 999) c.label("section of 1000 to 9999 records"); else if (n > 255) c.label("section of 256 to 999 records"); }
	std::string opt, want = ref_msg_text(E); bool okopt = !E.has_opts || ref_rdata_text(E.opts, T_OPT, 1, &opt);
	std::string t[2];
	// records whose data cannot be rendered (a second OPT record with damaged options) must carry the marker
	std::vector<std::string> bad[4]; bool anybad = false;
	for (int i = 0; i < 2; i++) {
		Exact in(i ? e2.b : e1.b); wdns_message_t m; memset(&m, i ? 0xa5 : 0, sizeof m);
		CHECK(wdns_parse_message(&m, in.p, in.n) == wdns_res_success, "well-formed message rejected");
		struct Guard { wdns_message_t *m; ~Guard() { wdns_clear_message(m); } } gd{&m};
		memset(in.p, 0xdd, in.n);
		t[i] = take(wdns_message_to_str(&m));
		check_msg(m, E); // unchanged
		if (i == 0) for (unsigned k = 0; k < 4; k++) for (size_t j = 0; j < E.sec[k].size(); j++) {
			bool mk; ref_rr_text(E.sec[k][j], k, &mk); bad[k].push_back("");
			if (mk) { anybad = true; bad[k].back() = take(wdns_rr_to_str(&m.sections[k].rrs[j], k)); CHECK(has_marker(bad[k].back()), "malformed data is not flagged: \"%s\"", cstr(bad[k].back()).c_str()); }
		}
		CHECK(printed([&](FILE *f) { wdns_print_message(f, &m); }) == t[i], "printed text differs from the returned one");
		if (i == 0 && s.flip()) for (int k = 0; k < 4; k++) { std::string a = take(wdns_rrset_array_to_str(&m.sections[k], k)); CHECK(t[0].find(a) != std::string::npos, "section text is not part of the message text"); }
	}
	CHECK(t[0] == t[1], "the text depends on the encoding of the message:\n%s\n---\n%s", t[0].c_str(), t[1].c_str());
	if (anybad) want = ref_msg_text(E, [&](unsigned k, size_t j, std::string *o) { *o = bad[k][j]; return !o->empty(); });
	if (okopt) {
		CHECK(norm_text(t[0]) == norm_text(want), "text is\n%s\n--- expected\n%s", cstr(t[0]).c_str(), cstr(want).c_str());
	} else {
		CHECK(has_marker(t[0]), "malformed EDNS options %s are not flagged", hex(E.opts).c_str());
		// everything but the option lines
		std::string a = norm_text(t[0]), b = norm_text(want); size_t qa = a.find("\n;; QUESTION SECTION:"), qb = b.find("\n;; QUESTION SECTION:"), ea = a.find("\n; EDNS:"), eb = b.find("\n; EDNS:");
		CHECK(qa != std::string::npos && ea != std::string::npos && a.substr(qa) == b.substr(qb) && a.substr(0, ea) == b.substr(0, eb), "text is\n%s\n--- expected apart from option lines\n%s", cstr(a).c_str(), cstr(b).c_str());
		size_t la = a.find('\n', ea + 1), lb = b.find('\n', eb + 1); CHECK(a.substr(0, la).compare(0, lb, b, 0, lb) == 0, "EDNS line is %s, expected %s", a.substr(ea, la - ea).c_str(), b.substr(eb, lb - eb).c_str());
		c.label("malformed options");
	}
	size_t n = 0; for (auto &x : E.sec) n += x.size();
	c.nontrivial = n >= 2 || E.edns;
	if (E.edns) c.label("with EDNS"); if (E.has_opts && !E.opts.empty()) c.label("with EDNS options"); if (!ref_opcode_name(E.flags >> 11 & 15)) c.label("numeric opcode"); if (!ref_rcode_name(E.rcode)) c.label("numeric rcode");
}
// all flag words and the response codes reachable with EDNS
static void x22(Case &c) {
	uint64_t n = 0;
	for (unsigned f = 0; f < 65536; f++) {
		bytes b; put16(b, (unsigned) (f * 31 + 7) & 0xffff); put16(b, f); put32(b, 0); put32(b, 0);
		if (f % 3 == 0) { b[11] = 1; b.push_back(0); put16(b, 41); put16(b, f); put32(b, (f * 2654435761u) ^ (f << 24)); put16(b, 0); }
		RMsg E; CHECK(ref_parse(b, &E), "internal");
		Exact in(b); wdns_message_t m; CHECK(wdns_parse_message(&m, in.p, in.n) == wdns_res_success, "message rejected: %s", hex(b).c_str());
		std::string t = take(wdns_message_to_str(&m)); wdns_clear_message(&m);
		CHECK(norm_text(t) == norm_text(ref_msg_text(E)), "packet %s prints as\n%s\n--- expected\n%s", hex(b).c_str(), t.c_str(), ref_msg_text(E).c_str()); n++;
	}
	each_huge_count([&](const bytes &b, const RMsg &E) {
		Exact in(b); wdns_message_t m; CHECK(wdns_parse_message(&m, in.p, in.n) == wdns_res_success, "message of %zu octets rejected", b.size());
		std::string t = norm_text(take(wdns_message_to_str(&m))), want = norm_text(ref_msg_text(E)); wdns_clear_message(&m);
		size_t i = 0; while (i < t.size() && i < want.size() && t[i] == want[i]) i++;
		CHECK(t == want, "the text of a message of %zu/%zu/%zu/%zu records is wrong at character %zu: \"%s\", expected \"%s\"", E.sec[0].size(), E.sec[1].size(), E.sec[2].size(), E.sec[3].size(), i, t.substr(i < 40 ? 0 : i - 40, 80).c_str(), want.substr(i < 40 ? 0 : i - 40, 80).c_str()); n++;
	});
	add_evals(n);
}
static PropReg r22({"P22", p22, "structured messages (all flag words, opcodes and response codes, all record types, OPT records with well-formed and damaged options), parsed from an uncompressed and a compressed encoding and printed; text compared with an independent rendering (blanks before line ends ignored); non-trivial: two records or EDNS", 100000, 2000000, true, 0, x22, 65536, 0});

// ---------------------------------------------------------------- P23
static void expect_line(const std::string &got, const RRec &r, unsigned sec, const char *what) {
	bool marker; std::string want = ref_rr_text(r, sec, &marker);
	if (!marker) { CHECK(norm_text(got) == norm_text(want), "%s: text is \"%s\", expected \"%s\"", what, cstr(got).c_str(), cstr(want).c_str()); return; }
	std::string pre = ref_name_text(r.name) + " " + std::to_string(r.ttl) + " " + ref_class_text(r.cls) + " " + ref_type_text(r.type) + " ";
	CHECK(got.compare(0, pre.size(), pre) == 0 && has_marker(got) && got.back() == '\n', "%s: text of malformed data is \"%s\", expected \"%s\" and the error marker", what, cstr(got).c_str(), cstr(pre).c_str());
}
static void p23(Src &s, Case &c) {
	if (s.below(3) == 0) { // an RRset as read from arbitrary serialized data
		RSet set = any_rrset(s); size_t l;
		if (!ref_valid_name(set.name, 0, set.name.size(), &l) || l != set.name.size()) set.name = gen_name(s);
		if (set.rdatas.size() > 300) set.rdatas.resize(300);
		unsigned sec = s.below(5);
		c.note("RRset name=%s type=%u class=%u ttl=%u items=%zu section=%u", hex(set.name).c_str(), set.type, set.cls, set.ttl, set.rdatas.size(), sec);
		Exact in(ref_serialize(set)); wdns_rrset_t w; CHECK(wdns_deserialize_rrset(&w, in.p, in.n) == wdns_res_success, "serialized RRset rejected"); SetGuard g{&w};
		std::string t = take(wdns_rrset_to_str(&w, sec)), all;
		check_rrset(w, set, "after printing");
		CHECK(printed([&](FILE *f) { wdns_print_rrset(f, &w, sec); }) == t, "printed text differs from the returned one");
		RRec r; r.name = set.name; r.type = set.type; r.cls = set.cls; r.ttl = set.ttl; r.has_rdata = true;
		if (sec == 0) { expect_line(t, r, 0, "question RRset"); c.label("question RRset"); }
		else {
			size_t at = 0;
			for (auto &d : set.rdatas) {
				r.rdata = d; wdns_rr_t w1 = make_rr(r); std::string one = take(wdns_rr_to_str(&w1, sec)); check_rr(w1, r, "after printing");
				std::string pr = printed([&](FILE *f) { wdns_print_rr(f, &w1, sec); }); wdns_clear_rr(&w1);
				CHECK(pr == one, "printed text differs from the returned one");
				expect_line(one, r, sec, "record");
				CHECK(t.compare(at, one.size(), one) == 0, "RRset text differs from its records' text at %zu: \"%s\" vs \"%s\"", at, cstr(t.substr(at)).c_str(), cstr(one).c_str());
				at += one.size();
			}
			CHECK(at == t.size(), "RRset text has more than its records' text: \"%s\"", cstr(t.substr(at)).c_str());
			c.label("RRset");
		}
		c.nontrivial = !set.rdatas.empty();
		return;
	}
	GMsg g = text_msg(s); RMsg &E = g.expect; Encoded e = encode(s, g, g.recs.size() > 1000 ? 255 : 200);
	if (c.want_desc) c.note("packet=%s", hex(e.b).c_str());
	Exact in(e.b); wdns_message_t m; CHECK(wdns_parse_message(&m, in.p, in.n) == wdns_res_success, "well-formed message rejected");
	struct Guard { wdns_message_t *m; ~Guard() { wdns_clear_message(m); } } gd{&m};
	size_t n = 0;
	for (unsigned k = 0; k < 4; k++) {
		wdns_rrset_array_t &a = m.sections[k];
		std::string t = take(wdns_rrset_array_to_str(&a, k)), cat;
		CHECK(printed([&](FILE *f) { wdns_print_rrset_array(f, &a, k); }) == t, "printed section differs from the returned one");
		for (unsigned i = 0; i < a.n_rrs; i++) {
			std::string one = take(wdns_rr_to_str(&a.rrs[i], k)); expect_line(one, E.sec[k][i], k, "record");
			CHECK(printed([&](FILE *f) { wdns_print_rr(f, &a.rrs[i], k); }) == one, "printed record differs from the returned one"); cat += one; n++;
			if (k && s.below(4) == 0) { std::string q = take(wdns_rr_to_str(&a.rrs[i], 0)); expect_line(q, E.sec[k][i], 0, "record as a question"); }
		}
		CHECK(cat == t, "section text is \"%s\", its records \"%s\"", cstr(t).c_str(), cstr(cat).c_str());
		std::vector<RSet> gs = ref_group(E.sec[k], k == 0);
		for (unsigned i = 0; i < a.n_rrsets && i < gs.size(); i++) {
			std::string u = take(wdns_rrset_to_str(&a.rrsets[i], k)), w;
			RRec r; r.name = gs[i].name; r.type = gs[i].type; r.cls = gs[i].cls; r.ttl = gs[i].ttl;
			bool bad = false; if (k == 0) w = ref_rr_text(r, 0); else for (auto &d : gs[i].rdatas) { r.rdata = d; bool mk; w += ref_rr_text(r, k, &mk); bad = bad || mk; }
			CHECK(bad ? has_marker(u) : norm_text(u) == norm_text(w), "RRset text is \"%s\", expected \"%s\"", cstr(u).c_str(), cstr(w).c_str());
			CHECK(printed([&](FILE *f) { wdns_print_rrset(f, &a.rrsets[i], k); }) == u, "printed RRset differs from the returned one");
			if (gs[i].rdatas.size() > 1) c.label("RRset with several records");
		}
	}
	check_msg(m, E);
	c.label("message"); c.nontrivial = n > 1;
}
static PropReg r23({"P23", p23, "records, RRsets and sections of parsed messages and RRsets read from serialized bytes (well-formed and malformed data, 0 to 300 items) printed in every section; compared with an independent rendering, with each other and with the stream output; non-trivial: two records or one item", 100000, 2000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P24
// objects live side by side; a model says what each must hold after every call
struct MObj { bool live = false; wdns_message_t w; RMsg m; std::vector<RSet> sets[4]; };
struct SObj { bool live = false; wdns_rrset_t w; RSet m; };
struct NObj { bool live = false; wdns_name_t w; bytes m; };
struct DObj { uint8_t *p = NULL; bytes m; };
struct TObj { char *p = NULL; std::string m; };
struct World {
	MObj M[3]; SObj S[3]; NObj N[3]; DObj D[3]; TObj T[3];
	World() { for (auto &x : M) memset(&x.w, 0, sizeof x.w); for (auto &x : S) memset(&x.w, 0, sizeof x.w); for (auto &x : N) memset(&x.w, 0, sizeof x.w); }
	~World() {
		for (auto &x : M) wdns_clear_message(&x.w); for (auto &x : S) wdns_clear_rrset(&x.w);
		for (auto &x : N) free(x.w.data); for (auto &x : D) free(x.p); for (auto &x : T) free(x.p);
	}
	void check() {
		char what[40];
		for (int i = 0; i < 3; i++) {
			if (M[i].live) {
				RMsg &E = M[i].m; wdns_message_t &m = M[i].w;
				CHECK(m.id == E.id && m.flags == E.flags && m.rcode == E.rcode && m.edns.present == E.edns, "message %d changed", i);
				if (E.has_opts) CHECK(m.edns.options && rbytes(m.edns.options) == E.opts, "EDNS options of message %d changed", i);
				for (int k = 0; k < 4; k++) {
					CHECK(m.sections[k].n_rrs == E.sec[k].size() && m.sections[k].n_rrsets == M[i].sets[k].size(), "message %d section %d has %u records and %u RRsets, expected %zu and %zu", i, k, m.sections[k].n_rrs, m.sections[k].n_rrsets, E.sec[k].size(), M[i].sets[k].size());
					for (size_t j = 0; j < E.sec[k].size(); j++) { snprintf(what, sizeof what, "message %d section %d record %zu", i, k, j); check_rr(m.sections[k].rrs[j], E.sec[k][j], what); }
					for (size_t j = 0; j < M[i].sets[k].size(); j++) { snprintf(what, sizeof what, "message %d section %d set %zu", i, k, j); check_rrset(m.sections[k].rrsets[j], M[i].sets[k][j], what); }
				}
			}
			if (S[i].live) { snprintf(what, sizeof what, "RRset %d", i); check_rrset(S[i].w, S[i].m, what); }
			if (N[i].live) CHECK(nbytes(N[i].w) == N[i].m, "name %d changed to %s", i, hex(nbytes(N[i].w)).c_str());
			if (D[i].p) CHECK(bytes((char *) D[i].p, D[i].m.size()) == D[i].m, "data %d changed", i);
			if (T[i].p) CHECK(T[i].m == T[i].p, "string %d changed", i);
		}
	}
};
static RSet model_fold(const RSet &in, bool *ok) { RSet o = in; *ok = true; o.name = ref_lower(in.name); for (auto &d : o.rdatas) { bool k; bytes f = ref_fold_rdata(d, in.type, in.cls, &k); if (!k) { *ok = false; break; } d = f; } return o; }
static void model_sort(RSet &r) { std::stable_sort(r.rdatas.begin(), r.rdatas.end(), canon_less); }
static void p24(Src &s, Case &c) {
	unsigned kinds = 0, failed = 0, steps = 2 + s.small(g_tier ? 60 : 30);
	{
		World W;
		for (unsigned st = 0; st < steps; st++) {
			unsigned op = s.below(20), i = s.below(3); kinds |= 1u << op;
			MObj &m = W.M[i]; SObj &r = W.S[i]; NObj &n = W.N[i]; DObj &d = W.D[i]; TObj &t = W.T[i];
			switch (op) {
			case 0: case 1: { // parse, successfully or not, into a cleared message
				wdns_clear_message(&m.w); m.live = false;
				bytes pkt = s.below(4) ? encode(s, gen_msg(s, 6, GR_TRUNC), 128).b : gen_packet(s, 5);
				RMsg E; bool ok = ref_parse(pkt, &E); c.note("[%u] parse into message %u (%s)", st, i, ok ? "well-formed" : "malformed");
				Exact in(pkt); wdns_res q = wdns_parse_message(&m.w, in.p, in.n); memset(in.p, 0xee, in.n);
				CHECK((q == wdns_res_success) == ok, "message is %s but the parser says %s: %s", ok ? "well-formed" : "malformed", wdns_res_to_str(q), hex(pkt).c_str());
				if (ok) { m.live = true; m.m = E; for (int k = 0; k < 4; k++) m.sets[k] = ref_group(E.sec[k], k == 0); } else failed++;
				break;
			}
			case 2: c.note("[%u] clear message %u", st, i); wdns_clear_message(&m.w); m.live = false; check_cleared(m.w); if (s.flip()) wdns_clear_message(&m.w); break;
			case 3: { // part of a message
				if (!m.live) break; unsigned k = s.below(4); c.note("[%u] clear section %u of message %u", st, k, i);
				wdns_clear_rrset_array(&m.w.sections[k]); m.m.sec[k].clear(); m.sets[k].clear(); if (s.flip()) wdns_clear_rrset_array(&m.w.sections[k]); break;
			}
			case 4: { // deserialize
				wdns_clear_rrset(&r.w); r.live = false; bytes b = s.below(3) ? ref_serialize(gen_rrset(s, GR_TRUNC, 5)) : any_serial(s); RSet E; bool ok = ref_deserialize(b, &E);
				c.note("[%u] deserialize into RRset %u (%s)", st, i, ok ? "complete" : "incomplete");
				Exact in(b); wdns_res q = wdns_deserialize_rrset(&r.w, in.p, in.n); memset(in.p, 0xee, in.n);
				CHECK((q == wdns_res_success) == ok, "deserializing %s: %s", hex(b).c_str(), wdns_res_to_str(q));
				if (ok) { r.live = true; r.m = E; } else failed++;
				break;
			}
			case 5: { // an RRset of a message by way of its serialized form
				if (!m.live) break; unsigned k = 1 + s.below(3); if (!m.w.sections[k].n_rrsets) break; unsigned j = s.below(m.w.sections[k].n_rrsets), o = s.below(3); c.note("[%u] copy RRset %u of message %u section %u into RRset %u", st, j, i, k, o);
				size_t z; wdns_serialize_rrset(&m.w.sections[k].rrsets[j], NULL, &z); Exact b(z, 0); wdns_serialize_rrset(&m.w.sections[k].rrsets[j], b.p, &z);
				wdns_clear_rrset(&W.S[o].w); CHECK(wdns_deserialize_rrset(&W.S[o].w, b.p, b.n) == wdns_res_success, "copying an RRset failed"); W.S[o].live = true; W.S[o].m = m.sets[k][j]; break;
			}
			case 6: c.note("[%u] clear RRset %u", st, i); wdns_clear_rrset(&r.w); r.live = false; CHECK(!r.w.n_rdatas && !r.w.rdatas && !r.w.name.data, "RRset not empty after clear"); if (s.flip()) wdns_clear_rrset(&r.w); break;
			case 7: if (r.live) { c.note("[%u] sort RRset %u", st, i); wdns_sort_rrset(&r.w); model_sort(r.m); } break;
			case 8: if (r.live) {
				size_t l; if (!ref_valid_name(r.m.name, 0, r.m.name.size(), &l) || l != r.m.name.size()) break;
				c.note("[%u] fold RRset %u", st, i); bool ok; RSet f = model_fold(r.m, &ok); wdns_res q = wdns_downcase_rrset(&r.w); CHECK((q == wdns_res_success) == ok, "folding: %s", wdns_res_to_str(q));
				if (ok) r.m = f; else { failed++; wdns_clear_rrset(&r.w); r.live = false; } } break;
			case 9: { // sort or fold inside a message: the records beside it stay
				if (!m.live) break; unsigned k = 1 + s.below(3); if (!m.w.sections[k].n_rrsets) break; unsigned j = s.below(m.w.sections[k].n_rrsets); c.note("[%u] sort and fold RRset %u of message %u section %u", st, j, i, k);
				wdns_sort_rrset(&m.w.sections[k].rrsets[j]); model_sort(m.sets[k][j]); W.check();
				if (s.flip()) { bool ok; RSet f = model_fold(m.sets[k][j], &ok); wdns_res q = wdns_downcase_rrset(&m.w.sections[k].rrsets[j]); CHECK((q == wdns_res_success) == ok, "folding: %s", wdns_res_to_str(q)); if (ok) m.sets[k][j] = f; else m.sets[k][j] = from_rrset(m.w.sections[k].rrsets[j]); }
				break;
			}
			case 10: { // fold one record
				if (!m.live) break; unsigned k = s.below(4); if (!m.w.sections[k].n_rrs) break; unsigned j = s.below(m.w.sections[k].n_rrs); c.note("[%u] fold record %u of message %u section %u", st, j, i, k);
				wdns_rr_t &x = m.w.sections[k].rrs[j]; RRec &e = m.m.sec[k][j]; wdns_downcase_name(&x.name); e.name = ref_lower(e.name);
				if (x.rdata) { bool ok; bytes f = ref_fold_rdata(e.rdata, e.type, e.cls, &ok); wdns_res q = wdns_downcase_rdata(x.rdata, x.rrtype, x.rrclass); CHECK((q == wdns_res_success) == ok, "folding: %s", wdns_res_to_str(q)); e.rdata = ok ? f : rbytes(x.rdata); }
				break;
			}
			case 11: { // take a record out by clearing it alone
				if (!m.live) break; unsigned k = s.below(4); if (!m.w.sections[k].n_rrs) break; c.note("[%u] clear the last record of message %u section %u", st, i, k);
				wdns_rr_t *x = &m.w.sections[k].rrs[m.w.sections[k].n_rrs - 1]; wdns_clear_rr(x); CHECK(!x->name.data && !x->rdata, "record not empty after clear"); wdns_clear_rr(x); m.w.sections[k].n_rrs--; m.m.sec[k].pop_back(); break;
			}
			case 12: { // keep a string while others come and go
				free(t.p); t.p = NULL; unsigned k = s.below(4);
				switch (s.below(4)) {
				case 0: if (m.live) t.p = wdns_message_to_str(&m.w); break;
				case 1: if (m.live) t.p = wdns_rrset_array_to_str(&m.w.sections[k], k); break;
				case 2: if (r.live) t.p = wdns_rrset_to_str(&r.w, 1 + s.below(3)); break;
				case 3: if (m.live && m.w.sections[k].n_rrs) t.p = wdns_rr_to_str(&m.w.sections[k].rrs[s.below(m.w.sections[k].n_rrs)], k); break;
				}
				if (t.p) { t.m = t.p; c.note("[%u] string %u from object %u", st, i, i); } break;
			}
			case 13: if (t.p) { free(t.p); t.p = NULL; } break;
			case 14: { // name from text
				free(n.w.data); memset(&n.w, 0, sizeof n.w); n.live = false;
				bytes nm = gen_name(s); std::string txt = ref_name_text(nm); if (s.below(4) == 0) { txt.insert(s.below((uint32_t) txt.size() + 1), s.flip() ? ".." : "\\"); }
				bytes e; bool ok = ref_text_name(txt, &e); ExactStr in(txt); wdns_name_t x; memset(&x, 0, sizeof x); c.note("[%u] name %u from text \"%s\"", st, i, cstr(txt).c_str());
				wdns_res q = wdns_str_to_name_case(in.p, &x); CHECK((q == wdns_res_success) == ok, "text \"%s\": %s", cstr(txt).c_str(), wdns_res_to_str(q));
				if (ok) { n.w = x; n.m = e; n.live = true; } else failed++;
				break;
			}
			case 15: if (n.live) { // views into a name share its memory by design and own nothing
				wdns_name_t ch; wdns_res q = wdns_left_chop(&n.w, &ch); CHECK(q == wdns_res_success, "chopping %s: %s", hex(n.m).c_str(), wdns_res_to_str(q)); bool is = false; size_t lab;
				CHECK(wdns_is_subdomain(&n.w, &ch, &is) == wdns_res_success && is == (n.m.size() > 1), "%s is not below its parent", hex(n.m).c_str()); CHECK(wdns_count_labels(&n.w, &lab) == wdns_res_success, "counting labels failed");
				if (s.flip()) { wdns_downcase_name(&n.w); n.m = ref_lower(n.m); } } break;
			case 16: { // record data from text
				free(d.p); d.p = NULL; uint16_t ty = gen_known_type(s, false); bytes rd = flat(gen_rdata(s, ty, 1, GR_CANON)); ExactStr *in; std::string txt; if (!ref_rdata_text(rd, ty, 1, &txt)) break; bool dam = s.below(4) == 0; if (dam) txt += " @@@ \\300";
				in = new ExactStr(txt); size_t z; uint8_t *p = NULL; wdns_res q = wdns_str_to_rdata(in->p, ty, 1, &p, &z); delete in; c.note("[%u] data %u from text of type %u", st, i, ty);
				if (q == wdns_res_success) { d.p = p; d.m = bytes((char *) p, z); if (!dam) CHECK(d.m == rd, "type %u text \"%s\" read as %s, expected %s", ty, cstr(txt).c_str(), hex(d.m).c_str(), hex(rd).c_str()); } else failed++;
				break;
			}
			case 17: if (d.p) { Exact e(d.m); uint16_t ty = gen_known_type(s, true); free(wdns_rdata_to_str(e.p, (uint16_t) (e.n > 65535 ? 65535 : e.n), ty, 1)); } break;
			case 18: if (m.live) { printed([&](FILE *f) { wdns_print_message(f, &m.w); }); } break;
			case 19: if (m.live && r.live) { unsigned k = 1 + s.below(3); if (m.w.sections[k].n_rrs) { wdns_rr_t &x = m.w.sections[k].rrs[0]; bool same = x.rrtype == r.w.rrtype && x.rrclass == r.w.rrclass && ref_lower(nbytes(x.name)) == ref_lower(nbytes(r.w.name));
				size_t l; if (ref_valid_name(r.m.name, 0, r.m.name.size(), &l) && l == r.m.name.size()) CHECK(wdns_compare_rr_rrset(&x, &r.w) == same, "comparison says %d", !same); } } break;
			}
			W.check();
		}
	}
	unsigned nk = (unsigned) __builtin_popcount(kinds); c.nontrivial = nk >= 4 && steps >= 5;
	if (failed) c.label("with failed calls"); if (nk >= 8) c.label("eight or more kinds of call");
}
static PropReg r24({"P24", p24, "histories of 2 to 60 calls over three messages, RRsets, names, data blocks and strings: parsing, deserializing and reading text (also failing), copying between objects, sorting, folding, printing, comparing, clearing parts and wholes, repeated clears; every live object compared with a model after each call, inputs overwritten and freed at once, no allocation left at the end; non-trivial: five calls of four kinds", 160000, 3000000, true, 0, NULL, 0, 0});
