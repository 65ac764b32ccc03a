#include "../wapi.h"

static bytes huge_packet(Src &s) {
	// many small records, past 64 KiB in total
	bytes b = s.raw(4); put16(b, s.below(3)); put16(b, 65535 - s.below(2)); put16(b, s.below(3)); put16(b, 65535);
	unsigned n = s.range(800, 4000), mode = s.below(4);
	for (unsigned i = 0; i < n; i++) {
		switch (mode) {
		case 0: b += bytes(1, 0); break;
		case 1: put16(b, 0xc000 | (i ? (12 + (i * 12 > 16000 ? 0 : 0)) : 4)); break;
		case 2: b.push_back(2); put16(b, i); b.push_back(0); break;
		case 3: b.push_back(63); b += bytes(63, 'x'); put16(b, 0xc000 | (b.size() > 16000 ? 12 : (unsigned) b.size() - 64 - (b.size() > 200 ? 64 : 0))); break;
		}
		put16(b, i % 3 ? 16 : i % 300); put16(b, 1); put32(b, i); size_t l = s.replay && s.pos >= s.len ? 0 : i % 7 ? 5 : 0; put16(b, (unsigned) l); if (l) { b.push_back(4); b += bytes(4, (char) i); }
	}
	if (s.flip()) b.resize(b.size() - s.below(12));
	return b;
}

static bytes near_packet(Src &s) {
	// boundary cases around the rules of acceptance
	bytes b = s.raw(4);
	switch (s.below(7)) {
	case 5: { // a chain of pointers, each to the one before, with labels here and there
		put16(b, 1); put16(b, 1); put16(b, 0); put16(b, 0);
		bytes nm = gen_name(s); b += nm; put16(b, 16); put16(b, 1);
		b.push_back(0); put16(b, 65280); put16(b, 1); put32(b, 0); size_t lp = b.size(); put16(b, 0);
		size_t last = 12, n = 1 + (s.flip() ? s.small(200) : s.below(4000)), labs = s.below(4) ? s.below(140) : 0;
		for (size_t i = 0; i < n && b.size() < 16384; i++) { size_t at = b.size(); if (i < labs) { b.push_back(1); b.push_back((char) ('a' + i % 26)); } put16(b, 0xc000 | (unsigned) last); last = at; }
		b[lp] = (char) ((b.size() - lp - 2) >> 8); b[lp + 1] = (char) (b.size() - lp - 2); b[7] = 2;
		put16(b, 0xc000 | (unsigned) last); put16(b, 65281); put16(b, 1); put32(b, 0); put16(b, 0); break;
	}
	case 0: { // one name of about 255 octets, ended by root or pointer
		put16(b, 1); put16(b, 0); put16(b, 0); put16(b, 0);
		size_t total = 250 + s.below(10), used = 0;
		while (used < total) { size_t n = total - used - 1; if (n > 63) n = 63; if (n == 0) break; b.push_back((char) n); b += bytes(n, 'a'); used += n + 1; }
		if (s.flip()) b.push_back(0); else put16(b, 0xc000 | s.below(12));
		put16(b, 1); put16(b, 1); break;
	}
	case 1: { // rdata ending at every position of a known layout
		put16(b, 0); put16(b, 1); put16(b, 0); put16(b, 0); b.push_back(0);
		uint16_t t = gen_known_type(s, true), k = s.below(4) ? 1 : gen_class(s);
		bytes rd = flat(gen_rdata(s, t, k, GR_SVCLEN)); if (s.below(3)) rd.resize(s.below((uint32_t) rd.size() + 1)); if (s.below(4) == 0) rd += s.raw(1);
		put16(b, t); put16(b, k); put32(b, 5); put16(b, (unsigned) rd.size()); b += rd; break;
	}
	case 2: { // compressed names in the record data, cut close to the end
		put16(b, 0); put16(b, 1); put16(b, s.below(2)); put16(b, 0); b.push_back(0);
		static const uint16_t ts[] = {2, 6, 14, 15, 33, 46, 47, 64, 26, 35, 38, 39};
		uint16_t t = ts[s.below(12)]; put16(b, t); put16(b, 1); put32(b, 5);
		bytes rd = flat(gen_rdata(s, t, 1, 0)); size_t cut = s.below((uint32_t) rd.size() + 1); rd.resize(cut); put16(rd, 0xc000 | s.below(40)); if (s.flip()) rd += s.raw(s.below(20));
		put16(b, (unsigned) (rd.size() - (s.below(3) == 0 ? s.below((uint32_t) rd.size() + 1) : 0))); b += rd; break;
	}
	case 3: { // service parameters with extreme lengths
		put16(b, 0); put16(b, 1); put16(b, 0); put16(b, 0); b.push_back(0); put16(b, 64 + s.below(2)); put16(b, 1); put32(b, 5);
		bytes rd; put16(rd, 1); rd.push_back(0);
		if (s.flip()) { put16(rd, 3); put16(rd, 2); put16(rd, 53); }
		if (s.flip()) { unsigned l = s.below(s.flip() ? 6 : 40); put16(rd, s.below(9)); put16(rd, l); rd += s.flip() ? bytes(l, 0) : gen_blob(s, l); put16(b, (unsigned) rd.size()); b += rd; break; }
		put16(rd, s.below(10)); unsigned l = s.below(3) ? 65536 - 1 - s.below(12) : s.below(30); put16(rd, l);
		size_t have = s.below(3) == 0 ? 65535 - rd.size() - s.below(3) : s.below(20); rd += gen_blob(s, have);
		if (rd.size() > 65535) rd.resize(65535);
		put16(b, (unsigned) rd.size()); b += rd; if (s.flip()) b += gen_blob(s, s.below(200)); break;
	}
	case 4: { // record data that grows past 65535 octets when its names are expanded
		put16(b, 1); put16(b, 1); put16(b, 0); put16(b, 0);
		for (int i = 0; i < 3; i++) { b.push_back(63); b += bytes(63, 'n'); } b.push_back(0); put16(b, 1); put16(b, 1);
		b.push_back(0); put16(b, s.flip() ? 30 : 64); put16(b, 1); put32(b, 5);
		uint16_t t = get16(b, b.size() - 8);
		bytes rd; if (t == 64) put16(rd, 1); put16(rd, 0xc00c);
		size_t target = 65535 - 193 - s.below(400) + 200; // around the limit after expansion
		if (target > 65535) target = 65535;
		if (t == 30) { if (rd.size() < target) rd += bytes(target - rd.size(), 7); }
		else { size_t l = target - rd.size() - 4; put16(rd, 9); put16(rd, (unsigned) l); rd += bytes(l, 7); }
		put16(b, (unsigned) rd.size()); b += rd; break;
	}
	default: { // counts larger or smaller than the records present
		GMsg g = gen_msg(s, 6); Encoded e = encode(s, g, 128); b = e.b;
		for (int i = 0; i < 4; i++) if (s.flip()) { int d = (int) s.below(5) - 2; unsigned v = get16(b, 4 + 2 * i) + d; b[4 + 2 * i] = (char) (v >> 8); b[5 + 2 * i] = (char) v; }
	}
	}
	return b;
}
static void p01(Src &s, Case &c) {
	bytes pkt = s.below(2000) == 1999 ? huge_packet(s) : s.below(6) == 5 ? near_packet(s) : gen_packet(s, g_tier ? 120 : 30);
	Exact in(pkt);
	c.note("packet=%s", hex(pkt).c_str());
	wdns_message_t m; memset(&m, 0xa5, sizeof m);
	wdns_res r = wdns_parse_message(&m, in.p, in.n);
	CHECK(known_res(r), "undocumented result %d", (int) r);
	CHECK(in.str() == pkt, "input was modified");
	size_t recs = 0;
	if (r == wdns_res_success) {
		for (auto &sec : m.sections) recs += sec.n_rrs;
		wdns_clear_message(&m); c.label("accepted");
	} else c.label("rejected");
	check_cleared(m);
	wdns_clear_message(&m);
	check_cleared(m);
	c.nontrivial = pkt.size() > 12 && (get16(pkt, 4) | get16(pkt, 6) | get16(pkt, 8) | get16(pkt, 10));
	if (recs > 3) c.label("accepted with more than 3 records");
	if (pkt.size() > 65536) c.label("past 64 KiB");
}
static void x01(Case &) { // every damaged record of the sweep, as the last thing of a message
	uint64_t n = 0;
	each_rdata([&](uint16_t t, uint16_t k, const bytes &rd) {
		if (rd.size() > 65535) return;
		bytes b("\0\1\x80\0\0\0\0\1\0\0\0\0\0", 13); put16(b, t); put16(b, k); put32(b, 5); put16(b, (unsigned) rd.size()); b += rd;
		Exact in(b); wdns_message_t m; wdns_res r = wdns_parse_message(&m, in.p, in.n); n++;
		CHECK(known_res(r), "undocumented result %d; packet=%s", (int) r, hex(b).c_str());
		wdns_clear_message(&m);
	});
	add_evals(n);
}
static PropReg r01({"P01", p01, "byte strings: random, random after a plausible header, encoded messages (plain, with damaged record data, truncated, with planted pointers, changed lengths and counts), boundary constructions (extreme lengths, growth past 65535 octets) and 64 KiB+ record floods, each in an exactly sized heap buffer; non-trivial: longer than a header and announcing at least one record; and a fixed sweep of damaged record data of every type at the end of a message", 300000, 6000000, true, 0, x01, 1, 0});

static void parse_and_check(const bytes &pkt, const RMsg &want, const char *how) {
	Exact in(pkt);
	wdns_message_t m;
	wdns_res r = wdns_parse_message(&m, in.p, in.n);
	CHECK(r == wdns_res_success, "well-formed message (%s) rejected: %s; packet=%s", how, wdns_res_to_str(r), hex(pkt).c_str());
	struct Guard { wdns_message_t *m; ~Guard() { wdns_clear_message(m); } } g{&m};
	check_msg(m, want);
}
static size_t nrec(const RMsg &m) { size_t n = 0; for (auto &s : m.sec) n += s.size(); return n; }

static void label_size(Case &c, const GMsg &g) {
	for (unsigned n : g.counts) { if (n > 9999) c.label("section of 10000 or more records"); else if (n > 999) c.label("section of 1000 to 9999 records"); else if (n > 255) c.label("section of 256 to 999 records"); }
}
static void p02(Src &s, Case &c) {
	GMsg g; if (!gen_massive(s, &g)) g = gen_msg(s, g_tier ? 60 : 24);
	Encoded plain = encode(s, g, 0);
	static const unsigned comps[] = {255, 128, 220, 60};
	unsigned ck = s.below(5); Encoded comp = encode(s, g, ck == 4 ? 255 | COMP_CHAIN : comps[ck]);
	if (c.want_desc) c.note("compressed packet=%s; records: %s", hex(comp.b).c_str(), show(g.expect).c_str());
	label_size(c, g);
	parse_and_check(plain.b, g.expect, "uncompressed");
	parse_and_check(comp.b, g.expect, "compressed");
	if (s.below(4) == 0) { parse_and_check(comp.b + s.raw(1 + s.below(5)), g.expect, "with trailing octets"); }
	c.nontrivial = nrec(g.expect) >= 2 && comp.pointers > 0;
	if (comp.pointers) c.label("with compression pointers");
	if (comp.ptrptr) c.label("with pointers to pointers");
	if (g.expect.edns) c.label("with EDNS");
	if (plain.b.size() > 16384) c.label("past 16 KiB");
	for (auto &x : g.recs) if (x.sec) switch (mode_of(x.r.type, x.r.cls)) { case M_GENERIC: c.label("record of unknown type"); break; case M_FOREIGN: c.label("record of class-specific type in another class"); break; default: c.label("record of known type"); }
}
static void x02(Case &) {
	uint64_t n = 0; each_huge_count([&](const bytes &pkt, const RMsg &m) { parse_and_check(pkt, m, "sections of up to 65535 records"); n++; }); add_evals(n);
}
static PropReg r02({"P02", p02, "structured messages over all record types, classes and unknown types, each encoded without compression and with randomly chosen legal compression (incl. pointers to pointers and into record data), parsed and compared field by field with the encoded records, and a fixed sweep of sections of up to 65535 records; non-trivial: at least two records and one pointer", 60000, 1500000, true, 0, x02, 1, 0});

static void p03(Src &s, Case &c) {
	bytes pkt = s.below(3) == 2 ? near_packet(s) : gen_packet(s, 12);
	RMsg want; std::string why;
	bool ok = ref_parse(pkt, &want, &why);
	c.note("packet=%s; expected %s", hex(pkt).c_str(), ok ? "accepted" : why.c_str());
	Exact in(pkt);
	wdns_message_t m; wdns_res r = wdns_parse_message(&m, in.p, in.n);
	struct Guard { wdns_message_t *m; ~Guard() { wdns_clear_message(m); } } g{&m};
	CHECK((r == wdns_res_success) == ok, "message is %s (%s) but the parser says %s; packet=%s", ok ? "well-formed" : "malformed", why.c_str(), wdns_res_to_str(r), hex(pkt).c_str());
	if (ok) { check_msg(m, want); c.label("well-formed"); }
	else {
		if (why == "bad owner name") c.label("bad owner name"); else if (why == "fixed part truncated") c.label("fixed part truncated");
		else if (why == "rdata truncated") c.label("record data truncated"); else if (why == "bad name in rdata") c.label("bad name in record data");
		else if (why == "name runs past rdata") c.label("name runs past record data"); else if (why == "field truncated or malformed") c.label("field truncated or malformed");
		else if (why == "octets left over") c.label("octets left over"); else if (why == "expanded rdata too long") c.label("expanded data too long"); else c.label("short header");
	}
	c.nontrivial = pkt.size() > 12 && (get16(pkt, 4) | get16(pkt, 6) | get16(pkt, 8) | get16(pkt, 10));
}
static void x03(Case &) {
	uint64_t n = 0;
	each_rdata([&](uint16_t t, uint16_t k, const bytes &rd) {
		if (rd.size() > 65535) return;
		bytes pkt("\0\1\x81\x80\0\0\0\1\0\0\0\0\1z\0", 15); put16(pkt, t); put16(pkt, k); put32(pkt, 300); put16(pkt, (unsigned) rd.size()); pkt += rd;
		RMsg want; std::string why; bool ok = ref_parse(pkt, &want, &why);
		Exact in(pkt); wdns_message_t m; wdns_res r = wdns_parse_message(&m, in.p, in.n);
		struct Guard { wdns_message_t *m; ~Guard() { wdns_clear_message(m); } } g{&m};
		CHECK((r == wdns_res_success) == ok, "message is %s (%s) but the parser says %s; packet=%s", ok ? "well-formed" : "malformed", why.c_str(), wdns_res_to_str(r), hex(pkt).c_str());
		if (ok) check_msg(m, want);
		n++;
	});
	add_evals(n);
}
static PropReg r03({"P03", p03, "messages from well-formed to damaged, with boundary constructions (names near 255 octets, data cut at every offset, extreme service parameter lengths, data growing past 65535 octets, counts off by a few), and a fixed sweep of every cut, boundary value and counted length of record data of all types; acceptance and content compared with an independent reference parser; non-trivial: longer than a header and announcing a record", 200000, 4000000, true, 0, x03, 1, 0});

static void p04(Src &s, Case &c) {
	// few names, types and classes, so that records meet
	GMsg g; bool mass = gen_massive(s, &g); if (!mass) {
	g.id = 1; std::vector<bytes> names; unsigned nn = 1 + s.below(4);
	while (nn--) names.push_back(gen_name(s));
	std::vector<uint16_t> types; for (int i = 0; i < 3; i++) types.push_back(s.below(3) ? (uint16_t) (i ? 16 : 1) : gen_type(s));
	static const uint16_t cls[] = {1, 1, 3, 255};
	unsigned total = 0;
	for (unsigned sec = 0; sec < 4; sec++) {
		g.counts[sec] = s.below(3) ? s.below(7) : s.small(30);
		for (unsigned i = 0; i < g.counts[sec]; i++) {
			GRec x; x.sec = sec; x.r.name = gen_caseflip(s, s.pick(names)); x.r.type = s.pick(types); x.r.cls = cls[s.below(4)];
			if (s.below(6) == 0) { // same length, one bit of one octet of one label different
				bytes t = x.r.name; size_t n = 0; for (size_t j = 0; j < t.size() && t[j]; j += u8at(t, j) + 1) n++;
				if (n) { size_t k = s.below((uint32_t) n), j = 0; while (k--) j += u8at(t, j) + 1; size_t o = j + 1 + s.below(u8at(t, j)); t[o] = (char) (t[o] ^ 1 << s.below(8)); x.r.name = t; }
			}
			if (s.below(8) == 7) { if (s.flip()) x.r.cls ^= 1 << s.below(16); else x.r.type ^= 1 << s.below(16); }   // one bit different
			if (x.r.type == T_OPT) x.r.type = 1;
			if (sec) { x.r.ttl = s.below(3) ? s.below(10) : (uint32_t) s.u(4); x.segs = gen_rdata(s, x.r.type, x.r.cls, GR_TRUNC); x.r.rdata = flat(x.segs); x.r.has_rdata = true; }
			g.recs.push_back(x); total++;
		}
	}
	}
	g.expect = expect_of(g);
	Encoded e = encode(s, g, mass ? 255 | (s.flip() ? COMP_CHAIN : 0) : 200);
	if (c.want_desc) c.note("records: %s", show(g.expect).c_str());
	label_size(c, g);
	bool multi = false, several = false;
	for (int i = 1; i < 4; i++) { auto v = ref_group(g.expect.sec[i], false); if (v.size() > 1) several = true; for (auto &x : v) if (x.rdatas.size() > 1) multi = true; }
	c.nontrivial = multi && several;
	if (multi) c.label("an RRset with several records");
	Exact in(e.b); wdns_message_t m; wdns_res r = wdns_parse_message(&m, in.p, in.n);
	CHECK(r == wdns_res_success, "well-formed message rejected: %s", wdns_res_to_str(r));
	struct Guard { wdns_message_t *m; ~Guard() { wdns_clear_message(m); } } gd{&m};
	check_msg(m, g.expect);
	// the comparison function agrees on every pair of record and RRset
	unsigned pairs = 0;
	for (int i = 0; i < 4 && pairs < 400; i++) for (unsigned a = 0; a < m.sections[i].n_rrs && pairs < 4000; a++) for (int j = 0; j < 4 && pairs < 400; j++) for (unsigned b = 0; b < m.sections[j].n_rrsets; b++) {
		const wdns_rr_t &x = m.sections[i].rrs[a]; const wdns_rrset_t &y = m.sections[j].rrsets[b];
		bool same = x.rrtype == y.rrtype && x.rrclass == y.rrclass && ref_lower(nbytes(x.name)) == ref_lower(nbytes(y.name));
		CHECK(wdns_compare_rr_rrset(&x, &y) == same, "comparison of record %s with RRset %s/%u/%u says %d", show(from_rr(x)).c_str(), hex(nbytes(y.name)).c_str(), y.rrtype, y.rrclass, !same);
		pairs++;
	}
	add_evals(pairs);
}
static PropReg r04({"P04", p04, "messages with many records over few names (case variants and one-bit differences), types, classes and TTLs; RRsets of every section and every record/RRset comparison against a reference grouping; non-trivial: a section with several RRsets, one of them with several records", 60000, 1500000, true, 0, x02, 1, 0});

static void p05(Src &s, Case &c) {
	GMsg g; g.id = (uint16_t) s.u(2); g.flags = (uint16_t) s.u(2); unsigned nopt = 0;
	for (unsigned sec = 0; sec < 4; sec++) {
		g.counts[sec] = s.below(4);
		for (unsigned i = 0; i < g.counts[sec]; i++) {
			GRec x; x.sec = sec; bool opt = s.below(sec == 3 ? 2 : 5) == 0;
			x.r.name = opt && s.below(3) ? bytes(1, 0) : gen_name(s); x.r.type = opt ? T_OPT : gen_type(s); x.r.cls = opt ? (uint16_t) s.u(2) : gen_class(s);
			if (sec) { x.r.ttl = (uint32_t) s.u(4); x.r.has_rdata = true; if (opt) x.segs.push_back(Seg{false, s.below(5) ? gen_options(s, false) : gen_blob(s, gen_len(s, 60))}); else x.segs = gen_rdata(s, x.r.type, x.r.cls, GR_TRUNC); x.r.rdata = flat(x.segs); }
			if (opt) nopt++;
			g.recs.push_back(x);
		}
	}
	g.expect = expect_of(g);
	Encoded e = encode(s, g, 128);
	c.note("records: %s, packet=%s", show(g.expect).c_str(), hex(e.b).c_str());
	parse_and_check(e.b, g.expect, "with OPT records");
	c.nontrivial = nopt > 0;
	if (nopt > 1) c.label("several OPT records"); else if (nopt) c.label("one OPT record"); else c.label("no OPT record");
	if (g.expect.edns && !g.expect.has_opts) c.label("OPT in the question section");
	if (g.expect.edns && g.expect.rcode > 15) c.label("extended response code");
}
static PropReg r05({"P05", p05, "messages with zero or more OPT records in any section, arbitrary UDP size, extended response code, version, flags and options; compared with a reference; non-trivial: at least one OPT record", 150000, 4000000, true, 0, NULL, 0, 0});
