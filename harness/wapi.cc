#include "wapi.h"

bool known_res(wdns_res r) { return (int) r >= (int) wdns_res_success && (int) r <= (int) wdns_res_unknown_rcode; }
void check_rr(const wdns_rr_t &g, const RRec &w, const char *what) {
	CHECK(nbytes(g.name) == w.name, "%s: owner name is %s, expected %s", what, hex(nbytes(g.name)).c_str(), hex(w.name).c_str());
	CHECK(g.rrtype == w.type && g.rrclass == w.cls, "%s: type/class is %u/%u, expected %u/%u", what, g.rrtype, g.rrclass, w.type, w.cls);
	CHECK(g.rrttl == w.ttl, "%s: ttl is %u, expected %u", what, g.rrttl, w.ttl);
	CHECK((g.rdata != NULL) == w.has_rdata, "%s: record data %s", what, g.rdata ? "present" : "missing");
	if (g.rdata) CHECK(rbytes(g.rdata) == w.rdata, "%s (type %u class %u): record data is %s, expected %s", what, w.type, w.cls, hex(rbytes(g.rdata)).c_str(), hex(w.rdata).c_str());
}
void check_rrset(const wdns_rrset_t &g, const RSet &w, const char *what) {
	CHECK(nbytes(g.name) == w.name, "%s: RRset name is %s, expected %s", what, hex(nbytes(g.name)).c_str(), hex(w.name).c_str());
	CHECK(g.rrtype == w.type && g.rrclass == w.cls, "%s: RRset type/class is %u/%u, expected %u/%u", what, g.rrtype, g.rrclass, w.type, w.cls);
	CHECK(g.rrttl == w.ttl, "%s: RRset ttl is %u, expected %u", what, g.rrttl, w.ttl);
	CHECK(g.n_rdatas == w.rdatas.size(), "%s: RRset has %u data items, expected %zu", what, g.n_rdatas, w.rdatas.size());
	for (size_t i = 0; i < w.rdatas.size(); i++) {
		CHECK(g.rdatas && g.rdatas[i], "%s: RRset data item %zu missing", what, i);
		CHECK(rbytes(g.rdatas[i]) == w.rdatas[i], "%s: RRset data item %zu is %s, expected %s", what, i, hex(rbytes(g.rdatas[i])).c_str(), hex(w.rdatas[i]).c_str());
	}
}
void check_msg(const wdns_message_t &m, const RMsg &w) {
	CHECK(m.id == w.id && m.flags == w.flags, "id/flags are %04x/%04x, expected %04x/%04x", m.id, m.flags, w.id, w.flags);
	CHECK(m.rcode == w.rcode, "rcode is %u, expected %u", m.rcode, w.rcode);
	unsigned f = (unsigned) (WDNS_FLAGS_QR(m) << 15 | WDNS_FLAGS_OPCODE(m) << 11 | WDNS_FLAGS_AA(m) << 10 | WDNS_FLAGS_TC(m) << 9 | WDNS_FLAGS_RD(m) << 8 | WDNS_FLAGS_RA(m) << 7 | WDNS_FLAGS_Z(m) << 6 | WDNS_FLAGS_AD(m) << 5 | WDNS_FLAGS_CD(m) << 4);
	CHECK(f == (w.flags & ~15u) && WDNS_FLAGS_RCODE(m) == w.rcode, "the flag macros give %04x and response code %u, expected %04x and %u", f, (unsigned) WDNS_FLAGS_RCODE(m), w.flags & ~15u, w.rcode);
	CHECK(m.edns.present == w.edns, "EDNS present is %d, expected %d", m.edns.present, w.edns);
	if (w.edns) {
		CHECK(m.edns.version == w.ever && m.edns.flags == w.eflags && m.edns.size == w.esize, "EDNS version/flags/size are %u/%04x/%u, expected %u/%04x/%u", m.edns.version, m.edns.flags, m.edns.size, w.ever, w.eflags, w.esize);
		CHECK((m.edns.options != NULL) == w.has_opts, "EDNS options %s", m.edns.options ? "present" : "missing");
		if (w.has_opts) CHECK(rbytes(m.edns.options) == w.opts, "EDNS options are %s, expected %s", hex(rbytes(m.edns.options)).c_str(), hex(w.opts).c_str());
	}
	for (int s = 0; s < 4; s++) {
		char what[64];
		const wdns_rrset_array_t &a = m.sections[s];
		CHECK(a.n_rrs == w.sec[s].size(), "section %d has %u records, expected %zu", s, a.n_rrs, w.sec[s].size());
		for (size_t i = 0; i < a.n_rrs; i++) { snprintf(what, sizeof what, "section %d record %zu", s, i); check_rr(a.rrs[i], w.sec[s][i], what); }
		std::vector<RSet> g = ref_group(w.sec[s], s == 0);
		CHECK(a.n_rrsets == g.size(), "section %d has %u RRsets, expected %zu", s, a.n_rrsets, g.size());
		for (size_t i = 0; i < g.size(); i++) { snprintf(what, sizeof what, "section %d RRset %zu", s, i); check_rrset(a.rrsets[i], g[i], what); }
	}
}
void check_cleared(const wdns_message_t &m) {
	for (int s = 0; s < 4; s++) CHECK(!m.sections[s].n_rrs && !m.sections[s].n_rrsets && !m.sections[s].rrs && !m.sections[s].rrsets, "section %d not empty after clear", s);
	CHECK(!m.edns.options && !m.edns.present, "EDNS not empty after clear");
}
wdns_rdata_t *make_rdata(const bytes &b) {
	wdns_rdata_t *r = (wdns_rdata_t *) malloc(sizeof(wdns_rdata_t) + b.size());
	r->len = (uint16_t) b.size(); memcpy(r->data, b.data(), b.size()); return r;
}
static wdns_name_t mkname(const bytes &b) { wdns_name_t n; n.len = (uint8_t) b.size(); n.data = (uint8_t *) malloc(b.size()); memcpy(n.data, b.data(), b.size()); return n; }
wdns_rr_t make_rr(const RRec &r) {
	wdns_rr_t w; memset(&w, 0, sizeof w);
	w.rrttl = r.ttl; w.rrtype = r.type; w.rrclass = r.cls; w.name = mkname(r.name); w.rdata = r.has_rdata ? make_rdata(r.rdata) : NULL; return w;
}
wdns_rrset_t make_rrset(const RSet &s) {
	wdns_rrset_t w; memset(&w, 0, sizeof w);
	w.rrttl = s.ttl; w.rrtype = s.type; w.rrclass = s.cls; w.n_rdatas = (uint16_t) s.rdatas.size(); w.name = mkname(s.name);
	if (!s.question) { w.rdatas = (wdns_rdata_t **) malloc(sizeof(*w.rdatas) * (s.rdatas.size() ? s.rdatas.size() : 1)); for (size_t i = 0; i < s.rdatas.size(); i++) w.rdatas[i] = make_rdata(s.rdatas[i]); }
	return w;
}
RRec from_rr(const wdns_rr_t &r) { RRec x; x.name = nbytes(r.name); x.type = r.rrtype; x.cls = r.rrclass; x.ttl = r.rrttl; x.has_rdata = r.rdata != NULL; if (r.rdata) x.rdata = rbytes(r.rdata); return x; }
RSet from_rrset(const wdns_rrset_t &r) { RSet x; x.name = nbytes(r.name); x.type = r.rrtype; x.cls = r.rrclass; x.ttl = r.rrttl; for (size_t i = 0; i < r.n_rdatas; i++) x.rdatas.push_back(rbytes(r.rdatas[i])); return x; }
RSet gen_rrset(Src &s, unsigned flags, unsigned maxn) {
	RSet r; r.name = gen_name(s); r.type = gen_type(s); r.cls = gen_class(s); r.ttl = (uint32_t) s.u(4);
	unsigned n = s.small(maxn); NamePool p;
	while (n--) r.rdatas.push_back(flat(gen_rdata(s, r.type, r.cls, flags, &p)));
	return r;
}
std::string take(char *s) { if (!s) fail("conversion returned no string"); std::string o(s); free(s); return o; }
std::string norm_text(const std::string &s) {
	std::string o; for (char c : s) { if (c == '\n') while (!o.empty() && o.back() == ' ') o.pop_back(); o += c; }
	while (!o.empty() && o.back() == ' ') o.pop_back();
	return o;
}
// the data itself may contain the words of the marker; the printer's own is the last thing printed
bool ends_marked(const std::string &s) { return s.size() >= 3 && s.rfind("### PARSE ERROR") != std::string::npos && s.compare(s.size() - 3, 3, "###") == 0; }
bool has_marker(const std::string &s) { return s.find("### PARSE ERROR") != std::string::npos; }
