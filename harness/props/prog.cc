#include "../wapi.h"
#include <memory>
#include "../shim_prog.h"

static bytes be(unsigned v, int) { bytes b; put16(b, v); return b; }
struct Run { int rc; bytes out, err; };
static Run run(int (*prog)(int, char **), std::initializer_list<bytes> args) {
	std::vector<std::unique_ptr<ExactStr>> keep; std::vector<char *> av;
	for (auto &a : args) { keep.emplace_back(new ExactStr(a)); av.push_back(keep.back()->p); }
	int argc = (int) av.size(); av.push_back(NULL);
	char *o = NULL, *e = NULL; size_t on = 0, en = 0; Run r;
	prog_out = open_memstream(&o, &on); prog_err = open_memstream(&e, &en);
	r.rc = prog(argc, av.data());
	fclose(prog_out); fclose(prog_err); prog_out = prog_err = NULL; prog_close_all();
	r.out.assign(o, on); r.err.assign(e, en); free(o); free(e);
	return r;
}
template <class F> static bytes printed(F f) { char *o = NULL; size_t n = 0; FILE *fp = open_memstream(&o, &n); f(fp); fclose(fp); bytes b(o, n); free(o); return b; }
static bytes shown(const bytes &pkt, bool *ok) {
	Exact in(pkt); wdns_message_t m; *ok = wdns_parse_message(&m, in.p, in.n) == wdns_res_success; if (!*ok) return "";
	bytes t = printed([&](FILE *fp) { wdns_print_message(fp, &m); }); wdns_clear_message(&m); return t;
}
static bytes spell(Src &s, const bytes &b) {
	unsigned m = s.below(3); bytes o; for (uint8_t c : b) { for (unsigned d : {c >> 4, c & 15}) o.push_back(d < 10 ? '0' + d : (m == 0 || (m == 2 && s.flip()) ? 'a' : 'A') + d - 10); } return o;
}
static bytes lower(const bytes &b) { bytes o; for (uint8_t c : b) { o.push_back("0123456789abcdef"[c >> 4]); o.push_back("0123456789abcdef"[c & 15]); } return o; }
static bytes some_packet(Src &s) { if (s.below(3) == 0) return gen_packet(s, 6); GMsg g = gen_msg(s, 6, GR_TRUNC); return encode(s, g, s.below(256)).b; }

static void p_hex(Src &s, Case &c) {
	unsigned k = s.below(4); bool msg = k < 2; bytes in;
	if (msg) in = some_packet(s);
	else { in = ref_serialize(gen_rrset(s, GR_TRUNC, 5)); if (s.below(3) == 0) { unsigned m = s.below(3); if (m == 0) in.resize(s.below((uint32_t) in.size() + 1)); else if (m == 1 && in.size()) in[s.below((uint32_t) in.size())] = (char) s.byte(); else in += s.raw(2); } }
	bytes text = spell(s, in); bool bad = in.empty();
	if (s.below(12) == 0 && !text.empty()) { bad = true; switch (s.below(3)) { case 0: text.resize(text.size() - 1); break; case 1: text.insert(s.below((uint32_t) text.size()), 1, 'a'); break; default: { static const char J[] = "gG@`/: -xz\x80\xff"; text[s.below((uint32_t) text.size())] = J[s.below(sizeof J - 1)]; } } }
	int (*const prog[])(int, char **) = {prog_message, prog_serialize, prog_deserialize, prog_downcase};
	static const char *const names[] = {"print-message", "serialize-rrset", "deserialize-rrset", "downcase-rrset"};
	c.note("wdns-test-%s %s", names[k], cstr(text).c_str()); c.label(names[k]); c.nontrivial = in.size() > 12;
	if (s.below(200) == 199) { Run r = s.flip() ? run(prog[k], {"prog"}) : run(prog[k], {"prog", text, text}); CHECK(r.rc != 0 && r.out.empty(), "a wrong number of arguments is accepted"); return; }
	bool ok = !bad; bytes out, err;
	if (ok) {
		Exact x(in);
		if (msg) {
			wdns_message_t m; ok = wdns_parse_message(&m, x.p, x.n) == wdns_res_success;
			if (ok) {
				if (k == 0) out = printed([&](FILE *fp) { wdns_print_message(fp, &m); });
				else for (unsigned sec = 1; sec < 4; sec++) for (size_t i = 0; i < m.sections[sec].n_rrsets; i++) err += lower(ref_serialize(from_rrset(m.sections[sec].rrsets[i]))) + "\n";
				wdns_clear_message(&m);
			}
		} else {
			wdns_rrset_t r; ok = wdns_deserialize_rrset(&r, x.p, x.n) == wdns_res_success;
			if (ok) { if (k == 2 || wdns_downcase_rrset(&r) == wdns_res_success) out = printed([&](FILE *fp) { wdns_print_rrset(fp, &r, WDNS_MSG_SEC_ANSWER); }); wdns_clear_rrset(&r); }
		}
	}
	Run r = run(prog[k], {"prog", text});
	CHECK((r.rc == 0) == ok, "wdns-test-%s ends with %d for input that is %s", names[k], r.rc, ok ? "fine" : "not");
	if (ok) { CHECK(r.out == out, "wdns-test-%s writes \"%s\", expected \"%s\"", names[k], cstr(r.out).c_str(), cstr(out).c_str()); CHECK(r.err == err, "wdns-test-%s reports \"%s\", expected \"%s\"", names[k], cstr(r.err).c_str(), cstr(err).c_str()); }
	else c.label("refused");
}
static void p_file(Src &s, Case &c) {
	bytes in = some_packet(s); bool all = true;
	if (s.below(8) == 0) { size_t n = s.below(3) ? 4080 + s.below(30) : s.below(9000); if (in.size() < n) in += gen_blob(s, n - in.size()); }
	memset(&prog_in, 0, sizeof prog_in); prog_in.chunk = s.below(3) ? 1 << 20 : 1 + s.below(64); prog_in.fail_at = -1;
	if (s.below(12) == 0) { prog_in.fail_at = s.below((uint32_t) in.size() + 1); all = false; }
	if (s.below(100) == 99) { prog_in.missing = 1; all = false; }
	c.note("wdns-dump-file over %s (pieces of %zu, failing at %ld%s)", hex(in).c_str(), prog_in.chunk, prog_in.fail_at, prog_in.missing ? ", missing" : ""); c.label("dump-file"); c.nontrivial = in.size() > 12;
	if (s.below(200) == 199) { Run r = run(prog_file, {"prog"}); CHECK(r.rc != 0 && r.out.empty(), "a wrong number of arguments is accepted"); return; }
	bool ok; bytes want = shown(in, &ok); if (ok) want += "\n";
	Exact x(in); prog_in.data = x.p; prog_in.n = x.n;
	Run r = run(prog_file, {"prog", "file"});
	if (!all) { CHECK(r.rc != 0 && r.out.empty(), "a file that cannot be read is shown as \"%s\", status %d", cstr(r.out).c_str(), r.rc); c.label("not readable"); return; }
	if (r.rc == 0) CHECK(ok && r.out == want, "a file holding %s is shown as \"%s\", expected \"%s\"", ok ? "a message" : "no message", cstr(r.out).c_str(), cstr(want).c_str());
	else { CHECK(r.out.empty(), "a refused file is shown"); if (in.size() < 4096) CHECK(!ok, "a file holding a message is refused"); }
}
// findings recorded in known_findings.txt: their inputs are left out, everything else is judged
static bool listed(const char *tag) { const char *e = getenv("PBT_KNOWN"); return e && strstr(e, tag); }
static bool known_packet(const bytes &b) {
	static const bool a = listed("[pcap-short-ip]"), t = listed("[pcap-total-length]");
	if (b.size() < 14 || get16(b, 12) != 0x0800) return false;
	size_t n = b.size() - 14, h = n ? (b[14] & 15) * 4 : 0;
	if (n == 0 || (h == 0 && n < 4)) return a;
	return t && n >= h && n >= 4 && get16(b, 16) < h;
}
static void p_pcap(Src &s, Case &c) {
	struct Pk { std::unique_ptr<Exact> b; int want; bytes text; }; // want: 0 neither, 1 shown, 2 written to the output, 3 any of these
	static uint64_t counted, dumped; // the program's counters go on over its runs
	std::vector<Pk> ps; unsigned n = s.small(5);
	for (unsigned i = 0; i < n; i++) {
		bytes dns = s.below(8) ? some_packet(s) : s.raw(s.below(14)); if (dns.size() > 60000) dns.resize(60000);
		unsigned ihl = s.below(3) ? 5 : s.below(4) ? 5 + s.below(11) : s.below(16); size_t tot = ihl * 4 + 8 + dns.size();
		unsigned len = (unsigned) tot, et = 0x0800; bool odd = ihl < 5;
		switch (s.below(10)) { case 0: len = s.below(65536); break; case 1: len = s.below(64); break; case 2: len += s.below(40); break; case 3: len = s.below(ihl * 4 + 24); break; case 4: et = s.flip() ? 0x86dd : (unsigned) s.u(2); break; }
		bytes b = s.raw(12) + be(et, 2); b.push_back((char) (0x40 | ihl)); b.push_back(0); b += be(len, 2) + s.raw(5); b.push_back(17); b += s.raw(10); if (b.size() < 14 + ihl * 4) b += s.raw(14 + ihl * 4 - b.size()); b.resize(14 + ihl * 4);
		b += s.raw(2) + be(53, 2) + be((unsigned) dns.size() + 8, 2) + s.raw(2) + dns;
		size_t padded = b.size(); if (s.below(5) == 0) { b += s.raw(s.below(20)); }                       // Ethernet padding
		switch (s.below(6)) { case 0: b.resize(s.below((uint32_t) b.size() + 1)); break; case 1: b.resize(std::min<size_t>(b.size(), s.below(64))); break; } (void) padded;
		if (known_packet(b)) { c.label("packet of a known finding, left out"); continue; }
		Pk p; p.want = 0;
		if (b.size() >= 14 && get16(b, 12) == 0x0800) {
			if (b.size() < 34) p.want = b.size() > 14 && (b[14] & 15) < 5 ? 3 : 0;
			else {
				unsigned h = (b[14] & 15) * 4; size_t end = std::min<size_t>(b.size() - 14, get16(b, 16));
				if (h < 20) p.want = 3;
				else if (end >= h + 8 + 12) { bool ok; p.text = shown(b.substr(14 + h + 8, end - h - 8), &ok); p.want = ok ? 1 : 2; }
			}
		}
		(void) odd; p.b.reset(new Exact(b)); c.note("packet %u: %s", i, hex(b).c_str()); if (p.want == 1) c.label("packet with a message"); if (p.want == 2) c.label("packet with a broken message"); if (p.want == 0) c.label("packet without a message"); if (p.want != 0) c.nontrivial = true;
		ps.push_back(std::move(p));
	}
	std::vector<prog_packet> pk; for (auto &p : ps) pk.push_back({p.b->p, (uint32_t) p.b->n, (uint32_t) p.b->n, 0});
	memset(&prog_cap, 0, sizeof prog_cap); prog_cap.p = pk.data(); prog_cap.n = pk.size();
	unsigned f = s.below(60); if (f == 59) prog_cap.no_open = 1; if (f == 58) prog_cap.no_dump = 1; if (f == 57) prog_cap.bad_filter = 1; if (f == 56) prog_cap.bad_filter = 2; if (f >= 40 && f < 50) prog_cap.cut = 1;
	c.note("wdns-dump-pcap%s%s", prog_cap.cut ? " over a capture that ends in the middle of a packet" : "", f > 55 ? ", which cannot be opened or filtered" : "");
	Run r = run(prog_pcap, {"prog", "in", "out", ""});
	if (f >= 56) { CHECK(r.rc != 0 && r.out.empty(), "status %d although the capture cannot be opened or filtered", r.rc); c.label("cannot be opened"); return; }
	bool any = false; size_t at = 0; unsigned long long nd = 0;
	for (size_t i = 0; i < ps.size(); i++) {
		if (ps[i].want == 3) any = true;
		CHECK(pk[i].dumped <= 1, "packet %zu is written %d times", i, pk[i].dumped); nd += pk[i].dumped;
		if (ps[i].want != 3) CHECK(pk[i].dumped == (ps[i].want == 2), "packet %zu, %s, is%s written to the output", i, ps[i].want == 1 ? "a good message" : ps[i].want == 2 ? "a broken message" : "no message", pk[i].dumped ? "" : " not");
		if (!any && ps[i].want == 1) { CHECK(r.out.compare(at, ps[i].text.size(), ps[i].text) == 0, "packet %zu is not shown: \"%s\"", i, cstr(r.out).c_str()); at += ps[i].text.size(); }
	}
	if (!any) CHECK(at == r.out.size(), "more is shown than the messages: \"%s\"", cstr(r.out).c_str());
	CHECK(prog_cap.at == pk.size(), "%zu of %zu packets are read", prog_cap.at, pk.size());
	CHECK(prog_cap.dumpers == 0, "the output is left open");
	if (prog_cap.cut) { CHECK(r.rc != 0 || listed("[pcap-cut-capture]"), "a capture that ends in the middle of a packet is taken as complete"); c.label("cut capture"); }
	else CHECK(r.rc == 0, "ends with status %d", r.rc);
	unsigned long long a, b;
	if (sscanf(r.err.c_str(), "count=%llu count_dump=%llu", &a, &b) == 2) { CHECK(a - counted == pk.size(), "counts %llu of %zu packets", a - (unsigned long long) counted, pk.size()); CHECK(b - dumped == nd, "counts %llu of %llu written packets", b - (unsigned long long) dumped, nd); }
	else CHECK(r.rc != 0, "no counts: \"%s\"", cstr(r.err).c_str());
	counted += pk.size(); dumped += nd;
}
static void p52(Src &s, Case &c) {
	switch (s.below(4)) { case 0: p_pcap(s, c); break; case 1: p_file(s, c); break; default: p_hex(s, c); }
}
static PropReg r52({"P52", p52, "the example programs run in the harness over hexadecimal arguments, files and captures: packets and serialized RRsets (well-formed, damaged, random), hexadecimal digits of both cases with and without errors, files read in pieces and failing, Ethernet frames with any header lengths, cut anywhere; output, status and written packets against the library's own result for the octets that the input holds; non-trivial: more than a header", 150000, 1500000, true, 0, NULL, 0, 0});
