#include "../wapi.h"
#include <strings.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>

// ---------------------------------------------------------------- P21
static std::string recase(Src &s, std::string t) { for (char &c : t) if (isalpha((unsigned char) c) && s.flip()) c ^= 32; return t; }
// what a text means; *lenient when it is a generic number with leading zeros
static long meaning(const std::string &t, const std::vector<Mnem> &v, const char *generic, bool *lenient) {
	*lenient = false;
	for (auto &m : v) if (!strcasecmp(m.s, t.c_str())) return m.n;
	size_t g = generic ? strlen(generic) : 0;
	if (!g || t.size() <= g || strncasecmp(t.c_str(), generic, g)) return -1;
	unsigned long n = 0;
	for (size_t i = g; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return -1; n = n * 10 + (t[i] - '0'); if (n > 65535) return -1; }
	if (t[g] == '0' && t.size() > g + 1) *lenient = true;
	return (long) n;
}
static void p21(Src &s, Case &c) {
	unsigned k = s.below(3); const std::vector<Mnem> &v = k == 0 ? kTypes : k == 1 ? kClasses : kRcodes; const char *gen = k == 0 ? "TYPE" : k == 1 ? "CLASS" : NULL;
	const std::vector<Mnem> &other = s.below(3) ? v : s.flip() ? kTypes : kRcodes;
	std::string t;
	switch (s.below(6)) {
	case 0: t = s.pick(v).s; break;
	case 1: t = (gen ? gen : "RCODE") + std::to_string(s.below(2) ? s.below(70000) : (unsigned) s.u(4)); break;
	case 2: t = std::string(gen && s.below(4) ? gen : "TYPE") + (s.below(2) ? s.raw(s.below(4)) : bytes("+1\0-1\0 1\0""0x1\0""1 \0""00\0""1.\0", 24).substr(s.below(8) * 3)); break;
	case 3: t = s.raw(s.below(8)); break;
	default: {
		t = s.pick(other).s; size_t i = s.below((uint32_t) t.size() + 1);
		switch (s.below(7)) {
		case 0: t.insert(i, 1, (char) (1 + s.below(255))); break; case 1: if (i < t.size()) t.erase(i, 1); break;
		case 2: if (i < t.size()) t[i] = (char) (t[i] + (s.flip() ? 1 : -1)); break; case 3: t += s.pick(v).s; break;
		case 4: t.resize(i); break; case 5: if (i < t.size()) t[i] ^= 1 << s.below(8); break; case 6: for (char &x : t) if (x == '-') x = '_'; else if (x == '_') x = '-'; break;
		}
	}
	}
	t = recase(s, t.c_str());
	bool lenient; long want = meaning(t, v, gen, &lenient);
	c.note("%s text \"%s\" means %ld", k == 0 ? "type" : k == 1 ? "class" : "rcode", cstr(t).c_str(), want);
	ExactStr in(t);
	if (k == 2) {
		uint16_t out = 0x5a5a; wdns_res r = wdns_str_to_rcode(in.p, &out);
		CHECK((r == wdns_res_success) == (want >= 0), "response code text \"%s\" means %ld, but reading it says %s", cstr(t).c_str(), want, wdns_res_to_str(r));
		if (want >= 0) CHECK(out == want, "response code text \"%s\" reads as %u, expected %ld", cstr(t).c_str(), out, want);
	} else {
		long got = k == 0 ? wdns_str_to_rrtype(in.p) : wdns_str_to_rrclass(in.p);
		CHECK(got == (want < 0 ? 0 : want) || (lenient && got == 0), "%s text \"%s\" reads as %ld, expected %ld", k == 0 ? "type" : "class", cstr(t).c_str(), got, want < 0 ? 0 : want);
	}
	CHECK(!strcmp(in.p, t.c_str()), "text was modified");
	c.nontrivial = t.size() > 1; c.label(want >= 0 ? "known" : "unknown");
}
static bool streq(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }
static void x21(Case &c) {
	for (unsigned n = 0; n < 65536; n++) {
		uint16_t v = (uint16_t) n; const char *g, *w;
		g = wdns_rrtype_to_str(v); w = ref_type_name(v); CHECK(streq(g, w), "type %u has mnemonic %s, expected %s", n, g ? g : "none", w ? w : "none");
		g = wdns_rrclass_to_str(v); w = ref_class_name(v); CHECK(streq(g, w), "class %u has mnemonic %s, expected %s", n, g ? g : "none", w ? w : "none");
		g = wdns_rcode_to_str(v); w = ref_rcode_name(v); CHECK(streq(g, w), "response code %u has mnemonic %s, expected %s", n, g ? g : "none", w ? w : "none");
		g = wdns_opcode_to_str(v); w = ref_opcode_name(v); CHECK(streq(g, w), "opcode %u has mnemonic %s, expected %s", n, g ? g : "none", w ? w : "none");
		static const char *tp[] = {"TYPE%u", "type%u", "tYpE%u"}, *cp[] = {"CLASS%u", "class%u", "ClAsS%u"}; char t[20];
		for (int i = 0; i < 3; i++) {
			snprintf(t, sizeof t, tp[i], n); CHECK(wdns_str_to_rrtype(t) == n, "%s reads as type %u", t, wdns_str_to_rrtype(t));
			snprintf(t, sizeof t, cp[i], n); CHECK(wdns_str_to_rrclass(t) == n, "%s reads as class %u", t, wdns_str_to_rrclass(t));
		}
	}
	auto both = [](const char *m, std::function<void(const char *)> f) { std::string a = m, b = m, d = m; for (size_t i = 0; i < a.size(); i++) { b[i] = (char) tolower(b[i]); if (i & 1) d[i] = (char) tolower(d[i]); } f(a.c_str()); f(b.c_str()); f(d.c_str()); };
	for (auto &m : kTypes) both(m.s, [&](const char *t) { CHECK(wdns_str_to_rrtype(t) == m.n, "type mnemonic %s reads as %u, expected %u", t, wdns_str_to_rrtype(t), m.n); });
	for (auto &m : kClasses) both(m.s, [&](const char *t) { CHECK(wdns_str_to_rrclass(t) == m.n, "class mnemonic %s reads as %u, expected %u", t, wdns_str_to_rrclass(t), m.n); });
	for (auto &m : kRcodes) both(m.s, [&](const char *t) { uint16_t o = 0xffff; wdns_res r = wdns_str_to_rcode(t, &o); CHECK(r == wdns_res_success && o == m.n, "response code mnemonic %s reads as %u (%s), expected %u", t, o, wdns_res_to_str(r), m.n); });
	// the constants of the header are the numbers the mnemonics stand for
	static const struct { int k; const char *name; unsigned n; } consts[] = {
#include "../consts.inc"
	};
	for (auto &x : consts) {
		const std::vector<Mnem> &v = x.k == 0 ? kTypes : x.k == 1 ? kClasses : x.k == 2 ? kRcodes : kOpcodes; std::string d = x.name; for (char &ch : d) if (ch == '_') ch = '-';
		for (auto &m : v) if (!strcasecmp(m.s, x.name) || !strcasecmp(m.s, d.c_str())) CHECK(m.n == x.n, "the header's constant for %s is %u, expected %u", x.name, x.n, m.n);
	}
	add_evals(sizeof consts / sizeof *consts);
	std::set<std::string> seen;
	for (int r = 0; r <= (int) wdns_res_unknown_rcode; r++) { const char *d = wdns_res_to_str((wdns_res) r); CHECK(d && *d, "result %d has no description", r); CHECK(seen.insert(d).second, "results share the description \"%s\"", d); }
	CHECK(!strcmp(wdns_res_to_str(wdns_res_success), "success"), "success is described as %s", wdns_res_to_str(wdns_res_success));
	unsigned a, b, d; const char *ver = wdns_get_version();
	CHECK(sscanf(ver, "%u.%u.%u", &a, &b, &d) == 3 && wdns_get_version_number() == a * 1000000 + b * 1000 + d, "version %s does not match number %u", ver, wdns_get_version_number());
	add_evals(65536 * 10);
}
static PropReg r21({"P21", p21, "all 65536 numbers of every registry in both directions and the generic forms (every run), and generated texts: mnemonics in random case, near misses of them (one character added, removed, changed; prefixes, concatenations), generic forms with numbers around and beyond 65535, signs and blanks; non-trivial: more than one character", 6000000, 30000000, true, 0, x21, 655360, 0});

// ---------------------------------------------------------------- P32
struct Got { std::vector<bytes> v; void *self; bool bad = false; };
static void on_name(wdns_name_t *n, void *user) { Got *g = (Got *) user; if (g->self != user) g->bad = true; g->v.push_back(nbytes(*n)); free(n->data); }
static std::string line_text(Src &s) {
	std::string t;
	switch (s.below(14)) {
	case 0: return "";
	case 1: t = "#"; t += gen_blob(s, gen_len(s, 100)); break;
	case 2: { static const size_t big[] = {254, 255, 256, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9000}; t = s.flip() ? "#" : " "; t += std::string(big[s.below(17)] - s.below(2), s.flip() ? 'a' : '.'); break; }
	case 3: t = " " + ref_name_text(gen_name(s)); break;
	case 4: t = "."; break;
	case 5: { t = ref_name_text(gen_name(s)); char bad[] = {'\\', '.', '\0', ' ', '\r', (char) 0x80}; t.insert(s.below((uint32_t) t.size() + 1), 1, bad[s.below(6)]); break; }
	case 6: t = gen_blob(s, gen_len(s, 80)); break;
	case 7: { t = std::string(s.below(2) ? 63 : 60 + s.below(8), 'a'); break; }
	case 8: { // as long as text of a name can be: 1000 characters and more
		bytes nm; size_t total = 240 + s.below(15), used = 1; while (used + 1 < total) { size_t n = total - used - 1; if (n > 63) n = 63; if (!n) break; nm.push_back((char) n); for (size_t i = 0; i < n; i++) nm.push_back((char) (s.below(8) ? 1 + s.below(31) : 'A' + s.below(26))); used += n + 1; } nm.push_back(0); t = ref_name_text(nm); break; }
	default: t = ref_name_text(gen_name(s)); if (s.flip() && t.size() > 1) t.pop_back(); for (char &x : t) if (x >= 'a' && x <= 'z' && s.below(4) == 0) x -= 32;
	}
	for (char &x : t) if (x == '\n') x = 'n';
	return t;
}
static void p32(Src &s, Case &c) {
	std::string f; bool wild = s.below(10) == 9;
	if (wild) f = gen_blob(s, gen_len(s, 400));
	else { unsigned n = s.small(24); for (unsigned i = 0; i < n; i++) { if (i) f += '\n'; f += line_text(s); } if (s.below(3)) f += '\n'; }
	if (s.chance(1, 3000)) { unsigned n = (unsigned) gen_large(s, 5000), k = 0; f = ""; while (n--) { switch (s.below(8)) { case 0: f += '\n'; break; case 1: f += "# " + std::to_string(k) + "\n"; break; case 2: f += line_text(s) + "\n"; break; default: f += "n" + std::to_string(k++) + ".Example\n"; } } }
	if (s.below(300) == 299) f += "#" + std::string(70000 + s.below(100), 'x') + "\nlast.example\n";
	// reference reader
	std::vector<bytes> want; bool ok = true, odd = false; size_t i = 0, longest = 0, lines = 0;
	while (i < f.size() && ok) {
		size_t e = f.find('\n', i); bool term = e != std::string::npos; if (!term) e = f.size();
		std::string l = f.substr(i, e - i); i = e + 1; lines++; if (l.size() > longest) longest = l.size();
		if (l.empty() || l[0] == ' ' || l[0] == '#') continue;
		if (l[0] == '\t' || l[0] == '\0') { odd = true; } // unspecified: neither a name line nor clearly blank
		l = l.c_str(); bytes nm; if (!ref_text_name(l, &nm)) { ok = false; break; }
		want.push_back(ref_lower(nm)); if (l.find('\\') != std::string::npos && nm != ref_lower(nm)) odd = odd || true;
	}
	c.note("file=%s; expected %zu names, %s", f.size() < 3000 ? cstr(f).c_str() : "(long)", want.size(), ok ? "success" : "an error");
	int fd = memfd_create("names", 0); CHECK(fd >= 0, "memfd_create failed");
	for (size_t o = 0; o < f.size();) { ssize_t w = write(fd, f.data() + o, f.size() - o); if (w <= 0) { fprintf(stderr, "write failed\n"); abort(); } o += (size_t) w; }
	char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
	Got g; g.self = &g; wdns_res r = wdns_file_load_names(path, on_name, &g);
	close(fd);
	CHECK(known_res(r), "undocumented result %d", (int) r);
	CHECK(!g.bad, "the callback got a different argument");
	bool exact = true;
	if (odd) { // compare without regard to case, and leave lines of unspecified kind out
		exact = false; bool special = false; size_t k = 0; while (k < f.size()) { if (f[k] == '\t' || f[k] == '\0') { special = true; break; } k = f.find('\n', k); if (k == std::string::npos) break; k++; }
		if (!special) { for (auto &x : g.v) x = ref_lower(x); exact = true; }
		c.label("unspecified lines or escaped letters");
	}
	if (exact) {
		CHECK((r == wdns_res_success) == ok, "the file is %s but loading says %s", ok ? "well-formed" : "malformed", wdns_res_to_str(r));
		CHECK(g.v.size() == want.size(), "%zu names were delivered, expected %zu", g.v.size(), want.size());
		for (size_t k = 0; k < want.size(); k++) CHECK(g.v[k] == want[k], "name %zu is %s, expected %s", k, hex(g.v[k]).c_str(), hex(want[k]).c_str());
	}
	c.nontrivial = want.size() >= 2; c.label(ok ? "well-formed" : "malformed");
	if (longest >= 1024) c.label("a line of 1024 characters and more");
	if (!f.empty() && f.back() != '\n') c.label("last line not terminated");
}
static void x32(Case &c) {
	Got g; g.self = &g;
	CHECK(wdns_file_load_names("/nonexistent/file/of/names", on_name, &g) != wdns_res_success && g.v.empty(), "a missing file is loaded");
	CHECK(wdns_file_load_names("/proc/self/fd", on_name, &g) != wdns_res_success && g.v.empty(), "a directory is loaded");
	CHECK(wdns_file_load_names("/dev/null", on_name, &g) == wdns_res_success && g.v.empty(), "an empty file is an error");
	add_evals(3);
}
static PropReg r32({"P32", p32, "file contents of up to 24 lines: names (any case, escapes, up to 1000 characters of text), comments and indented lines of any length around powers of two up to 70000, empty lines, damaged names, zero octets, carriage returns, with and without final newline, and random octets; deliveries and result against a reference reader; non-trivial: at least two names expected", 450000, 2500000, true, 0, x32, 3, 0});
