// Zone files: the records, their number, the serial and the end, whatever the order of calls.
#include "../engine.h"
#include "../shim_zone.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/stat.h>

struct ZLine { int kind; bytes owner, type; std::vector<bytes> f; uint32_t ttl; }; // 0 empty, 1 ttl, 2 origin, 3 malformed, 4 record
struct ZRec { bytes owner, type; std::vector<bytes> f; uint32_t ttl; };
struct ZDir { bytes d; ZDir() { char b[4096]; if (!getcwd(b, sizeof b - 32)) abort(); strcat(b, "/scratch.XXXXXX"); if (!mkdtemp(b)) abort(); d = b; } ~ZDir() { rmdir(d.c_str()); } };
struct ZFile { bytes n; bool dir; ~ZFile() { if (dir) rmdir(n.c_str()); else unlink(n.c_str()); } };
struct ZSer { struct zonefile *z = NULL; ~ZSer() { zonefile_destroy(&z); } };

static uint32_t crc(const bytes &b) { uint32_t c = ~0u; for (unsigned char x : b) { c ^= x; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return ~c; }
static bytes gz(const bytes &b, size_t step) {
	bytes r("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10); size_t i = 0;
	do { size_t n = b.size() - i < step ? b.size() - i : step; r += (char) (i + n == b.size()); r += (char) n; r += (char) (n >> 8); r += (char) ~n; r += (char) (~n >> 8); r += b.substr(i, n); i += n; } while (i < b.size());
	uint32_t v[2] = {crc(b), (uint32_t) b.size()}; r.append((char *) v, 8); return r;
}
static bytes rdf_text(const ldns_rdf *r) { return bytes((const char *) ldns_rdf_data(r), ldns_rdf_size(r)); }
static bytes gen_label(Src &s) { bytes r; unsigned n = 1 + s.below(4); while (n--) r += "abcxyz-*0"[s.below(9)]; return r; }

static void p49(Src &s, Case &c) {
	static ZDir D; std::vector<ZLine> l; bytes text; bool have_origin = false, off = false; bytes origin, prev; uint32_t ttl = 0;
	// model while writing
	std::vector<ZRec> want; std::vector<int> steps; bool soa = false, over = false, refuse = false, any = false; bytes domain; uint32_t serial = 0; // steps: 1 record, 0 malformed
	unsigned n = s.below(30) == 0 ? s.below(60) == 0 ? 2000 + s.below(s.flip() ? 100000 : 10000) : 100 + s.below(1000) : s.below(16); bool odd = s.below(4) == 0; unsigned soa_at = odd ? s.below(n + 2) : s.below(3), line = 0; std::vector<size_t> ends;
	auto emit = [&](const bytes &t) { text += t + "\n"; ends.push_back(text.size()); };
	auto number = [&] { char b[16]; snprintf(b, sizeof b, "%u", (unsigned) (s.below(4) ? s.u(4) >> s.below(32) : s.below(2) ? 0xffffffffu : 0x80000000u)); return bytes(b); };
	for (; line < n + 1; line++) {
		if (n > 2000 && soa && line > 300 && line % 64) { // many records take no choices
			ZRec r; r.owner = "f."; r.ttl = ttl; r.type = "TXT"; r.f.push_back("x" + std::to_string(line)); emit("f. TXT " + r.f[0]); if (over || refuse) continue;
			prev = r.owner; want.push_back(r); steps.push_back(1); continue;
		}
		bool mk = line == soa_at || (soa && s.below(n < 40 ? 12 : 3 * n) == 0); unsigned k = mk ? 4 : s.below(12);
		if (k == 0) { emit(""); continue; } if (k == 1) { emit("; " + gen_label(s)); continue; }
		if (k == 2) { bytes v = number(); emit("$TTL " + v); if (!over) ttl = (uint32_t) strtoul(v.c_str(), NULL, 10); continue; }
		if (k == 3) { bytes o = gen_label(s) + "." + (s.flip() ? gen_label(s) + "." : bytes()); emit("$ORIGIN " + o); if (!over) { origin = o; have_origin = true; off = false; } continue; }
		if (k == 5 && odd && s.flip()) { emit("!" + gen_label(s)); if (!over && !refuse) { if (!soa) refuse = true; else steps.push_back(0); } continue; }
		if (!mk && !soa && !odd) { emit(""); continue; }
		// a record
		bytes w, o; unsigned ow = s.below(4); bool fail = false;
		if (off && (ow == 1 || ow == 2)) ow = 0; // an $ORIGIN in front of the SOA of another name: not specified what follows is relative to
		if (ow == 1) { w = "@"; o = origin; fail = !have_origin; } else if (ow == 2) { w = gen_label(s); o = w + "." + origin; fail = !have_origin; } else if (ow == 3) { o = prev; fail = prev.empty(); } else { w = gen_label(s) + "." + (s.flip() ? gen_label(s) + "." : bytes()); o = w; }
		if (fail && !odd) { w = "zone."; o = w; fail = false; }
		ZRec r; r.owner = o; r.ttl = ttl; r.type = mk ? "SOA" : s.below(3) == 0 ? "NS" : s.flip() ? "A" : "TXT"; unsigned nf = mk ? 7 : 1 + s.below(3);
		for (unsigned i = 0; i < nf; i++) r.f.push_back(mk && i >= 2 ? number() : s.chance(1, 60) ? bytes(s.below(300) + 1, 'v') : gen_label(s));
		bytes t = w + " " + r.type; for (auto &x : r.f) t += " " + x; emit(t); any = true;
		if (over || refuse) continue;
		if (fail) { if (!soa) refuse = true; else steps.push_back(0); continue; }
		prev = o;
		if (!soa) { if (!mk) { refuse = true; continue; } soa = true; domain = o; serial = (uint32_t) strtoul(r.f[2].c_str(), NULL, 10); off = have_origin && origin != o; origin = o; have_origin = true; want.push_back(r); steps.push_back(1); continue; }
		if (mk) { over = true; continue; }
		want.push_back(r); steps.push_back(1);
	}
	(void) any; if (!soa) refuse = true;
	bool cut = s.flip(); // no newline at the end
	if (cut && !text.empty()) text.erase(text.size() - 1);
	// where it is
	unsigned where = s.below(16); bool zip = where < 2, missing = where == 2 && s.below(4) == 0, isdir = where == 3 && s.below(4) == 0; bytes base;
	if (s.flip()) base = "zone"; else if (!zip || s.below(6)) { static const char *const bits[] = {" ", "'", "\"", ";", "&", "$q", "`q`", "\\", "|", "(", ")", "*", "?", "#", "~", "!", "\n", "\t", "-", "q", "7", ".", "$(q)", "''", "%s", "é"}; unsigned k = 1 + s.below(6); while (k--) base += bits[s.below(26)]; if (base == "." || base == "..") base = "q"; }
	bool rel = s.below(3) == 0; bytes full = D.d + "/" + base + (zip ? ".gz" : s.below(6) == 0 ? "gz" : s.below(6) == 0 ? ".g" : ""); if (!zip && full.size() > 3 && full.compare(full.size() - 3, 3, ".gz") == 0) full += "q"; bytes name = rel ? full.substr(D.d.size() + 1) : full;
	if (rel && s.below(3) == 0) name = "./" + name;
	zone_chunk = s.below(3) == 0 ? 1 + s.below(20) : 4096; zone_fail_at = -1; zone_calls = 0; bool faulty = !zip && !missing && !isdir && s.below(12) == 0 && !text.empty();
	if (faulty) zone_fail_at = (long) s.below((uint32_t) text.size());
	unsigned harm = zip && !missing ? s.below(6) : 0; bytes packed = zip ? gz(text, s.flip() ? 65535 : 1 + s.below(200)) : bytes(); // 1: the compressed file is cut, 2: its checksum or length is wrong, 3: followed by other octets
	if (harm == 1) packed.resize(s.below((uint32_t) packed.size())); else if (harm == 2) packed[packed.size() - 1 - s.below(8)] ^= (char) (1 << s.below(8)); else if (harm == 3) packed += "trailing";
	bool damaged = harm == 1 || harm == 2;
	ZFile file{full, isdir};
	if (isdir) { if (mkdir(full.c_str(), 0700)) abort(); } else if (!missing) { int fd = open(full.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); bytes d = zip ? packed : text; if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t) d.size()) { perror("scratch"); abort(); } close(fd); }
	c.note("%s%s, %u lines, %zu octets%s:", zip ? "compressed " : "", missing ? "missing" : isdir ? "directory" : cstr(name).c_str(), line, text.size(), faulty ? ", read error" : harm == 1 ? ", cut" : harm == 2 ? ", with a wrong checksum" : harm == 3 ? ", followed by other octets" : ""); if (c.want_desc) c.note(" %s", cstr(text.substr(0, 600)).c_str());
	c.label(missing ? "missing" : isdir ? "directory" : faulty ? "read error" : damaged ? "damaged compressed" : zip ? "compressed" : "plain");
	int before = open("/dev/null", O_RDONLY | O_CLOEXEC); close(before);
	char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) abort(); if (rel && chdir(D.d.c_str())) abort();
	int err2 = -1; if (zip && (missing || harm)) { err2 = dup(2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); }
	{
		ZSer z; z.z = zonefile_init_fname(name.c_str());
		if (rel && chdir(cwd)) abort(); if (err2 >= 0) { dup2(err2, 2); close(err2); }
		size_t got = 0, step = 0; bool ended = false, failed = false;
		if (missing || isdir) { CHECK(!z.z, "a %s gives a zone file", missing ? "missing file" : "directory"); refuse = true; }
		else if (damaged) { if (refuse) CHECK(!z.z, "a file without SOA record at its start is accepted"); }
		else if (faulty) { // up to the error everything is as without it, and no record is made up
			size_t whole = 0; for (size_t e : ends) if ((long) e <= zone_fail_at) whole++;
			(void) whole; if (refuse) { CHECK(!z.z, "a file without SOA record at its start is accepted"); }
		}
		else if (refuse) CHECK(!z.z, "a file without SOA record at its start is accepted");
		else CHECK(z.z, "a zone file is refused");
		if (damaged) faulty = true;
		unsigned reads = 0, extra = 0;
		auto look = [&] {
			size_t cnt = zonefile_get_count(z.z); size_t w = got ? got : 1;
			CHECK(cnt == w, "after %zu records the count is %zu", got, cnt);
			CHECK(zonefile_get_serial(z.z) == serial, "the serial is %u instead of %u", zonefile_get_serial(z.z), serial);
			const ldns_rdf *d = zonefile_get_domain(z.z); CHECK(d && rdf_text(d) == domain, "the zone is %s instead of %s", d ? cstr(rdf_text(d)).c_str() : "NULL", cstr(domain).c_str());
		};
		bool early = s.below(6) == 0; unsigned stop = early ? s.below(6) : ~0u;
		while (z.z && reads < stop) {
			if (s.below(4) == 0) look();
			ldns_rr *rr = (ldns_rr *) (uintptr_t) 16; ldns_status st = zonefile_read(z.z, &rr); reads++;
			if (ended) { CHECK(st == LDNS_STATUS_OK && !rr, "behind the end reading gives %s", st == LDNS_STATUS_OK ? "a record" : "an error"); if (++extra > 2) break; continue; }
			if (faulty && st != LDNS_STATUS_OK) { if (step < steps.size() && !steps[step]) { step++; continue; } failed = true; if (++extra > 2) break; continue; }
			CHECK(!failed, "behind a read error reading gives %s", rr ? "a record" : "the end");
			if (step == steps.size() || (faulty && st == LDNS_STATUS_OK && !rr)) { CHECK(st == LDNS_STATUS_OK && !rr, "at the end reading gives %s", st == LDNS_STATUS_OK ? "a record" : "an error"); CHECK(!faulty || (over && step == steps.size()), "a read error passes for the end of the zone"); ended = true; continue; }
			int k = steps[step++];
			if (!k) { CHECK(st != LDNS_STATUS_OK, "a malformed line gives %s", rr ? "a record" : "the end"); continue; }
			CHECK(st == LDNS_STATUS_OK, "record %zu gives error %d", got, (int) st); CHECK(rr, "record %zu is missing", got);
			struct Rr { ldns_rr *r; ~Rr() { ldns_rr_free(r); } } hold{rr}; const ZRec &w = want[got++]; bytes ty = ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA ? "SOA" : ldns_rr_get_type(rr) == LDNS_RR_TYPE_NS ? "NS" : ldns_rr_get_type(rr) == LDNS_RR_TYPE_A ? "A" : "TXT";
			bool cutrec = faulty; bool ok = ty == w.type && rdf_text(ldns_rr_owner(rr)) == w.owner && ldns_rr_ttl(rr) == w.ttl && ldns_rr_rd_count(rr) == w.f.size();
			for (size_t i = 0; ok && i < w.f.size(); i++) { const ldns_rdf *d = ldns_rr_rdf(rr, i); ok = w.type == "SOA" && i >= 2 ? ldns_rdf2native_int32(d) == (uint32_t) strtoul(w.f[i].c_str(), NULL, 10) : rdf_text(d) == w.f[i]; }
			if (cutrec && !ok) { failed = true; break; } // the line in which reading failed may be taken for a whole one
			CHECK(ok, "record %zu is %s %s with TTL %u instead of %s %s with TTL %u, or its data differ", got - 1, cstr(rdf_text(ldns_rr_owner(rr))).c_str(), ty.c_str(), ldns_rr_ttl(rr), cstr(w.owner).c_str(), w.type.c_str(), w.ttl);
		}
		if (z.z && !faulty) look();
		if (ended && z.z && !faulty) CHECK(got == want.size(), "%zu of %zu records", got, want.size());
		c.nontrivial = got > 1; add_evals(reads);
		zonefile_destroy(&z.z); CHECK(!z.z, "a destroyed zone file leaves its pointer"); zonefile_destroy(&z.z);
	}
	int after = open("/dev/null", O_RDONLY | O_CLOEXEC); close(after); CHECK(after == before, "a file stays open");
	int st; CHECK(waitpid(-1, &st, WNOHANG) < 0 && errno == ECHILD, "a process is left behind");
}
static PropReg r49({"P49", p49, "zone files of up to 1100 and now and then 100000 lines (records with absolute, relative, repeated and @ owners, TTL and ORIGIN lines, comments, empty and malformed lines, further SOA records, a missing newline), plain or compressed, under file names with every octet special to the shell, missing files and directories, read in parts and with read errors, compressed ones also cut, with a wrong checksum or followed by other octets, read completely, in part or beyond the end; every record, the count, the serial and the name at any time, open files, processes and memory compared with a model; ldns is replaced by a stand-in that reads one record per line; non-trivial: at least two records read", 200000, 2000000, true, 0, NULL, 0, 0});
