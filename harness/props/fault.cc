// Memory exhaustion: any single request for memory, or every one from some point on, is
// refused while the library works. It may stop at an assertion about the memory, report a
// failure and keep nothing, or get along without; it may not go on with a null pointer or
// hand out another result.
#include "../ops.h"
#include "../shim_fault.h"
#include "../shim_argv.h"
#include "libmy/argv.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <algorithm>

struct Stop { const char *what; };
extern "C" { int inj_fired; }
static bool inj_on, inj_persist; static uint64_t inj_n, inj_at;
static bool refuse() { if (!inj_on) return false; uint64_t k = inj_n++; if (k != inj_at && !(inj_persist && k > inj_at)) return false; inj_fired = 1; errno = ENOMEM; return true; }
// what is alive of what was allocated since tracking began
static const void **g_tab; static const size_t TAB = 1 << 21; static size_t g_used; static bool g_track;
static size_t slot(const void *p) { size_t h = ((uintptr_t) p >> 4) * 0x9e3779b97f4a7c15ull >> 43; while (g_tab[h] && g_tab[h] != p) h = (h + 1) & (TAB - 1); return h; }
static void on_alloc(const void *p) { if (!g_track) return; if (g_used > TAB / 2) { g_track = false; return; } size_t h = slot(p); if (!g_tab[h]) { g_tab[h] = p; g_used++; } }
static void on_free(const void *p) {
	if (!g_used) return; size_t h = slot(p); if (!g_tab[h]) return;
	g_tab[h] = NULL; g_used--; // close the gap
	for (size_t i = (h + 1) & (TAB - 1); g_tab[i]; i = (i + 1) & (TAB - 1)) { size_t w = ((uintptr_t) g_tab[i] >> 4) * 0x9e3779b97f4a7c15ull >> 43; if (((i - w) & (TAB - 1)) >= ((i - h) & (TAB - 1))) { g_tab[h] = g_tab[i]; g_tab[i] = NULL; h = i; } }
}
// a file whose reading fails once that many octets were read; -1: never
static long g_fail_at = -1; static unsigned g_chunk = 4096; static bool g_read_failed;
struct FaultyIn { int fd; long at; };
static ssize_t fi_read(void *v, char *b, size_t n) {
	FaultyIn *i = (FaultyIn *) v; if (n > g_chunk) n = g_chunk;
	if (g_fail_at >= 0) { if (i->at >= g_fail_at) { g_read_failed = true; errno = EIO; return -1; } if (i->at + (long) n > g_fail_at) n = (size_t) (g_fail_at - i->at); }
	ssize_t r = read(i->fd, b, n); if (r > 0) i->at += r; return r;
}
static int fi_close(void *v) { FaultyIn *i = (FaultyIn *) v; int r = close(i->fd); free(i); return r; }
static FILE *fi_open(const char *name) {
	int fd = open(name, O_RDONLY | O_CLOEXEC); if (fd < 0) return NULL;
	FaultyIn *i = (FaultyIn *) malloc(sizeof *i); i->fd = fd; i->at = 0; cookie_io_functions_t f = { fi_read, NULL, NULL, fi_close };
	FILE *fp = fopencookie(i, "r", f); if (!fp) abort(); return fp;
}
static FILE *g_files[16]; static unsigned g_nfiles; static bool g_pipe[16];
static FILE *opened(FILE *f, bool pipe) { if (f && inj_on && g_nfiles < 16) { g_pipe[g_nfiles] = pipe; g_files[g_nfiles++] = f; } return f; }
static void closed(FILE *f) { for (unsigned i = 0; i < g_nfiles; i++) if (g_files[i] == f) { g_files[i] = g_files[--g_nfiles]; g_pipe[i] = g_pipe[g_nfiles]; return; } }
extern "C" {
void inj_throw(const char *what) { throw Stop{what}; }
void *inj_malloc(size_t n) { return refuse() ? NULL : malloc(n); }
void *inj_calloc(size_t n, size_t m) { return refuse() ? NULL : calloc(n, m); }
void *inj_realloc(void *p, size_t n) { return refuse() ? NULL : realloc(p, n); }
void *inj_reallocarray(void *p, size_t n, size_t m) { return refuse() ? NULL : reallocarray(p, n, m); }
char *inj_strdup(const char *s) { return refuse() ? NULL : strdup(s); }
char *inj_strndup(const char *s, size_t n) { return refuse() ? NULL : strndup(s, n); }
int inj_vasprintf(char **p, const char *f, va_list v) { return refuse() ? -1 : vasprintf(p, f, v); }
int inj_asprintf(char **p, const char *f, ...) { if (refuse()) return -1; va_list v; va_start(v, f); int r = vasprintf(p, f, v); va_end(v); return r; }
ssize_t inj_getline(char **p, size_t *n, FILE *f) { return refuse() ? -1 : getline(p, n, f); }
ssize_t inj_getdelim(char **p, size_t *n, int d, FILE *f) { return refuse() ? -1 : getdelim(p, n, d, f); }
FILE *inj_fopen(const char *p, const char *m) { return refuse() ? NULL : opened(g_fail_at >= 0 && *m == 'r' ? fi_open(p) : fopen(p, m), false); }
FILE *inj_open_memstream(char **p, size_t *n) { return refuse() ? NULL : opened(open_memstream(p, n), false); }
FILE *inj_popen(const char *p, const char *m) { return refuse() ? NULL : opened(popen(p, m), true); }
int inj_fclose(FILE *f) { closed(f); return fclose(f); }
int inj_pclose(FILE *f) { closed(f); return pclose(f); }
void inj_abort(void) { if (inj_fired) inj_throw("abort"); abort(); }
}

struct Out { uint64_t h = 0; size_t n = 0; unsigned failed = 0; bool stopped = false; const char *what = ""; };
// one run with the given request refused; every allocation it leaves is freed or a failure
template <class F> static Out attempt(F run, uint64_t at, bool persist, uint64_t *n, const char *name) {
	Out r; if (!g_tab) { g_tab = (const void **) calloc(TAB, sizeof *g_tab); g_alloc_hook = on_alloc; g_free_hook = on_free; }
	inj_n = 0; inj_at = at; inj_persist = persist; inj_fired = 0; g_nfiles = 0; g_track = true;
	try { inj_on = true; bytes o = run(&r.failed); inj_on = false; r.h = hash64(o.data(), o.size()); r.n = o.size(); }
	catch (Stop &s) { inj_on = false; r.stopped = true; r.what = s.what; }
	bool whole = g_track; g_track = false; inj_fired = 0; if (n) *n = inj_n;
	if (r.stopped) for (; g_nfiles;) { FILE *f = g_files[--g_nfiles]; if (g_pipe[g_nfiles]) pclose(f); else fclose(f); }
	if (g_used) {
		size_t left = g_used; std::vector<const void *> v; v.reserve(left);
		for (size_t i = 0; i < TAB && left; i++) if (g_tab[i]) { v.push_back(g_tab[i]); left--; }
		if (r.stopped) for (auto p : v) free((void *) p);
		else if (whole) fail("%s: %zu allocation(s) are left after request %llu for memory was refused%s and the call returned", name, v.size(), (unsigned long long) at, persist ? " and all after it" : "");
	}
	return r;
}
template <class F> static void refuse_each(Src &s, Case &c, F run, const char *name) {
	uint64_t n = 0; run(NULL); // lazily made state
	Out good = attempt(run, UINT64_MAX, false, &n, name); if (!n) { c.label("asks for no memory"); return; }
	c.nontrivial = true; c.label(name); unsigned tries = n <= 24 ? (unsigned) n : 24; bool persist = s.flip(); uint64_t ev = 0;
	for (unsigned k = 0; k < tries; k++) {
		uint64_t at = n <= 24 ? k : k < 4 ? k : k < 6 ? n - 1 - (k - 4) : s.below((uint32_t) std::min<uint64_t>(n, 0xffffffffu));
		Out o = attempt(run, at, persist, NULL, name); ev++;
		if (o.stopped) { c.label("stopped at an assertion"); continue; }
		if (o.h == good.h && o.n == good.n && o.failed == good.failed) { c.label("got along without"); continue; }
		if (o.failed > good.failed) { c.label("reported a failure"); continue; }
		fail("%s: request %llu of %llu for memory was refused%s, and another result came out without a failure being reported (%zu octets in place of %zu)", name, (unsigned long long) at, (unsigned long long) n, persist ? ", and all after it" : "", o.n, good.n);
	}
	add_evals(ev);
}
// one use of the command-line parser with a fixed table
struct ArgvIn { std::vector<bytes> args; bytes file; bool env_on; bytes env; };
static bytes run_argv(const ArgvIn &in, unsigned *failed) {
	Seen o; MemFd m(in.file); char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", m.fd);
	char flag = 0; char *text = NULL; int num = 0; argv_array_t nums = {0, NULL}, texts = {0, NULL}, rest = {0, NULL};
	argv_t t[] = {
		{'b', "bool", ARGV_BOOL, &flag, NULL, NULL}, {'c', "copy", ARGV_CHAR_P, &text, NULL, NULL}, {'i', "int", ARGV_INT, &num, NULL, NULL}, {'n', "nums", ARGV_INT | ARGV_FLAG_ARRAY, &nums, NULL, NULL},
		{'s', "texts", ARGV_CHAR_P | ARGV_FLAG_ARRAY, &texts, NULL, NULL}, {ARGV_MAYBE, NULL, ARGV_CHAR_P | ARGV_FLAG_ARRAY, &rest, NULL, NULL}, {ARGV_LAST, NULL, 0, NULL, NULL, NULL}};
	std::vector<bytes> text_of{"prog"}; for (auto &a : in.args) text_of.push_back(a == "@FILE" ? bytes(path) : a);
	std::vector<char *> v; for (auto &a : text_of) v.push_back((char *) a.c_str()); int n = (int) v.size(); v.push_back(NULL);
	MemF err; argv_error_stream = err.f; argv_interactive = 0;
	struct Reset { ~Reset() { argv_error_stream = NULL; } } reset;
	int r; if (setjmp(argv_exit_to)) abort(); argv_exit_armed = 1;
	r = argv_process(t, n, v.data()); argv_exit_armed = 0;
	o.v(r);
	if (r == 0) { o.v(flag); o.str(text ? text : ""); o.v(num); o.v(nums.aa_entry_n); o.raw(nums.aa_entries, sizeof(int) * (size_t) nums.aa_entry_n); for (argv_array_t *a : {&texts, &rest}) { o.v(a->aa_entry_n); for (int i = 0; i < a->aa_entry_n; i++) o.str(((char **) a->aa_entries)[i]); } }
	else o.failed++;
	argv_cleanup(t); if (failed) *failed = o.failed;
	return o.o;
}
struct Env { Env(const ArgvIn &in) { if (in.env_on) setenv("ARGV_PROG", in.env.c_str(), 1); else unsetenv("ARGV_PROG"); } ~Env() { unsetenv("ARGV_PROG"); } };
static ArgvIn gen_argv(Src &s, bool file) {
	ArgvIn in; auto val = [&]() { bytes b; unsigned n = 1 + s.small(30); for (unsigned i = 0; i < n; i++) b += "abc/.x"[s.below(6)]; return b; };
	auto some = [&](unsigned n, std::vector<bytes> &v) { bool c = false, mine = &v == &in.args; while (n--) switch (s.below(7)) {
		case 0: v.push_back("-b"); break;
		case 1: if (!c && mine) { v.push_back(s.flip() ? "-c" : "--copy"); v.push_back(val()); } c = true; break;
		case 2: v.push_back("--int=" + std::to_string(s.below(1000))); break;
		case 3: { unsigned k = s.chance(1, 4) ? 40 : 1; while (k--) { v.push_back("-n"); v.push_back(std::to_string(s.below(1000))); } break; }
		case 4: { unsigned k = s.chance(1, 4) ? 20 : 1; while (k--) { v.push_back("-s"); v.push_back(val()); } break; }
		case 5: if (s.chance(1, 4)) { v.push_back("-" + bytes(1 + s.below(40), 'n')); for (size_t k = v.back().size() - 1; k; k--) v.push_back("7"); } break;
		default: v.push_back(val()); break; } };
	some(s.below(8), in.args); in.env_on = s.below(3) == 0; std::vector<bytes> e, f;
	if (in.env_on) { some(s.below(5), e); for (auto &x : e) in.env += x + " "; }
	if (file || s.below(3) == 0) { some(file ? 1 + s.below(9) : s.below(9), f); for (auto &x : f) in.file += x + "\n"; in.args.push_back("--argv-file"); in.args.push_back("@FILE"); }
	return in;
}
static void note_argv(Case &c, const ArgvIn &in) { bytes t; for (auto &a : in.args) t += a + " "; c.note("arguments %s, file %s, environment %s", cstr(t).c_str(), cstr(in.file).c_str(), in.env_on ? cstr(in.env).c_str() : "unset"); }

static void p50(Src &s, Case &c) {
	if (s.below(5)) {
		Op op = gen_op(s, s.chance(1, 3) ? O_READRD : -1); note_op(c, op, 0);
		refuse_each(s, c, [&](unsigned *f) { return run_op(op, f); }, op_names[op.kind]); return;
	}
	static const char *const names[] = {"byte buffers and vectors", "replacing text", "reading hexadecimal", "heaps", "queues", "queues with a lock", "rate limiters"};
	if (s.below(3) == 0) { ArgvIn in = gen_argv(s, false); Env env(in); note_argv(c, in); refuse_each(s, c, [&](unsigned *f) { return run_argv(in, f); }, "command lines"); return; }
	unsigned kind = s.below(SF_KINDS); bytes a = s.raw(s.below(60)), x, y, z;
	for (bytes *p : {&x, &y, &z}) { unsigned n = s.small(200); for (unsigned i = 0; i < n; i++) *p += kind == SF_HEX ? "0123456789abcdefABCDEF"[s.below(22)] : "ab.-"[s.below(4)]; }
	if (kind == SF_REPLACE && y.size() > 3) y.resize(1 + y.size() % 3);
	c.note("%s: script %s, texts %s %s %s", names[kind], hex(a).c_str(), cstr(x).c_str(), cstr(y).c_str(), cstr(z).c_str());
	refuse_each(s, c, [&](unsigned *f) { Exact in(a); ExactStr t(x), u(y), v(z); std::vector<uint8_t> room(1 << 16); sf_out o = {room.data(), 0, room.size()}; unsigned b = sf_run(kind, in.p, in.n, t.p, u.p, v.p, &o); if (f) *f = b; return bytes((char *) o.p, o.n); }, names[kind]);
}
static PropReg r50({"P50", p50, "one call of any of 16 kinds over well-formed and damaged inputs, or a script over the containers and helpers of libmy, run once to count its requests for memory and then again with each of them (at most 24) refused, alone or with all later ones; non-trivial: at least one request is refused", 40000, 600000, false, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P51
static bool collect(const bytes &file, std::vector<bytes> *names) {
	MemFd m(file); char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", m.fd);
	wdns_res r = wdns_file_load_names(path, [](wdns_name_t *n, void *u) { ((std::vector<bytes> *) u)->push_back(nbytes(*n)); free(n->data); }, names); return r == wdns_res_success;
}
static void p51(Src &s, Case &c) {
	struct Off { ~Off() { g_fail_at = -1; g_chunk = 4096; g_nfiles = 0; } } off; g_read_failed = false;
	static const unsigned chunks[] = {1, 2, 7, 64, 4096}; g_chunk = chunks[s.below(5)];
	if (s.flip()) {
		bytes f; unsigned n = s.small(40); while (n--) { unsigned k = s.below(12); f += k == 0 ? "# " + ref_name_text(gen_name(s)) : k == 1 ? bytes() : k == 2 && s.chance(1, 4) ? bytes("a..b") : ref_name_text(gen_name(s)); f += '\n'; }
		if (s.below(3) == 0 && !f.empty()) f.pop_back();
		std::vector<bytes> all, got; bool ok = collect(f, &all); g_fail_at = s.below(4) ? s.below((uint32_t) f.size() + 1) : (long) f.size();
		c.note("names %s, reading fails after %ld of %zu octets, %u at a time", cstr(f).c_str(), g_fail_at, f.size(), g_chunk);
		bool r = collect(f, &got); if (!g_read_failed) { CHECK(r == ok && got == all, "the outcome differs although all was read"); c.label("the names end before the fault"); return; }
		c.nontrivial = true; c.label(got.empty() ? "names, none before the fault" : "names"); CHECK(!r, "a file of names that failed to be read after %ld of %zu octets is taken as loaded (%zu of %zu names)", g_fail_at, f.size(), got.size(), all.size());
		CHECK(got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin()), "name %zu delivered before the fault is %s, which the file does not hold there", got.size(), got.empty() ? "" : hex(got.back()).c_str());
		size_t lines = 0; for (long i = 0; i < g_fail_at; ) { size_t e = f.find('\n', (size_t) i); if (e == bytes::npos || (long) e >= g_fail_at) { if (g_fail_at == (long) f.size()) lines++; break; } if (f[(size_t) i] != '\n' && f[(size_t) i] != '#' && f[(size_t) i] != ' ') lines++; i = (long) e + 1; }
		CHECK(got.size() <= lines, "%zu names are delivered, of which only %zu were read in full", got.size(), lines);
	} else {
		ArgvIn in = gen_argv(s, true); Env env(in); unsigned failed = 0; g_fail_at = -1; bytes good = run_argv(in, &failed); g_fail_at = s.below(4) ? s.below((uint32_t) in.file.size() + 1) : (long) in.file.size();
		note_argv(c, in); c.note("reading the file fails after %ld of %zu octets, %u at a time", g_fail_at, in.file.size(), g_chunk);
		unsigned f2 = 0; bytes r = run_argv(in, &f2); if (!g_read_failed) { CHECK(r == good, "the outcome differs although all was read"); c.label("the arguments end before the fault"); return; }
		c.nontrivial = true; c.label("command line"); CHECK(f2, "an argument file that failed to be read after %ld of %zu octets is taken as processed", g_fail_at, in.file.size());
	}
}
static PropReg r51({"P51", p51, "files of names and argument files of the command-line parser, read in pieces of 1 to 4096 octets, whose reading fails with an input/output error after any number of octets up to the whole file, compared with the outcome for the file without the fault; non-trivial: the fault was met", 200000, 3000000, true, 0, NULL, 0, 0});
