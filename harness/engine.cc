#include "engine.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <memory>
#include <atomic>

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define HAVE_HOOKS 1
# endif
#endif
#ifdef PBT_HOOKS
# define HAVE_HOOKS 1
#endif
#ifdef HAVE_HOOKS
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#endif
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:symbolize=0:malloc_context_size=8:allow_user_segv_handler=1:quarantine_size_mb=16"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
extern "C" const char *__msan_default_options() { return "exitcode=99:symbolize=0:poison_in_dtor=0"; }
extern "C" const char *__tsan_default_options() { return "exitcode=99:halt_on_error=1:report_signal_unsafe=0:history_size=4:die_after_fork=0:symbolize=0"; }

enum { EX_ORACLE = 70, EX_HANG = 71, EX_MEM = 72, EX_LEAK = 73, EX_SAN = 99 };
static const size_t TAPE_CAP = 1 << 20;
int g_tier = 0;

// ---------------------------------------------------------------- choice tape
static inline uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
uint8_t Src::byte() {
	if (replay)
		return pos < len ? buf[pos++] : 0;
	uint8_t b = (uint8_t) (splitmix(rng) >> 24);
	if (pos < cap) { buf[pos++] = b; len = pos; } else { overflow = true; b = 0; }
	return b;
}
uint32_t Src::below(uint32_t n) {
	if (n <= 1) return 0;
	if (n <= 256) return byte() * n >> 8;
	if (n <= 65536) return (uint32_t) ((u(2) * n) >> 16);
	return (uint32_t) ((u(4) * (uint64_t) n) >> 32);
}
uint32_t Src::small(uint32_t max) {
	static const uint32_t lim[] = {1, 2, 3, 5, 8, 16, 40, 100};
	uint8_t b = byte();
	uint32_t l = (b < 250) ? lim[b & 7] : max;
	if (l > max) l = max;
	return below(l + 1);
}

void fail(const char *fmt, ...) {
	char *s = NULL; va_list ap; va_start(ap, fmt);
	if (vasprintf(&s, fmt, ap) < 0) s = NULL;
	va_end(ap);
	Failure f{s ? s : "?"};
	if (s) free(s);
	throw f;
}

// ---------------------------------------------------------------- allocation accounting
static size_t g_live, g_livebytes;
void (*g_alloc_hook)(const void *), (*g_free_hook)(const void *);
static const size_t LIVE_CAP = (size_t) 1500 << 20;
#ifdef HAVE_HOOKS
static void mhook(const volatile void *p, size_t n) {
	if (!p) return;
	__atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED);
	if (__atomic_add_fetch(&g_livebytes, n, __ATOMIC_RELAXED) > LIVE_CAP) _exit(EX_MEM);
	if (g_alloc_hook) g_alloc_hook((const void *) p);
}
static void fhook(const volatile void *p) {
	if (!p) return;
	if (g_free_hook) g_free_hook((const void *) p);
	__atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED);
	__atomic_sub_fetch(&g_livebytes, __sanitizer_get_allocated_size(p), __ATOMIC_RELAXED);
}
#endif
size_t live_allocs() { return g_live; }
size_t live_bytes() { return g_livebytes; }

// ---------------------------------------------------------------- shared state
struct Shm {
	size_t len;          // tape bytes of the running case
	uint64_t idx;        // index of the running case
	uint64_t done, evals, nontrivial;
	char msg[8192];
	uint8_t tape[TAPE_CAP];
};
static Shm *g_shm;          // this process's slot
static uint64_t g_extra_evals;
void add_evals(uint64_t n) { g_extra_evals += n; }

struct Lab { const char *l; uint64_t n; };
static Lab g_labs[256]; static unsigned g_nlabs; static bool g_labels_on = true;
void Case::label(const char *l) {
	if (!g_labels_on) return;
	for (unsigned i = 0; i < g_nlabs; i++) if (g_labs[i].l == l) { g_labs[i].n++; return; }
	if (g_nlabs < 256) { g_labs[g_nlabs].l = l; g_labs[g_nlabs].n = 1; g_nlabs++; }
}
static char *g_descbuf; static const size_t DESC_CAP = 1 << 16; // survives a crash of the case
void Case::note(const char *fmt, ...) {
	if (!want_desc) return;
	char *s = NULL; va_list ap; va_start(ap, fmt);
	if (vasprintf(&s, fmt, ap) < 0) s = NULL;
	va_end(ap);
	if (s) { if (!desc.empty()) desc += "; "; desc += s; free(s); if (g_descbuf) snprintf(g_descbuf, DESC_CAP, "%s", desc.c_str()); }
}

std::string hex(const void *p, size_t n) {
	static const char d[] = "0123456789abcdef"; std::string s;
	const uint8_t *q = (const uint8_t *) p;
	for (size_t i = 0; i < n && i < 3000; i++) { s += d[q[i] >> 4]; s += d[q[i] & 15]; }
	if (n > 3000) s += "...(" + std::to_string(n) + " bytes)";
	return s;
}
std::string cstr(const bytes &b) {
	std::string s = "\""; char t[8];
	for (size_t i = 0; i < b.size() && i < 3000; i++) {
		unsigned char c = b[i];
		if (c == '"' || c == '\\') { s += '\\'; s += (char) c; }
		else if (c >= 32 && c < 127) s += (char) c;
		else { snprintf(t, sizeof t, "\\x%02x", c); s += t; }
	}
	if (b.size() > 3000) s += "...";
	return s + "\"";
}
uint64_t hash64(const void *p, size_t n, uint64_t h) {
	const uint8_t *q = (const uint8_t *) p;
	while (n--) { h ^= *q++; h *= 1099511628211ULL; }
	return h;
}
// an empty buffer is the end of an 8-octet block, so that even its first octet is out of bounds
static uint8_t *xalloc(size_t n) { return n ? (uint8_t *) malloc(n) : (uint8_t *) malloc(8) + 8; }
#ifdef HAVE_HOOKS
// Buffers come back at the same address with other contents, as they do in programs; all octets around them, and all
// of them once they are released, are poisoned.
enum { ARENAS = 4, ARENA = 20000, MARGIN = 64 };
static uint8_t *arena[ARENAS]; static std::atomic<bool> taken[ARENAS];
static struct Arenas { Arenas() { for (auto &a : arena) { uint8_t *x = (uint8_t *) malloc(ARENA + 2 * MARGIN); __asan_poison_memory_region(x, ARENA + 2 * MARGIN); a = x; } } } arenas;
static uint8_t *bget(size_t n) {
	if (n && n <= ARENA) for (int i = 0; i < ARENAS; i++) if (arena[i] && !taken[i].exchange(true)) { __asan_unpoison_memory_region(arena[i] + MARGIN, n); return arena[i] + MARGIN; }
	return xalloc(n);
}
static void bput(uint8_t *p, size_t n) {
	for (int i = 0; i < ARENAS; i++) if (n && p == arena[i] + MARGIN) { __asan_poison_memory_region(p, n); taken[i] = false; return; }
	free(n ? p : p - 8);
}
#else
static uint8_t *bget(size_t n) { return xalloc(n); }
static void bput(uint8_t *p, size_t n) { free(n ? p : p - 8); }
#endif
Exact::Exact(const bytes &b): p(bget(b.size())), n(b.size()) { memcpy(p, b.data(), n); }
Exact::Exact(size_t sz, uint8_t fill): p(bget(sz)), n(sz) { memset(p, fill, n); }
Exact::~Exact() { bput(p, n); }
ExactStr::ExactStr(const bytes &b): p((char *) bget(b.size() + 1)), n(b.size() + 1) { memcpy(p, b.data(), b.size()); p[b.size()] = 0; }
ExactStr::~ExactStr() { bput((uint8_t *) p, n); }

static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void register_prop(const Prop &p) { props().push_back(p); }

// ---------------------------------------------------------------- running one case
static void setmsg(const char *s) { snprintf(g_shm->msg, sizeof g_shm->msg, "%s", s); }

static bool run_once(const Prop &p, Src &s, bool want_desc, std::string *desc, bool *nontrivial) {
	Case c; c.want_desc = want_desc;
	p.fn(s, c);
	*nontrivial = c.nontrivial;
	if (want_desc) *desc = c.desc;
	return true;
}

// returns 0 or an exit code; message in shm
static int run_case(const Prop &p, Src &s, bool want_desc, std::string *desc, bool *nontrivial) {
	try {
		size_t l0 = live_allocs();
		bool nt = false;
		g_labels_on = true;
		try {
			run_once(p, s, want_desc, desc, &nt);
		} catch (Failure &) {
			throw;
		}
		*nontrivial = nt;
		if (p.leak && live_allocs() > l0 && !want_desc) {
			// lazily created state also grows the heap once: only a case that
			// grows it on every repetition leaks
			g_labels_on = false;
			int grew = 0; size_t diff = 0;
			for (int i = 0; i < 3; i++) {
				Src r(s.buf, s.cap); r.replay = true; r.len = s.pos;
				size_t a = live_allocs();
				bool dummy;
				run_once(p, r, false, NULL, &dummy);
				size_t b = live_allocs();
				if (b > a) { grew++; diff = b - a; }
			}
			g_labels_on = true;
			if (grew == 3) {
				char t[128]; snprintf(t, sizeof t, "memory leak: %zu allocation(s) outlive the case", diff);
				setmsg(t);
				return EX_LEAK;
			}
		}
	} catch (Failure &f) {
		setmsg(f.msg.c_str());
		return EX_ORACLE;
	}
	return 0;
}

static void onprof(int) { static const char m[] = "case did not finish within its CPU budget"; memcpy(g_shm->msg, m, sizeof m); _exit(EX_HANG); }
static void arm(int sec) {
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, NULL);
}
static uint64_t caseseed(uint64_t seed, const char *id, uint64_t idx) {
	uint64_t h = hash64(id, strlen(id)); h ^= seed * 0x9e3779b97f4a7c15ULL;
	uint64_t s = h + idx * 0xd1342543de82ef95ULL; splitmix(s); return splitmix(s);
}
static Shm *newshm() {
	Shm *m = (Shm *) mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); exit(2); }
	return m;
}

static std::string g_out = ".";
static int g_cpu = 30;
static int g_maxtape = 1 << 18;

// child side: run one tape and exit with its code
struct Res { int code; std::string msg, desc; bool nontrivial; };
static const char *codename(int c) {
	switch (c) { case 0: return "ok"; case EX_ORACLE: return "oracle"; case EX_HANG: return "hang"; case EX_MEM: return "memory"; case EX_LEAK: return "leak"; case EX_SAN: return "sanitizer"; }
	return "crash";
}
static std::string slurp(const std::string &f, size_t max = 1 << 20) {
	std::string s; FILE *fp = fopen(f.c_str(), "rb"); if (!fp) return s;
	char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && s.size() < max) s.append(b, n); fclose(fp); return s;
}
static void quiet_stderr(const std::string &f) {
	int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static Res run_tape(const Prop &p, const std::vector<uint8_t> &t, bool want_desc, int cpu, const char *errname = "shrink.err") {
	static Shm *m = NULL; if (!m) m = newshm();
	m->msg[0] = 0; m->len = t.size(); memcpy(m->tape, t.data(), t.size());
	std::string ef = g_out + "/" + errname;
	char *dbuf = NULL; size_t dcap = DESC_CAP;
	if (want_desc) { dbuf = (char *) mmap(NULL, dcap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		g_shm = m; quiet_stderr(ef); g_descbuf = dbuf;
		signal(SIGPROF, onprof); arm(cpu);
		Src s(m->tape, TAPE_CAP); s.replay = true; s.len = t.size();
		std::string d; bool nt = false;
		int rc = run_case(p, s, want_desc, &d, &nt);
		g_shm->nontrivial = nt;
		_exit(rc);
	}
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	Res r; r.nontrivial = m->nontrivial;
	r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
	r.msg = m->msg;
	if (r.code && r.msg.empty()) r.msg = slurp(ef, 6000).substr(0, 6000);
	if (dbuf) { r.desc = dbuf; munmap(dbuf, dcap); }
	return r;
}
static std::string kind(const Res &r) {
	std::string k = codename(r.code);
	return k;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static std::vector<uint8_t> shrink(const Prop &p, std::vector<uint8_t> t, const std::string &k, bool hang) {
	double end = now() + 45; int budget = 4000; int cpu = hang ? 3 : 10;
	auto bad = [&](const std::vector<uint8_t> &c) { if (budget-- <= 0 || now() > end) return false; return kind(run_tape(p, c, false, cpu)) == k; };
	// truncate (a short tape reads as zeros)
	{
		size_t lo = 0, hi = t.size();
		while (lo < hi) { size_t mid = (lo + hi) / 2; std::vector<uint8_t> c(t.begin(), t.begin() + mid); if (bad(c)) hi = mid; else lo = mid + 1; }
		std::vector<uint8_t> c(t.begin(), t.begin() + hi); if (hi < t.size() && bad(c)) t = c;
	}
	bool progress = true;
	while (progress && budget > 0 && now() < end) {
		progress = false;
		for (size_t w = std::max<size_t>(1, t.size() / 2); w >= 1; w /= 2) {
			for (size_t i = 0; i + w <= t.size();) {
				std::vector<uint8_t> c(t); c.erase(c.begin() + i, c.begin() + i + w);
				if (bad(c)) { t = c; progress = true; } else i += w;
				if (budget <= 0 || now() > end) break;
			}
			if (w == 1) break;
		}
		for (size_t w = std::max<size_t>(1, t.size() / 2); w >= 1; w /= 2) {
			for (size_t i = 0; i + w <= t.size(); i += w) {
				bool z = true; for (size_t j = 0; j < w; j++) if (t[i + j]) z = false;
				if (z) continue;
				std::vector<uint8_t> c(t); std::fill(c.begin() + i, c.begin() + i + w, 0);
				if (bad(c)) { t = c; progress = true; }
				if (budget <= 0 || now() > end) break;
			}
			if (w == 1) break;
		}
		for (size_t i = 0; i < t.size(); i++) {
			if (!t[i]) continue;
			int lo = 0, hi = t[i];
			std::vector<uint8_t> c(t);
			while (lo < hi) { int mid = (lo + hi) / 2; c[i] = mid; if (bad(c)) { hi = mid; } else lo = mid + 1; }
			if (hi < t[i]) { c[i] = hi; if (bad(c)) { t = c; progress = true; } }
			if (budget <= 0 || now() > end) break;
		}
	}
	return t;
}

static std::string jstr(const std::string &s) {
	std::string o = "\""; char t[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c >= 127) { snprintf(t, sizeof t, "\\u%04x", c); o += t; }
		else o += (char) c;
	}
	return o + "\"";
}

struct Outcome { bool violated = false; std::string replay; uint64_t evals = 0, cases = 0; std::set<std::string> dummy; std::unordered_set<uint64_t> nt; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; bool exhaustive = false; };

static bool write_replay(const Prop &p, const std::vector<uint8_t> &t, const std::string &path, const std::string &origin, int cpu) {
	Res r = run_tape(p, t, true, cpu, "replay.err");
	Res r2 = run_tape(p, t, false, cpu, "replay2.err");
	FILE *fp = fopen(path.c_str(), "w"); if (!fp) return false;
	fprintf(fp, "# replay file: run with  bin/check %s --replay <this file>\n", p.id);
	fprintf(fp, "property %s\norigin %s\nkind %s\ntape %s\n", p.id, origin.c_str(), codename(r2.code), t.empty() ? "-" : "");
	if (!t.empty()) { for (size_t i = 0; i < t.size(); i++) fprintf(fp, "%02x", t[i]); fprintf(fp, "\n"); }
	fprintf(fp, "end\ncase: %s\nfailure: %s\n", r.desc.c_str(), r2.msg.c_str());
	fclose(fp);
	return true;
}
static bool read_replay(const char *path, std::vector<uint8_t> &t) {
	FILE *fp = fopen(path, "r"); if (!fp) return false;
	std::string all = slurp(path, 8 << 20); fclose(fp);
	size_t i = all.find("\ntape "); if (i == std::string::npos) return false;
	size_t e = all.find("\nend", i); if (e == std::string::npos) return false;
	int hi = -1;
	for (i += 6; i < e; i++) {
		char c = all[i]; int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
		if (v < 0) continue;
		if (hi < 0) hi = v; else { t.push_back(hi << 4 | v); hi = -1; }
	}
	return true;
}

static uint8_t *g_fresh;
// worker process: cases first, first+step, ...
static void worker(const Prop &p, uint64_t seed, uint64_t n, unsigned w, unsigned nw) {
	quiet_stderr(g_out + "/w" + std::to_string(w) + ".err");
	signal(SIGPROF, onprof);
	std::vector<uint64_t> hashes;
	std::vector<std::string> samples;
	if (p.fresh) g_fresh = (uint8_t *) mmap(NULL, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p.exhaustive && w == 0) {
		g_shm->idx = (uint64_t) -1; g_shm->len = 0; g_shm->msg[0] = 0;
		arm(300);
		try { Case c; p.exhaustive(c); if (!c.desc.empty()) samples.push_back(c.desc); } catch (Failure &f) { setmsg(f.msg.c_str()); _exit(EX_ORACLE); }
		g_shm->evals += g_extra_evals; g_extra_evals = 0;
	}
	for (uint64_t i = w; i < n; i += nw) {
		g_shm->idx = i; g_shm->msg[0] = 0;
		if ((i / nw) % 64 == 0) arm(g_cpu);
		Src s(g_shm->tape, TAPE_CAP); s.rng = caseseed(seed, p.id, i);
		bool nt = false; std::string d;
		bool want = samples.size() < 2 && i / nw >= 3;
		int rc;
		if (p.fresh) {
			uint8_t *sh = g_fresh; // [0] nontrivial, [8..16] tape length
			fflush(NULL);
			pid_t c = fork();
			if (c == 0) { arm(g_cpu); rc = run_case(p, s, want, &d, &nt); sh[0] = nt; memcpy(sh + 8, &s.pos, 8); snprintf((char *) sh + 16, 4000, "%s", d.c_str()); memcpy(sh + 4096, &g_extra_evals, 8); memcpy(sh + 4104, &g_nlabs, 4); memcpy(sh + 4112, g_labs, sizeof g_labs); _exit(rc); }
			int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR);
			rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			if (!rc) { nt = sh[0]; memcpy(&s.pos, sh + 8, 8); d = (char *) sh + 16; memcpy(&g_extra_evals, sh + 4096, 8); memcpy(&g_nlabs, sh + 4104, 4); memcpy(g_labs, sh + 4112, sizeof g_labs); }
		} else rc = run_case(p, s, want, &d, &nt);
		g_shm->len = s.pos;
		if (rc) _exit(rc);
		g_shm->done++; g_shm->evals += 1 + g_extra_evals; g_extra_evals = 0;
		if (nt) {
			hashes.push_back(hash64(g_shm->tape, s.pos));
			if (want) samples.push_back(d.substr(0, 700));
		}
	}
	arm(0);
	FILE *fp = fopen((g_out + "/w" + std::to_string(w) + ".res").c_str(), "wb");
	uint64_t k = hashes.size(); fwrite(&k, 8, 1, fp); if (k) fwrite(hashes.data(), 8, k, fp);
	k = g_nlabs; fwrite(&k, 8, 1, fp);
	for (unsigned i = 0; i < g_nlabs; i++) { uint64_t l = strlen(g_labs[i].l); fwrite(&l, 8, 1, fp); fwrite(g_labs[i].l, 1, l, fp); fwrite(&g_labs[i].n, 8, 1, fp); }
	k = samples.size(); fwrite(&k, 8, 1, fp);
	for (auto &s : samples) { uint64_t l = s.size(); fwrite(&l, 8, 1, fp); fwrite(s.data(), 1, l, fp); }
	fclose(fp);
	_exit(0);
}

static void merge(Outcome &o, const std::string &f) {
	FILE *fp = fopen(f.c_str(), "rb"); if (!fp) return;
	uint64_t k = 0, x; if (fread(&k, 8, 1, fp) != 1) { fclose(fp); return; }
	for (uint64_t i = 0; i < k; i++) if (fread(&x, 8, 1, fp) == 1) o.nt.insert(x);
	auto rs = [&]() { uint64_t l = 0; std::string s; if (fread(&l, 8, 1, fp) == 1) { s.resize(l); if (l && fread(&s[0], 1, l, fp) != l) s.clear(); } return s; };
	if (fread(&k, 8, 1, fp) == 1) for (uint64_t i = 0; i < k; i++) { std::string l = rs(); if (fread(&x, 8, 1, fp) == 1) o.labels[l] += x; }
	if (fread(&k, 8, 1, fp) == 1) for (uint64_t i = 0; i < k; i++) o.samples.push_back(rs());
	fclose(fp);
}

// Rerun a worker's cases from..idx in one fresh process: for failures that need
// the history of earlier calls in the same process.
static Res run_seq(const Prop &p, uint64_t seed, uint64_t from, uint64_t idx, uint64_t step, int cpu) {
	static Shm *m = NULL; if (!m) m = newshm();
	m->msg[0] = 0;
	std::string ef = g_out + "/seq.err";
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		g_shm = m; quiet_stderr(ef);
		signal(SIGPROF, onprof); arm(cpu);
		for (uint64_t i = from; i <= idx; i += step) {
			Src s(m->tape, TAPE_CAP); s.rng = caseseed(seed, p.id, i);
			std::string d; bool nt = false; m->idx = i;
			int rc = run_case(p, s, false, &d, &nt);
			if (rc) _exit(rc);
		}
		_exit(0);
	}
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	Res r; r.nontrivial = false; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
	r.msg = m->msg; if (r.code && r.msg.empty()) r.msg = slurp(ef, 6000);
	return r;
}
static bool report_seq(const Prop &p, uint64_t seed, uint64_t w, uint64_t nw, uint64_t idx, Outcome &o) {
	int cpu = g_tier ? 1800 : 120;
	Res r = run_seq(p, seed, w, idx, nw, cpu);
	if (!r.code || r.code == EX_HANG || r.code == EX_MEM) return false;
	uint64_t from = w, k = (idx - w) / nw;
	for (uint64_t back = 1; back < k; back *= 4) { Res q = run_seq(p, seed, idx - back * nw, idx, nw, cpu); if (q.code) { from = idx - back * nw; r = q; break; } }
	std::string path = g_out + "/" + p.id + ".replay";
	FILE *fp = fopen(path.c_str(), "w"); if (!fp) return false;
	fprintf(fp, "# replay file: run with  bin/check %s --replay <this file>\n# the failure needs the history of the cases before it in one process\nproperty %s\nsequence %llu %llu %llu %llu %d\nkind %s\ntape -\nend\nfailure: %s\n", p.id, p.id,
		(unsigned long long) seed, (unsigned long long) from, (unsigned long long) idx, (unsigned long long) nw, g_tier, codename(r.code), r.msg.c_str());
	fclose(fp);
	printf("failure (%s) after cases %llu..%llu step %llu of seed %llu in one process: %s\n", codename(r.code), (unsigned long long) from, (unsigned long long) idx, (unsigned long long) nw, (unsigned long long) seed, r.msg.substr(0, 3000).c_str());
	o.violated = true; o.replay = path;
	return true;
}

// Confirm, shrink and report a failing tape. Returns true if it reproduces.
static bool report(const Prop &p, std::vector<uint8_t> t, const std::string &origin, const std::string &firstmsg, Outcome &o) {
	int tries = p.fresh ? 20 : 3, okc = 0; Res r;
	std::string k;
	for (int i = 0; i < tries; i++) { if (okc && kind(r) == "hang") break; r = run_tape(p, t, false, g_cpu); if (r.code) { okc++; k = kind(r); if (p.fresh) break; } else if (!p.fresh) break; }
	if (!okc) {
		fprintf(stderr, "note: failure of %s (%s) did not reproduce: %s\n", p.id, origin.c_str(), firstmsg.c_str());
		return false;
	}
	std::vector<uint8_t> sh = p.fresh > 1 ? t : shrink(p, t, k, r.code == EX_HANG);
	// one full budget has confirmed a hang: its repetitions get a smaller one
	bool hang = r.code == EX_HANG; int cpu = hang ? 10 : g_cpu;
	int conf = 0, need = p.fresh || hang ? 1 : 3, att = p.fresh ? 30 : 3;
	for (int i = 0; i < att && conf < need; i++) if (run_tape(p, sh, false, cpu).code) conf++;
	if (conf < need) sh = t;
	std::string path = g_out + "/" + p.id + ".replay";
	write_replay(p, sh, path, origin, cpu);
	Res fin = run_tape(p, sh, true, cpu);
	printf("failure (%s) after %s: %s\n  case: %s\n", codename(r.code), origin.c_str(), fin.msg.substr(0, 3000).c_str(), fin.desc.substr(0, 3000).c_str());
	o.violated = true; o.replay = path;
	return true;
}

#ifdef FUZZ
// ---------------------------------------------------------------- libFuzzer entry
static const Prop *g_fp;
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
	const char *id = getenv("PBT_PROP");
	for (auto &p : props()) if (id && !strcmp(p.id, id)) g_fp = &p;
	if (!g_fp) { fprintf(stderr, "no such property\n"); exit(2); }
	g_tier = 1;
	g_shm = newshm();
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
	if (size > TAPE_CAP) return -1;
	static uint8_t *tape = (uint8_t *) malloc(TAPE_CAP);
	memcpy(tape, data, size);
	Src s(tape, TAPE_CAP); s.replay = true; s.len = size;
	std::string d; bool nt = false;
	int rc = run_case(*g_fp, s, false, &d, &nt);
	if (rc) { fprintf(stderr, "PBT failure: %s\n", g_shm->msg); abort(); }
	return 0;
}
#else
int main(int argc, char **argv) {
	std::string id, replay, tapebin; uint64_t seed = 1, n = 0; unsigned nw = 8; double scale = 1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") id = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
		else if (a == "--tier") g_tier = v() == "thorough"; else if (a == "--cases") n = strtoull(v().c_str(), 0, 10);
		else if (a == "--scale") scale = atof(v().c_str());
		else if (a == "--workers") nw = atoi(v().c_str()); else if (a == "--out") g_out = v();
		else if (a == "--replay") replay = v(); else if (a == "--tape") tapebin = v();
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
	}
	const Prop *pp = NULL; for (auto &p : props()) if (id == p.id) pp = &p;
	if (!pp) { fprintf(stderr, "no property %s in this binary\n", id.c_str()); return 2; }
	const Prop &p = *pp;
#ifdef HAVE_HOOKS
	__sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
	if (!n) n = g_tier ? p.thorough : p.quick;
	n = (uint64_t) (n * scale); if (!n) n = 1;
	Outcome o;
	if (!replay.empty() || !tapebin.empty()) {
		std::vector<uint8_t> t;
		if (!tapebin.empty()) { std::string s = slurp(tapebin, TAPE_CAP); t.assign(s.begin(), s.end()); if (t.size() > TAPE_CAP) t.resize(TAPE_CAP); }
		else if (!read_replay(replay.c_str(), t)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
		std::string origin = "replay";
		if (!tapebin.empty()) { // shrink and report a tape found by the fuzzer
			if (report(p, t, "coverage-guided search", "", o)) { printf("REPLAYFILE %s\n", o.replay.c_str()); return 1; }
			return 0;
		}
		int tries = p.fresh ? 30 : 1;
		{
			std::string head = slurp(replay, 4096); size_t q = head.find("\nsequence ");
			unsigned long long a, b, d, e; int t;
			if (q != std::string::npos && sscanf(head.c_str() + q, "\nsequence %llu %llu %llu %llu %d", &a, &b, &d, &e, &t) == 5) {
				g_tier = t; Res r = run_seq(p, a, b, d, e, 1800);
				if (r.code) { printf("failure (%s): %s\n", codename(r.code), r.msg.c_str()); return 1; }
				printf("sequence holds\n"); return 0;
			}
		}
		// a replay file whose failure came from the exhaustive part
		if (slurp(replay, 4096).find("\norigin exhaustive") != std::string::npos && p.exhaustive) {
			g_shm = newshm(); try { Case c; p.exhaustive(c); } catch (Failure &f) { printf("failure: %s\n", f.msg.c_str()); return 1; }
			return 0;
		}
		for (int i = 0; i < tries; i++) {
			Res r = run_tape(p, t, true, g_cpu); if (!r.code && p.leak) r = run_tape(p, t, false, g_cpu);
			if (r.code) { printf("failure (%s): %s\n  case: %s\n", codename(r.code), r.msg.c_str(), r.desc.c_str()); return 1; }
			if (i == tries - 1) printf("case holds: %s\n", r.desc.c_str());
		}
		return 0;
	}
	std::vector<Shm *> shm(nw); std::vector<pid_t> pid(nw); 
	std::vector<std::vector<uint8_t>> failing; std::vector<std::string> origins, msgs; bool exfail = false; std::string exmsg;
	unsigned alive = 0; uint64_t nonrepro = 0;
	fflush(NULL);
	std::vector<uint64_t> fidx; std::vector<int> codes;
	for (unsigned w = 0; w < nw; w++) {
		shm[w] = newshm();
		pid[w] = fork();
		if (pid[w] < 0) { perror("fork"); return 2; }
		if (pid[w] == 0) { g_shm = shm[w]; worker(p, seed, n, w, nw); }
		alive++;
	}
	while (alive) {
		int st; pid_t q = wait(&st); if (q < 0) { if (errno == EINTR) continue; break; }
		unsigned w = 0; while (w < nw && pid[w] != q) w++;
		if (w == nw) continue;
		alive--; pid[w] = 0;
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
		if (code == 0) continue;
		for (unsigned x = 0; x < nw; x++) if (pid[x]) kill(pid[x], SIGKILL);
		std::string m = shm[w]->msg; if (m.empty()) m = slurp(g_out + "/w" + std::to_string(w) + ".err", 6000);
		if (code == 128 + SIGKILL) continue;
		if (shm[w]->idx == (uint64_t) -1) { exfail = true; exmsg = m; continue; }
		// regenerate the tape of the failing case: the shared tape holds every choice made so far
		std::vector<uint8_t> t;
		{
			// the case's tape is exactly what was drawn before the failure; longer stale bytes do no harm
			Shm *s = shm[w]; Src g(NULL, 0); (void) g;
			size_t L = 0; uint64_t rng = caseseed(seed, p.id, s->idx);
			// recompute how many bytes match the generator stream from the start
			while (L < TAPE_CAP && s->tape[L] == (uint8_t) (splitmix(rng) >> 24)) L++;
			t.assign(s->tape, s->tape + L);
		}
		failing.push_back(t); origins.push_back("case " + std::to_string(shm[w]->idx) + " of seed " + std::to_string(seed)); msgs.push_back(m); fidx.push_back(shm[w]->idx); codes.push_back(code);
	}
	for (unsigned w = 0; w < nw; w++) { o.cases += shm[w]->done; o.evals += shm[w]->evals; merge(o, g_out + "/w" + std::to_string(w) + ".res"); }
	if (exfail) {
		std::string path = g_out + "/" + p.id + ".replay";
		FILE *fp = fopen(path.c_str(), "w"); fprintf(fp, "property %s\norigin exhaustive\nkind oracle\ntape -\nend\nfailure: %s\n", p.id, exmsg.c_str()); fclose(fp);
		printf("failure in the exhaustive part: %s\n", exmsg.c_str()); o.violated = true; o.replay = path;
	} else {
		std::vector<size_t> ord(failing.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
		std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return fidx[a] < fidx[b]; });
		for (size_t i : ord) {
			if (report(p, failing[i], origins[i], msgs[i], o)) break;
			if (!p.fresh && report_seq(p, seed, fidx[i] % nw, nw, fidx[i], o)) break;
			if (codes[i] == EX_SAN || codes[i] == EX_ORACLE) {
				// seen once on the real code but not again: keep what was seen
				std::string path = g_out + "/" + p.id + ".replay";
				write_replay(p, failing[i], path, origins[i] + " (seen once)", g_cpu);
				FILE *fp = fopen(path.c_str(), "a"); if (fp) { fprintf(fp, "seen once: %s\n", msgs[i].c_str()); fclose(fp); }
				printf("failure (%s) seen once at %s: %s\n", codename(codes[i]), origins[i].c_str(), msgs[i].substr(0, 3000).c_str());
				o.violated = true; o.replay = path; break;
			}
			nonrepro++;
		}
	}
	// summary for the driver
	FILE *fp = fopen((g_out + "/summary.json").c_str(), "w");
	fprintf(fp, "{\"cases\":%llu,\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"exhaustive\":%s,\"nonrepro\":%llu,\"violated\":%s,\"rule\":%s,\"labels\":{",
		(unsigned long long) o.cases, (unsigned long long) o.evals, (unsigned long long) o.nt.size(), p.exhaustive ? "true" : "false", (unsigned long long) nonrepro, o.violated ? "true" : "false", jstr(p.rule).c_str());
	bool first = true; for (auto &l : o.labels) { fprintf(fp, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long) l.second); first = false; }
	fprintf(fp, "},\"samples\":["); first = true;
	for (size_t i = 0; i < o.samples.size() && i < 8; i++) { fprintf(fp, "%s%s", first ? "" : ",", jstr(o.samples[i]).c_str()); first = false; }
	fprintf(fp, "]}\n"); fclose(fp);
	if (o.violated) { printf("REPLAYFILE %s\n", o.replay.c_str()); return 1; }
	if (nonrepro) return 3;
	return 0;
}
#endif
