// libmy parts the library does not build itself: ordered sets, lists, hashes, time, file sets,
// spool directories and small helpers, each against a reference model.
#include "../engine.h"
#include "../shim_util.h"
#include "../gen.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <pthread.h>
#include <math.h>
#include <map>
#include <set>
#include <list>
#include <algorithm>
extern "C" {
#include "libmy/my_fileset.h"
}

// ---------------------------------------------------------------- P39
struct Tree {
	int kind; void *t; std::map<int, struct unode *> m; unsigned ids = 0;
	explicit Tree(int k): kind(k), t(st_new(k)) {}
	~Tree() { for (auto &x : m) st_node_free(kind, x.second); st_free(kind, t); }
	struct unode *at(std::map<int, struct unode *>::iterator i) { return i == m.end() ? NULL : i->second; }
	void verify(const char *after) {
		size_t n; unsigned h; const char *e = st_verify(kind, t, &n, &h);
		CHECK(!e, "after %s the tree has %s", after, e);
		CHECK(n == m.size(), "after %s the tree has %zu elements, expected %zu", after, n, m.size());
		if (kind == 0) CHECK(h <= 2 * log2((double) n + 1) + 1e-9, "after %s a red-black tree of %zu elements has height %u", after, n, h);
		CHECK(st_empty(kind, t) == m.empty(), "after %s the emptiness test is wrong", after);
	}
	void insert(int key) {
		struct unode *n = st_node(kind, key, ids++); auto i = m.find(key); struct unode *r = st_insert(kind, t, n);
		CHECK(r == at(i), "inserting %d %s", key, i == m.end() ? "reports an element in the way" : "does not yield the element in the way");
		if (i == m.end()) m[key] = n; else st_node_free(kind, n);
	}
	void remove(std::map<int, struct unode *>::iterator i) {
		struct unode *r = st_remove(kind, t, i->second);
		CHECK(r == i->second, "removing %d does not yield the element", i->first);
		st_node_free(kind, i->second); m.erase(i);
	}
	void walk(bool reverse) {
		std::vector<struct unode *> v(m.size() + 2), w; size_t n = st_foreach(kind, t, reverse, v.data(), m.size() + 1);
		for (auto &x : m) w.push_back(x.second);
		if (reverse) std::reverse(w.begin(), w.end());
		CHECK(n == w.size(), "the walk yields %zu elements, expected %zu", n, w.size());
		for (size_t i = 0; i < n; i++) CHECK(v[i] == w[i], "element %zu of the walk is wrong", i);
	}
};
static void p39(Src &s, Case &c) {
	Tree T((int) s.below(2)); int range = 1 + (int) s.below(s.flip() ? 12 : s.flip() ? 60 : 100000); unsigned n = s.below(4) == 0 ? 1 + s.small(40) : s.chance(1, 4000) ? 3000 + s.below(5000) : 10 + s.below(g_tier ? 600 : 250), grow = s.below(8), removed = 0; size_t top = 0;
	int run = (int) s.below(6); // monotonic insertions at times
	c.note("%s, %u operations, keys below %d", T.kind ? "splay tree" : "red-black tree", n, range);
	for (unsigned st = 0; st < n; st++) {
		int key = run == 0 ? (int) st % range : run == 1 ? range - (int) st % range : (int) s.below((uint32_t) range) - (s.below(8) == 0 ? range / 2 : 0);
		const char *op = "";
		switch (s.below(12)) {
		case 0: { op = "a search"; auto i = T.m.find(key); CHECK(st_find(T.kind, T.t, key) == T.at(i), "searching %d is wrong", key); break; }
		case 1: if (T.kind == 0) { op = "a search for the next"; CHECK(st_nfind(0, T.t, key) == T.at(T.m.lower_bound(key)), "the first element not below %d is wrong", key); } break;
		case 2: op = "a step"; if (!T.m.empty()) { auto i = T.m.lower_bound(key); if (i == T.m.end()) --i; auto j = i; ++j; CHECK(st_next(T.kind, T.t, i->second) == T.at(j), "the element after %d is wrong", i->first); if (T.kind == 0) { CHECK(st_prev(0, T.t, i->second) == (i == T.m.begin() ? NULL : std::prev(i)->second), "the element before %d is wrong", i->first); } } break;
		case 3: op = "minimum and maximum"; CHECK(st_min(T.kind, T.t) == (T.m.empty() ? NULL : T.m.begin()->second), "the minimum is wrong"); CHECK(st_max(T.kind, T.t) == (T.m.empty() ? NULL : T.m.rbegin()->second), "the maximum is wrong"); break;
		case 4: op = "a walk"; if (s.below(4) == 0) T.walk(T.kind == 0 && s.flip()); break;
		case 5: if (T.kind == 1) { op = "removing what is not there"; if (!T.m.count(key)) { struct unode *x = st_node(1, key, 0); struct unode *r = st_remove(1, T.t, x); st_node_free(1, x); CHECK(r == NULL, "removing an absent key yields something"); } } break;
		default:
			if (s.below(8) >= grow && !T.m.empty()) { op = "a removal"; auto i = T.m.lower_bound(key); if (i == T.m.end()) i = s.flip() ? T.m.begin() : std::prev(i); T.remove(i); removed++; }
			else { op = "an insertion"; T.insert(key); }
		}
		if (n < 3000 || st % 64 == 0) T.verify(op); if (T.m.size() > top) top = T.m.size();
	}
	T.walk(false); if (T.kind == 0) T.walk(true);
	if (s.flip()) while (!T.m.empty()) { auto i = T.m.lower_bound((int) s.below((uint32_t) range)); if (i == T.m.end()) i = T.m.begin(); T.remove(i); if (n < 3000 || T.m.size() % 64 == 0) T.verify("a removal at the end"); removed++; }
	c.nontrivial = top > 2 && removed; c.label(T.kind ? "splay" : "red-black"); if (top > 20) c.label("more than 20 elements");
}
static void x39(Case &c) { // every order of insertion and of removal of up to five keys
	uint64_t k = 0;
	for (int kind = 0; kind < 2; kind++) for (int n = 1; n <= 5; n++) {
		std::vector<int> a(n); for (int i = 0; i < n; i++) a[i] = i;
		do { std::vector<int> b(n); for (int i = 0; i < n; i++) b[i] = i;
			do { Tree T(kind); for (int x : a) { T.insert(x); T.verify("an insertion"); } for (int x : b) { T.remove(T.m.find(x)); T.verify("a removal"); T.walk(false); } k++; } while (std::next_permutation(b.begin(), b.end()));
		} while (std::next_permutation(a.begin(), a.end()));
	}
	add_evals(k);
}
static PropReg r39({"P39", p39, "red-black and splay trees under histories of up to 260 (thorough: 610) insertions, removals, searches, steps, minima, maxima and walks over 1 to 100000 keys (also ascending and descending), each step compared with an ordered map and the whole structure verified (order, links, colours, height); removed elements are freed; every run also covers all orders of insertion and removal of up to five keys; non-trivial: at least three elements at some time and a removal", 720000, 3600000, true, 0, x39, 30000, 0});

// ---------------------------------------------------------------- P40
struct Lists {
	std::vector<struct lnode *> nodes; struct llist l[3]; std::vector<struct lnode *> m[3]; // by list
	std::vector<int> where; // per node: list or -1
	~Lists() { for (auto n : nodes) free(n); }
	void verify(const char *after) {
		for (int k = 0; k < 3; k++) {
			std::vector<struct lnode *> &v = m[k];
			CHECK(sl_empty(&l[k]) == v.empty(), "after %s list %d is %s", after, k, v.empty() ? "not empty" : "empty");
			CHECK(sl_head(&l[k]) == (v.empty() ? NULL : v[0]), "after %s the head of list %d is wrong", after, k);
			CHECK(sl_tail(&l[k]) == (v.empty() ? NULL : v.back()), "after %s the tail of list %d is wrong", after, k);
			size_t i = 0; for (struct lnode *n = sl_head(&l[k]); n && i <= v.size(); n = sl_next(n), i++) CHECK(i < v.size() && n == v[i], "after %s element %zu of list %d is wrong", after, i, k);
			CHECK(i == v.size(), "after %s list %d has %zu elements, expected %zu", after, k, i, v.size());
			for (struct lnode *n = sl_tail(&l[k]); n && i > 0; n = sl_prev(n), i--) CHECK(n == v[i - 1], "after %s element %zu of list %d is wrong backwards", after, i - 1, k);
			CHECK(i == 0 && (v.empty() || sl_prev(v[0]) == NULL), "after %s list %d does not end backwards", after, k);
		}
		for (size_t i = 0; i < nodes.size(); i++) if (where[i] != -2) CHECK(sl_linked(nodes[i]) == (where[i] >= 0), "after %s element %zu is %s", after, i, where[i] >= 0 ? "not linked" : "still linked");
	}
};
static void p40(Src &s, Case &c) {
	Lists L; unsigned nn = 1 + (s.chance(1, 4000) ? s.below(600) : s.below(20)), ops = 1 + s.small(150), unl = 0, joined = 0;
	for (unsigned i = 0; i < nn; i++) { struct lnode *n = (struct lnode *) malloc(sizeof *n); memset(n, 0xa5, sizeof *n); n->id = (int) i; L.nodes.push_back(n); if (s.below(4)) { sl_node_init(n); L.where.push_back(-1); } else L.where.push_back(-2); }
	memset(L.l, 0x5a, sizeof L.l); for (auto &x : L.l) sl_init(&x);
	c.note("%u elements, %u operations", nn, ops);
	L.verify("initialisation");
	for (unsigned st = 0; st < ops; st++) {
		int k = (int) s.below(3); unsigned i = s.below(nn); struct lnode *n = L.nodes[i]; const char *op = "nothing"; auto &v = L.m[k];
		if (L.where[i] < 0) {
			int w = (int) s.below(7); if (L.where[i] == -2) w = s.flip() ? SL_INITPREPEND : SL_INITAPPEND; // never initialised
			struct lnode *at = NULL; size_t p = 0; if (w == SL_BEFORE || w == SL_AFTER) { if (v.empty()) w = SL_APPEND; else { p = s.below((uint32_t) v.size()); at = v[p]; } }
			sl_insert(w, &L.l[k], at, n); op = w == SL_BEFORE ? "an insertion before" : w == SL_AFTER ? "an insertion after" : w == SL_PREPEND || w == SL_INITPREPEND ? "a prepend" : "an append";
			size_t q = w == SL_BEFORE ? p : w == SL_AFTER ? p + 1 : w == SL_PREPEND || w == SL_INITPREPEND ? 0 : v.size(); v.insert(v.begin() + (long) q, n); L.where[i] = k;
		} else if (s.below(8)) { int j = L.where[i]; auto &x = L.m[j]; sl_unlink((int) s.below(4), &L.l[j], n); x.erase(std::find(x.begin(), x.end(), n)); L.where[i] = -1; op = "an unlink"; unl++; }
		else { int j = (int) s.below(3); if (j != k) { sl_join(&L.l[k], &L.l[j]); for (auto x : L.m[j]) { v.push_back(x); L.where[(size_t) x->id] = k; } L.m[j].clear(); op = "joining lists"; joined++; } }
		L.verify(op);
	}
	c.nontrivial = ops > 3 && nn > 1; if (unl) c.label("unlinked"); if (joined) c.label("joined");
}
static PropReg r40({"P40", p40, "three lists over up to 20 elements under histories of up to 150 prepends, appends, insertions before and after, unlinks and joins in all their spellings, elements initialised or not; after each step heads, tails, both directions and the linked test are compared with sequences; non-trivial: more than three operations on more than one element", 6000000, 30000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P41
static uint32_t rl(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void ref_lookup3(const std::vector<uint32_t> &w, uint32_t init, uint32_t seed2, size_t addlen, uint32_t *pc, uint32_t *pb) { // words of the key, the last ones padded with zero
	uint32_t a, b, c; a = b = c = 0xdeadbeef + (uint32_t) addlen + init; c += seed2; size_t i = 0, n = w.size();
	auto g = [&](size_t k) { return k < n ? w[k] : 0; };
	for (; n - i > 3; i += 3) {
		a += w[i]; b += w[i + 1]; c += w[i + 2];
		a -= c; a ^= rl(c, 4); c += b; b -= a; b ^= rl(a, 6); a += c; c -= b; c ^= rl(b, 8); b += a;
		a -= c; a ^= rl(c, 16); c += b; b -= a; b ^= rl(a, 19); a += c; c -= b; c ^= rl(b, 4); b += a;
	}
	if (n - i) {
		a += g(i); b += g(i + 1); c += g(i + 2);
		c ^= b; c -= rl(b, 14); a ^= c; a -= rl(c, 11); b ^= a; b -= rl(a, 25); c ^= b; c -= rl(b, 16);
		a ^= c; a -= rl(c, 4); b ^= a; b -= rl(a, 14); c ^= b; c -= rl(b, 24);
	}
	*pc = c; *pb = b;
}
static void p41(Src &s, Case &c) {
	size_t n = s.below(4) ? s.below(40) : s.chance(1, 2000) ? gen_large(s, 300000) : s.below(300); int fn = (int) s.below(5), var = (int) s.below(4); bool word = fn == SH_WORD || fn == SH_WORD2; if (word) n &= ~(size_t) 3;
	bytes k = s.below(4) ? n > 300 ? gen_blob(s, n) : s.raw(n) : bytes(n, (char) s.byte()); unsigned off = word ? 4 * s.below(3) : s.below(9); uint32_t a = s.flip() ? (uint32_t) s.u(4) : 0, b = s.flip() ? (uint32_t) s.u(4) : 0, a0 = a, b0 = b; bool two = fn == SH_WORD2 || fn == SH_LITTLE2;
	static const char *N[] = {"hashword", "hashword2", "hashlittle", "hashlittle2", "hashbig"};
	// the aligned readers may read, but must not use, the rest of the last word
	size_t pad = var == 2 || var == 3 ? 0 : 4; bytes fill = s.raw(pad); Exact mem(bytes(off, (char) s.byte()) + k + fill);
	c.note("%s variant %d, key=%s at offset %u, seeds %08x %08x", N[fn], var, hex(k).c_str(), off, a, b);
	std::vector<uint32_t> w; for (size_t i = 0; i < n; i += 4) { uint32_t v = 0; for (size_t j = 0; j < 4; j++) { uint32_t o = i + j < n ? (uint8_t) k[i + j] : 0; v |= o << (fn == SH_BIG ? 24 - 8 * j : 8 * j); } w.push_back(v); }
	uint32_t ra, rb; ref_lookup3(w, a, two ? b : 0, n, &ra, &rb);
	bytes before = mem.str(); sh_hash(var, fn, mem.p + off, word ? n / 4 : n, &a, &b);
	CHECK(a == ra, "%s of %s with seeds %08x %08x is %08x, expected %08x", N[fn], hex(k).c_str(), a0, b0, a, ra);
	if (two) CHECK(b == rb, "the second value of %s of %s with seeds %08x %08x is %08x, expected %08x", N[fn], hex(k).c_str(), a0, b0, b, rb); else CHECK(b == b0, "unrelated memory was changed");
	CHECK(mem.str() == before, "the key was modified");
	c.nontrivial = n > 0; c.label(N[fn]); if (n > 12) c.label("more than one block");
}
static void x41(Case &c) { // every length to 64 at every offset, and the published values of the algorithm
	for (int var = 0; var < 4; var++) for (int fn = SH_LITTLE; fn <= SH_BIG; fn++) for (size_t n = 0; n <= 64; n++) { uint32_t h = 0, h2 = 0; for (unsigned off = 0; off < 8; off++) { Exact m(76, 0); for (size_t i = 0; i < 76; i++) m.p[i] = (uint8_t) (off * 7 + 1); for (size_t i = 0; i < n; i++) m.p[off + i] = (uint8_t) (i * 37 + 5); uint32_t a = 13, b = 99; sh_hash(var, fn, m.p + off, n, &a, &b); if (off) CHECK(a == h && b == h2, "the hash of %zu octets depends on their place or on what follows them", n); h = a; h2 = b; } }
	static const struct { const char *k; uint32_t c, b, rc, rb; } V[] = {{"", 0, 0, 0xdeadbeef, 0xdeadbeef}, {"", 0, 0xdeadbeef, 0xbd5b7dde, 0xdeadbeef}, {"", 0xdeadbeef, 0xdeadbeef, 0x9c093ccd, 0xbd5b7dde}, {"Four score and seven years ago", 0, 0, 0x17770551, 0xce7226e6}, {"Four score and seven years ago", 0, 1, 0xe3607cae, 0xbd371de4}, {"Four score and seven years ago", 1, 0, 0xcd628161, 0x6cbea4b3}};
	for (int var = 0; var < 4; var++) for (auto &v : V) { uint32_t a = v.c, b = v.b; sh_hash(var, SH_LITTLE2, v.k, strlen(v.k), &a, &b); CHECK(a == v.rc && b == v.rb, "the published value for \"%s\" with seeds %08x %08x is not met: %08x %08x", v.k, v.c, v.b, a, b); }
	add_evals(4 * 3 * 65 * 8 + 24);
}
static PropReg r41({"P41", p41, "keys of 0 to 300 octets at offsets 0 to 8 with random octets around them and random seeds through the five hash functions, each built four ways (as configured, little endian, without reads behind the key, without known byte order), compared with a block-wise reference; every run also covers every length to 64 at every offset and the published values; non-trivial: not empty", 4000000, 30000000, true, 0, x41, 6264, 0});

// ---------------------------------------------------------------- P42
typedef __int128 i128;
static i128 ns(const struct timespec &t) { return (i128) t.tv_sec * 1000000000 + t.tv_nsec; }
static struct timespec gen_ts(Src &s) { struct timespec t; t.tv_sec = s.flip() ? (time_t) s.below(5) : (time_t) (s.u(5) & 0xffffffffff); static const long e[] = {0, 1, 999999999, 500000000, 499999999, 999999998}; t.tv_nsec = s.flip() ? e[s.below(6)] : (long) s.below(1000000000); return t; }
static std::vector<struct timespec> g_slept; static std::vector<int> g_eintr; static std::vector<struct timespec> g_left;
static int scripted_sleep(const struct timespec *a, struct timespec *b) {
	size_t i = g_slept.size(); g_slept.push_back(*a); if (i > 60) fail("sleeping does not end");
	if (i < g_eintr.size()) { struct timespec r = *a; i128 v = ns(*a) * g_eintr[i] / 100; r.tv_sec = (time_t) (v / 1000000000); r.tv_nsec = (long) (v % 1000000000); g_left.push_back(r); if (b) *b = r; errno = EINTR; return -1; }
	return 0;
}
// the simulated clock
static i128 g_now; static Src *g_src; static int g_jitter; static bool g_sleptbad;
static int sim_gettime(struct timespec *t) { t->tv_sec = (time_t) (g_now / 1000000000); t->tv_nsec = (long) (g_now % 1000000000); return 0; }
static void sim_until(i128 t) { if (t > g_now) g_now = t; if (g_jitter) g_now += g_src->below((uint32_t) g_jitter); }
static bool good_ts(const struct timespec *t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }
static unsigned g_sig; // signals come 1 time in so many
static bool sim_signal(i128 till) { if (!g_sig || till <= g_now || g_src->below(g_sig)) return false; g_now += (till - g_now) * (i128) g_src->below(100) / 100; return true; }
static int sim_abs(int flags, const struct timespec *t, struct timespec *) { if (flags == TIMER_ABSTIME && good_ts(t) && sim_signal(ns(*t))) return EINTR; if (flags != TIMER_ABSTIME || !good_ts(t)) g_sleptbad = true; else sim_until(ns(*t)); return 0; }
static int sim_rel(const struct timespec *t, struct timespec *b) { if (!good_ts(t) || t->tv_sec < 0) { g_sleptbad = true; return 0; } i128 till = g_now + ns(*t); if (sim_signal(till)) { if (b) { i128 v = till - g_now; b->tv_sec = (time_t) (v / 1000000000); b->tv_nsec = (long) (v % 1000000000); } errno = EINTR; return -1; } sim_until(till); return 0; }
static void p42_rate(Src &s, Case &c) {
	int var = (int) s.below(2); static const unsigned R[] = {1, 2, 3, 7, 10, 50, 99, 100, 333, 1000, 4096, 30000}; unsigned rate = s.flip() ? R[s.below(12)] : 1 + s.below(s.flip() ? 20 : 5000);
	unsigned freq = s.flip() ? 0 : s.below(4) == 0 ? 1 + s.below(9) : 10 + s.below(s.flip() ? 10 : 200); g_jitter = s.flip() ? 0 : (int) (1 + s.below(1000)); g_src = &s; g_sleptbad = false; g_sig = s.below(4) ? 0 : 2 + s.below(20);
	g_now = (i128) (1000 + s.below(100000)) * 1000000000 + s.below(1000000000); fake_clock_gettime = sim_gettime; fake_clock_nanosleep = sim_abs; fake_nanosleep = sim_rel;
	bool busy = freq != 0 || s.flip(); unsigned n = busy ? 200 + s.below(g_tier ? 4000 : 800) : 20 + s.below(100); bool stalls = freq == 0 && s.below(3) == 0; if (stalls && s.below(6) == 0) n = 1000 + s.below(3000);
	c.note("rate %u, adjusted every %u events, %s, %u events, variant %d, jitter %d ns, signals 1 in %u", rate, freq, busy ? "busy caller" : "idle caller", n, var, g_jitter, g_sig); if (g_sig) c.label("signals");
	void *r = su_rate_init(var, rate, freq); CHECK(r, "a limiter for %u events per second is refused", rate);
	struct Fin { int v; void **r; ~Fin() { su_rate_destroy(v, r); } } fin{var, &r};
	i128 first = g_now; std::map<i128, unsigned> per; i128 p = rate == 1 ? 1000000000 : 1000000000 / rate;
	for (unsigned i = 0; i < n; i++) {
		i128 t0 = g_now; su_rate_sleep(var, r); CHECK(!g_sleptbad, "event %u sleeps until or for an invalid time", i);
		if (freq == 0) { i128 limit = t0 + p + 1 + g_jitter * 2; CHECK(g_now <= limit, "event %u waits %lld ns, a period is %lld ns", i, (long long) (g_now - t0), (long long) p); unsigned k = ++per[g_now / 1000000000]; CHECK(k <= 1000000000 / p + 1, "%u events within one second of the clock at a rate of %u", k, rate); }
		if (!busy) g_now += (i128) s.below(3) * p + s.below(1000);
		if (stalls && s.below(200) == 199) g_now += (i128) (1 + s.below(20)) * 1000000000 + s.below(1000000000);
	}
	if (freq >= 10) { double T = (double) (g_now - first) / 1e9, lo = 0.8 * rate * T - 3, hi = 1.25 * rate * T + 3 + 2.0 * freq / rate; CHECK(n >= lo && n <= hi, "%u events in %.3f s at a rate of %u per second", n, T, rate); } // adjusting after every few events is jumpy: no bound is claimed
	su_rate_destroy(var, &r); CHECK(r == NULL, "destroying leaves the pointer"); su_rate_sleep(var, NULL); su_rate_destroy(var, &r);
	c.label("rate limit"); c.nontrivial = n > 20;
}
static void p42(Src &s, Case &c) {
	switch (s.below(16)) {
	case 0: p42_rate(s, c); return;
	case 1: case 2: { // sleeping through interruptions
		struct timespec t = gen_ts(s); t.tv_sec &= 0xffffff; g_slept.clear(); g_eintr.clear(); g_left.clear(); unsigned n = s.below(6); while (n--) g_eintr.push_back((int) s.below(100)); fake_nanosleep = scripted_sleep;
		c.note("sleep %lld.%09ld, %zu interruptions", (long long) t.tv_sec, t.tv_nsec, g_eintr.size());
		struct timespec t0 = t; su_nanosleep(&t); CHECK(!memcmp(&t, &t0, sizeof t), "the time to sleep was modified");
		CHECK(g_slept.size() == g_eintr.size() + 1, "%zu sleeps for %zu interruptions", g_slept.size(), g_eintr.size()); CHECK(ns(g_slept[0]) == ns(t), "the first sleep is wrong");
		for (size_t i = 0; i < g_left.size(); i++) CHECK(ns(g_slept[i + 1]) == ns(g_left[i]), "sleep %zu is not for the time that remained", i + 1);
		c.label("sleep"); c.nontrivial = !g_eintr.empty(); return; }
	case 3: case 4: case 5: case 6: { // seconds as a floating number
		double d; switch (s.below(5)) { case 0: d = s.below(10); break; case 1: d = (double) s.u(5); break; case 2: d = 1.0 / (1 + s.below(100000)); break; case 3: d = (double) s.u(4) + s.below(1000000000) / 1e9; break; default: d = (double) (s.u(5)) / (1 + (double) s.u(2)); break; }
		c.note("seconds=%.17g", d); struct timespec t = {-5, -5}; su_double_ts(d, &t); CHECK(t.tv_sec == (time_t) floor(d), "%.17g seconds have the whole part %lld", d, (long long) t.tv_sec);
		CHECK(t.tv_nsec >= 0 && t.tv_nsec < 1000000000, "%.17g seconds give %ld nanoseconds", d, t.tv_nsec); double f = (d - floor(d)) * 1e9; CHECK(fabs((double) t.tv_nsec - f) <= 1.0, "%.17g seconds give %ld nanoseconds", d, t.tv_nsec);
		double back = su_ts_double(&t); CHECK(fabs(back - d) <= 2e-9 + d * 4e-16, "%.17g seconds come back as %.17g", d, back); c.label("floating"); c.nontrivial = d > 0; return; }
	default: {
		struct timespec a = gen_ts(s), b = gen_ts(s), a0 = a, r = b; bool add = s.flip(); if (add) su_ts_add(&a, &r); else su_ts_sub(&a, &r);
		c.note("%lld.%09ld %c %lld.%09ld", (long long) b.tv_sec, b.tv_nsec, add ? '+' : '-', (long long) a.tv_sec, a.tv_nsec);
		i128 want = add ? ns(b) + ns(a) : ns(b) - ns(a); CHECK(ns(r) == want && r.tv_nsec >= 0 && r.tv_nsec < 1000000000, "the result is %lld s %ld ns", (long long) r.tv_sec, r.tv_nsec); CHECK(!memcmp(&a, &a0, sizeof a), "the operand was modified");
		if (!add) { su_ts_add(&a, &r); CHECK(r.tv_sec == b.tv_sec && r.tv_nsec == b.tv_nsec, "adding again does not give the start"); }
		double d = su_ts_double(&a); CHECK(fabs(d - ((double) a.tv_sec + (double) a.tv_nsec / 1e9)) <= d * 4e-16, "%lld.%09ld is converted to %.17g", (long long) a.tv_sec, a.tv_nsec, d);
		c.label("arithmetic"); c.nontrivial = a.tv_nsec && b.tv_nsec; return; }
	}
}
static PropReg r42({"P42", p42, "time values with boundary nanoseconds and up to 40 bits of seconds added, subtracted and converted to and from floating seconds; sleeps interrupted up to five times on a scripted clock; rate limiters of 1 to 30000 events per second with and without adjustment on a simulated clock with jitter, busy, idle and stalling callers, both sleep variants; against exact integer arithmetic, the remaining times, and bounds on events per second; non-trivial by kind: both nanosecond parts set, interrupted, more than 20 events", 6000000, 30000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P43
struct FsModel { std::map<std::string, intptr_t> cur; std::multiset<std::string> loads; std::vector<std::pair<std::string, intptr_t>> unloads; intptr_t next = 1; bool nulls = false; std::map<std::string, intptr_t> given; void *user; bool wrong = false; struct my_fileset *fs; };
static FsModel *F;
extern "C" void *fs_load(struct my_fileset *fs, const char *fname) { if (F->fs && fs != F->fs) F->wrong = true; if (my_fileset_user(fs) != F->user) F->wrong = true; F->loads.insert(fname); intptr_t v = F->nulls && F->next % 2 ? 0 : F->next; F->next++; F->given[fname] = v; return (void *) v; }
extern "C" void fs_unload(struct my_fileset *fs, const char *fname, void *p) { if (my_fileset_user(fs) != F->user) F->wrong = true; F->unloads.push_back({fname, (intptr_t) p}); }
static void put_file(const std::string &p, const std::string &content, bool append = false) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0644); if (fd < 0 || write(fd, content.data(), content.size()) != (ssize_t) content.size()) { fprintf(stderr, "cannot write %s: %s\n", p.c_str(), strerror(errno)); abort(); } close(fd); }
static void remove_all(const std::string &dir, int depth = 0);
#include <dirent.h>
static void remove_all(const std::string &dir, int depth) {
	if (dir.find("/scratch.") == std::string::npos || depth > 4) abort(); // only what this harness made
	DIR *d = opendir(dir.c_str()); if (d) { struct dirent *e; while ((e = readdir(d))) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = dir + "/" + n; struct stat sb; if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) remove_all(p, depth + 1); else unlink(p.c_str()); } closedir(d); }
	rmdir(dir.c_str());
}
struct Scratch { std::string dir; Scratch() { char b[4096]; if (!getcwd(b, sizeof b - 32)) abort(); strcat(b, "/scratch.XXXXXX"); if (!mkdtemp(b)) { fprintf(stderr, "mkdtemp: %s\n", strerror(errno)); abort(); } dir = b; } ~Scratch() { remove_all(dir); } };
struct Quiet2 { int fd; Quiet2() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet2() { fflush(stderr); dup2(fd, 2); close(fd); } }; // the code reports odd files on stderr
static void p43(Src &s, Case &c) {
	Scratch D; static const char *pool[] = {"a", "b", "c1", "c10", "data.mtbl", "with blank", "#x", "Z", ".hidden", "sub/inner", "\xc3\xa4"}; static const char *more[14] = {"a ", " a", "a\t", "A", "a\r", "a.b", "a-", "data.MTBL", "z", "*", "a~", "a;b", "\\a", "%s%n"}; const std::string longname(180, 'n'), l63(63, 'p'), l254(254, 'q');
	mkdir((D.dir + "/sub").c_str(), 0755); std::string set = D.dir + "/set.fileset"; auto nm = [&](unsigned i) { return i < 11 ? std::string(pool[i]) : i == 11 ? longname : i < 14 ? longname + (char) ('0' + i) : i < 16 ? l63 + (char) ('0' + i - 14) : i < 18 ? l254 + (char) ('0' + i - 16) : i == 18 ? std::string("dangling") : i < 33 ? std::string(more[i - 19]) : std::string("link"); };
	const unsigned NM = 34; auto put = [&](const std::string &n) { if (n == "link") (void) !symlink("sub/target", (D.dir + "/link").c_str()); else put_file(D.dir + "/" + n, "x"); }; put("sub/target"); (void) !symlink("/nonexistent/file", (D.dir + "/dangling").c_str());
	std::set<std::string> there; std::vector<std::string> lines; time_t stamp = 1000000000; long part = 0; std::set<std::pair<time_t, long>> stamps; static int fine = -1;
	if (fine < 0) { put("probe"); std::string p = D.dir + "/probe"; struct timespec tv[2] = {{1000, 123456789}, {1000, 123456789}}; struct stat sb; if (utimensat(AT_FDCWD, p.c_str(), tv, 0) || stat(p.c_str(), &sb)) abort(); fine = sb.st_mtim.tv_nsec == 123456789; unlink(p.c_str()); } // times within a second need a file system that keeps them
	std::string hist;
	bool changed = true, missing = false; auto write_set = [&](int how) { // 0 another file with a new time, 1 the same file with a new time, 2 another file with the old time
		if (how == 2 && (changed || missing)) how = 0; // the number of a file no longer there may be used again
		std::string t; for (size_t i = 0; i < lines.size(); i++) t += lines[i] + (i + 1 < lines.size() || s.below(4) ? "\n" : "");
		if (how != 2) { if (s.below(4) == 0) stamp -= 1 + (int) s.below(1000); bool within = fine && s.below(3) == 0; if (fine && s.below(3) == 0) part = s.flip() ? 0 : (long) s.below(1000000000); while (!stamps.insert({stamp, part}).second) if (within) part = (part + 1 + (long) s.below(1000)) % 1000000000; else stamp++; } std::string p = how == 1 ? set : D.dir + "/tmp"; put_file(p, t); struct timespec tv[2] = {{stamp, part}, {stamp, part}}; if (utimensat(AT_FDCWD, p.c_str(), tv, 0)) abort(); if (how != 1 && rename(p.c_str(), set.c_str())) abort(); }; // no time comes back: with a reused file number the set would look unchanged
	write_set(0);
	FsModel M; M.nulls = s.below(4) == 0; M.fs = NULL; M.user = &M; F = &M; bool cb_l = s.below(8) != 0, cb_u = s.below(8) != 0;
	Quiet2 q; char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) abort(); bool rel = s.below(4) == 0; std::string arg = rel ? "set.fileset" : set, prefix = rel ? "./" : D.dir + "/";
	struct Cd { std::string back; bool on; ~Cd() { if (on && chdir(back.c_str())) abort(); } } cd{cwd, rel}; if (rel && chdir(D.dir.c_str())) abort();
	struct my_fileset *fs = my_fileset_init(arg.c_str(), cb_l ? fs_load : NULL, cb_u ? fs_unload : NULL, M.user); M.fs = fs;
	struct Fin { struct my_fileset **f; ~Fin() { my_fileset_destroy(f); F = NULL; } } fin{&fs};
	unsigned steps = 1 + s.small(30), reloads = 0, dup = 0, kept = 0;
	unsigned after = 0; // after a failed reload: a file of the set goes away, or its line does, and the set is looked at again
	for (unsigned st = 0; st < steps; st++) {
		unsigned what = s.below(5); if (after) what = after-- == 2 ? s.below(2) : 4;
		switch (what) {
		case 0: { std::string n = nm(s.below(s.below(3) ? 19 : NM)); if (after && !there.empty()) { auto i = there.begin(); std::advance(i, s.below((uint32_t) there.size())); n = *i; } if (n == "dangling") break; if (there.count(n)) { unlink((D.dir + "/" + n).c_str()); there.erase(n); hist += " -" + n; } else { put(n); there.insert(n); hist += " +" + n; } break; }
		case 1: { lines.clear(); unsigned n = s.below(8); while (n--) lines.push_back(nm(s.below(s.below(3) ? 19 : NM))); if (s.below(3) == 0) for (auto &x : there) lines.push_back(x);
			if (s.below(200) == 199) { unsigned k = s.range(100, 600), lo = s.below(400); for (unsigned i = lo; i < lo + k; i++) { std::string x; for (int b = 0; b < 10; b++) x += i >> b & 1 ? "./" : "sub/../"; lines.push_back(x + (s.flip() ? "a" : "b")); } if (s.flip()) for (unsigned j = 1 + s.below(5); j--; ) lines.push_back(lines[s.below((uint32_t) lines.size())]); } std::set<std::string> u(lines.begin(), lines.end()); if (u.size() != lines.size()) dup++; write_set((int) s.below(3)); changed = true; missing = false; hist += " set("; if (lines.size() < 40) for (auto &x : lines) hist += x + ","; else hist += std::to_string(lines.size()); hist += ")"; break; }
		case 2: if (s.below(6) == 0 && !missing) { unlink(set.c_str()); missing = true; hist += " noset"; } break;
		default: {
			std::map<std::string, intptr_t> want; M.loads.clear(); M.unloads.clear(); M.given.clear(); bool look = changed && !missing; hist += look ? " reload" : " reload(unchanged)";
			if (look) { for (auto &l : lines) if (there.count(l.size() > 4 && (l[0] == '.' || l[0] == 's') && l[l.size() - 2] == '/' ? l.substr(l.size() - 1) : l)) want[prefix + l] = 0; changed = false; reloads++; } else want = M.cur;
			struct Fault { Fault() { fset_fail_at = -1; fset_fail_open = fset_fired = 0; } ~Fault() { fset_fail_at = -1; fset_fail_open = 0; } } fault; static const unsigned chunks[] = {1, 7, 100, 4096};
			if (!after && s.chance(1, look && M.cur.size() > 1 ? 2 : 6)) { if (s.below(3) == 0) { fset_fail_open = 1; hist += "!open"; } else { size_t z = 0; for (auto &l : lines) z += l.size() + 1; fset_fail_at = (long) (s.flip() ? z - s.below((uint32_t) std::min(z, (size_t) 3) + 1) : s.below((uint32_t) z + 1)); fset_chunk = chunks[s.below(4)]; hist += "!read@" + std::to_string(fset_fail_at); } }
			my_fileset_reload(fs); CHECK(!M.wrong, "a callback gets another set or user pointer; history:%s", hist.c_str());
			if (fset_fired) { // the set stays as it was, and the file is looked at again
				CHECK(look, "a set file that did not change is read; history:%s", hist.c_str()); c.label(fset_fail_open ? "the set file cannot be opened" : "the set file cannot be read in full");
				changed = true; reloads--; want = M.cur; if (st + 2 < steps && s.below(4)) after = 2; std::map<std::string, int> net; for (auto &x : M.loads) net[x]++;
				if (cb_u) { for (auto &x : M.unloads) { net[x.first]--; CHECK(!M.cur.count(x.first) && (!cb_l || M.given[x.first] == x.second), "%s is unloaded although the set file could not be read; history:%s", x.first.c_str(), hist.c_str()); } if (cb_l) for (auto &x : net) CHECK(x.second == 0, "%s stays loaded %d time(s) although the set file could not be read; history:%s", x.first.c_str(), x.second, hist.c_str()); }
				for (auto &x : M.loads) CHECK(!M.cur.count(x), "%s, which was loaded, is loaded again; history:%s", x.c_str(), hist.c_str());
				M.loads.clear(); M.unloads.clear();
			}
			std::multiset<std::string> newl; for (auto &w : want) { auto i = M.cur.find(w.first); if (i != M.cur.end()) { w.second = i->second; kept++; } else { if (cb_l) { newl.insert(w.first); w.second = M.given.count(w.first) ? M.given[w.first] : 0; } } }
			if (cb_l) CHECK(M.loads == newl, "%zu files were loaded, expected %zu; history:%s", M.loads.size(), newl.size(), hist.c_str()); 
			if (cb_u) { std::multiset<std::pair<std::string, intptr_t>> gone, un(M.unloads.begin(), M.unloads.end()); for (auto &o : M.cur) if (!want.count(o.first)) gone.insert(o); CHECK(un == gone, "%zu files were unloaded, expected %zu; history:%s", un.size(), gone.size(), hist.c_str()); }
			M.cur = want; break; }
		}
		size_t i = 0; const char *f; void *p; for (auto &x : M.cur) { f = NULL; p = NULL; CHECK(my_fileset_get(fs, i, &f, &p) && f && x.first == f && (intptr_t) p == x.second, "entry %zu is %s, expected %s; history:%s", i, f ? f : "missing", x.first.c_str(), hist.c_str()); i++; }
		CHECK(!my_fileset_get(fs, i, &f, &p), "there is an entry %zu, expected %zu in all; history:%s", i, i, hist.c_str());
	}
	M.unloads.clear(); my_fileset_destroy(&fs); CHECK(fs == NULL, "destroying leaves the pointer");
	if (cb_u) { std::multiset<std::pair<std::string, intptr_t>> gone(M.cur.begin(), M.cur.end()), un(M.unloads.begin(), M.unloads.end()); CHECK(un == gone, "destroying unloads %zu files, expected %zu; history:%s", un.size(), gone.size(), hist.c_str()); }
	c.note("history:%s", hist.c_str()); c.nontrivial = reloads > 1; if (dup) c.label("a file named twice"); if (M.cur.size() > 255) c.label("more than 255 entries"); if (kept) c.label("files kept");
}
static PropReg r43({"P43", p43, "histories of up to 30 steps over a scratch directory: files appear and vanish, the set file is rewritten (in place, replaced, replaced with the same time, with an earlier time), removed, and reloaded; lines may repeat, name missing files and dangling links, share long prefixes, name a link to a file, lack the last newline, or be several hundred; the set file fails to open or to be read at any octet, followed by files or lines going away; load and unload calls, entries, their order and pointers compared with a model, up to the destruction; non-trivial: at least two effective reloads", 100000, 1000000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P44
static void p44(Src &s, Case &c) {
	Scratch D; if (s.flip()) { mkdir((D.dir + "/active").c_str(), 0755); if (s.flip()) mkdir((D.dir + "/incoming").c_str(), 0755); }
	spool_scratch = D.dir.c_str(); spool_escaped = 0; struct Esc { ~Esc() { spool_scratch = NULL; } } esc; // changes elsewhere are refused
	Quiet2 q; struct spooldir *sp = spooldir_init((D.dir + (s.below(4) ? "" : "/./")).c_str()); struct Fin { struct spooldir **p; ~Fin() { spooldir_destroy(p); } } fin{&sp};
	std::string in = D.dir + "/incoming/", act = D.dir + "/active/", hist; std::map<std::string, std::string> pend, done; unsigned steps = 1 + s.small(40), ids = 0, quiet = 0, moved = 0, replaced = 0; std::set<std::string> junk, block;
	auto waiting = [&]() { size_t k = 0; for (auto &x : pend) k += !block.count(x.first); return k; };
	auto name = [&]() { unsigned k = s.below(12); return k < 8 ? "f" + std::to_string(k) : k == 8 ? s.flip() ? std::string(150, 'L') : std::string(254, 'L') + (s.flip() ? "1" : "2") : k == 9 ? std::string("with blank") : k == 10 ? std::string("%s%n") : "u" + std::to_string(ids); };
	auto holds = [](const std::string &p, const std::string &t) { char b[64]; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false; ssize_t k = read(fd, b, sizeof b); close(fd); return k >= 0 && std::string(b, (size_t) k) == t; };
	for (unsigned st = 0; st < steps; st++) {
		switch (s.below(8)) {
		case 0: case 1: case 2: { std::string n = name(), t = s.below(6) ? "content " + std::to_string(ids++) : ""; if (s.below(5) == 0) { n = ""; unsigned k = 1 + s.below(9); while (k--) { char ch = (char) s.range(32, s.flip() ? 126 : 255); n += ch == '/' ? '~' : ch; } if (n[0] == '.') n[0] = '~'; if (s.below(4) == 0) n += "~"; if (junk.count(n)) n = "f0"; }
			put_file(D.dir + "/new", t); if (s.below(6) == 0) { static const mode_t md[] = {0, 0400, 0600, 0755, 0777, 01644}; if (chmod((D.dir + "/new").c_str(), md[s.below(6)])) abort(); } if (s.below(6) == 0) { struct timeval tv[2] = {{0, 0}, {0, 0}}; tv[0].tv_sec = tv[1].tv_sec = s.flip() ? 1 : s.flip() ? 4000000000 : 1000000000; if (utimes((D.dir + "/new").c_str(), tv)) abort(); } if (rename((D.dir + "/new").c_str(), (in + n).c_str())) abort(); pend[n] = t; quiet = 0; hist += " +" + n; break; }
		case 3: { unsigned k = s.below(6); std::string n = k < 3 ? k == 0 ? ".tmp" + std::to_string(s.below(3)) : std::string(1 + (k == 1), '.') + (char) (33 + s.below(94)) + "x" : "odd" + std::to_string(s.below(8)); for (char &ch : n) if (ch == '/') ch = '_';
			if (junk.insert(n).second) { if (k < 3) put_file(in + n, "no"); else switch (s.below(4)) { case 0: (void) !mkdir((in + n).c_str(), 0755); break; case 1: (void) !symlink("/nonexistent", (in + n).c_str()); break; case 2: (void) !symlink(".", (in + n).c_str()); break; default: if (mkfifo((in + n).c_str(), 0644)) abort(); } hist += " junk"; } break; }
		case 4: if (!done.empty() && s.flip()) { auto i = done.begin(); std::advance(i, s.below((uint32_t) done.size())); unlink((act + i->first).c_str()); hist += " taken:" + i->first; done.erase(i); }
			else if (s.below(3) == 0) { // a directory is in the way, or no longer
				if (!block.empty() && s.flip()) { std::string b = *block.begin(); if (rmdir((act + b).c_str())) abort(); block.erase(b); hist += " free:" + b; quiet = 0; } else { std::string n = "f" + std::to_string(s.below(8)); if (!done.count(n) && !block.count(n)) { if (mkdir((act + n).c_str(), 0755)) abort(); block.insert(n); hist += " block:" + n; quiet = 0; } } }
			break;
		default: {
			struct Fault { Fault() { spool_failed = 0; } ~Fault() { spool_fail_rename = 0; } } fault; spool_fail_rename = s.chance(1, 6);
			char *r = spooldir_next(sp); hist += r ? " next" : " none"; if (spool_failed) { hist += "(cannot move)"; c.label("a file cannot be moved"); quiet = 0; CHECK(!r, "%s is yielded although no file could be moved; history:%s", r, hist.c_str()); for (auto &x : done) CHECK(holds(act + x.first, x.second), "%s is lost from the active directory, while no file could be moved; history:%s", x.first.c_str(), hist.c_str()); for (auto &x : pend) CHECK(holds(in + x.first, x.second), "%s no longer waits, while no file could be moved; history:%s", x.first.c_str(), hist.c_str()); break; }
			if (!r) { quiet++; CHECK(quiet < 2 + 2 * block.size() || !waiting(), "%zu files wait and none is yielded; history:%s", waiting(), hist.c_str()); break; }
			std::string p = r; free(r); quiet = 0; CHECK(p.compare(0, act.size(), act) == 0, "%s is not in the active directory", p.c_str()); std::string n = p.substr(act.size());
			CHECK(pend.count(n) && !block.count(n), "%s is yielded, which did not wait or cannot be moved; history:%s", n.c_str(), hist.c_str()); if (done.count(n)) replaced++;
			char b[64]; int fd = open(p.c_str(), O_RDONLY); CHECK(fd >= 0, "%s does not exist", p.c_str()); ssize_t k = read(fd, b, sizeof b); close(fd); CHECK(k >= 0 && std::string(b, (size_t) k) == pend[n], "%s has other content; history:%s", n.c_str(), hist.c_str());
			CHECK(access((in + n).c_str(), F_OK) != 0, "%s still waits after it was yielded; history:%s", n.c_str(), hist.c_str()); done[n] = pend[n]; pend.erase(n); moved++; break; }
		}
	}
	if (!block.empty()) c.label("a directory in the way"); for (auto &b : block) { struct stat sb; CHECK(lstat((act + b).c_str(), &sb) == 0 && S_ISDIR(sb.st_mode), "directory %s vanished; history:%s", b.c_str(), hist.c_str()); if (rmdir((act + b).c_str())) abort(); }
	for (auto &b : block) if (pend.count(b)) CHECK(access((in + b).c_str(), F_OK) == 0, "%s, which could not be moved, no longer waits; history:%s", b.c_str(), hist.c_str());
	if (s.below(4) == 0) { // two threads take the rest
		struct T { struct spooldir *sp; std::vector<std::string> got; } t[2]; pthread_t th[2]; for (auto &x : t) x.sp = sp;
		auto run = [](void *a) -> void * { T *t = (T *) a; for (int none = 0; none < 2;) { char *r = spooldir_next(t->sp); if (r) { t->got.push_back(r); free(r); } else none++; } return NULL; };
		int k = 0; for (; k < 2; k++) if (pthread_create(&th[k], NULL, run, &t[k])) break; while (k-- > 0) pthread_join(th[k], NULL);
		std::multiset<std::string> all, want; for (auto &x : t) for (auto &g : x.got) all.insert(g); for (auto &x : pend) want.insert(act + x.first); CHECK(all == want, "two threads got %zu files, %zu waited; history:%s", all.size(), want.size(), hist.c_str()); c.label("two threads"); moved += (unsigned) all.size(); for (auto &x : pend) done[x.first] = x.second; pend.clear();
	}
	unsigned none = 0; while (none < 2) { char *r = spooldir_next(sp); if (!r) { none++; continue; } std::string p = r; free(r); CHECK(p.compare(0, act.size(), act) == 0 && pend.count(p.substr(act.size())), "at the end %s is yielded", p.c_str()); done[p.substr(act.size())] = pend[p.substr(act.size())]; pend.erase(p.substr(act.size())); moved++; }
	CHECK(pend.empty(), "%zu files are never yielded; history:%s", pend.size(), hist.c_str());
	for (auto &x : done) CHECK(access((act + x.first).c_str(), F_OK) == 0, "%s vanished; history:%s", x.first.c_str(), hist.c_str());
	for (auto &x : junk) { struct stat sb; CHECK(lstat((in + x).c_str(), &sb) == 0, "%s was moved although it is no plain visible file; history:%s", x.c_str(), hist.c_str()); }
	CHECK(!spool_escaped, "a file outside the spool directory would be changed; history:%s", hist.c_str());
	spooldir_destroy(&sp); CHECK(sp == NULL, "destroying leaves the pointer"); c.note("history:%s", hist.c_str()); c.nontrivial = moved > 1; if (replaced) c.label("replaced an active file");
}
static PropReg r44({"P44", p44, "histories of up to 40 steps over a scratch spool directory: plain files, hidden files, directories, pipes and links to nothing or a directory arrive, files are yielded, active files are taken away or replaced, a directory stands in the way of moving a file and goes away, at times two threads take the rest; each waiting file is yielded exactly once with its content; non-trivial: at least two files yielded", 40000, 700000, true, 0, NULL, 0, 0});

// ---------------------------------------------------------------- P45
struct Rd { bytes data; size_t pos; std::vector<int> plan; size_t step; }; static Rd *g_rd;
static long script_read(int fd, void *p, size_t n) {
	if (fd != 77) fail("another descriptor is read"); Rd &r = *g_rd; int act = r.step < r.plan.size() ? r.plan[r.step] : 100000; r.step++; if (r.step > 5000) fail("reading does not end");
	if (act == -1) { errno = EINTR; return -1; } if (act == -2) { static const int es[] = {EIO, EAGAIN, EBADF, EINVAL, EISDIR, ECONNRESET, ENOMEM}; errno = es[(r.step + n) % 7]; return -1; } size_t k = std::min({n, (size_t) std::max(act, 1), r.data.size() - r.pos}); memcpy(p, r.data.data() + r.pos, k); r.pos += k; return (long) k;
}
static void p45(Src &s, Case &c) {
	switch (s.below(5)) {
	case 0: { // quoted text
		bytes d = s.chance(1, 4000) ? gen_blob(s, gen_large(s, 70000)) : s.raw(s.below(40)); c.note("print %s", hex(d).c_str()); char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); Exact in(d); su_print_string(in.p, in.n, f); fclose(f); bytes got(b, n); free(b);
		bytes want = "\""; for (unsigned char ch : d) { char x[8]; if (ch == '"') want += "\\\""; else if (ch >= 32 && ch < 127) want += (char) ch; else { snprintf(x, sizeof x, "\\x%02x", ch); want += x; } } want += '"';
		CHECK(got == want, "%s is printed as %s, expected %s", hex(d).c_str(), cstr(got).c_str(), cstr(want).c_str()); c.label("print"); c.nontrivial = !d.empty(); return; }
	case 1: { // reading exactly so many octets
		bool big = s.chance(1, 4000); Rd r; r.data = big ? gen_blob(s, gen_large(s, 200000)) : s.raw(s.below(60)); r.pos = r.step = 0; unsigned n = big ? s.below(40) : s.below(12); bool err = false; while (n--) { int a = s.below(4) == 0 ? -1 : s.below(12) == 0 ? -2 : 1 + (int) s.below(big ? 20000 : 12); r.plan.push_back(a); } size_t need = big ? r.data.size() + s.below(3) - (s.flip() ? s.below(3000) : 0) : s.below(64); if (need > 400000) need = 0; g_rd = &r; fake_read = script_read;
		size_t left = need, av = r.data.size(); bool ok = true; for (size_t i = 0; left;) { int a = i < r.plan.size() ? r.plan[i] : 100000; i++; if (a == -1) continue; if (a == -2) { ok = false; err = true; break; } size_t k = std::min({left, (size_t) a, av}); if (!k) { ok = false; break; } left -= k; av -= k; }
		c.note("%zu octets wanted, %zu there, %zu scripted reads%s", need, r.data.size(), r.plan.size(), err ? ", an error" : ""); Exact out(need, 0xaa); bool got = su_read_bytes(77, out.p, need);
		CHECK(got == ok, "reading %zu octets %s", need, got ? "succeeds" : "fails"); if (ok) CHECK(out.str() == r.data.substr(0, need) && r.pos == need, "the octets read are wrong, or more were taken than asked for"); c.label("read"); c.nontrivial = need > 0; return; }
	case 2: { // numbers in the environment
		std::string t; uint64_t v = s.flip() ? s.below(1000) : s.u((int) (1 + s.below(8))), got = 12345; char x[40]; bool ok = true, set = true; switch (s.below(6)) { case 0: set = false; ok = false; break; case 1: snprintf(x, sizeof x, "0x%llx", (unsigned long long) v); t = x; break; case 2: snprintf(x, sizeof x, "0%llo", (unsigned long long) v); t = x; break; case 3: t = std::to_string(v) + "kmx ,.-"[s.below(7)]; ok = false; break; default: t = std::to_string(v); }
		if (set) setenv("PBT_NUMBER", t.c_str(), 1); else unsetenv("PBT_NUMBER"); c.note("environment %s", set ? t.c_str() : "(unset)"); bool r = su_getenv_int("PBT_NUMBER", &got); unsetenv("PBT_NUMBER");
		CHECK(r == ok, "\"%s\" %s", t.c_str(), r ? "is taken for a number" : "is not taken for a number"); if (ok) CHECK(got == v, "\"%s\" gives %llu", t.c_str(), (unsigned long long) got); c.label("environment"); c.nontrivial = set; return; }
	case 3: { // fields of a wire buffer
		bytes d = s.raw(s.below(60)), wd = s.raw(1 + s.below(24)); for (char &x : wd) x = (char) ((const uint8_t[]) {1, 2, 4, 9})[x & 3];
		std::vector<uint32_t> got(wd.size(), 0xdeadbeef), want = got; size_t pos = 0, i = 0, n;
		for (; i < wd.size(); i++) { size_t w = wd[i] == 9 ? 3 : wd[i]; if (d.size() - pos < w) break; uint32_t v = 0; for (size_t k = 0; k < w; k++) v = v << 8 | (uint8_t) d[pos + k]; pos += w; want[i] = wd[i] == 9 ? (uint32_t) (d.size() - pos) : v; }
		c.note("fields of widths %s from %s", hex(wd).c_str(), hex(d).c_str()); Exact in(d); n = su_buf_get(in.p, in.n, (const uint8_t *) wd.data(), wd.size(), got.data());
		CHECK(n == pos && got == want, "the fields read differ, or %zu octets were taken, expected %zu", n, pos); CHECK(in.str() == d, "the buffer read was changed"); c.label("wire fields"); c.nontrivial = i > 1; return; }
	default: { uint32_t v = (uint32_t) s.u(4), w = (v & 255) << 24 | (v >> 8 & 255) << 16 | (v >> 16 & 255) << 8 | v >> 24; c.note("word %08x", v); CHECK(su_bswap32(v) == w, "%08x is swapped to %08x", v, su_bswap32(v)); CHECK(su_htole32(v) == v && su_le32toh(v) == v, "%08x changes on a little-endian machine", v); c.label("byte order"); c.nontrivial = v != w; return; }
	}
}
static PropReg r45({"P45", p45, "octet strings printed in quotes; reads of 0 to 63 octets through scripted partial reads, interruptions, errors and ends of input; numbers in the environment in three bases, with garbage, and unset; runs of fields read from wire buffers; 32-bit words swapped; against reference models; non-trivial: not empty, set, more than one field, changed by swapping", 6000000, 30000000, true, 0, NULL, 0, 0});
