// Atomic counters and pointers: every concurrent history must be explained by some order of
// the operations. Thread numbers: each registration gives the next number, once.
#include "../engine.h"
#include "../shim_atomic.h"
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <atomic>
#include <set>
#include <map>
#include <tuple>

struct AOp { int op; int64_t arg; int64_t got; unsigned pause; };
struct ATh { int kind; void *obj; std::vector<AOp> ops; unsigned reps; int64_t sum; std::atomic<int> *ready; int all; std::vector<int> nums; };
static void *ptrs[4];
static void work(ATh *t) {
	for (auto &o : t->ops) {
		for (unsigned i = 0; i < o.pause; i++) sched_yield();
		if (t->kind == 2) { if (o.op) o.got = ap_set(t->obj, ptrs[o.arg]); else { void *p = ap_get(t->obj); o.got = -1; for (int i = 0; i < 4; i++) if (p == ptrs[i]) o.got = i; } }
		else o.got = at_op(t->kind, t->obj, o.op, o.arg);
	}
}
static void *athread(void *a) { ATh *t = (ATh *) a; t->ready->fetch_add(1, std::memory_order_relaxed); while (t->ready->load(std::memory_order_relaxed) < t->all) sched_yield(); work(t); return NULL; }
static void *bulkthread(void *a) {
	ATh *t = (ATh *) a; uint64_t sum = 0; t->ready->fetch_add(1, std::memory_order_relaxed); while (t->ready->load(std::memory_order_relaxed) < t->all) sched_yield();
	for (unsigned r = 0; r < t->reps; r++) for (auto &o : t->ops) { int64_t g = at_op(t->kind, t->obj, o.op, o.arg); if (o.op == AT_ZERO) sum += (uint64_t) g; else if (g) t->nums.push_back(o.op); }
	t->sum = (int64_t) sum; return NULL;
}
static void *numthread(void *a) {
	ATh *t = (ATh *) a; t->ready->fetch_add(1, std::memory_order_relaxed); while (t->ready->load(std::memory_order_relaxed) < t->all) sched_yield();
	for (auto &o : t->ops) { my_threadnum_register(); int n = my_threadnum(); t->nums.push_back(n); for (unsigned i = 0; i < o.pause; i++) { sched_yield(); if (my_threadnum() != n) t->sum++; } }
	return NULL;
}
static void run(std::vector<ATh> &th, void *(*f)(void *)) {
	std::atomic<int> ready(0); std::vector<pthread_t> id(th.size());
	for (auto &t : th) { t.ready = &ready; t.all = (int) th.size(); }
	for (size_t i = 0; i < th.size(); i++) if (pthread_create(&id[i], NULL, f, &th[i])) abort();
	for (auto x : id) pthread_join(x, NULL);
}
static int64_t wrap(int wide, uint64_t v) { return wide ? (int64_t) v : (int64_t) (int32_t) (uint32_t) v; }
static int64_t apply(int wide, int64_t v, const AOp &o, int64_t *res) {
	uint64_t a = (uint64_t) o.arg, x = (uint64_t) v; *res = 0;
	switch (o.op) {
	case AT_ADD: return wrap(wide, x + a); case AT_SUB: return wrap(wide, x - a); case AT_ZERO: *res = v; return 0;
	case AT_SUB_TEST: v = wrap(wide, x - a); *res = v == 0; return v; case AT_INC: return wrap(wide, x + 1); case AT_DEC: return wrap(wide, x - 1);
	case AT_DEC_TEST: v = wrap(wide, x - 1); *res = v == 0; return v; case AT_INC_TEST: v = wrap(wide, x + 1); *res = v == 0; return v;
	}
	v = wrap(wide, x + a); *res = v < 0; return v;
}
static bool same(int op, int64_t got, int64_t want) { return !at_has_result[op] || (op == AT_ZERO ? got == want : !got == !want); }
// is there an order of the operations that gives these results and this end?
typedef std::vector<unsigned> Pos;
static bool search(const std::vector<ATh> &th, Pos &p, int64_t v, int64_t end, std::set<std::pair<Pos, int64_t>> &seen) {
	if (!seen.insert({p, v}).second) return false;
	bool done = true; int64_t r;
	for (size_t i = 0; i < th.size(); i++) if (p[i] < th[i].ops.size()) {
		done = false; const AOp &o = th[i].ops[p[i]]; int64_t w = apply(th[i].kind, v, o, &r);
		if (!same(o.op, o.got, r)) continue;
		p[i]++; bool ok = search(th, p, w, end, seen); p[i]--; if (ok) return true;
	}
	return done && v == end;
}
// pointers: a set looks at the pointer, then replaces it if it is still the same
static bool psearch(const std::vector<ATh> &th, Pos &p, std::vector<int> &old, int v, int end, std::set<std::tuple<Pos, std::vector<int>, int>> &seen) {
	if (!seen.insert(std::make_tuple(p, old, v)).second) return false;
	bool done = true;
	for (size_t i = 0; i < th.size(); i++) if (p[i] < th[i].ops.size()) {
		done = false; const AOp &o = th[i].ops[p[i]];
		if (!o.op) { if (o.got != v) continue; p[i]++; bool ok = psearch(th, p, old, v, end, seen); p[i]--; if (ok) return true; continue; }
		if (old[i] < 0) { old[i] = v; bool ok = psearch(th, p, old, v, end, seen); old[i] = -1; if (ok) return true; continue; }
		bool hit = old[i] == v; if (hit != (o.got != 0)) continue;
		int keep = old[i]; old[i] = -1; p[i]++; bool ok = psearch(th, p, old, hit ? (int) o.arg : v, end, seen); p[i]--; old[i] = keep; if (ok) return true;
	}
	return done && v == end;
}
static int64_t gen_num(Src &s, int wide) {
	static const int64_t w[] = {1, -1, 2, -2, 0x7fffffff, -0x7fffffffLL - 1, 0x80000000LL, 0x100000000LL, -0x100000000LL, 0x7fffffffffffffffLL, (int64_t) 0x8000000000000000ULL, 0xffffffffLL};
	int64_t v; switch (s.below(4)) { case 0: v = (int64_t) s.below(4); break; case 1: v = -(int64_t) s.below(4); break; case 2: v = w[s.below(12)]; break; default: v = (int64_t) s.u(8) >> s.below(64); }
	return wide ? v : (int64_t) (int32_t) v;
}
static const char *const opn[] = {"add", "sub", "zero", "sub_and_test", "inc", "dec", "dec_and_test", "inc_and_test", "add_negative"};
static int g_base; // registrations so far in this process
struct Held { void *p; ~Held() { free(p); } };

static void p48(Src &s, Case &c) {
	unsigned m = s.below(8); ptrs[0] = NULL; for (int i = 1; i < 4; i++) ptrs[i] = &ptrs[i];
	if (m == 0) { // thread numbers
		unsigned k = 1 + s.below(5); std::vector<ATh> th(k); unsigned total = 0;
		for (auto &t : th) { t.sum = 0; t.ops.resize(1 + s.small(3)); total += t.ops.size(); for (auto &o : t.ops) o.pause = s.below(4); }
		c.label("thread numbers"); c.note("%u threads register %u times", k, total); int base = g_base; g_base += (int) total;
		run(th, numthread); std::set<int> all; bool dense = true;
		for (auto &t : th) { CHECK(t.sum == 0, "the number of a thread changed without registration"); int last = -1; for (int n : t.nums) { CHECK(all.insert(n).second, "number %d was given twice", n); CHECK(n > last, "number %d after %d in one thread", n, last); last = n; dense &= n >= base && n < base + (int) total; } }
		CHECK(dense, "%u registrations after %d others gave numbers %d to %d", total, base, *all.begin(), *all.rbegin());
		c.nontrivial = k > 1; return;
	}
	if (m <= 2) { // pointers
		unsigned k = s.below(4) ? 2 + s.below(2) : 1; std::vector<ATh> th(k); int init = (int) s.below(4); Held h{ap_new(ptrs[init])};
		c.label("pointer"); c.note("pointer %d:", init); unsigned sets = 0;
		for (auto &t : th) { t.kind = 2; t.obj = h.p; unsigned n = 1 + s.below(k == 1 ? 20 : 4); c.note(" ["); while (n--) { AOp o{(int) s.below(2), 0, 0, k == 1 ? 0 : s.below(3)}; if (o.op) { o.arg = s.below(4); sets++; } c.note(o.op ? " set %d" : " get", (int) o.arg); t.ops.push_back(o); } c.note(" ]"); }
		if (k == 1) work(&th[0]); else run(th, athread);
		void *e = ap_get(h.p); int end = -1; for (int i = 0; i < 4; i++) if (e == ptrs[i]) end = i;
		std::string got; for (auto &t : th) { got += " ["; for (auto &o : t.ops) { char b[40]; snprintf(b, sizeof b, o.op ? " set %d: %s" : " get", (int) o.arg, o.got ? "yes" : "no"); if (!o.op) snprintf(b, sizeof b, " get: %d", (int) o.got); got += b; } got += " ]"; }
		Pos p(k, 0); std::vector<int> old(k, -1); std::set<std::tuple<Pos, std::vector<int>, int>> seen;
		CHECK(psearch(th, p, old, init, end, seen), "from %d no order explains%s and %d in the end", init, got.c_str(), end);
		c.nontrivial = k > 1 && sets > 1; return;
	}
	int wide = (int) s.below(2);
	if (m == 3) { // many operations: what is added stays, or is handed out by zero
		unsigned k = 2 + s.below(3), pat = s.below(3); std::vector<ATh> th(k); int64_t init = gen_num(s, wide); uint64_t sum = 0; unsigned total = 0; std::vector<unsigned> reps;
		for (auto &t : th) { t.kind = wide; t.reps = 1 + s.below(300); t.sum = 0; unsigned n = pat ? 1 : 1 + s.below(4); while (n--) t.ops.push_back({pat == 1 ? AT_DEC_TEST : pat == 2 ? s.flip() ? AT_INC_TEST : AT_ADD_NEG : (int) s.below(AT_OPS), pat == 2 ? 1 : gen_num(s, wide), 0, 0}); total += t.reps * (unsigned) t.ops.size(); }
		if (pat == 1) init = (int64_t) (s.flip() ? total : 1 + s.below(total)); if (pat == 2) init = -(int64_t) (1 + s.below(total));
		for (auto &t : th) for (auto &o : t.ops) { int64_t r; sum += (uint64_t) (o.op == AT_ZERO ? 0 : apply(1, 0, o, &r)) * t.reps; }
		c.label(wide ? "64 bits, many" : "32 bits, many"); c.note("%d bits, %u threads, %u operations from %lld:", wide ? 64 : 32, k, total, (long long) init); for (auto &t : th) { c.note(" %u times", t.reps); for (auto &o : t.ops) c.note(" %s %lld", opn[o.op], (long long) o.arg); }
		Held h{at_new(wide, init)}; for (auto &t : th) t.obj = h.p; run(th, bulkthread);
		uint64_t out = (uint64_t) at_read(wide, h.p); unsigned yes[AT_OPS] = {}, incs = 0; for (auto &t : th) { out += (uint64_t) t.sum; for (int o : t.nums) yes[o]++; for (auto &o : t.ops) if (o.op == AT_INC_TEST) incs += t.reps; }
		CHECK(wrap(wide, out) == wrap(wide, (uint64_t) init + sum), "counter and what zero gave make %lld, not %lld", (long long) wrap(wide, out), (long long) wrap(wide, (uint64_t) init + sum));
		if (pat == 1) CHECK(yes[AT_DEC_TEST] == 1, "%u of the operations found the counter at zero", yes[AT_DEC_TEST]);
		if (pat == 2) { CHECK(yes[AT_INC_TEST] <= 1 && yes[AT_INC_TEST] <= incs, "%u increments found the counter at zero", yes[AT_INC_TEST]); if (incs == total) CHECK(yes[AT_INC_TEST] == 1, "%u increments found the counter at zero", yes[AT_INC_TEST]); if (!incs) CHECK((int64_t) yes[AT_ADD_NEG] == -init - 1, "%u additions from %lld stayed negative", yes[AT_ADD_NEG], (long long) init); }
		add_evals(total); c.nontrivial = true; return;
	}
	unsigned k = s.below(4) ? 2 + s.below(2) : 1; std::vector<ATh> th(k); int64_t init = gen_num(s, wide); Held h{at_new(wide, s.flip() ? init : 7)}; at_set(wide, h.p, init);
	CHECK(at_read(wide, h.p) == init, "a counter set to %lld reads %lld", (long long) init, (long long) at_read(wide, h.p));
	c.label(wide ? "64 bits" : "32 bits"); c.note("%d bits, %lld:", wide ? 64 : 32, (long long) init); bool res = false, near_ = s.flip(); int64_t cur = init;
	for (auto &t : th) {
		t.kind = wide; t.obj = h.p; unsigned n = 1 + s.below(k == 1 ? 30 : 4); c.note(" [");
		while (n--) { AOp o{(int) s.below(AT_OPS), near_ ? wrap(wide, s.below(4) ? (uint64_t) cur + s.below(3) - 1 : (uint64_t) 0 - (uint64_t) cur) : gen_num(s, wide), 0, k == 1 ? 0 : s.below(3)}; int64_t r; cur = apply(wide, cur, o, &r); res |= at_has_result[o.op]; c.note(" %s %lld", opn[o.op], (long long) o.arg); t.ops.push_back(o); }
		c.note(" ]");
	}
	if (k == 1) work(&th[0]); else run(th, athread);
	int64_t end = at_read(wide, h.p); std::string got;
	for (auto &t : th) { got += " ["; for (auto &o : t.ops) { got += bytes(" ") + opn[o.op]; char b[60]; if (o.op < AT_INC && o.op != AT_ZERO || o.op == AT_ADD_NEG) { snprintf(b, sizeof b, " %lld", (long long) o.arg); got += b; } if (at_has_result[o.op]) { snprintf(b, sizeof b, ": %lld", (long long) o.got); got += b; } } got += " ]"; }
	Pos p(k, 0); std::set<std::pair<Pos, int64_t>> seen;
	CHECK(search(th, p, init, end, seen), "%d bits: from %lld no order explains%s and %lld in the end", wide ? 64 : 32, (long long) init, got.c_str(), (long long) end);
	c.nontrivial = res;
}
static PropReg r48({"P48", p48, "atomic counters of 32 and 64 bits and pointers under short operation lists by one to three threads (the results and the final value must be explained by some order of the operations), long lists by two to four threads (sums, and how many saw zero), and threads that register for numbers; watched by ThreadSanitizer; non-trivial: an operation with a result, or several threads", 40000, 800000, false, 0, NULL, 0, 0});
