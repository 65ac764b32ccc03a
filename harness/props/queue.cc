// libmy queues: sequential histories, interleaved histories (the other side runs at the
// scheduling points inside an operation) and real threads under ThreadSanitizer.
#include "../engine.h"
#include "../shim_queue.h"
#include <stdlib.h>
#include <pthread.h>
#include <sched.h>
#include <atomic>
#include <deque>
#include <algorithm>

#ifdef PBT_TSAN
extern "C" { void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int); void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int); }
struct Quiet { bool on; explicit Quiet(bool o): on(o) { if (on) { AnnotateIgnoreReadsBegin(__FILE__, 0); AnnotateIgnoreWritesBegin(__FILE__, 0); } } ~Quiet() { if (on) { AnnotateIgnoreWritesEnd(__FILE__, 0); AnnotateIgnoreReadsEnd(__FILE__, 0); } } };
#else
struct Quiet { explicit Quiet(bool) {} };
#endif

static const struct my_queue_ops *impls[3]; static const char *names[] = {"memory barrier", "mutex", "default"};
static void setup() { impls[0] = &my_queue_mb_ops; impls[1] = &my_queue_mutex_ops; impls[2] = hooked_queue_ops; }
struct Q { const struct my_queue_ops *o; struct my_queue *q; ~Q() { if (q) { o->destroy(&q); if (q) abort(); o->destroy(&q); } } };
static void fill(uint8_t *p, size_t n, uint64_t seq) { uint64_t h = seq * 0x9e3779b97f4a7c15ull + 1; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) h = h * 6364136223846793005ull + 1442695040888963407ull; p[i] = (uint8_t) (i == 0 ? seq : h >> (8 * (i % 8))); } }
static bool same(const uint8_t *p, size_t n, uint64_t seq) { std::vector<uint8_t> t(n + 1); fill(t.data(), n, seq); return !memcmp(t.data(), p, n); }

// ---- sequential
static void sequential(Src &s, Case &c, int im, unsigned slots, unsigned esz) {
	Q Q{impls[im], impls[im]->init(slots, esz)}; CHECK(Q.q, "a queue of %u slots is refused", slots); uint64_t in = 0, out = 0; unsigned n = 1 + s.small(300), room = slots - 1; bool full = false, empty = false;
	unsigned bias = s.below(7); bool big = slots > 512; if (big) n = 3 * slots + 2000; if (esz > 10000) n = 1 + n % 40;
	for (unsigned st = 0; st < n; st++) {
		if (big && st % 512 == 0) bias = in < slots ? s.below(16) ? 7 : 3 : s.below(8); // many elements, then back and forth
		bool want, got, info = s.below(8) != 0; unsigned v = 0xabcd, expect;
		if (s.below(8) <= bias) { Exact e(esz, 0); fill(e.p, esz, in); want = in - out < room; got = Q.o->insert(Q.q, e.p, info ? &v : NULL); CHECK(got == want, "step %u: inserting into %llu of %u places %s", st, (unsigned long long) (in - out), room, got ? "succeeds" : "fails"); CHECK(same(e.p, esz, in), "step %u: inserting modifies the element", st); if (got) in++; else full = true; expect = room - (unsigned) (in - out); }
		else { Exact e(esz, 0x11); want = in > out; got = Q.o->remove(Q.q, e.p, info ? &v : NULL); CHECK(got == want, "step %u: removing from %llu elements %s", st, (unsigned long long) (in - out), got ? "succeeds" : "fails"); if (got) { CHECK(same(e.p, esz, out), "step %u: element %llu comes out damaged or out of order", st, (unsigned long long) out); out++; } else { empty = true; for (size_t i = 0; i < e.n; i++) CHECK(e.p[i] == 0x11, "step %u: a failed removal writes to the element", st); } expect = (unsigned) (in - out); }
		if (info) CHECK(v == expect, "step %u: %u is reported as the space or count that remains, expected %u", st, v, expect);
	}
	c.nontrivial = n > 3; if (full) c.label("ran full"); if (empty) c.label("ran empty"); if (in > slots) c.label("wrapped around");
}

// ---- interleaved: one operation of the other side (to completion) at scheduling points
struct Nest { Src *s; Q *q; unsigned esz, room, depth, den; uint64_t in, out; bool inserting, removing; unsigned nested, in_ops, out_ops; };
static Nest *N;
static void do_insert(const char *where);
static void do_remove(const char *where);
static void nest_hook() {
	if (N->depth != 1 || !N->s->chance(1, N->den)) return;
	unsigned k = 1 + N->s->below(3); while (k--) { N->nested++; if (N->inserting) do_remove("during an insertion"); else do_insert("during a removal"); }
}
static void do_insert(const char *where) {
	Exact e(N->esz, 0); uint64_t seq = N->in; fill(e.p, e.n, seq); uint64_t out0 = N->out; bool other = N->removing; bool outer = N->depth == 0;
	unsigned v = 0; if (outer) N->inserting = true; N->depth++; bool got = N->q->o->insert(N->q->q, e.p, &v); N->depth--; if (outer) N->inserting = false;
	// removed elements: certainly out0, possibly as many as were taken meanwhile
	uint64_t lo = out0, hi = other ? N->out + 1 : N->out; int64_t smin = (int64_t) N->room - (int64_t) (seq - lo), smax = (int64_t) N->room - (int64_t) (seq - hi);
	if (got) { CHECK(smax > 0, "inserting %s succeeds with %llu elements in %u places", where, (unsigned long long) (seq - hi), N->room); N->in++; CHECK((int64_t) v >= smin - 1 && (int64_t) v <= smax - 1, "inserting %s reports %u places left, expected %lld to %lld", where, v, (long long) smin - 1, (long long) smax - 1); }
	else { CHECK(smin <= 0, "inserting %s fails with %llu elements in %u places", where, (unsigned long long) (seq - lo), N->room); CHECK((int64_t) v <= smax, "a failed insertion %s reports %u places left", where, v); }
}
static void do_remove(const char *where) {
	Exact e(N->esz, 0x11); uint64_t seq = N->out, in0 = N->in; bool other = N->inserting; bool outer = N->depth == 0;
	unsigned v = 0; if (outer) N->removing = true; N->depth++; bool got = N->q->o->remove(N->q->q, e.p, &v); N->depth--; if (outer) N->removing = false;
	uint64_t lo = in0, hi = other ? N->in + 1 : N->in; int64_t cmin = (int64_t) (lo - seq), cmax = (int64_t) (hi - seq);
	if (got) { CHECK(cmax > 0, "removing %s succeeds on an empty queue", where); CHECK(same(e.p, e.n, seq), "removing %s yields element %llu damaged or out of order", where, (unsigned long long) seq); N->out++; CHECK((int64_t) v >= cmin - 1 && (int64_t) v <= cmax - 1, "removing %s reports %u elements left, expected %lld to %lld", where, v, (long long) cmin - 1, (long long) cmax - 1); }
	else { CHECK(cmin <= 0, "removing %s fails with %lld elements", where, (long long) cmin); CHECK((int64_t) v <= cmax, "a failed removal %s reports %u elements left", where, v); }
}
static void interleaved(Src &s, Case &c, unsigned slots, unsigned esz) {
	if (strcmp(impls[2]->impl_type(), "memory barrier")) { sequential(s, c, 2, slots, esz); return; }
	Q Q{impls[2], impls[2]->init(slots, esz)}; CHECK(Q.q, "a queue of %u slots is refused", slots);
	Nest n{&s, &Q, esz, slots - 1, 0, 2 + s.below(6), 0, 0, false, false, 0, 0, 0}; N = &n; struct R { ~R() { queue_hook = NULL; N = NULL; } } R; queue_hook = nest_hook;
	unsigned k = 1 + s.small(200), bias = s.below(7);
	for (unsigned i = 0; i < k; i++) if (s.below(8) <= bias) do_insert("alone"); else do_remove("alone");
	queue_hook = NULL; while (n.out < n.in) { uint64_t o = n.out; do_remove("at the end"); CHECK(n.out > o, "elements were lost"); }
	c.nontrivial = n.nested > 0; if (n.nested) c.label("operations overlapped"); c.note("overlapping operations: %u", n.nested);
}

// ---- real threads
struct Thr { const struct my_queue_ops *o; struct my_queue *q; bool quiet; unsigned esz, room; uint64_t total, rng; unsigned lazy; std::atomic<uint64_t> *in, *out, *in_try, *out_try; char *err; std::atomic<int> *stop; };
static uint64_t rnd(uint64_t &r) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r; }
static void idle(Thr *t) { unsigned k = (unsigned) (rnd(t->rng) % 64); if (k < t->lazy) { if (k % 5 == 0) sched_yield(); else for (volatile unsigned i = 0; i < k * 8; i++); } }
static void *producer(void *a) {
	Thr *t = (Thr *) a; uint8_t *e = (uint8_t *) malloc(t->esz ? t->esz : 1);
	for (uint64_t i = 0; i < t->total && !t->stop->load();) {
		fill(e, t->esz, i); uint64_t o0 = t->out->load(); unsigned v; bool ok; t->in_try->store(i + 1); { Quiet q(t->quiet); ok = t->o->insert(t->q, e, &v); } uint64_t o1 = t->out_try->load();
		int64_t smin = (int64_t) t->room - (int64_t) (i - o0), smax = (int64_t) t->room - (int64_t) (i - o1);
		if (ok && (smax <= 0 || (int64_t) v > smax - 1 || (int64_t) v < smin - 1)) { snprintf(t->err, 200, "inserting element %llu reports %u places left, expected %lld to %lld", (unsigned long long) i, v, (long long) smin - 1, (long long) smax - 1); t->stop->store(1); break; }
		if (!ok && smin > 0) { snprintf(t->err, 200, "inserting element %llu fails although %lld places are free", (unsigned long long) i, (long long) smin); t->stop->store(1); break; }
		if (ok) { i++; t->in->store(i); } else sched_yield(); idle(t);
	}
	free(e); return NULL;
}
static void *consumer(void *a) {
	Thr *t = (Thr *) a; uint8_t *e = (uint8_t *) malloc(t->esz ? t->esz : 1);
	for (uint64_t i = 0; i < t->total && !t->stop->load();) {
		uint64_t n0 = t->in->load(); unsigned v; bool ok; t->out_try->store(i + 1); { Quiet q(t->quiet); ok = t->o->remove(t->q, e, &v); } uint64_t n1 = t->in_try->load();
		int64_t cmin = (int64_t) (n0 - i), cmax = (int64_t) (n1 - i);
		if (ok && !same(e, t->esz, i)) { snprintf(t->err, 200, "element %llu comes out damaged or out of order", (unsigned long long) i); t->stop->store(1); break; }
		if (ok && (cmax <= 0 || (int64_t) v > cmax - 1 || (int64_t) v < cmin - 1)) { snprintf(t->err, 200, "removing element %llu reports %u elements left, expected %lld to %lld", (unsigned long long) i, v, (long long) cmin - 1, (long long) cmax - 1); t->stop->store(1); break; }
		if (!ok && cmin > 0) { snprintf(t->err, 200, "removing element %llu fails although %lld elements are there", (unsigned long long) i, (long long) cmin); t->stop->store(1); break; }
		if (ok) { i++; t->out->store(i); } else sched_yield(); idle(t);
	}
	free(e); return NULL;
}
static void threaded(Src &s, Case &c, int im, unsigned slots, unsigned esz) {
	Q Q{impls[im], impls[im]->init(slots, esz)}; CHECK(Q.q, "a queue of %u slots is refused", slots);
	std::atomic<uint64_t> in(0), out(0), in_try(0), out_try(0); std::atomic<int> stop(0); char e1[256] = "", e2[256] = ""; uint64_t total = 50 + s.below(g_tier ? 3000 : 600);
	Thr p{Q.o, Q.q, im != 1, esz, slots - 1, total, s.u(4) * 2 + 1, s.below(64), &in, &out, &in_try, &out_try, e1, &stop}, k = p; k.err = e2; k.rng = s.u(4) * 2 + 1; k.lazy = s.below(64);
	pthread_t a, b; if (pthread_create(&a, NULL, producer, &p)) return; 
	if (pthread_create(&b, NULL, consumer, &k)) abort();
	// a side that stops on an error leaves the other waiting: let it finish
	for (;;) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20; int r = pthread_timedjoin_np(b, NULL, &ts); if (!r) break; fail("%s", e1[0] ? e1 : "the consumer does not receive all elements"); }
	{ struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20; if (pthread_timedjoin_np(a, NULL, &ts)) fail("%s", e2[0] ? e2 : "the producer cannot insert all elements"); }
	CHECK(!e1[0] && !e2[0], "%s%s%s", e1, e1[0] && e2[0] ? "; " : "", e2); c.nontrivial = true; c.label("two threads");
}
static void p37(Src &s, Case &c) {
	setup();
	if (s.below(16) == 0) { // sizes that must be refused
		unsigned n = s.flip() ? s.below(20) : (unsigned) s.u(4); int im = (int) s.below(3); bool pow2 = n >= 2 && !(n & (n - 1)); if (pow2) { n = n > 1024 ? n + 1 : n; pow2 = n <= 1024 && !(n & (n - 1)); } c.note("slots=%u implementation=%s", n, names[im]);
		Q Q{impls[im], impls[im]->init(n, 1 + s.below(8))}; CHECK(!!Q.q == pow2, "a queue of %u slots is %s", n, Q.q ? "accepted" : "refused"); c.label("size"); c.nontrivial = !pow2; return;
	}
	bool huge = s.chance(1, 600); unsigned slots = huge ? s.flip() ? 131072 : 512u << s.below(10) : 2u << (s.flip() ? s.below(2) : s.below(7)), esz = s.below(8) ? 1 + s.below(40) : s.below(3000); if (huge) esz = 1 + s.below(3); bool fat = !huge && s.chance(1, 400); if (fat) { slots = 2u << s.below(2); esz = s.flip() ? 65536 + s.below(80000) : s.flip() ? 1 + s.below(65536) : 65520 + s.below(40); } unsigned mode = huge || fat ? 0 : s.below(8); int im = (int) s.below(3);
	c.note("slots=%u element=%u implementation=%s mode=%u", slots, esz, names[mode < 4 ? im : mode < 7 ? 2 : im], mode);
	if (mode < 2) { c.label("sequential"); sequential(s, c, im, slots, esz); } else if (mode < 6) { c.label("interleaved"); interleaved(s, c, slots, esz); } else threaded(s, c, (int) s.below(2), slots, esz);
}
static PropReg r37({"P37", p37, "queue sizes 2 to 256 and element sizes 0 to 3000: sequential histories on the three variants, histories in which operations of the other side run inside an operation at each scheduling point (before, amid and after the copy and at every barrier), and a producer and a consumer thread under ThreadSanitizer (its race reports are taken for the mutex variant); elements, order, refusals, space and count compared with a model; non-trivial: operations overlap, or more than three steps", 24000, 400000, true, 1, NULL, 0, 0});
