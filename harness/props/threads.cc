// Concurrent use of separate objects: threads run the same library calls in different
// orders in a fresh process; ThreadSanitizer watches, outcomes are compared with the
// same calls run one after another.
#include "../ops.h"
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <time.h>
#include <netinet/in.h>
#include <atomic>
#include <algorithm>

// Library calls of the C library that keep hidden state: stand-ins whose state ThreadSanitizer can see.
static int g_hidden; static char *g_tok; static char g_buf[128]; static struct tm g_tm; static unsigned g_rand = 1;
extern "C" {
char *strtok(char *s, const char *d) { g_hidden++; return strtok_r(s, d, &g_tok); }
char *inet_ntoa(struct in_addr a) { g_hidden++; const uint8_t *p = (const uint8_t *) &a; snprintf(g_buf, sizeof g_buf, "%u.%u.%u.%u", p[0], p[1], p[2], p[3]); return g_buf; }
int rand(void) { g_hidden++; return (int) ((g_rand = g_rand * 1103515245 + 12345) >> 16 & 0x7fff); }
void srand(unsigned s) { g_hidden++; g_rand = s; }
struct tm *gmtime(const time_t *t) { g_hidden++; return gmtime_r(t, &g_tm); }
struct tm *localtime(const time_t *t) { g_hidden++; return localtime_r(t, &g_tm); }
char *asctime(const struct tm *t) { g_hidden++; return asctime_r(t, g_buf); }
char *ctime(const time_t *t) { g_hidden++; return ctime_r(t, g_buf); }
}

struct Th { const std::vector<Op> *ops; std::vector<unsigned> order; std::vector<bytes> out; std::atomic<int> *ready; int all; };
static void *thread_main(void *a) {
	Th *t = (Th *) a; t->ready->fetch_add(1); while (t->ready->load() < t->all) sched_yield();
	for (unsigned i : t->order) t->out[i] = run_op((*t->ops)[i]);
	return NULL;
}
static void p26(Src &s, Case &c) {
	unsigned n = 3 + s.below(10), k = 2 + s.below(3); std::vector<Op> ops; int only = s.below(3) ? -1 : (int) s.below(O_KINDS); bool ok = false;
	for (unsigned i = 0; i < n; i++) { ops.push_back(gen_op(s, only)); note_op(c, ops[i], i); c.label(op_names[ops[i].kind]); }
	std::atomic<int> ready(0); std::vector<Th> th(k);
	for (auto &t : th) { t.ops = &ops; t.ready = &ready; t.all = (int) k; t.out.resize(n); for (unsigned i = 0; i < n; i++) t.order.push_back(i); for (unsigned i = n; i > 1; i--) std::swap(t.order[i - 1], t.order[s.below(i)]); }
	std::vector<pthread_t> id(k); for (unsigned i = 0; i < k; i++) if (pthread_create(&id[i], NULL, thread_main, &th[i])) abort();
	for (auto x : id) pthread_join(x, NULL);
	for (unsigned i = 0; i < n; i++) {
		bytes want = run_op(ops[i]); if (want.size() > 2 && !want[1]) ok = true;
		for (unsigned j = 0; j < k; j++) CHECK(th[j].out[i] == want, "\"%s\" (number %u) in thread %u gives %s, alone it gives %s", op_names[ops[i].kind], i, j, hex(th[j].out[i].substr(0, 200)).c_str(), hex(want.substr(0, 200)).c_str());
	}
	c.nontrivial = ok;
}
static PropReg r26({"P26", p26, "two to four threads that start together in a fresh process and each run the same 3 to 12 library calls (16 kinds, inputs of their own, a third of the cases of a single kind) in an order of their own, watched by ThreadSanitizer; outcomes compared with the calls run alone afterwards; non-trivial: a call that succeeds", 6000, 150000, false, 1, NULL, 0, 0});
