// Results never depend on uninitialized or stale memory: everything the caller can see
// is checked by MemorySanitizer, and every call repeated in another context must give
// the identical outcome.
#include "../ops.h"
#include <algorithm>

static __attribute__((noinline)) void dirty_stack(uint8_t v) { volatile uint8_t a[24576]; for (size_t i = 0; i < sizeof a; i++) a[i] = (uint8_t) (v ^ i * 7); }
static void dirty_heap(Src &s, uint8_t v) { void *p[40]; unsigned n = 4 + s.below(36); for (unsigned i = 0; i < n; i++) { size_t k = s.below(4) ? 1 + s.below(300) : 1 + s.below(9000); p[i] = malloc(k); memset(p[i], v, k); } for (unsigned i = 0; i < n; i++) free(p[i]); }

static void p25(Src &s, Case &c) {
	unsigned n = 1 + s.below(5); std::vector<Op> ops; std::vector<bytes> out; unsigned kinds = 0;
	uint8_t f1 = s.byte(), f2 = (uint8_t) ~f1; bool ok = false;
	for (unsigned i = 0; i < n; i++) { ops.push_back(gen_op(s)); note_op(c, ops[i], i); kinds |= 1u << ops[i].kind; c.label(op_names[ops[i].kind]); }
	for (unsigned i = 0; i < n; i++) { dirty_heap(s, f1); dirty_stack(f1); out.push_back(run_op(ops[i])); if (out[i].size() > 2 && !out[i][1]) ok = true; }
	std::vector<unsigned> ord; for (unsigned i = 0; i < n; i++) ord.push_back(i); for (unsigned i = n; i > 1; i--) std::swap(ord[i - 1], ord[s.below(i)]);
	for (unsigned i : ord) {
		dirty_heap(s, f2); dirty_stack(f2); bytes again = run_op(ops[i]);
		if (again != out[i]) { size_t k = 0; while (k < again.size() && k < out[i].size() && again[k] == out[i][k]) k++; fail("repeating \"%s\" (number %u) gives another outcome at octet %zu of %zu/%zu: %s, before %s", op_names[ops[i].kind], i, k, again.size(), out[i].size(), hex(again.substr(k, 60)).c_str(), hex(out[i].substr(k, 60)).c_str()); }
	}
	c.nontrivial = ok; add_evals(n * 2 - 1);
}
static PropReg r25({"P25", p25, "sequences of one to five library calls of 16 kinds (all parsing, printing, reading, folding, sorting, serializing and formatting functions) over well-formed and damaged inputs, each run twice in different orders with heap and stack filled differently; every octet and field handed to the caller is checked by MemorySanitizer and the outcomes compared; non-trivial: a call that succeeds", 120000, 1500000, false, 0, NULL, 0, 0});
