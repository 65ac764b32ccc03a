// Property-based testing engine: a choice tape drives every generator, so the
// same decoder serves seeded random generation, libFuzzer input, shrinking and
// replay.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <stdarg.h>

typedef std::string bytes;

struct Src {
	uint8_t *buf; size_t cap, len, pos; bool replay; uint64_t rng; bool overflow;
	Src(uint8_t *b, size_t c): buf(b), cap(c), len(0), pos(0), replay(false), rng(0), overflow(false) {}
	uint8_t byte();
	uint64_t u(int nbytes) { uint64_t v = 0; while (nbytes-- > 0) v = v << 8 | byte(); return v; }
	uint32_t below(uint32_t n);                  // [0,n)
	uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); } // inclusive
	bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }  // 0-tape => false
	bool flip() { return byte() & 1; }
	bytes raw(size_t n) { bytes s; s.reserve(n); while (n--) s.push_back((char) byte()); return s; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t) v.size())]; }
	uint32_t small(uint32_t max); // geometric-ish preference for small values, max inclusive
};

struct Failure { std::string msg; };
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

struct Case {
	bool nontrivial = false;
	bool want_desc = false;
	std::string desc;
	void label(const char *l);           // l must be a string literal
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Prop {
	const char *id;
	void (*fn)(Src &, Case &);
	const char *rule;       // how cases are made and what makes one non-trivial
	uint64_t quick, thorough; // number of cases
	bool leak;              // also require that no allocation outlives the case
	unsigned fresh;         // >0: every case runs in its own process (threads, first-call effects)
	void (*exhaustive)(Case &); // optional: finite enumeration run once per run (worker 0)
	uint64_t exhaustive_n;
	unsigned percase;       // elementary checks per case counted by count(); 0 = 1
};
void register_prop(const Prop &);
struct PropReg { PropReg(const Prop &p) { register_prop(p); } };

extern int g_tier;                   // 0 quick, 1 thorough
size_t live_allocs();                // number of live heap allocations
size_t live_bytes();
extern void (*g_alloc_hook)(const void *), (*g_free_hook)(const void *); // told of every allocation (address sanitizer builds)
void add_evals(uint64_t n);          // elementary evaluations beyond one per case

// helpers
std::string hex(const void *p, size_t n);
inline std::string hex(const bytes &b) { return hex(b.data(), b.size()); }
std::string cstr(const bytes &b);    // escaped for messages
uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);

// exactly sized heap copy, so that the sanitizer sees every access beyond it
struct Exact {
	uint8_t *p; size_t n;
	explicit Exact(const bytes &b);
	Exact(size_t n, uint8_t fill);
	~Exact();
	Exact(const Exact &) = delete; Exact &operator=(const Exact &) = delete;
	bytes str() const { return bytes((char *) p, n); }
	uint8_t *end() { return p + n; }
};
// text in an exactly sized buffer with its terminator
struct ExactStr {
	char *p; size_t n;
	explicit ExactStr(const bytes &b);
	~ExactStr();
	ExactStr(const ExactStr &) = delete; ExactStr &operator=(const ExactStr &) = delete;
};
