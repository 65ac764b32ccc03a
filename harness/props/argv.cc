// The command-line parser of libmy against a model of its table and of the command line.
#include "../engine.h"
#include "../shim_argv.h"
#include "libmy/argv.h"
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <unistd.h>
#include <sys/mman.h>
#include <deque>
#include <memory>
#include <functional>

enum { OPT, MAND, MAYBE, OR, XOR };
struct Val { long long i = 0; unsigned long long u = 0; double d = 0; bytes s; bool null = true, vague = false; };
struct Entry {
	int kind = OPT, type = 0; bool array = false, must = false; char sh = 0; bytes lo, label, comment; bool has_label = false, has_comment = false;
	// model
	bool used = false; Val v; std::vector<Val> arr; bool vague = false, stored = false; unsigned lost = 0; // strings overwritten
	// real
	void *var = NULL; size_t size = 0; bytes init;
};
static bool has_arg(int t) { return t != ARGV_BOOL && t != ARGV_BOOL_NEG && t != ARGV_INCR && t != ARGV_BOOL_INT && t != ARGV_BOOL_INT_NEG; }
static size_t tsize(int t) {
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: return 1;
	case ARGV_CHAR_P: case ARGV_LONG: case ARGV_U_LONG: case ARGV_DOUBLE: case ARGV_SIZE: case ARGV_U_SIZE: return 8;
	case ARGV_SHORT: case ARGV_U_SHORT: return 2;
	}
	return 4;
}
static bool yes(const bytes &a) { return !a.empty() && strchr("tTyY1", a[0]); }
// decimal digits of a text with an optional sign, within [lo, hi]
static bool dec(const bytes &a, size_t *used, bool *neg, unsigned long long *m) {
	size_t i = 0; *neg = false; *m = 0; if (i < a.size() && (a[i] == '-' || a[i] == '+')) *neg = a[i++] == '-';
	size_t b = i; for (; i < a.size() && a[i] >= '0' && a[i] <= '9'; i++) { if (*m > (ULLONG_MAX - (unsigned) (a[i] - '0')) / 10) return false; *m = *m * 10 + (unsigned) (a[i] - '0'); }
	*used = i; return i > b;
}
static bool radix(const bytes &a, unsigned r, unsigned long long *m) {
	size_t i = 0; *m = 0; if (r == 16 && a.size() > 1 && a[0] == '0' && (a[1] == 'x' || a[1] == 'X')) i = 2;
	size_t b = i; for (; i < a.size(); i++) { int c = a[i], d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= (int) r) return false; *m = *m * r + (unsigned) d; if (*m > UINT_MAX) return false; }
	return i > b;
}
// what a text means for a type; false: not a well-formed value of it
static bool convert(int t, const bytes *a, Val &v) {
	size_t n = 0; bool neg; unsigned long long m; v.null = false;
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_INT: v.i = a ? yes(*a) : 1; return true;
	case ARGV_BOOL_NEG: case ARGV_BOOL_INT_NEG: v.i = a ? yes(*a) : 0; return true;
	case ARGV_BOOL_ARG: case ARGV_BOOL_INT_ARG: v.i = yes(*a); return true;
	case ARGV_CHAR: v.i = a->empty() ? 0 : (*a)[0]; return true;
	case ARGV_CHAR_P: v.s = *a; return true;
	case ARGV_INCR: if (!a) return ++v.i <= INT_MAX; // fall through
	case ARGV_SHORT: case ARGV_INT: case ARGV_LONG: {
		if (!dec(*a, &n, &neg, &m) || n != a->size()) return false;
		unsigned long long top = t == ARGV_SHORT ? SHRT_MAX : t == ARGV_LONG ? LONG_MAX : INT_MAX;
		if (m > top + neg) return false;
		v.i = neg ? (long long) (0 - m) : (long long) m; return true;
	}
	case ARGV_U_SHORT: case ARGV_U_INT: case ARGV_U_LONG:
		if (!dec(*a, &n, &neg, &m) || n != a->size() || neg || m > (t == ARGV_U_SHORT ? USHRT_MAX : t == ARGV_U_INT ? UINT_MAX : ULONG_MAX)) return false;
		v.u = m; return true;
	case ARGV_FLOAT: case ARGV_DOUBLE: {
		if (a->empty() || (!strchr("0123456789+-.", (*a)[0]))) return false;
		char *e; if (t == ARGV_FLOAT) v.d = strtof(a->c_str(), &e); else v.d = strtod(a->c_str(), &e);
		return *e == 0 && e != a->c_str();
	}
	case ARGV_BIN: case ARGV_OCT: case ARGV_HEX:
		if (!radix(*a, t == ARGV_BIN ? 2 : t == ARGV_OCT ? 8 : 16, &m)) return false;
		v.i = (int) (unsigned) m; return true;
	case ARGV_SIZE: case ARGV_U_SIZE: {
		if (!dec(*a, &n, &neg, &m)) return false;
		unsigned sh = 0; if (n < a->size()) { char c = (*a)[n] | 32; if (n + 1 != a->size() || !strchr("bkmg", c)) return false; sh = c == 'k' ? 10 : c == 'm' ? 20 : c == 'g' ? 30 : 0; }
		unsigned long long top = t == ARGV_SIZE ? LONG_MAX : ULONG_MAX; if (m > top >> sh || (neg && t == ARGV_U_SIZE)) return false;
		m <<= sh; v.u = m; v.i = neg ? -(long long) m : (long long) m; return true;
	}
	}
	return false;
}
static Val load(int t, const void *p) {
	Val v; v.null = false;
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: v.i = *(const char *) p; break;
	case ARGV_CHAR_P: { const char *q; memcpy(&q, p, sizeof q); v.null = !q; if (q) v.s = q; break; }
	case ARGV_SHORT: { short x; memcpy(&x, p, sizeof x); v.i = x; break; }
	case ARGV_U_SHORT: { unsigned short x; memcpy(&x, p, sizeof x); v.u = x; break; }
	case ARGV_U_INT: { unsigned x; memcpy(&x, p, sizeof x); v.u = x; break; }
	case ARGV_LONG: { long x; memcpy(&x, p, sizeof x); v.i = x; break; }
	case ARGV_SIZE: { long x; memcpy(&x, p, sizeof x); v.i = x; v.u = (unsigned long) (x < 0 ? -x : x); break; }
	case ARGV_U_LONG: { unsigned long x; memcpy(&x, p, sizeof x); v.u = x; break; }
	case ARGV_U_SIZE: { unsigned long x; memcpy(&x, p, sizeof x); v.u = x; v.i = (long) x; break; }
	case ARGV_FLOAT: { float x; memcpy(&x, p, sizeof x); v.d = x; break; }
	case ARGV_DOUBLE: { double x; memcpy(&x, p, sizeof x); v.d = x; break; }
	default: { int x; memcpy(&x, p, sizeof x); v.i = x; }
	}
	return v;
}
static bytes show(int t, const Val &v) {
	char b[64];
	if (t == ARGV_CHAR_P) return v.null ? bytes("(null)") : "\"" + v.s + "\"";
	if (t == ARGV_FLOAT || t == ARGV_DOUBLE) snprintf(b, sizeof b, "%.17g", v.d);
	else if (t == ARGV_U_SHORT || t == ARGV_U_INT || t == ARGV_U_LONG || t == ARGV_U_SIZE) snprintf(b, sizeof b, "%llu", v.u);
	else snprintf(b, sizeof b, "%lld", v.i);
	return b;
}

struct Grid {
	std::vector<Entry> e; argv_t *t = NULL; bool bad = false;
	~Grid() { for (auto &x : e) free(x.var); free(t); }
	Grid() {} Grid(const Grid &) = delete; Grid &operator=(const Grid &) = delete;
};
static char *dup(const bytes &s) { char *p = (char *) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static const int types[] = {ARGV_BOOL, ARGV_BOOL_NEG, ARGV_BOOL_ARG, ARGV_CHAR, ARGV_CHAR_P, ARGV_SHORT, ARGV_U_SHORT, ARGV_INT, ARGV_U_INT, ARGV_LONG, ARGV_U_LONG, ARGV_FLOAT, ARGV_DOUBLE, ARGV_BIN, ARGV_OCT, ARGV_HEX, ARGV_INCR, ARGV_SIZE, ARGV_U_SIZE, ARGV_BOOL_INT, ARGV_BOOL_INT_NEG, ARGV_BOOL_INT_ARG};

static bytes gen_word(Src &s, unsigned max, const char *alpha) { bytes r; unsigned n = 1 + s.below(max); size_t k = strlen(alpha); while (n--) r += alpha[s.below((uint32_t) k)]; return r; }
static bytes gen_any(Src &s, unsigned max) {
	bytes r; unsigned n = s.below(max + 1), m = s.below(3);
	while (n--) { char c = m == 0 ? "abcxyz0189 "[s.below(11)] : m == 1 ? (char) (32 + s.below(95)) : (char) (1 + s.below(255)); if (c == '\n') c = 'n'; r += c; }
	return r;
}
// a text that a type can take, mostly
static bytes gen_value(Src &s, int t, bool neg) {
	char b[64]; unsigned bits;
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: {
		static const char *const w[] = {"yes", "no", "true", "false", "1", "0", "Y", "T", "f", "off", "10", "t"}; return w[s.below(12)];
	}
	case ARGV_CHAR: { bytes r = gen_any(s, 2); return r.empty() || r[0] == '-' ? bytes("x") : r; }
	case ARGV_CHAR_P: { bytes r = gen_any(s, s.chance(1, 30) ? 1000 : 12); if (!neg && !r.empty() && r[0] == '-') r[0] = '_'; return r; }
	case ARGV_SHORT: bits = 15; break; case ARGV_U_SHORT: bits = 16; break; case ARGV_U_INT: bits = 32; break;
	case ARGV_LONG: bits = 63; break; case ARGV_U_LONG: bits = 64; break;
	case ARGV_FLOAT: case ARGV_DOUBLE:
		if (s.flip()) snprintf(b, sizeof b, "%s%u.%u", neg && s.flip() ? "-" : "", s.below(1000), s.below(1000)); else snprintf(b, sizeof b, "%s%u%s%ue%d", neg && s.flip() ? "-" : s.flip() ? "+" : "", s.below(10), s.flip() ? "." : "", s.below(100), (int) s.below(41) - 20);
		return b;
	case ARGV_BIN: case ARGV_OCT: case ARGV_HEX: {
		unsigned x = (unsigned) (s.u(4) >> s.below(32)); bytes r; unsigned rx = t == ARGV_BIN ? 2 : t == ARGV_OCT ? 8 : 16;
		do { r.insert(r.begin(), (s.flip() ? "0123456789abcdef" : "0123456789ABCDEF")[x % rx]); x /= rx; } while (x);
		if (s.below(4) == 0) r = "0" + r; if (t == ARGV_HEX && s.flip()) r = (s.flip() ? "0x" : "0X") + r; return r;
	}
	case ARGV_SIZE: case ARGV_U_SIZE: {
		unsigned k = s.below(5), sh = k == 2 ? 10 : k == 3 ? 20 : k == 4 ? 30 : 0; unsigned long long m = s.u(8); unsigned room = (t == ARGV_SIZE ? 63 : 64) - sh; m &= ~0ULL >> (64 - room); m >>= s.below(room);
		snprintf(b, sizeof b, "%s%llu%s", neg && t == ARGV_SIZE && s.flip() ? "-" : s.below(8) == 0 ? "+" : "", m, k == 0 ? "" : k == 1 ? (s.flip() ? "b" : "B") : k == 2 ? (s.flip() ? "k" : "K") : k == 3 ? (s.flip() ? "m" : "M") : s.flip() ? "g" : "G");
		return b;
	}
	default: bits = 31;
	}
	unsigned long long m = s.u(8) >> (64 - bits); m >>= s.below(bits); if (s.below(12) == 0) m = ~0ULL >> (64 - bits);
	bool n = neg && s.flip() && t != ARGV_U_SHORT && t != ARGV_U_INT && t != ARGV_U_LONG;
	snprintf(b, sizeof b, "%s%s%llu", n ? "-" : s.below(8) == 0 ? "+" : "", s.below(8) == 0 ? "00" : "", m); return b;
}

static void gen_grid(Src &s, Grid &g, bool bad) {
	unsigned nopt = s.below(10) == 0 ? s.below(2) : 1 + s.small(s.below(20) == 0 ? 40 : 10), nm = s.below(3), ny = s.below(3); std::vector<bytes> names; bool shorts[128] = {};
	auto common = [&](Entry &x) {
		x.has_label = s.flip(); if (x.has_label) x.label = gen_word(s, s.below(8) == 0 ? 60 : 8, "LABELxyz");
		x.has_comment = s.flip(); if (x.has_comment) x.comment = gen_word(s, s.below(8) == 0 ? 90 : 30, "words in a comment");
	};
	auto type = [&](bool arg) { int t; do t = types[s.below(sizeof types / sizeof *types)]; while (arg && !has_arg(t)); return t; };
	std::vector<std::vector<Entry>> groups; unsigned left = nopt;
	while (left) {
		unsigned k = s.below(4) == 0 ? 1 + s.below(left < 4 ? left : 4) : 1; std::vector<Entry> grp;
		for (unsigned i = 0; i < k; i++) {
			if (i) { Entry o; o.kind = s.flip() ? OR : XOR; grp.push_back(o); }
			Entry x; x.type = type(false); x.array = has_arg(x.type) && s.below(4) == 0; x.must = s.below(k == 1 ? 8 : 24) == 0; common(x);
			if (s.below(8)) { const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ@+:5/"; char c = al[s.below((uint32_t) (s.below(8) ? 52 : strlen(al)))]; if (!shorts[(int) c]) { shorts[(int) c] = true; x.sh = c; } }
			if (!x.sh || s.flip()) {
				bytes n = s.below(12) == 0 ? bytes((const char *[]){"help", "version", "usage", "verbose", "argv-x", "usage-all", "h"}[s.below(7)]) : gen_word(s, s.flip() ? 3 : 10, "abc-z");
				if (n[0] == '-') n[0] = 'm';
				bool dup_ = false; for (auto &y : names) dup_ |= y == n;
				if (!dup_) { names.push_back(n); x.lo = n; }
			}
			if (!x.sh && x.lo.empty()) { for (char c = 'a'; c <= 'z'; c++) if (!shorts[(int) c]) { shorts[(int) c] = true; x.sh = c; break; } }
			grp.push_back(x);
		}
		left -= k; groups.push_back(grp);
	}
	auto value = [&](int kind, bool arr) { Entry x; x.kind = kind; x.type = type(s.below(4) != 0); x.array = arr && has_arg(x.type); common(x); groups.insert(groups.begin() + s.below((uint32_t) groups.size() + 1), std::vector<Entry>{x}); };
	// values keep their order: insert them from the last to the first in front of what is there
	std::vector<Entry> vals;
	for (unsigned i = 0; i < nm; i++) { Entry x; x.kind = MAND; x.must = s.below(8) == 0; x.type = type(s.below(4) != 0); x.array = i + 1 == nm && s.below(3) == 0 && has_arg(x.type); common(x); vals.push_back(x); }
	if (vals.empty() || !vals.back().array) for (unsigned i = 0; i < ny; i++) { Entry x; x.kind = MAYBE; x.must = s.below(16) == 0; x.type = type(s.below(4) != 0); x.array = i + 1 == ny && s.below(3) == 0 && has_arg(x.type); common(x); vals.push_back(x); }
	(void) value;
	size_t at = 0; for (auto &x : vals) { at += s.below((uint32_t) (groups.size() - at + 1)); groups.insert(groups.begin() + at, std::vector<Entry>{x}); at++; }
	for (auto &x : groups) for (auto &y : x) g.e.push_back(y);
	if (bad) { // break one rule of tables
		auto ins = [&](size_t i, Entry x) { g.e.insert(g.e.begin() + i, x); };
		Entry o; o.kind = s.flip() ? OR : XOR; Entry v; v.type = ARGV_INT; v.array = true; Entry w; w.type = ARGV_INT;
		switch (s.below(8)) {
		case 0: ins(0, o); break;
		case 1: g.e.push_back(o); break;
		case 2: g.e.push_back(w); g.e.back().sh = '%'; g.e.push_back(o); o.kind = s.flip() ? OR : XOR; g.e.push_back(o); w.sh = '!'; g.e.push_back(w); break;
		case 3: v.kind = s.flip() ? MAND : MAYBE; g.e.push_back(v); w.kind = MAND; g.e.push_back(w); break;
		case 4: v.kind = s.flip() ? MAND : MAYBE; g.e.push_back(v); w.kind = MAYBE; g.e.push_back(w); break;
		case 5: w.kind = MAYBE; g.e.push_back(w); w.kind = MAND; g.e.push_back(w); break;
		case 6: w.sh = '%'; w.array = true; w.type = (const int[]){ARGV_BOOL, ARGV_BOOL_NEG, ARGV_INCR, ARGV_BOOL_INT, ARGV_BOOL_INT_NEG}[s.below(5)]; g.e.push_back(w); break;
		default: w.sh = '%'; w.size = 1; w.array = s.flip(); g.e.push_back(w); break; // without a variable
		}
		g.bad = true;
	}
	g.t = (argv_t *) malloc((g.e.size() + 1) * sizeof *g.t); memset(g.t, 0, (g.e.size() + 1) * sizeof *g.t);
	for (size_t i = 0; i < g.e.size(); i++) {
		Entry &x = g.e[i]; argv_t &a = g.t[i]; static const char sp[] = {0, ARGV_MAND, ARGV_MAYBE, ARGV_OR, ARGV_XOR};
		a.ar_short_arg = x.kind == OPT ? x.sh : sp[x.kind]; a.ar_long_arg = x.lo.empty() ? NULL : x.lo.c_str();
		a.ar_var_label = x.has_label ? x.label.c_str() : NULL; a.ar_comment = x.has_comment ? x.comment.c_str() : NULL;
		if (x.kind == OR || x.kind == XOR) continue;
		a.ar_type = (unsigned) x.type | (x.array ? ARGV_FLAG_ARRAY : 0) | (x.must ? ARGV_FLAG_MAND : 0) | (s.below(4) == 0 ? 1 << 12 : 0); // a used mark of an earlier run
		if (x.size) { x.size = 0; continue; }
		x.size = x.array ? sizeof(argv_array_t) : tsize(x.type); x.var = malloc(x.size); a.ar_variable = (ARGV_PNT) x.var;
		bytes in(x.size, 0); bool arb = s.flip(); if (!x.array && x.type != ARGV_CHAR_P && x.type != ARGV_FLOAT && x.type != ARGV_DOUBLE) for (auto &c : in) c = (char) (arb ? s.byte() & 0x3f : 0);
		if (x.array && !g.bad) { argv_array_t z; memset(&z, 0, sizeof z); z.aa_entry_n = (int) s.below(30); memcpy(&in[0], &z, sizeof z); }
		memcpy(x.var, in.data(), x.size); if (!x.array) x.v = load(x.type, x.var); x.init = in;
	}
	g.t[g.e.size()].ar_short_arg = ARGV_LAST;
}

// ---------------------------------------------------------------- model of the command line
struct Model {
	Grid &g; bool close = true, toggle = false, multi = true, interactive = false; int error_code = 1;
	std::deque<int> queue; bool ok = true, skip = false; bool exited = false; int exit_code = 0; unsigned depth = 0, files = 0; bool queued_in_bundle = false, used_stdin = false;
	const std::vector<std::pair<bytes, std::vector<bytes>>> *fs = NULL; // files by name
	explicit Model(Grid &g_): g(g_) {}
	void leave(int code) { if (interactive && !exited) { exited = true; exit_code = code; } }
	void set(Entry &x, const bytes *a) {
		if (x.array) { Val v; v.i = 0; if (!convert(x.type, a, v)) v.vague = true; x.arr.push_back(v); return; }
		if (x.type == ARGV_CHAR_P && x.stored) x.lost++;
		Val v = x.v; if (!convert(x.type, a, v)) x.vague = true; else if (!(x.type == ARGV_INCR && !a)) x.vague = false; x.v = v; x.stored = true;
	}
	bool sep(size_t i) { return i < g.e.size() && (g.e[i].kind == OR || g.e[i].kind == XOR); }
	void option(size_t i, const bytes *cl) {
		Entry &x = g.e[i];
		if (!multi && x.used && !x.array && x.type != ARGV_INCR) ok = false;
		x.used = true;
		size_t lo = i, hi = i; while (lo >= 2 && sep(lo - 1)) lo -= 2; while (sep(hi + 1)) hi += 2;
		for (size_t j = lo; j <= hi; j += 2) if (j != i && g.e[j].used) ok = false;
		if (cl) set(x, cl); else if (!has_arg(x.type)) set(x, NULL); else queue.push_back((int) i);
	}
	void file(const bytes &name) {
		files++;
		if (name == "-") { if (used_stdin) return; used_stdin = true; }
		for (auto &f : *fs) if (f.first == name) { if (depth > 3) { skip = true; return; } depth++; list(f.second); depth--; return; }
		if (name == "-") return;
		ok = false; leave(error_code);
	}
	void value(const bytes &a) {
		if (!queue.empty()) {
			if (g.e.empty()) { skip = true; return; }
			int q = queue.front(); queue.pop_front(); if (q < 0) file(a); else set(g.e[q], &a); return;
		}
		for (int k = MAND; k <= MAYBE; k++) for (auto &x : g.e) if (x.kind == k && (!x.used || x.array)) { set(x, &a); x.used = true; return; }
		ok = false;
	}
	static bool prefix(const bytes &p, const char *w) { return strncmp(p.c_str(), w, p.size()) == 0; }
	void list(const std::vector<bytes> &l) {
		bool last = false;
		for (auto &a : l) {
			if (exited) return;
			if (a == "--") { if (!last) { last = true; continue; } if (toggle) { last = false; continue; } }
			if (last || a.empty() || a[0] != '-' || a == "-") { value(a); continue; }
			bool lng = a.compare(0, 2, "--") == 0; bytes name = a.substr(lng ? 2 : 1), cl; bool hc = false;
			if (close) { size_t p = a.find('='); if (p != bytes::npos) { hc = true; cl = a.substr(p + 1); name = p < (lng ? 2u : 1u) ? bytes() : a.substr(lng ? 2 : 1, p - (lng ? 2 : 1)); if (lng && p < 2) skip = true; } }
			if (name.empty()) { ok = false; continue; }
			if (lng) {
				int hit = -1; unsigned n = 0; for (size_t i = 0; i < g.e.size(); i++) if (!g.e[i].lo.empty() && prefix(name, g.e[i].lo.c_str())) { n++; hit = (int) i; }
				if (n > 1) { int e = -1; for (size_t i = 0; i < g.e.size(); i++) if (g.e[i].lo == name) e = (int) i; if (e >= 0) option((size_t) e, hc ? &cl : NULL); else ok = false; continue; } // a full name may begin another
				if (n == 1) { option((size_t) hit, hc ? &cl : NULL); continue; }
				if (prefix(name, "argv-file")) { if (hc) file(cl); else queue.push_back(-1); continue; }
				static const char *const sp[] = {"usage", "help", "usage-short", "usage-long", "usage-all", "version", "argv-display"};
				bool f = false; for (auto w : sp) f |= prefix(name, w);
				if (f) leave(0); else ok = false;
				continue;
			}
			unsigned waiting = 0;
			for (size_t j = 0; j < name.size() && !exited; j++) {
				size_t i; for (i = 0; i < g.e.size(); i++) if (g.e[i].kind == OPT && g.e[i].sh == name[j]) break;
				if (i < g.e.size()) { size_t q = queue.size(); option(i, hc ? &cl : NULL); waiting += queue.size() > q; continue; }
				if (name[j] == '?') { leave(0); continue; }
				if (j == 0 && name.find_first_not_of("0123456789+-.") == bytes::npos && !queue.empty() && queue.front() >= 0) {
					Entry &x = g.e[(size_t) queue.front()]; int t = x.type;
					if (t == ARGV_SHORT || t == ARGV_INT || t == ARGV_LONG || t == ARGV_FLOAT || t == ARGV_DOUBLE) { bytes num = "-" + name; set(x, &num); queue.pop_front(); break; }
				}
				ok = false;
			}
			if (waiting > 1) queued_in_bundle = true;
		}
	}
	void finish() {
		if (exited) return;
		for (auto &x : g.e) if ((x.kind == MAND || x.must) && !x.used) ok = false;
		if (!queue.empty()) ok = false;
		for (size_t i = 0; i < g.e.size(); i++) if (g.e[i].kind == XOR) { bool any = g.e[i - 1].used; for (;; i += 2) { any |= g.e[i + 1].used; if (i + 2 >= g.e.size() || g.e[i + 2].kind != XOR) break; } if (!any) ok = false; }
		if (!ok) leave(error_code);
	}
};

struct Args { char **v; std::vector<bytes> a; explicit Args(const std::vector<bytes> &x): a(x) { v = (char **) malloc((a.size() + 1) * sizeof *v); for (size_t i = 0; i < a.size(); i++) v[i] = dup(a[i]); v[a.size()] = NULL; } ~Args() { for (size_t i = 0; i < a.size(); i++) free(v[i]); free(v); } };
static int memfile(const bytes &b, bytes *name) {
	int fd = memfd_create("argv", MFD_CLOEXEC); if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t) b.size()) { perror("memfd"); abort(); }
	char n[64]; snprintf(n, sizeof n, "/proc/self/fd/%d", fd); *name = n; return fd;
}
static void globals() {
	argv_help_string = argv_version_string = NULL; argv_interactive = 0; argv_error_stream = NULL; argv_error_code = 1; argv_close_enable_b = 1; argv_last_toggle_b = 0; argv_multi_accept_b = 1;
	argv_usage_type = ARGV_USAGE_LONG; argv_error_type = ARGV_USAGE_LONG; argv_process_env_b = 1; argv_env_after_b = 0;
}
struct Fds { std::vector<int> fd; ~Fds() { for (int f : fd) close(f); } };
struct Stream { char *p = NULL; size_t n = 0; FILE *f = NULL; void open() { f = open_memstream(&p, &n); } void end() { if (f) fclose(f); f = NULL; } ~Stream() { end(); free(p); } };

static bytes gen_arg(Src &s, Model &m, bool faulty, bool last) {
	Grid &g = m.g; std::vector<size_t> opts, fresh, vals; bool pending = !m.queue.empty();
	for (size_t i = 0; i < g.e.size(); i++) {
		Entry &x = g.e[i]; if (x.kind == MAND || x.kind == MAYBE) { if (!x.used || x.array) vals.push_back(i); continue; }
		if (x.kind != OPT) continue;
		bool clash = false; size_t lo = i, hi = i; while (lo >= 2 && m.sep(lo - 1)) lo -= 2; while (m.sep(hi + 1)) hi += 2; for (size_t j = lo; j <= hi; j += 2) clash |= j != i && g.e[j].used;
		if (!clash && (m.multi || !x.used || x.array || x.type == ARGV_INCR)) fresh.push_back(i); opts.push_back(i);
	}
	std::vector<size_t> &o = faulty || fresh.empty() ? opts : fresh; unsigned k = s.below(16);
	auto val = [&](bool neg) { int t = pending && m.queue.front() >= 0 ? g.e[(size_t) m.queue.front()].type : vals.empty() ? (int) ARGV_CHAR_P : g.e[vals[0]].type; return gen_value(s, t, neg); };
	if (last) { bytes v = val(true); if (faulty && s.below(6) == 0) return "--"; return v; }
	if (pending && s.below(4) != 0) {
		if (m.queue.front() < 0) return m.fs->empty() || (faulty && s.flip()) ? bytes("/proc/self/fd/none") : (*m.fs)[s.below((uint32_t) m.fs->size())].first;
		int t = g.e[(size_t) m.queue.front()].type; return val(t == ARGV_SHORT || t == ARGV_INT || t == ARGV_LONG || t == ARGV_FLOAT || t == ARGV_DOUBLE);
	}
	if (faulty && s.below(4) == 0) {
		switch (s.below(8)) {
		case 0: return "-" + gen_word(s, 3, "~abc5"); case 1: return "--" + gen_word(s, 6, "zqabc-"); case 2: return "--=" + gen_any(s, 3);
		case 3: return "-" + gen_value(s, ARGV_INT, false); case 4: return gen_value(s, ARGV_LONG, false); case 5: return "-=" + gen_any(s, 2); case 6: return gen_any(s, 6);
		default: return "--argv-file=/proc/self/fd/none";
		}
	}
	if (k == 0) return "--";
	if (k == 1 && !vals.empty()) return val(false);
	if (k == 2 && !vals.empty() && g.e[vals[0]].type == ARGV_CHAR_P) return "-";
	if (k == 3 && s.flip()) return bytes((const char *[]){"-?", "--help", "--usage", "--version", "--argv-display", "--usage-s", "--vers", "--us"}[s.below(8)]);
	if (k == 4 && !m.fs->empty() && !g.e.empty()) { bytes n = bytes("--argv-file").substr(0, 2 + 1 + s.below(9)); return m.close && s.flip() ? n + "=" + (*m.fs)[s.below((uint32_t) m.fs->size())].first : n; }
	if (o.empty()) return vals.empty() ? bytes("--") : val(false);
	size_t i = o[s.below((uint32_t) o.size())]; Entry &x = g.e[i]; bytes r;
	if (!x.lo.empty() && (!x.sh || s.flip())) {
		size_t cut = x.lo.size(); if (s.below(3) == 0) cut = 1 + s.below((uint32_t) cut);
		if (!faulty) for (auto &y : g.e) if (&y != &x && !y.lo.empty()) { size_t c = 0; while (c < x.lo.size() && c < y.lo.size() && x.lo[c] == y.lo[c]) c++; if (cut <= c) cut = c < x.lo.size() ? c + 1 : x.lo.size(); }
		r = "--" + x.lo.substr(0, cut);
	} else if (x.sh) {
		r = bytes("-") + x.sh;
		if (s.below(3) == 0) for (unsigned n = 1 + s.below(s.below(8) == 0 ? 30 : 3); n--;) { Entry &y = g.e[o[s.below((uint32_t) o.size())]]; if (s.chance(1, 12)) { r += '?'; continue; } if (y.sh && (y.sh != x.sh || m.multi) && (faulty || y.array || y.type == ARGV_INCR || m.multi)) { bool near_ = false; if (!faulty) for (auto &z : g.e) near_ |= z.kind == OR || z.kind == XOR; if (!near_ || y.sh == x.sh) r += y.sh; } }
	}
	if (m.close && s.below(3) == 0) r += "=" + gen_value(s, x.type, true);
	return r;
}
static bytes cut(const bytes &b, size_t n) { return b.substr(0, n); }

static int empty_fd = -1;
static void p46(Src &s, Case &c) {
	globals(); Grid g; gen_grid(s, g, s.chance(1, 12)); Model m(g); bool faulty = s.below(3) == 0, env = s.below(6) == 0; Fds fds; Stream err;
	m.close = argv_close_enable_b = s.below(8) != 0; m.toggle = argv_last_toggle_b = s.below(3) == 0; m.multi = argv_multi_accept_b = s.below(4) != 0; m.interactive = argv_interactive = s.below(10) == 0;
	m.error_code = argv_error_code = 2 + (int) s.below(200); argv_error_type = (int) s.below(8);
	if (s.below(4) == 0) { err.open(); argv_error_stream = err.f; }
	std::vector<std::pair<bytes, std::vector<bytes>>> fs; m.fs = &fs;
	Grid *gp = &g;
	// arguments are made while the model runs, so that most of them fit
	std::vector<bytes> args[2], *cur; bool first_env = env && s.flip(), envon = s.below(5) != 0; std::vector<std::vector<bytes>> filel; (void) gp;
	auto make = [&](std::vector<bytes> &l, unsigned n, bool noblank) {
		bool last = false; Model &mm = m; std::vector<bytes> one(1);
		// replay the list on a scratch copy of the model state afterwards; here only steer by the state so far
		for (unsigned i = 0; i < n; i++) {
			if (g.bad) { if (s.below(3) == 0) l.push_back(s.flip() ? "-%" : "-!"); l.push_back("x" + gen_word(s, 5, "-abc=1")); continue; }
			bytes a = gen_arg(s, mm, faulty, last);
			for (auto &ch : a) if (noblank && (ch == ' ' || ch == '\t' || ch == '\n')) ch = '_'; if (noblank && a.empty()) a = "x";
			if (a == "--") last = m.toggle ? !last : true;
			l.push_back(a);
			// advance the steering state: the queue and the used marks
			Model t(g); t.close = m.close; t.toggle = m.toggle; t.multi = m.multi; t.fs = &fs; t.queue = m.queue;
			if (last && a != "--") { t.value(a); } else if (a != "--") { one[0] = a; t.list(one); }
			m.queue = t.queue;
		}
	};
	bytes none; if (empty_fd < 0) empty_fd = memfile("", &none); lseek(empty_fd, 0, SEEK_SET); dup2(empty_fd, 0); rewind(stdin); clearerr(stdin);
	// steer first, then put the model back
	if (s.below(5) == 0) for (unsigned i = 1 + s.below(2); i--;) {
		std::vector<bytes> l; Model keep(g); bool f2 = faulty; make(l, s.below(s.below(6) == 0 ? s.below(12) == 0 ? 300 : 40 : 8), true); faulty = f2; bytes text; std::vector<bytes> lines;
		for (auto &a : l) { if (s.chance(1, 60)) a += bytes(1 + s.below(3200), (char) ('a' + s.below(26))); if (a[0] == '\n') a[0] = 'n'; lines.push_back(a); text += a; if (&a != &l.back() || s.flip()) text += s.below(6) == 0 ? "\n\n" : "\n"; }
		bytes name; int fd = memfile(text, &name);
		if (s.below(4) == 0 && (fs.empty() || fs[0].first != "-")) { lseek(fd, 0, SEEK_SET); dup2(fd, 0); name = "-"; }
		fds.fd.push_back(fd); fs.insert(fs.begin(), {name, lines});
	}
	auto reset = [&] { m.queue.clear(); for (auto &x : g.e) { x.used = x.vague = x.stored = false; x.lost = 0; x.arr.clear(); if (x.var && !x.array) { x.v = Val(); x.v = load(x.type, x.init.data()); } } };
	reset();
	bool envused = env && envon;
	for (int k = 0; k < 2; k++) { cur = &args[k]; bool isenv = envused && (k == 0) == first_env; if (env && !envused && k == 0) continue; if (!env && k == 0) continue; make(*cur, isenv ? s.below(6) : s.below(s.below(10) == 0 ? 30 : 9), isenv); }
	// give what is still missing
	std::vector<bytes> &tail = args[1]; bool tail_env = envused && !first_env;
	if (!g.bad && !tail_env && s.below(8) && !faulty) for (unsigned n = 0; n < 40; n++) {
		size_t need = g.e.size(); for (size_t i = 0; i < g.e.size(); i++) { Entry &x = g.e[i]; if (x.kind == MAND && !x.used) need = i; if (x.must && !x.used) { need = i; break; } if (x.kind == XOR) { bool any = false; size_t lo = i - 1, hi = i + 1; while (lo >= 2 && m.sep(lo - 1)) lo -= 2; while (m.sep(hi + 1)) hi += 2; for (size_t j = lo; j <= hi; j += 2) any |= g.e[j].used; if (!any) { need = i - 1; break; } } }
		bool inlast = false; for (auto &a : tail) if (a == "--") inlast = m.toggle ? !inlast : true;
		bytes a; std::vector<bytes> one(1);
		if (!m.queue.empty()) a = m.queue.front() < 0 ? (fs.empty() ? bytes("none") : fs[0].first) : gen_value(s, g.e[(size_t) m.queue.front()].type, inlast);
		else if (need == g.e.size()) break;
		else if (g.e[need].kind == MAND || g.e[need].kind == MAYBE) a = gen_value(s, g.e[need].type, inlast);
		else if (inlast) break;
		else a = g.e[need].sh ? bytes("-") + g.e[need].sh : "--" + g.e[need].lo;
		tail.push_back(a); Model t(g); t.close = m.close; t.toggle = m.toggle; t.multi = m.multi; t.fs = &fs; t.queue = m.queue; if (inlast) t.value(a); else { one[0] = a; t.list(one); } m.queue = t.queue;
	}
	reset();
	// the program and its environment
	bytes prog = gen_word(s, s.chance(1, 20) ? 250 : 8, "abcXYZ09_"), path = (s.below(3) == 0 ? bytes() : s.flip() ? bytes("/usr/bin/") : bytes("./a b/")) + prog, envname = "ARGV_", envtext;
	for (char ch : prog) envname += (char) (ch >= 'a' && ch <= 'z' ? ch - 32 : ch);
	std::vector<bytes> envl; if (env) { envl = envused ? args[first_env ? 0 : 1] : std::vector<bytes>{"--nonsense", "x"}; for (auto &a : envl) envtext += bytes(1 + s.below(2) * s.below(3), s.below(4) ? ' ' : '\t') + a; if (s.flip()) envtext += " "; setenv(envname.c_str(), envtext.c_str(), 1); }
	argv_process_env_b = envon; argv_env_after_b = envused ? !first_env : s.flip();
	std::vector<bytes> line = envused && !first_env ? args[0] : args[1], all; all.push_back(path); for (auto &a : line) all.push_back(a);
	c.note("%zu table entries%s, %zu arguments%s%s%s:", g.e.size(), g.bad ? " (broken)" : "", line.size(), env ? envused ? first_env ? ", environment before" : ", environment behind" : ", environment off" : "", fs.empty() ? "" : ", file", m.interactive ? ", interactive" : "");
	for (auto &a : line) c.note(" %s", cstr(a).c_str());
	if (c.want_desc) { bytes d; for (auto &x : g.e) { char b[100]; snprintf(b, sizeof b, " %c:%d%s%s", x.kind == OPT ? x.sh ? x.sh : '.' : "?MY|^"[x.kind], x.type, x.array ? "[]" : "", x.must ? "!" : ""); d += b + (x.lo.empty() ? bytes() : "(" + x.lo + ")"); } c.note("; table%s%s%s", d.c_str(), m.close ? "" : " no=", m.multi ? "" : " once"); if (env) c.note("; %s=%s", envname.c_str(), cstr(envtext).c_str()); for (auto &f : fs) { c.note("; file:"); for (auto &l : f.second) c.note(" %s", cstr(l).c_str()); } }
	// model
	if (g.bad) { m.ok = false; m.leave(m.error_code); }
	else {
		if (envused && first_env) m.list(envl); if (!m.exited) m.list(line); if (envused && !first_env && !m.exited) m.list(envl); m.finish();
	}
	{
		Args real(all); size_t before = live_allocs(); int r = 0; volatile bool jumped = false;
		argv_exit_armed = 1;
		if (!setjmp(argv_exit_to)) r = argv_process_no_env(g.e.empty() && s.flip() ? NULL : g.t, (int) all.size(), real.v); else jumped = true;
		argv_exit_armed = 0;
		if (jumped && !fds.fd.empty()) { int top = 2; for (int f : fds.fd) if (f > top) top = f; for (int f = top + 1; f < top + 12; f++) if (f != empty_fd) close(f); } // argument files left open
		if (env) unsetenv(envname.c_str());
		for (size_t i = 0; i < all.size() && !jumped; i++) CHECK(all[i] == real.v[i], "argument %zu was changed from %s to %s", i, cstr(all[i]).c_str(), cstr(real.v[i]).c_str());
		CHECK(!strcmp(argv_program, prog.c_str()), "the program is called %s instead of %s", argv_program, prog.c_str());
		CHECK(argv_argc == (int) all.size() && argv_argv == real.v, "argv_argc or argv_argv differs from what was given");
		if (!m.skip) {
			CHECK(jumped == m.exited, "%s the program", jumped ? "an interactive parse ended" : "an interactive parse did not end");
			if (jumped) CHECK(argv_exit_code == m.exit_code, "the program ended with %d instead of %d", argv_exit_code, m.exit_code);
			else CHECK((r == 0) == m.ok, "the command line is %s", r == 0 ? "accepted although it breaks a rule" : "refused although it breaks no rule");
		} else c.label("unclaimed");
		if (r == 0 && !jumped && !m.skip) for (size_t i = 0; i < g.e.size(); i++) {
			Entry &x = g.e[i]; if (x.kind == OR || x.kind == XOR) continue;
			CHECK(argv_entry_was_used(&g.t[i]) == (int) x.used, "entry %zu is %smarked as used", i, x.used ? "not " : "");
			if (x.sh) CHECK(argv_was_used(g.t, x.sh) == (int) x.used, "option -%c is %sreported as used", x.sh, x.used ? "not " : "");
			if (!x.lo.empty()) { ExactStr n(x.lo); CHECK(argv_long_was_used(g.t, n.p) == (int) x.used, "option --%s is %sreported as used", x.lo.c_str(), x.used ? "not " : ""); }
			auto same = [&](const Val &w, const void *p, const char *what, size_t k) {
				if (w.vague) return; Val v = load(x.type, p); bytes a = show(x.type, v), b = show(x.type, w);
				CHECK(a == b && (x.type != ARGV_CHAR_P || v.null == w.null), "entry %zu%s%zu holds %s instead of %s", i, what, k, cstr(a).c_str(), cstr(b).c_str());
			};
			if (x.array) {
				argv_array_t z; memcpy(&z, x.var, sizeof z);
				CHECK(ARGV_ARRAY_COUNT(z) == (int) x.arr.size(), "the array of entry %zu has %d elements, expected %zu", i, z.aa_entry_n, x.arr.size());
				for (size_t k = 0; k < x.arr.size(); k++) same(x.arr[k], (char *) z.aa_entries + k * tsize(x.type), " element ", k);
			} else if (!x.vague) same(x.v, x.var, " variable ", 0);
		}
		if (r == 0 && !jumped && g.e.size()) { // the arguments as one line
			bytes want; for (size_t i = 1; i < all.size(); i++) want += (i > 1 ? " " : "") + all[i];
			size_t n = s.flip() ? want.size() + 1 + s.below(4) : 1 + s.below((uint32_t) want.size() + 2); Exact b(n, 0xaa);
			CHECK(argv_copy_args((char *) b.p, (int) n) == 0, "argv_copy_args fails");
			CHECK(memchr(b.p, 0, n) && cut(want, n - 1) == (char *) b.p, "the copy of the arguments for %zu octets is %s", n, cstr((char *) b.p).c_str());
		}
		if (!jumped && !g.bad) {
			unsigned lost = 0; for (size_t i = 0; i < g.e.size(); i++) { Entry &x = g.e[i]; lost += x.lost; if (x.var && !x.array && x.type == ARGV_CHAR_P && !x.stored && r) { char *z = NULL; if (m.skip) continue; memcpy(x.var, &z, sizeof z); } }
			argv_cleanup(g.t);
			for (auto &x : g.e) if (x.array) { argv_array_t z; memcpy(&z, x.var, sizeof z); CHECK(z.aa_entry_n == 0 && !z.aa_entries, "an array is not empty after argv_cleanup"); }
			if (!m.skip && !err.f) CHECK(live_allocs() <= before + lost, "%zu allocations are left after argv_cleanup", live_allocs() - before);
		}
	}
	argv_error_stream = NULL;
	if (m.exited) c.label("ended the program");
	c.label(g.bad ? "broken table" : m.ok ? "accepted" : "refused"); if (env) c.label("environment"); if (m.files) c.label("argument file"); if (m.queued_in_bundle) c.label("several waiting in one bundle");
	bool orx = false, usedopt = false, arr = false; for (auto &x : g.e) { orx |= x.kind == XOR; usedopt |= x.used && x.kind == OPT; arr |= x.arr.size() > 1; } if (orx) c.label("alternatives"); if (arr) c.label("array of several");
	c.nontrivial = m.ok && usedopt && line.size() > 1;
}
static PropReg r46({"P46", p46, "A table of options of every type (single values and arrays, short and long names, mandatory and optional values, groups of alternatives, mandatory flags; 1 in 12 broken) and a command line made to fit it two times out of three: bundled short options, abbreviated long names, attached and separate values, --, negative numbers, values from the program's environment variable and from argument files; every setting of the parser. Non-trivial: accepted, more than one argument, at least one option used.", 400000, 4000000, false, 0, NULL, 0, 1});

// ---------------------------------------------------------------- P47
static bytes escape(const char *p, size_t n, size_t room) { // room: octets before the terminator
	bytes r;
	for (size_t i = 0; i < n; i++) {
		unsigned char ch = (unsigned char) p[i]; char b[8]; static const char sp[] = "e\033^^\"\"''\\\\n\nr\rt\tb\bf\fa\007"; b[0] = 0;
		for (const char *q = sp; *q; q += 2) if ((unsigned char) q[1] == ch) { snprintf(b, sizeof b, "\\%c", *q); break; }
		if (!*b) { if (ch >= 32 && ch < 127) { b[0] = (char) ch; b[1] = 0; } else snprintf(b, sizeof b, "\\%03o", ch); }
		if (r.size() + strlen(b) > room) break;
		r += b;
	}
	return r;
}
static bytes value_text(int t, const Val &v, size_t room) {
	char b[400]; *b = 0;
	auto size = [&](bool sg) {
		static const struct { unsigned sh; char c; } u[] = {{30, 'g'}, {20, 'm'}, {10, 'k'}}; bytes n = sg ? std::to_string((long) v.i) : std::to_string((unsigned long) v.u); if (!(sg ? (unsigned long) v.i : v.u)) return bytes("0");
		for (auto &x : u) { if (sg ? v.i % (1LL << x.sh) == 0 : (v.u & ((1ULL << x.sh) - 1)) == 0) return (sg ? std::to_string((long) (v.i / (1LL << x.sh))) : std::to_string((unsigned long) (v.u >> x.sh))) + x.c + " (" + n + ")"; }
		return n;
	};
	bytes r;
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: r = v.i ? "true (! 0)" : "false (0)"; break;
	case ARGV_CHAR: { char ch = (char) v.i; return escape(&ch, 1, room); }
	case ARGV_CHAR_P: if (v.null) r = "(null)"; else return escape(v.s.c_str(), v.s.size(), room); break;
	case ARGV_SHORT: case ARGV_INT: case ARGV_LONG: case ARGV_INCR: r = std::to_string(v.i); break;
	case ARGV_U_SHORT: case ARGV_U_INT: case ARGV_U_LONG: r = std::to_string(v.u); break;
	case ARGV_FLOAT: case ARGV_DOUBLE: snprintf(b, sizeof b, "%f", v.d); r = b; break;
	case ARGV_BIN: if (!v.i) r = "0"; else { unsigned x = (unsigned) v.i; for (; x; x >>= 1) r.insert(r.begin(), (char) ('0' + (x & 1))); r = "0b" + r + " (" + std::to_string((int) v.i) + ")"; } break;
	case ARGV_OCT: if (!v.i) r = "0"; else { snprintf(b, sizeof b, "0%o (%d)", (unsigned) v.i, (int) v.i); r = b; } break;
	case ARGV_HEX: if (!v.i) r = "0"; else { snprintf(b, sizeof b, "0x%x (%d)", (unsigned) v.i, (int) v.i); r = b; } break;
	case ARGV_SIZE: r = size(true); break;
	case ARGV_U_SIZE: r = size(false); break;
	default: r = "(unknown)";
	}
	return cut(r, room);
}
// one value of the type in p, strings kept in pool
static void gen_store(Src &s, int t, char *p, std::vector<char *> &pool) {
	unsigned long long x = s.u(8) >> s.below(64); if (s.flip()) x = 0 - x; if (s.below(8) == 0) x = 0; if ((t == ARGV_SIZE || t == ARGV_U_SIZE) && s.flip()) x <<= 10 * s.below(4);
	if (t == ARGV_FLOAT) { float f = (float) (long long) x / (float) (1u << s.below(20)); memcpy(p, &f, sizeof f); }
	else if (t == ARGV_DOUBLE) { double d = (double) (long long) x / (1u << s.below(20)); if (s.chance(1, 30)) d *= 1e280; memcpy(p, &d, sizeof d); }
	else if (t == ARGV_CHAR_P) { char *q = NULL; if (s.below(8)) { bytes b = gen_any(s, s.chance(1, 20) ? 600 : 12); q = dup(b); pool.push_back(q); } memcpy(p, &q, sizeof q); }
	else if (t == ARGV_CHAR) *p = (char) (s.flip() ? s.byte() : "\033^\"'\\\n\r\t\b\f\007 a"[s.below(13)]);
	else memcpy(p, &x, tsize(t));
}
struct Pool { std::vector<char *> p; ~Pool() { for (char *x : p) free(x); } };

static void p47_values(Src &s, Case &c) {
	Pool pool; int t = types[s.below(sizeof types / sizeof *types)]; argv_t a[2]; memset(a, 0, sizeof a); a[1].ar_short_arg = ARGV_LAST; a[0].ar_short_arg = 'x'; bool arr = has_arg(t) && s.below(3) == 0; unsigned n = arr ? s.below(s.below(6) == 0 ? 200 : 4) : 1;
	Exact var(arr ? sizeof(argv_array_t) : tsize(t), 0), ent(n * tsize(t), 0); argv_array_t z; Val first; bytes want; size_t room;
	for (unsigned i = 0; i < n; i++) gen_store(s, t, arr ? (char *) ent.p + i * tsize(t) : (char *) var.p, pool.p);
	if (n) first = load(t, arr ? ent.p : var.p);
	if (arr) { memset(&z, 0, sizeof z); z.aa_entry_n = (int) n; z.aa_entries = (ARGV_PNT) ent.p; memcpy(var.p, &z, sizeof z); }
	a[0].ar_type = (unsigned) t | (arr ? ARGV_FLAG_ARRAY : 0) | (s.flip() ? ARGV_FLAG_MAND : 0) | (s.flip() ? 1 << 12 : 0); a[0].ar_variable = (ARGV_PNT) var.p;
	auto text = [&](size_t rm) { if (!arr) return value_text(t, first, rm); if (!n) return cut("0 array entries", rm); bytes r = value_text(t, first, rm); if (n > 1) r += " (1st of " + std::to_string(n) + " entries)"; return cut(r, rm); };
	bytes full = text(100000); room = s.flip() ? full.size() + s.below(3) : s.below((uint32_t) full.size() + 1); want = text(room);
	Exact buf(room + 1, 0x5a); int r = argv_value_string(a, (char *) buf.p, (int) room + 1);
	CHECK(memchr(buf.p, 0, room + 1), "the text of a value of type %d%s in %zu octets has no terminator", t, arr ? "[]" : "", room + 1);
	CHECK(want == (char *) buf.p, "the text of a value of type %d%s in %zu octets is %s instead of %s", t, arr ? "[]" : "", room + 1, cstr((char *) buf.p).c_str(), cstr(want).c_str());
	CHECK(r == (int) want.size(), "the text of a value of type %d%s has length %zu, reported as %d", t, arr ? "[]" : "", want.size(), r);
	// type information
	static const char *const names[] = {"flag", "negative flag", "flag with arg", "character", "string", "short integer", "unsigned short integer", "integer", "unsigned integer", "long integer", "unsigned long", "floating point", "double floating point", "binary", "octal", "hexadecimal", "increment", "long size", "unsigned long size"};
	unsigned k = s.below(64), sz = 999; const char *d = NULL, *nm = argv_type_info(k | (s.flip() ? ARGV_FLAG_ARRAY : 0) | (s.flip() ? ARGV_FLAG_MAND : 0), s.below(4) ? &sz : NULL, &d);
	CHECK(nm && d && *d, "type %u has no description", k);
	if (k >= 1 && k <= 19) CHECK(!strcmp(nm, names[k - 1]), "type %u is called %s", k, nm);
	if (k >= 1 && k <= 22) { if (sz != 999 && k != ARGV_BOOL_NEG) CHECK(sz == tsize((int) k), "type %u has size %u, expected %zu", k, sz, tsize((int) k)); }
	else CHECK((sz == 999 || sz == 0) && !strcmp(nm, "(unknown type)"), "unknown type %u is called %s with size %u", k, nm, sz);
	if (arr) c.label("array text");
	if (room < full.size()) c.label("cut text");
}
static std::vector<bytes> lines_of(const bytes &x) { std::vector<bytes> r; size_t b = 0; for (size_t i = 0; i < x.size(); i++) if (x[i] == '\n') { r.push_back(x.substr(b, i - b)); b = i + 1; } if (b < x.size()) r.push_back(x.substr(b)); return r; }
static bool has(const bytes &x, const bytes &y) { return x.find(y) != bytes::npos; }
static void long_usage(const Grid &g, const std::vector<bytes> &l, size_t at, const char *prog) {
	CHECK(l.size() > at && l[at] == bytes("Usage: ") + prog, "long usage does not begin with the name of the program");
	for (auto &x : g.e) {
		if (x.kind == OR || x.kind == XOR) continue;
		CHECK(++at < l.size(), "long usage leaves out an entry"); const bytes &q = l[at];
		if (x.kind == OPT && x.sh) CHECK(has(q, bytes("[-") + x.sh), "long usage does not show -%c: %s", x.sh, cstr(q).c_str());
		if (!x.lo.empty()) CHECK(has(q, "--" + cut(x.lo, 10)), "long usage does not show --%s: %s", x.lo.c_str(), cstr(q).c_str());
		if (x.has_comment) CHECK(has(q, cut(x.comment, 40)), "long usage does not show the comment %s: %s", x.comment.c_str(), cstr(q).c_str());
		if (has_arg(x.type)) CHECK(has(q, x.type == ARGV_BOOL_ARG || x.type == ARGV_BOOL_INT_ARG ? bytes("yes|no") : x.has_label ? cut(x.label, 10) : bytes("??")), "long usage does not show the value of an entry: %s", cstr(q).c_str());
	}
}
// a line is longer than the screen only if a single word does not leave it a choice
static void usage_width(const std::vector<bytes> &l, size_t longest) {
	for (auto &q : l) CHECK(q.size() <= 79 || longest > 40, "a line of the usage has %zu characters: %s", q.size(), cstr(q).c_str());
}
static void short_usage(const Grid &g, const bytes &out, const char *prog) {
	bytes o; for (char ch : out) { if (ch == '\n') ch = ' '; if (ch != ' ' || o.empty() || o.back() != ' ') o += ch; }
	CHECK(o.compare(0, 7 + strlen(prog), bytes("Usage: ") + prog) == 0, "short usage does not begin with the name of the program");
	bytes flags, got; for (auto &x : g.e) if (x.kind == OPT && x.sh && !has_arg(x.type)) flags += x.sh;
	size_t p = 7 + strlen(prog);
	while (got.size() < flags.size()) { size_t q = o.find("[-", p), e = q == bytes::npos ? q : o.find("]", q + 2); CHECK(e != bytes::npos, "short usage shows the flags %s of %s", got.c_str(), flags.c_str()); got += o.substr(q + 2, e - q - 2); p = e + 1; }
	CHECK(got == flags, "short usage shows the flags %s instead of %s", got.c_str(), flags.c_str());
	for (auto &x : g.e) {
		if (x.kind > MAYBE || !has_arg(x.type) || (x.kind == OPT && !x.sh)) continue;
		bytes lab = x.has_label ? x.label : x.type == ARGV_BOOL_ARG || x.type == ARGV_BOOL_INT_ARG ? bytes("yes|no") : bytes("??"), w = x.kind == MAND ? lab : x.kind == MAYBE ? "[" + lab + "]" : bytes("[-") + x.sh + " " + lab + "]";
		size_t q = o.find(w, p); CHECK(q != bytes::npos, "short usage does not show %s in its place: %s", w.c_str(), cstr(o).c_str()); p = q + w.size();
	}
}
static void p47_usage(Src &s, Case &c) {
	Grid g; gen_grid(s, g, false); Stream st; st.open(); argv_error_stream = st.f; bool lab = true; for (auto &x : g.e) if ((x.kind == OPT && !x.sh && has_arg(x.type)) || ((x.kind == MAND || x.kind == MAYBE) && !has_arg(x.type))) lab = false; // no text of their own
	for (auto &x : g.e) if (x.array && x.var) { memset(x.var, 0, x.size); }
	Pool pool; std::vector<std::unique_ptr<Exact>> keep;
	int how = (int) s.below(7); argv_usage_type = ARGV_USAGE_SHORT + (int) s.below(6); if (argv_usage_type == ARGV_USAGE_DEFAULT) argv_usage_type = ARGV_USAGE_LONG;
	int shown = how; const char *arg = NULL; bool inter = s.below(3) == 0; static const char *const word[] = {"--usage", "--usage-short", "--usage-long", "--usage-all", "--version", "--argv-display", "-?", "--help"};
	switch (s.below(4)) { case 0: strcpy(argv_program, "Unknown"); break; case 1: strcpy(argv_program, gen_word(s, 72, "prog").c_str()); break; } bytes prog = argv_program;
	if (inter) {
		unsigned k = s.below(8); arg = word[k]; shown = k == 0 || k >= 6 ? argv_usage_type : k == 1 ? ARGV_USAGE_SHORT : k == 2 ? ARGV_USAGE_LONG : k == 3 ? ARGV_USAGE_ALL : k == 4 ? 100 : 101; argv_interactive = 1; prog = "prog";
		for (auto &x : g.e) if (!x.lo.empty() && !strncmp(arg + 2, x.lo.c_str(), strlen(arg) - 2)) { argv_error_stream = NULL; return; }
		for (auto &x : g.e) if (x.sh == '?') { argv_error_stream = NULL; return; }
		bytes ver = "1.2-" + gen_word(s, 5, "abc"); bool hasver = s.flip(); argv_version_string = hasver ? (char *) ver.c_str() : NULL;
		// values to display are put into the variables first
		for (auto &x : g.e) if (x.var && !x.array) gen_store(s, x.type, (char *) x.var, pool.p);
		std::vector<bytes> all{"/bin/prog", arg}; Args real(all); volatile bool jumped = false; argv_exit_armed = 1; if (!setjmp(argv_exit_to)) argv_process_no_env(g.t, 2, real.v); else jumped = true; argv_exit_armed = 0; argv_version_string = NULL; argv_interactive = 0;
		CHECK(jumped && argv_exit_code == 0, "%s does not end the program with 0", arg);
		st.end(); bytes out(st.p, st.n); std::vector<bytes> l = lines_of(out);
		if (shown == 100) CHECK(l.size() == 1 && has(out, "prog") && (!hasver || has(out, ver)), "--version shows %s", cstr(out).c_str());
		if (shown == 101) {
			size_t i = 0; for (auto &x : g.e) { if (x.kind == OR || x.kind == XOR) continue; CHECK(i < l.size(), "--argv-display leaves out an entry"); bytes v = x.array ? bytes("no entries") : value_text(x.type, load(x.type, x.var), 255); CHECK(l[i].size() >= v.size() && l[i].compare(l[i].size() - v.size(), v.size(), v) == 0, "--argv-display shows %s for the value %s", cstr(l[i]).c_str(), cstr(v).c_str()); if (!x.lo.empty() && !x.sh) CHECK(has(l[i], "--" + cut(x.lo, 10)), "--argv-display does not show --%s", x.lo.c_str()); if (x.kind == OPT && x.sh) CHECK(has(l[i], bytes("[-") + x.sh), "--argv-display does not show -%c", x.sh); i++; }
			CHECK(i == l.size(), "--argv-display shows %zu entries of %zu", l.size(), i);
		}
		c.label("interactive");
	} else {
		CHECK(argv_usage(g.e.empty() && s.flip() ? NULL : g.t, how) == 0, "argv_usage fails"); st.end(); if (how != ARGV_USAGE_SHORT && how != ARGV_USAGE_LONG && how != ARGV_USAGE_ALL) shown = argv_usage_type;
	}
	argv_error_stream = NULL; bytes out(st.p, st.n); std::vector<bytes> l = lines_of(out);
	if (shown == ARGV_USAGE_LONG || shown == ARGV_USAGE_ALL) long_usage(g, l, 0, prog.c_str());
	if ((shown == ARGV_USAGE_SHORT || shown == ARGV_USAGE_SHORT_REM) && lab) short_usage(g, out, prog.c_str());
	if (shown == ARGV_USAGE_SHORT || shown == ARGV_USAGE_LONG) { size_t w = prog.size() <= 72 ? 0 : prog.size(); for (auto &x : g.e) w = std::max(w, x.has_label ? x.label.size() : 0); usage_width(l, w); }
	if (shown == ARGV_USAGE_SEE || shown == ARGV_USAGE_SHORT_REM || shown == ARGV_USAGE_ALL) CHECK(has(out, "--usage"), "the usage does not say how to learn more");
	c.note(" usage %d of %zu entries%s%s;", shown, g.e.size(), arg ? " by " : "", arg ? arg : "");
}
static void p47_env(Src &s, Case &c) {
	int close = argv_close_enable_b, tog = argv_last_toggle_b, pe = argv_process_env_b, after = argv_env_after_b, err = argv_error_type, multi = argv_multi_accept_b, us = argv_usage_type; bytes t;
	static const char *const onoff[] = {"disable", "off", "no", "0", "enable", "on", "yes", "1"}, *const ut[] = {"none", "see", "short", "shortrem", "long", "all"}; static const int uv[] = {ARGV_USAGE_NONE, ARGV_USAGE_SEE, ARGV_USAGE_SHORT, ARGV_USAGE_SHORT_REM, ARGV_USAGE_LONG, ARGV_USAGE_ALL};
	for (unsigned n = s.below(7); n--;) {
		unsigned k = s.below(7), v = s.below(8); bool bad = s.below(10) == 0; bytes x; if (bad) v = 99;
		auto word = [&](const char *w) { return bad ? bytes((const char *[]){"", "of", "offf", "2", "Yes", "seen", "acceptt", "befor"}[s.below(8)]) : bytes(w); };
		switch (k) {
		case 0: x = "close=" + word(bad ? "" : onoff[v]); if (!bad) close = v >= 4; break;
		case 1: x = "lasttog=" + word(bad ? "" : onoff[v]); if (!bad) tog = v >= 4; break;
		case 2: v %= 3; x = "env=" + word((const char *[]){"none", "before", "after"}[v]); if (!bad) { pe = v > 0; after = v == 2; } break;
		case 3: v %= 6; x = "error=" + word(ut[v]); if (!bad) err = uv[v]; break;
		case 4: v &= 1; x = "multi=" + word(v ? "accept" : "reject"); if (!bad) multi = (int) v; break;
		case 5: v = 2 + v % 4; x = "usage=" + word(ut[v]); if (!bad) us = uv[v]; break;
		default: x = gen_word(s, 6, "closenv"); break;
		}
		t += bytes(s.below(3) == 0 ? s.below(3) : 0, ' ') + (t.empty() ? "" : (const char *[]){",", ":", " ", "\t"}[s.below(4)]) + x;
	}
	setenv("GLOBAL_ARGV", t.c_str(), 1); c.note("GLOBAL_ARGV=%s;", cstr(t).c_str()); Stream st; if (s.flip()) { st.open(); argv_error_stream = st.f; }
	std::vector<bytes> all{"p"}; Args real(all); bool us_first = s.below(3) == 0;
	CHECK((us_first ? argv_usage(NULL, ARGV_USAGE_SHORT) : argv_process(NULL, 1, real.v)) == 0, "an empty command line is refused");
	argv_error_stream = NULL;
	CHECK(argv_close_enable_b == close, "close= was not obeyed: %d", argv_close_enable_b); CHECK(argv_last_toggle_b == tog, "lasttog= was not obeyed: %d", argv_last_toggle_b);
	CHECK(argv_process_env_b == pe && argv_env_after_b == after, "env= was not obeyed: %d %d", argv_process_env_b, argv_env_after_b); CHECK(argv_error_type == err, "error= was not obeyed: %d", argv_error_type);
	CHECK(argv_multi_accept_b == multi, "multi= was not obeyed: %d", argv_multi_accept_b); CHECK(argv_usage_type == us, "usage= was not obeyed: %d", argv_usage_type);
	unsetenv("GLOBAL_ARGV"); c.nontrivial = !t.empty();
}
// the first call of a process, with nothing set by the caller: errors go to the standard error stream
static void p47_first(Src &s, Case &c) {
	bytes none, name; int fd = memfile("", &none), keep = dup(2); (void) name; if (fd < 0 || keep < 0) abort(); fflush(stderr); dup2(fd, 2);
	bool inter = s.flip(); argv_interactive = inter; std::vector<bytes> all{"prog", s.flip() ? "--nosuch" : "superfluous"}; Args real(all); int r = 0; volatile bool jumped = false; argv_exit_armed = 1; c.note("first call;");
	if (!setjmp(argv_exit_to)) r = argv_process_no_env(NULL, 2, real.v); else jumped = true;
	argv_exit_armed = 0; fflush(stderr); dup2(keep, 2); close(keep); char b[4096]; ssize_t n = pread(fd, b, sizeof b - 1, 0); close(fd); b[n < 0 ? 0 : n] = 0;
	CHECK(jumped ? inter && argv_exit_code == 1 : !inter && r != 0, "a wrong command line in the first call of a process gives %d", r);
	CHECK(strstr(b, "prog"), "the first call of a process does not complain on the standard error stream: %s", b);
}
static void p47(Src &s, Case &c) {
	if (s.below(4) == 0) p47_first(s, c);
	globals(); p47_env(s, c); unsigned n = 24;
	for (unsigned i = 0; i < n; i++) { globals(); if (s.below(3) == 0) p47_usage(s, c); else p47_values(s, c); }
	add_evals(n);
}
static PropReg r47({"P47", p47, "A process of its own per case: settings in GLOBAL_ARGV (1 in 10 not understood), then 24 questions: the text of a value of any type, single or array, in a buffer that holds it or cuts it; type information; usage texts in every format, by call and by --usage, --version, --help and --argv-display in interactive mode. Non-trivial: GLOBAL_ARGV was not empty.", 24000, 240000, false, 1, NULL, 0, 25});
