// Whole library calls as values: an Op carries all inputs of one call (or a short
// fixed sequence of calls) and run_op returns everything the caller gets to see.
#pragma once
#include "wapi.h"
#include <sys/mman.h>
#include <unistd.h>
#if defined(PBT_MSAN)
#include <sanitizer/msan_interface.h>
#define SEEN(p, n) __msan_check_mem_is_initialized((p), (n))
#else
#define SEEN(p, n) ((void) 0)
#endif
extern "C" {
const char *fast_inet_ntop(int af, const void *src, char *dst, unsigned size);
size_t base32_encode(char *dst, size_t dst_len, const void *src, size_t src_len);
size_t base32_decode(void *dst, size_t size, const char *data, size_t len);
}
enum OpKind { O_MSG, O_MSGTEXT, O_UNPACK, O_UNAME, O_NAMETEXT, O_READNAME, O_LABELS, O_RDTEXT, O_READRD, O_FOLDRD, O_SET, O_DESER, O_MNEM, O_FILE, O_FMT, O_PRINT, O_KINDS };
static const char *const op_names[] = {"parse message", "message text", "unpack name", "copy name", "name text", "read name", "labels", "record data text", "read record data", "fold record data", "RRset calls", "deserialize", "mnemonics", "load file", "formatting", "print"};
struct Op { unsigned kind; bytes a, b; uint16_t type, cls; uint32_t n; RSet set; };

struct Seen {
	bytes o;
	void raw(const void *p, size_t n) { SEEN(p, n); o.append((const char *) p, n); }
	template <class T> void v(const T &x) { SEEN(&x, sizeof x); o.append((const char *) &x, sizeof x); }
	unsigned failed = 0;
	void res(wdns_res r) { unsigned char k = r != wdns_res_success; failed += k; SEEN(&r, sizeof r); o.push_back((char) k); }
	void str(const char *s) { if (!s) { failed++; o += "(null)"; return; } size_t n = strlen(s); SEEN(s, n + 1); o.append(s, n + 1); }
	void owned(char *s) { str(s); free(s); }
	void name(const wdns_name_t &n) { v(n.len); raw(n.data, n.len); }
	void rd(const wdns_rdata_t *r) { if (!r) { o += "-"; return; } v(r->len); raw(r->data, r->len); }
	void rr(const wdns_rr_t &r) { name(r.name); v(r.rrtype); v(r.rrclass); v(r.rrttl); rd(r.rdata); }
	void set(const wdns_rrset_t &r) { name(r.name); v(r.rrtype); v(r.rrclass); v(r.rrttl); v(r.n_rdatas); if (r.rdatas) for (unsigned i = 0; i < r.n_rdatas; i++) rd(r.rdatas[i]); }
	void msg(const wdns_message_t &m) {
		v(m.id); v(m.flags); v(m.rcode); v(m.edns.present); if (m.edns.present) { v(m.edns.version); v(m.edns.flags); v(m.edns.size); rd(m.edns.options); }
		for (auto &a : m.sections) { v(a.n_rrs); v(a.n_rrsets); for (unsigned i = 0; i < a.n_rrs; i++) rr(a.rrs[i]); for (unsigned i = 0; i < a.n_rrsets; i++) set(a.rrsets[i]); }
	}
};
static void seen_name(wdns_name_t *n, void *u) { ((Seen *) u)->name(*n); free(n->data); }
struct MemF { char *p = NULL; size_t n = 0; FILE *f; MemF() { f = open_memstream(&p, &n); if (!f) abort(); } void done(Seen &o) { fclose(f); f = NULL; o.o.append(p, n); } ~MemF() { if (f) fclose(f); free(p); } };
struct MemFd { int fd; MemFd(const bytes &a) { fd = memfd_create("n", 0); if (fd < 0) abort(); for (size_t i = 0; i < a.size();) { ssize_t w = write(fd, a.data() + i, a.size() - i); if (w <= 0) abort(); i += (size_t) w; } } ~MemFd() { close(fd); } };

static bytes run_op(const Op &op, unsigned *failed = NULL) {
	Seen o; o.o.push_back((char) op.kind);
	switch (op.kind) {
	case O_MSG: case O_MSGTEXT: case O_PRINT: {
		Exact in(op.a); wdns_message_t m; wdns_res r = wdns_parse_message(&m, in.p, in.n); o.res(r); if (r != wdns_res_success) break;
		if (op.kind == O_MSG) o.msg(m);
		else if (op.kind == O_MSGTEXT) {
			o.owned(wdns_message_to_str(&m));
			for (unsigned s = 0; s < 4; s++) { auto &a = m.sections[s]; if (a.n_rrs) o.owned(wdns_rr_to_str(&a.rrs[op.n % a.n_rrs], s)); if (a.n_rrsets) { wdns_rrset_t &q = a.rrsets[op.n % a.n_rrsets]; o.owned(wdns_rrset_to_str(&q, s)); o.owned(wdns_rrset_array_to_str(&a, s)); if (a.n_rrs) o.v(wdns_compare_rr_rrset(&a.rrs[op.n / 7 % a.n_rrs], &q)); } }
		} else { MemF f; wdns_print_message(f.f, &m); for (unsigned s = 0; s < 4; s++) { wdns_print_rrset_array(f.f, &m.sections[s], s); if (m.sections[s].n_rrs) wdns_print_rr(f.f, &m.sections[s].rrs[0], s); if (m.sections[s].n_rrsets) wdns_print_rrset(f.f, &m.sections[s].rrsets[0], s); } f.done(o); }
		wdns_clear_message(&m); o.v(m.sections[1].n_rrs); break; }
	case O_UNPACK: { Exact in(op.a); Exact out(256, 0xee); size_t at = in.n ? op.n % in.n : 0, sz = 0; wdns_res r = wdns_unpack_name(in.p, in.end(), in.p + at, out.p, &sz); o.res(r); if (r == wdns_res_success) { o.v(sz); o.raw(out.p, sz); } const uint8_t *p = in.p + at; size_t k = wdns_skip_name(&p, in.end()); o.v(k); size_t d = (size_t) (p - in.p); o.v(d); break; }
	case O_UNAME: { Exact in(op.a); Exact out(256, 0xee); size_t at = in.n ? op.n % in.n : 0, sz = 0; wdns_res r = wdns_copy_uname(in.p, in.end(), in.p + at, out.p, &sz); o.res(r); if (r == wdns_res_success) { o.v(sz); o.raw(out.p, sz); } sz = 0; r = wdns_len_uname(in.p + at, in.end(), &sz); o.res(r); if (r == wdns_res_success) o.v(sz); break; }
	case O_NAMETEXT: { Exact in(op.a); char *t = (char *) malloc(WDNS_PRESLEN_NAME); size_t k = wdns_domain_to_str(in.p, in.n, t); o.v(k); o.owned(t); break; }
	case O_READNAME: { ExactStr t(op.a); wdns_name_t n; wdns_res r = op.n & 1 ? wdns_str_to_name(t.p, &n) : wdns_str_to_name_case(t.p, &n); o.res(r); if (r == wdns_res_success) { o.name(n); free(n.data); } break; }
	case O_LABELS: {
		Exact in(op.a), in2(op.b); wdns_name_t n{(uint8_t) in.n, in.p}, n2{(uint8_t) in2.n, in2.p}, ch; size_t k = 0; wdns_res r = wdns_count_labels(&n, &k); o.res(r); if (r == wdns_res_success) o.v(k);
		r = wdns_left_chop(&n, &ch); o.res(r); if (r == wdns_res_success) o.name(ch); bool sub = false; r = wdns_is_subdomain(&n, &n2, &sub); o.res(r); if (r == wdns_res_success) o.v(sub);
		Exact rev(in.n, 0xee); r = wdns_reverse_name(in.p, in.n, rev.p); o.res(r); if (r == wdns_res_success) o.raw(rev.p, rev.n); if (ref_valid_name(op.a, 0, op.a.size(), &k) && k == op.a.size()) { wdns_downcase_name(&n); o.name(n); } break; }
	case O_RDTEXT: { Exact in(op.a); o.owned(wdns_rdata_to_str(in.p, (uint16_t) in.n, op.type, op.cls)); break; }
	case O_READRD: { ExactStr t(op.a); uint8_t *rd = NULL; size_t n = 0; wdns_res r = wdns_str_to_rdata(t.p, op.type, op.cls, &rd, &n); o.res(r); if (r == wdns_res_success) { o.v(n); o.raw(rd, n); free(rd); } break; }
	case O_FOLDRD: { wdns_rdata_t *r = make_rdata(op.a); wdns_res q = wdns_downcase_rdata(r, op.type, op.cls); o.res(q); if (q == wdns_res_success) o.rd(r); free(r); break; }
	case O_SET: {
		wdns_rrset_t w = make_rrset(op.set); size_t n = 0; o.res(wdns_serialize_rrset(&w, NULL, &n)); o.v(n); Exact buf(n, 0xee); size_t n2 = 0; o.res(wdns_serialize_rrset(&w, buf.p, &n2)); o.v(n2); o.raw(buf.p, buf.n);
		o.owned(wdns_rrset_to_str(&w, 1 + op.n % 3)); o.res(wdns_sort_rrset(&w)); o.set(w); wdns_res q = wdns_downcase_rrset(&w); o.res(q); if (q == wdns_res_success) o.set(w); wdns_clear_rrset(&w); break; }
	case O_DESER: { Exact in(op.a); wdns_rrset_t w; wdns_res r = wdns_deserialize_rrset(&w, in.p, in.n); o.res(r); if (r == wdns_res_success) { o.set(w); o.owned(wdns_rrset_to_str(&w, 1)); wdns_clear_rrset(&w); } break; }
	case O_MNEM: { ExactStr t(op.a); uint16_t k = wdns_str_to_rrtype(t.p); o.v(k); k = wdns_str_to_rrclass(t.p); o.v(k); wdns_res r = wdns_str_to_rcode(t.p, &k); o.res(r); if (r == wdns_res_success) o.v(k); o.str(wdns_rrtype_to_str(op.type)); o.str(wdns_rrclass_to_str(op.cls)); o.str(wdns_rcode_to_str((uint16_t) (op.n % 40))); o.str(wdns_opcode_to_str((uint16_t) (op.n % 17))); o.str(wdns_res_to_str((wdns_res) (op.n % 16))); o.str(wdns_get_version()); break; }
	case O_FILE: { MemFd m(op.a); char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", m.fd); o.res(wdns_file_load_names(path, seen_name, &o)); break; }
	case O_FMT: {
		Exact in(op.a); char t[64]; if (in.n >= 16) o.str(fast_inet_ntop(10, in.p, t, sizeof t)); if (in.n >= 4) o.str(fast_inet_ntop(2, in.p, t, sizeof t));
		size_t cap = in.n * 8 / 5 + 10; Exact e(cap, 0xee); size_t k = base32_encode((char *) e.p, cap, in.p, in.n); o.v(k); if (k <= cap) { o.raw(e.p, k); Exact d(in.n + 8, 0xee); size_t j = base32_decode(d.p, d.n, (char *) e.p, k); o.v(j); if (j <= d.n) o.raw(d.p, j); } break; }
	}
	if (failed) *failed = o.failed;
	return o.o;
}
static bytes op_text(Src &s, uint16_t type, uint16_t cls) { // record data text, often with small damage
	std::string t; bytes rd = flat(gen_rdata(s, type, cls, GR_CANON)); ref_rdata_text(rd, type, cls, &t);
	unsigned k = s.below(3); while (k-- && !t.empty()) { size_t i = s.below((uint32_t) t.size()); switch (s.below(4)) { case 0: t.erase(i, 1 + s.below(4)); break; case 1: t.insert(i, 1, " \"\\().-:09azAZ="[s.below(15)]); break; case 2: t.resize(i); break; default: t[i] = (char) (1 + s.below(255)); } }
	for (char &x : t) if (!x) x = '0'; return t;
}
static Op gen_op(Src &s, int kind = -1) {
	Op op; op.kind = kind >= 0 ? (unsigned) kind : s.below(O_KINDS); op.type = gen_type(s); op.cls = s.below(5) ? 1 : gen_class(s); op.n = (uint32_t) s.u(2);
	switch (op.kind) {
	case O_MSG: case O_MSGTEXT: case O_PRINT: op.a = gen_packet(s, 12); break;
	case O_UNPACK: case O_UNAME: op.a = s.flip() ? gen_packet(s, 3) : gen_badname(s); if (op.a.empty()) op.a = bytes(1, 0); if (s.flip()) op.n = 12; break;
	case O_NAMETEXT: op.a = gen_name(s); break;
	case O_READNAME: { op.a = ref_name_text(gen_name(s)); if (s.below(3) == 0 && !op.a.empty()) op.a[s.below((uint32_t) op.a.size())] = "\\.0a"[s.below(4)]; break; }
	case O_LABELS: op.a = s.below(3) ? gen_name(s) : gen_badname(s); if (op.a.size() > 255) op.a.resize(255); if (op.a.empty()) op.a = bytes(1, 0); op.b = gen_name(s); if (s.flip()) { auto l = ref_labels(op.b); if (s.flip() && !l.empty()) { op.b = op.a; } } break;
	case O_RDTEXT: op.a = s.below(3) ? flat(gen_rdata(s, op.type, op.cls, GR_TRUNC | GR_OPTTEXT)) : gen_rdata_raw(s, op.type, op.cls); if (op.a.size() > 65535) op.a.resize(65535); break;
	case O_READRD: op.a = op_text(s, op.type, op.cls); break;
	case O_FOLDRD: op.a = s.below(3) ? flat(gen_rdata(s, op.type, op.cls, GR_TRUNC)) : gen_rdata_raw(s, op.type, op.cls); if (op.a.size() > 65535) op.a.resize(65535); break;
	case O_SET: op.set = gen_rrset(s, GR_TRUNC, 6); break;
	case O_DESER: op.a = ref_serialize(gen_rrset(s, GR_TRUNC, 5)); if (s.flip() && !op.a.empty()) { if (s.flip()) op.a.resize(s.below((uint32_t) op.a.size())); else op.a[s.below((uint32_t) op.a.size())] = (char) s.byte(); } break;
	case O_MNEM: op.a = s.flip() ? ref_type_text(op.type) : ref_class_text(op.cls); if (s.below(4) == 0) op.a += (char) ('0' + s.below(10)); break;
	case O_FILE: { unsigned n = s.below(6); while (n--) { op.a += s.below(6) ? ref_name_text(gen_name(s)) : "# x"; op.a += '\n'; } break; }
	case O_FMT: op.a = gen_blob(s, 16 + s.below(30)); break;
	}
	return op;
}
static void note_op(Case &c, const Op &op, size_t i) { c.note("[%zu] %s: input=%s type=%u class=%u n=%u", i, op_names[op.kind], hex(op.kind == O_SET ? ref_serialize(op.set) : op.a).c_str(), op.type, op.cls, op.n); }
