#include "ref.h"
#include <stdio.h>
#include <string.h>
#include <arpa/inet.h>
#include <map>
#include <algorithm>

#include "tables.inc"

static const char *find(const std::vector<Mnem> &v, uint16_t n) { for (auto &m : v) if (m.n == n) return m.s; return NULL; }
const char *ref_type_name(uint16_t t) { static std::map<uint16_t, const char *> m; if (m.empty()) for (auto &x : kTypes) m[x.n] = x.s; auto i = m.find(t); return i == m.end() ? NULL : i->second; }
const char *ref_class_name(uint16_t t) { return find(kClasses, t); }
const char *ref_rcode_name(uint16_t t) { return find(kRcodes, t); }
const char *ref_opcode_name(uint16_t t) { return find(kOpcodes, t); }
std::string ref_type_text(uint16_t t) { const char *s = ref_type_name(t); return s ? s : "TYPE" + std::to_string(t); }
std::string ref_class_text(uint16_t t) { const char *s = ref_class_name(t); return s ? s : "CLASS" + std::to_string(t); }

// ------------------------------------------------------------------ names
std::vector<bytes> ref_labels(const bytes &w) {
	std::vector<bytes> v;
	for (size_t i = 0; i < w.size() && w[i]; i += u8at(w, i) + 1) v.push_back(w.substr(i + 1, u8at(w, i)));
	return v;
}
bytes ref_from_labels(const std::vector<bytes> &v) {
	bytes w; for (auto &l : v) { w.push_back((char) l.size()); w += l; }
	w.push_back(0); return w;
}
bytes ref_lower(bytes b) { for (char &c : b) if (c >= 'A' && c <= 'Z') c += 32; return b; }

std::string ref_name_text(const bytes &w) {
	std::vector<bytes> v = ref_labels(w);
	if (v.empty()) return ".";
	std::string o;
	for (auto &l : v) {
		for (unsigned char c : l) {
			char t[8];
			if (c == '.' || c == '\\') { o += '\\'; o += (char) c; }
			else if (c > 32 && c < 127) o += (char) c;
			else { snprintf(t, sizeof t, "\\%03u", c); o += t; }
		}
		o += '.';
	}
	return o;
}
bool ref_valid_name(const bytes &b, size_t off, size_t end, size_t *len) {
	size_t i = off;
	for (;;) {
		if (i >= end) return false;
		unsigned l = u8at(b, i);
		if (l > 63) return false;
		i += l + 1;
		if (l == 0) break;
	}
	if (i - off > 255) return false;
	*len = i - off;
	return true;
}
bool ref_unpack(const bytes &b, size_t off, bytes *out) {
	out->clear();
	for (;;) {
		if (off >= b.size()) return false;
		unsigned c = u8at(b, off);
		if (c >= 0xc0) {
			if (off + 1 >= b.size()) return false;
			size_t target = (c & 0x3f) << 8 | u8at(b, off + 1);
			if (target >= off) return false;
			off = target;
		} else if (c > 63) {
			return false;
		} else if (c == 0) {
			out->push_back(0);
			return true;
		} else {
			if (off + 1 + c > b.size()) return false;
			if (out->size() + 1 + c + 1 > 255) return false;
			out->append(b, off, c + 1);
			off += c + 1;
		}
	}
}
size_t ref_skip(const bytes &b, size_t off, size_t end) {
	while (off < end) {
		unsigned c = u8at(b, off);
		if (c == 0) return off + 1;
		if (c >= 0xc0) return off + 2 <= end ? off + 2 : end;
		off += c + 1;
	}
	return end;
}
bool ref_text_name(const bytes &t, bytes *out) {
	out->clear();
	if (t.empty() || t == ".") { out->push_back(0); return true; }
	std::vector<bytes> ls; bytes cur; bool open = false; // open: current label has started
	for (size_t i = 0; i < t.size(); i++) {
		unsigned char c = t[i];
		if (c == '.') {
			if (!open) return false;
			ls.push_back(cur); cur.clear(); open = false;
			continue;
		}
		open = true;
		if (c == '\\') {
			if (i + 1 >= t.size()) return false;
			unsigned char d = t[i + 1];
			if (d >= '0' && d <= '9') {
				if (i + 3 >= t.size()) return false;
				int v = 0;
				for (int k = 1; k <= 3; k++) { char e = t[i + k]; if (e < '0' || e > '9') return false; v = v * 10 + (e - '0'); }
				if (v > 255) return false;
				cur.push_back((char) v); i += 3;
			} else { cur.push_back((char) d); i += 1; }
		} else cur.push_back((char) c);
	}
	if (open) ls.push_back(cur);
	size_t total = 1;
	for (auto &l : ls) { if (l.size() > 63) return false; total += l.size() + 1; }
	if (total > 255) return false;
	*out = ref_from_labels(ls);
	return true;
}

// ------------------------------------------------------------------ layouts
const std::vector<Schema> kSchemas = {
	{1, true, {IP4}}, {2, false, {NAME}}, {3, false, {NAME}}, {4, false, {NAME}}, {5, false, {NAME}},
	{6, false, {NAME, NAME, I32, I32, I32, I32, I32}}, {7, false, {NAME}}, {8, false, {NAME}}, {9, false, {NAME}},
	{10, false, {HEX}}, {11, true, {I32, I8, HEX}}, {12, false, {NAME}}, {13, false, {STR, STR}}, {14, false, {NAME, NAME}},
	{15, false, {I16, NAME}}, {16, false, {REPSTR}}, {17, false, {NAME, NAME}}, {18, false, {I16, NAME}}, {19, false, {STR}},
	{20, false, {STR, STR}}, {21, false, {I16, NAME}}, {24, false, {I16, I8, I8, I32, I32, I32, I16, NAME, HEX}},
	{26, true, {I16, NAME, NAME}}, {28, true, {IP6}}, {30, false, {NAME, HEX}}, {33, true, {I16, I16, I16, NAME}},
	{35, true, {I16, I16, STR, STR, STR, NAME}}, {36, true, {I16, NAME}}, {38, true, {A6P, NAME}}, {39, false, {NAME}},
	{41, false, {OPTS}}, {43, false, {I16, I8, I8, HEX}}, {46, false, {RRT, I8, I8, I32, I32, I32, I16, NAME, B64}},
	{47, false, {NAME, BITMAP}}, {48, false, {I16, I8, I8, B64}}, {50, false, {I8, I8, I16, SALT, HASH, BITMAP}},
	{51, false, {I8, I8, I16, SALT}}, {52, false, {I8, I8, I8, HEX}}, {59, false, {I16, I8, I8, HEX}}, {60, false, {I16, I8, I8, B64}},
	{61, false, {B64}}, {62, false, {I32, I16, BITMAP}}, {64, true, {I16, NAME, SVC}}, {65, true, {I16, NAME, SVC}},
	{99, false, {REPSTR}}, {108, false, {EUI48}}, {109, false, {EUI64}}, {256, false, {I16, I16, BSTR}}, {257, true, {I8, STR, BSTR}},
};
const Schema *schema_of(uint16_t t) {
	static std::vector<const Schema *> idx;
	if (idx.empty()) { idx.assign(65536, NULL); for (auto &s : kSchemas) idx[s.type] = &s; }
	return idx[t];
}
Mode mode_of(uint16_t t, uint16_t c) {
	const Schema *s = schema_of(t);
	if (!s) return M_GENERIC;
	return s->in_only && c != 1 ? M_FOREIGN : M_FIELDS;
}
bool ref_svc_valid(uint16_t key, const bytes &v) {
	switch (key) {
	case 0: return v.size() && v.size() % 2 == 0;
	case 1: {
		if (v.empty()) return false;
		size_t i = 0; while (i < v.size()) i += u8at(v, i) + 1;
		return i == v.size();
	}
	case 2: return v.empty();
	case 3: return v.size() == 2;
	case 4: return v.size() && v.size() % 4 == 0;
	case 6: return v.size() && v.size() % 16 == 0;
	case 65535: return false;
	}
	return true;
}
static size_t a6_octets(unsigned p) { return (128 - p + 7) / 8; }

Layout split_fields(const bytes &rd, const Schema &sc, std::vector<Span> *out) {
	size_t i = 0, n = rd.size();
	for (FK k : sc.f) {
		if (i == n) break;
		size_t left = n - i, l = 0;
		switch (k) {
		case NAME: {
			size_t j = i;
			for (;;) {
				if (j >= n) return L_TRUNC;
				unsigned c = u8at(rd, j);
				if (c > 63) return L_BAD;
				j += c + 1;
				if (!c) break;
			}
			l = j - i;
			if (l > 255) return L_BAD;
			break;
		}
		case I8: l = 1; break;
		case I16: case RRT: l = 2; break;
		case I32: case IP4: l = 4; break;
		case IP6: l = 16; break;
		case EUI48: l = 6; break;
		case EUI64: l = 8; break;
		case STR: case SALT: case HASH: l = 1 + u8at(rd, i); break;
		case REPSTR: while (l < left) l += 1 + u8at(rd, i + l); break;
		case A6P: if (u8at(rd, i) > 128) return L_BAD; l = 1 + a6_octets(u8at(rd, i)); break;
		case BITMAP:
			while (l < left) {
				if (left - l < 2) return L_TRUNC;
				unsigned bl = u8at(rd, i + l + 1);
				if (bl < 1 || bl > 32) return L_BAD;
				if (left - l - 2 < bl) return L_TRUNC;
				l += 2 + bl;
			}
			break;
		case SVC:
			while (l < left) {
				if (left - l < 4) return L_TRUNC;
				size_t vl = get16(rd, i + l + 2);
				if (left - l - 4 < vl) return L_TRUNC;
				if (!ref_svc_valid(get16(rd, i + l), rd.substr(i + l + 4, vl))) return L_BAD;
				l += 4 + vl;
			}
			break;
		case OPTS: case HEX: case B64: case BSTR: l = left; break;
		}
		if (l > left) return L_TRUNC;
		if (out) out->push_back(Span{k, i, l});
		i += l;
	}
	return i == n ? L_OK : L_EXTRA;
}
bool rdata_ok(const bytes &rd, uint16_t t, uint16_t c) {
	if (mode_of(t, c) != M_FIELDS) return true;
	return split_fields(rd, *schema_of(t), NULL) == L_OK;
}

// ------------------------------------------------------------------ presentation
static std::string hexs(const bytes &b, bool up) {
	std::string s; const char *d = up ? "0123456789ABCDEF" : "0123456789abcdef";
	for (unsigned char c : b) { s += d[c >> 4]; s += d[c & 15]; }
	return s;
}
static std::string b64(const bytes &b) {
	static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o; size_t n = b.size();
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = u8at(b, i) << 16 | (i + 1 < n ? u8at(b, i + 1) << 8 : 0) | (i + 2 < n ? u8at(b, i + 2) : 0);
		o += a[v >> 18]; o += a[v >> 12 & 63]; o += i + 1 < n ? a[v >> 6 & 63] : '='; o += i + 2 < n ? a[v & 63] : '=';
	}
	return o;
}
static std::string b32(const bytes &b) {
	static const char *a = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
	std::string o; unsigned acc = 0; int nb = 0;
	for (unsigned char c : b) { acc = acc << 8 | c; nb += 8; while (nb >= 5) { o += a[acc >> (nb - 5) & 31]; nb -= 5; } acc &= 0xff; }
	if (nb) o += a[acc << (5 - nb) & 31];
	return o;
}
static std::string esc(const bytes &b) {
	std::string o; char t[8];
	for (unsigned char c : b) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c >= 32 && c < 127) o += (char) c;
		else { snprintf(t, sizeof t, "\\%03u", c); o += t; }
	}
	return o;
}
static std::string ip(int af, const bytes &b) { char t[64]; inet_ntop(af, b.data(), t, sizeof t); return t; }
static std::string dec(uint64_t v) { return std::to_string(v); }
static const char *svckey(uint16_t k) {
	static const char *n[] = {"mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint"};
	return k < 7 ? n[k] : NULL;
}
static std::string svckeys(uint16_t k) { const char *s = svckey(k); return s ? s : "key" + dec(k); }
static std::string join(const std::vector<std::string> &v, const char *sep) { std::string o; for (size_t i = 0; i < v.size(); i++) { if (i) o += sep; o += v[i]; } return o; }

static std::string svc_text(uint16_t key, const bytes &v) {
	std::vector<std::string> l;
	switch (key) {
	case 0: for (size_t i = 0; i < v.size(); i += 2) l.push_back(get16(v, i) == 65535 ? "invalid key" : svckeys(get16(v, i))); return "mandatory=" + join(l, ",");
	case 1: {
		for (size_t i = 0; i < v.size(); i += u8at(v, i) + 1) {
			std::string o; char t[8];
			for (unsigned char c : v.substr(i + 1, u8at(v, i))) {
				if (c == '"') o += "\\\"";
				else if (c == '\\') o += "\\\\\\\\";
				else if (c == ',') o += "\\\\,";
				else if (c >= 32 && c < 127) o += (char) c;
				else { snprintf(t, sizeof t, "\\%03u", c); o += t; }
			}
			l.push_back(o);
		}
		return "alpn=\"" + join(l, ",") + "\"";
	}
	case 2: return "no-default-alpn";
	case 3: return "port=" + dec(get16(v, 0));
	case 4: for (size_t i = 0; i < v.size(); i += 4) l.push_back(ip(AF_INET, v.substr(i, 4))); return "ipv4hint=" + join(l, ",");
	case 5: return "ech=" + b64(v);
	case 6: for (size_t i = 0; i < v.size(); i += 16) l.push_back(ip(AF_INET6, v.substr(i, 16))); return "ipv6hint=" + join(l, ",");
	}
	return svckeys(key) + "=\"" + esc(v) + "\"";
}
static const char *ede[] = {
	"Other Error", "Unsupported DNSKEY Algorithm", "Unsupported DS Digest Type", "Stale Answer", "Forged Answer", "DNSSEC Indeterminate",
	"DNSSEC Bogus", "Signature Expired", "Signature Not Yet Valid", "DNSKEY Missing", "RRSIGs Missing", "No Zone Key Bit Set", "NSEC Missing",
	"Cached Error", "Not Ready", "Blocked", "Censored", "Filtered", "Prohibited", "Stale NXDomain Answer", "Not Authoritative", "Not Supported",
	"No Reachable Authority", "Network Error", "Invalid Data" };
static std::string dots(const bytes &b) { std::string o; for (unsigned char c : b) o += c >= 32 && c < 127 ? (char) c : '.'; return o; }
static bool opt_text(const bytes &rd, std::string *out) {
	std::vector<std::string> l;
	for (size_t i = 0; i < rd.size();) {
		if (rd.size() - i < 4) return false;
		unsigned code = get16(rd, i); size_t n = get16(rd, i + 2);
		if (rd.size() - i - 4 < n) return false;
		bytes v = rd.substr(i + 4, n); i += 4 + n;
		std::string o;
		if (code == 8) {
			if (n < 4) return false;
			unsigned fam = get16(v, 0); bytes a = v.substr(4);
			if (fam != 1 && fam != 2) return false;
			size_t w = fam == 1 ? 4 : 16;
			if (a.size() > w) return false;
			a.resize(w, 0);
			o = "CLIENT-SUBNET: " + ip(fam == 1 ? AF_INET : AF_INET6, a) + "/" + dec(u8at(v, 2)) + "/" + dec(u8at(v, 3));
		} else if (code == 15) {
			if (n < 2) return false;
			unsigned ic = get16(v, 0);
			o = "EDE: " + dec(ic);
			if (ic < sizeof ede / sizeof *ede) o += std::string(" (") + ede[ic] + ")";
			o += ": (" + dots(v.substr(2)) + ")";
		} else {
			o = "OPT=" + dec(code) + ": ";
			std::string h; for (unsigned char c : v) h += hexs(bytes(1, (char) c), false) + " ";
			o += h + "(\"" + dots(v) + "\")";
		}
		l.push_back(o);
	}
	*out = join(l, "\n");
	return true;
}
bool ref_rdata_text(const bytes &rd, uint16_t type, uint16_t cls, std::string *text) {
	text->clear();
	switch (mode_of(type, cls)) {
	case M_FOREIGN: return true;
	case M_GENERIC: {
		std::vector<std::string> l{"\\#", dec(rd.size())};
		for (char c : rd) l.push_back(hexs(bytes(1, c), false));
		*text = join(l, " ");
		return true;
	}
	case M_FIELDS: break;
	}
	std::vector<Span> f;
	Layout lay = split_fields(rd, *schema_of(type), &f);
	if (lay == L_TRUNC || lay == L_BAD) return false;
	std::vector<std::string> l;
	for (auto &s : f) {
		bytes v = rd.substr(s.off, s.len);
		switch (s.k) {
		case NAME: l.push_back(ref_name_text(v)); break;
		case I8: l.push_back(dec(u8at(v, 0))); break;
		case I16: l.push_back(dec(get16(v, 0))); break;
		case I32: l.push_back(dec(get32(v, 0))); break;
		case IP4: l.push_back(ip(AF_INET, v)); break;
		case IP6: l.push_back(ip(AF_INET6, v)); break;
		case A6P: {
			unsigned p = u8at(v, 0);
			l.push_back(dec(p));
			if (p < 128) { bytes a = v.substr(1); l.push_back(ip(AF_INET6, bytes(16 - a.size(), 0) + a)); }
			break;
		}
		case EUI48: case EUI64: { std::vector<std::string> h; for (char c : v) h.push_back(hexs(bytes(1, c), false)); l.push_back(join(h, "-")); break; }
		case STR: l.push_back("\"" + esc(v.substr(1)) + "\""); break;
		case REPSTR: for (size_t i = 0; i < v.size(); i += u8at(v, i) + 1) l.push_back("\"" + esc(v.substr(i + 1, u8at(v, i))) + "\""); break;
		case RRT: l.push_back(ref_type_text(get16(v, 0))); break;
		case BITMAP:
			for (size_t i = 0; i < v.size(); i += 2 + u8at(v, i + 1))
				for (unsigned b = 0; b < u8at(v, i + 1) * 8; b++)
					if (u8at(v, i + 2 + b / 8) & 0x80 >> b % 8) l.push_back(ref_type_text(u8at(v, i) << 8 | b));
			break;
		case SALT: l.push_back(v.size() == 1 ? "-" : hexs(v.substr(1), false)); break;
		case HASH: l.push_back(v.size() == 1 ? "0" : b32(v.substr(1))); break;
		case SVC: for (size_t i = 0; i < v.size(); i += 4 + get16(v, i + 2)) l.push_back(svc_text(get16(v, i), v.substr(i + 4, get16(v, i + 2)))); break;
		case OPTS: { std::string t; if (!opt_text(v, &t)) return false; l.push_back(t); break; }
		case HEX: l.push_back(hexs(v, true)); break;
		case B64: l.push_back(b64(v)); break;
		case BSTR: l.push_back("\"" + esc(v) + "\""); break;
		}
	}
	*text = join(l, " ");
	return true;
}

// ------------------------------------------------------------------ messages
static bool parse_rdata(const bytes &b, size_t off, size_t rdlen, uint16_t type, uint16_t cls, bytes *out, std::string *why) {
	out->clear();
	if (mode_of(type, cls) != M_FIELDS) { *out = b.substr(off, rdlen); return true; }
	const Schema *sc = schema_of(type);
	size_t end = off + rdlen, i = off;
	// expand names, keep everything else as it is, then judge the expanded layout field by field
	for (FK k : sc->f) {
		if (i == end) break;
		size_t left = end - i;
		if (k == NAME) {
			bytes n;
			if (!ref_unpack(b, i, &n)) { *why = "bad name in rdata"; return false; }
			size_t e = ref_skip(b, i, b.size());
			if (e > end) { *why = "name runs past rdata"; return false; }
			*out += n; i = e;
		} else {
			Schema one{type, false, {k}};
			// the shortest prefix that is this field: fixed, counted, or the rest
			bytes rest = b.substr(i, left); size_t l = left;
			std::vector<Span> f;
			Layout lay = split_fields(rest, one, &f);
			if (lay == L_TRUNC || lay == L_BAD) { *why = "field truncated or malformed"; return false; }
			l = f[0].len;
			*out += rest.substr(0, l); i += l;
		}
	}
	if (i != end) { *why = "octets left over"; return false; }
	if (out->size() > 65535) { *why = "expanded rdata too long"; return false; }
	return true;
}
bool ref_parse(const bytes &b, RMsg *m, std::string *whyp) {
	std::string w; std::string &why = whyp ? *whyp : w;
	*m = RMsg();
	if (b.size() < 12) { why = "short header"; return false; }
	m->id = get16(b, 0); m->flags = get16(b, 2); m->rcode = m->flags & 15;
	size_t i = 12;
	for (int s = 0; s < 4; s++) {
		unsigned n = get16(b, 4 + 2 * s);
		while (n--) {
			if (i == b.size()) return true;
			RRec r;
			if (!ref_unpack(b, i, &r.name)) { why = "bad owner name"; return false; }
			i = ref_skip(b, i, b.size());
			size_t need = s == 0 ? 4 : 10;
			if (b.size() - i < need) { why = "fixed part truncated"; return false; }
			r.type = get16(b, i); r.cls = get16(b, i + 2);
			if (s) {
				r.ttl = get32(b, i + 4);
				size_t rdlen = get16(b, i + 8); i += 10;
				if (b.size() - i < rdlen) { why = "rdata truncated"; return false; }
				r.has_rdata = true;
				if (!parse_rdata(b, i, rdlen, r.type, r.cls, &r.rdata, &why)) return false;
				i += rdlen;
			} else i += 4;
			if (r.type == T_OPT && !m->edns) {
				m->edns = true; m->esize = r.cls; m->ever = r.ttl >> 16; m->eflags = r.ttl;
				m->has_opts = r.has_rdata; m->opts = r.rdata;
				m->rcode = (r.ttl >> 24) << 4 | (m->flags & 15);
			} else m->sec[s].push_back(r);
		}
	}
	return true;
}
std::vector<RSet> ref_group(const std::vector<RRec> &v, bool question) {
	std::vector<RSet> o;
	std::map<std::string, size_t> ix;
	for (auto &r : v) {
		bytes key = ref_lower(r.name); put16(key, r.type); put16(key, r.cls);
		auto it = ix.find(key);
		if (question || it == ix.end()) {
			RSet s; s.name = r.name; s.type = r.type; s.cls = r.cls; s.ttl = r.ttl; s.question = question;
			if (!question) { ix[key] = o.size(); s.rdatas.push_back(r.rdata); }
			o.push_back(s);
		} else {
			RSet &s = o[it->second];
			s.rdatas.push_back(r.rdata); if (r.ttl < s.ttl) s.ttl = r.ttl;
		}
	}
	return o;
}
static std::string rstrip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
std::string ref_rr_text(const RRec &r, unsigned sec, bool *marker) {
	std::string o;
	if (marker) *marker = false;
	if (sec == 0) return ";" + ref_name_text(r.name) + " " + ref_class_text(r.cls) + " " + ref_type_text(r.type) + "\n";
	o = ref_name_text(r.name) + " " + dec(r.ttl) + " " + ref_class_text(r.cls) + " " + ref_type_text(r.type) + " ";
	std::string t;
	if (!ref_rdata_text(r.rdata, r.type, r.cls, &t) && marker) *marker = true;
	return rstrip(o + t) + "\n";
}
std::string ref_msg_text(const RMsg &m, const std::function<bool(unsigned, size_t, std::string *)> &line) {
	std::string o = ";; ->>HEADER<<- opcode: ";
	unsigned op = m.flags >> 11 & 15;
	o += ref_opcode_name(op) ? ref_opcode_name(op) : dec(op);
	o += ", rcode: "; o += ref_rcode_name(m.rcode) ? ref_rcode_name(m.rcode) : dec(m.rcode);
	o += ", id: " + dec(m.id) + "\n;; flags:";
	static const struct { int bit; const char *s; } fl[] = {{15, " qr"}, {10, " aa"}, {9, " tc"}, {8, " rd"}, {7, " ra"}, {5, " ad"}, {4, " cd"}};
	for (auto &f : fl) if (m.flags >> f.bit & 1) o += f.s;
	static const char *cn[] = {"; QUERY: ", ", ANSWER: ", ", AUTHORITY: ", ", ADDITIONAL: "};
	for (int s = 0; s < 4; s++) o += cn[s] + dec(m.sec[s].size());
	o += "\n";
	if (m.edns) {
		o += "\n;; OPT PSEUDOSECTION:\n; EDNS: version: " + dec(m.ever) + ", flags:" + (m.eflags & 0x8000 ? " do" : "") + "; udp: " + dec(m.esize);
		std::string t;
		if (m.has_opts && m.opts.size() && opt_text(m.opts, &t)) {
			size_t i = 0;
			while (i <= t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); o += "\n; " + t.substr(i, e - i); i = e + 1; }
		}
	}
	static const char *sn[] = {"QUESTION", "ANSWER", "AUTHORITY", "ADDITIONAL"};
	for (int s = 0; s < 4; s++) {
		o += std::string("\n;; ") + sn[s] + " SECTION:\n";
		for (size_t i = 0; i < m.sec[s].size(); i++) { std::string own; o += line && line(s, i, &own) ? own : ref_rr_text(m.sec[s][i], s); }
	}
	return o;
}
// serialized form: name length octet, name, then type, class, ttl, count and lengths in host byte order
static void h16(bytes &b, uint16_t v) { b.append((char *) &v, 2); }
bytes ref_serialize(const RSet &s) {
	bytes b; b.push_back((char) s.name.size()); b += s.name; h16(b, s.type); h16(b, s.cls); b.append((char *) &s.ttl, 4); h16(b, s.rdatas.size());
	for (auto &r : s.rdatas) { h16(b, r.size()); b += r; }
	return b;
}
bool ref_deserialize(const bytes &b, RSet *s) {
	size_t i = 0; *s = RSet();
	auto need = [&](size_t n) { return b.size() - i >= n; };
	if (!need(1)) return false;
	size_t nl = u8at(b, i++); if (!need(nl)) return false;
	s->name = b.substr(i, nl); i += nl;
	if (!need(10)) return false;
	uint16_t n; memcpy(&s->type, b.data() + i, 2); memcpy(&s->cls, b.data() + i + 2, 2); memcpy(&s->ttl, b.data() + i + 4, 4); memcpy(&n, b.data() + i + 8, 2); i += 10;
	while (n--) {
		uint16_t l; if (!need(2)) return false; memcpy(&l, b.data() + i, 2); i += 2;
		if (!need(l)) return false;
		s->rdatas.push_back(b.substr(i, l)); i += l;
	}
	return true;
}
bytes ref_fold_rdata(const bytes &rd, uint16_t type, uint16_t cls, bool *ok) {
	static const uint16_t fold[] = {38, 18, 5, 39, 36, 7, 3, 4, 8, 14, 9, 15, 35, 2, 30, 12, 26, 17, 21, 24, 6, 33};
	*ok = true;
	bool in = false; for (uint16_t f : fold) if (f == type) in = true;
	if (!in || mode_of(type, cls) != M_FIELDS) return rd;
	std::vector<Span> f;
	if (split_fields(rd, *schema_of(type), &f) != L_OK) { *ok = false; return rd; }
	bytes o = rd;
	for (auto &s : f) if (s.k == NAME) o.replace(s.off, s.len, ref_lower(rd.substr(s.off, s.len)));
	return o;
}
std::string show(const RRec &r) {
	return ref_name_text(r.name) + " " + ref_class_text(r.cls) + " " + ref_type_text(r.type) + " ttl=" + dec(r.ttl) + (r.has_rdata ? " rdata=" + hex(r.rdata) : "");
}
std::string show(const RMsg &m) {
	char t[64]; snprintf(t, sizeof t, "id=%u flags=%04x rcode=%u edns=%d", m.id, m.flags, m.rcode, m.edns); std::string o = t;
	for (int s = 0; s < 4; s++) for (auto &r : m.sec[s]) o += " [" + std::to_string(s) + "] " + show(r);
	return o;
}
