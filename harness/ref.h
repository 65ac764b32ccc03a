// Reference model of DNS wire and presentation formats, written from the
// property statements and the RFCs, sharing no code with the library.
#pragma once
#include "engine.h"
#include <utility>
#include <array>

struct Mnem { uint16_t n; const char *s; };
extern const std::vector<Mnem> kTypes, kClasses, kRcodes, kOpcodes;
const char *ref_type_name(uint16_t);  // NULL if not registered
const char *ref_class_name(uint16_t);
const char *ref_rcode_name(uint16_t);
const char *ref_opcode_name(uint16_t);
std::string ref_type_text(uint16_t);  // mnemonic or TYPEn
std::string ref_class_text(uint16_t);

static const uint16_t T_OPT = 41;

// ---- names
std::string ref_name_text(const bytes &wire);                 // valid uncompressed wire name
bool ref_valid_name(const bytes &b, size_t off, size_t end, size_t *len); // complete uncompressed name at off
bool ref_unpack(const bytes &b, size_t off, bytes *out);      // possibly compressed name
size_t ref_skip(const bytes &b, size_t off, size_t end);      // new offset
std::vector<bytes> ref_labels(const bytes &wire);             // labels of a valid name, without root
bytes ref_from_labels(const std::vector<bytes> &);
bytes ref_lower(bytes);
// what a text spells as a name: true and the octets, or false
bool ref_text_name(const bytes &text, bytes *out);

// ---- record data layouts
enum FK { NAME, I8, I16, I32, IP4, IP6, A6P, EUI48, EUI64, STR, REPSTR, RRT, BITMAP, SALT, HASH, SVC, OPTS, HEX, B64, BSTR };
struct Schema { uint16_t type; bool in_only; std::vector<FK> f; };
extern const std::vector<Schema> kSchemas;
const Schema *schema_of(uint16_t type);
enum Mode { M_GENERIC, M_FIELDS, M_FOREIGN };
Mode mode_of(uint16_t type, uint16_t cls);

struct Span { FK k; size_t off, len; };
enum Layout { L_OK, L_TRUNC, L_BAD, L_EXTRA };
// split uncompressed record data into fields; stops early only at field boundaries when L_OK
Layout split_fields(const bytes &rd, const Schema &, std::vector<Span> *);
bool ref_svc_valid(uint16_t key, const bytes &val);
bool rdata_ok(const bytes &rd, uint16_t type, uint16_t cls);  // acceptable to a parser (any mode)
// presentation form; false if the text must carry the error marker
bool ref_rdata_text(const bytes &rd, uint16_t type, uint16_t cls, std::string *text);

// ---- messages
struct RRec { bytes name; uint16_t type = 0, cls = 0; uint32_t ttl = 0; bool has_rdata = false; bytes rdata; };
struct RSet { bytes name; uint16_t type = 0, cls = 0; uint32_t ttl = 0; bool question = false; std::vector<bytes> rdatas; };
struct RMsg {
	uint16_t id = 0, flags = 0, rcode = 0;
	bool edns = false, has_opts = false; uint16_t esize = 0, eflags = 0; uint8_t ever = 0; bytes opts;
	std::vector<RRec> sec[4];
};
bool ref_parse(const bytes &pkt, RMsg *out, std::string *why = NULL);
std::vector<RSet> ref_group(const std::vector<RRec> &, bool question);
std::string ref_rr_text(const RRec &, unsigned sec, bool *marker = NULL);
// line(section, index, out) may supply the text of a record itself
std::string ref_msg_text(const RMsg &, const std::function<bool(unsigned, size_t, std::string *)> &line = nullptr);
bytes ref_serialize(const RSet &);
bool ref_deserialize(const bytes &b, RSet *out);
bytes ref_fold_rdata(const bytes &rd, uint16_t type, uint16_t cls, bool *ok); // canonical case
std::string show(const RRec &); std::string show(const RMsg &);

inline void put16(bytes &b, unsigned v) { b.push_back((char) (v >> 8)); b.push_back((char) v); }
inline void put32(bytes &b, uint32_t v) { put16(b, v >> 16); put16(b, v & 0xffff); }
inline unsigned u8at(const bytes &b, size_t i) { return (uint8_t) b[i]; }
inline unsigned get16(const bytes &b, size_t i) { return u8at(b, i) << 8 | u8at(b, i + 1); }
inline uint32_t get32(const bytes &b, size_t i) { return (uint32_t) get16(b, i) << 16 | get16(b, i + 2); }
