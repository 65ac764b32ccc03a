// Structured generators over a choice tape.
#pragma once
#include "ref.h"
#include <set>
#include <functional>

bytes gen_blob(Src &, size_t n);                    // n arbitrary octets, cheap for large n
size_t gen_large(Src &, size_t max);                // large: near powers of two and of ten, or anything up to max
size_t gen_len(Src &, size_t max);                  // lengths, small mostly, boundary values sometimes
bytes gen_label(Src &, size_t max = 63);
struct NamePool { std::vector<bytes> v; };
bytes gen_name(Src &, NamePool *p = NULL);          // valid uncompressed wire name
bytes gen_caseflip(Src &, bytes);                   // flip the case of some letters
bytes gen_badname(Src &);                           // arbitrary octets resembling a name
uint16_t gen_type(Src &);
uint16_t gen_known_type(Src &, bool opt = false);
uint16_t gen_class(Src &);
uint16_t gen_rrtype_value(Src &);                   // a type number as data

struct Seg { bool name; bytes b; };
typedef std::vector<Seg> Segs;
bytes flat(const Segs &);
enum { GR_CANON = 1,   // only what the presentation format can express, in canonical form
       GR_TRUNC = 2,   // may stop early at a field boundary
       GR_BIG = 4,     // may be large
       GR_SVCLEN = 16, // service parameters with values of any length
       GR_OPTTEXT = 8, // OPT options well-formed for text
     };
Segs gen_rdata(Src &, uint16_t type, uint16_t cls, unsigned flags, NamePool *p = NULL);
bytes gen_options(Src &, bool valid);
bytes gen_rdata_raw(Src &, uint16_t type, uint16_t cls); // damaged or arbitrary record data
// a fixed sweep over all types: patterns of every small length, every cut and boundary value at every octet of sample
// data, and every value length of service parameters, EDNS options, prefixes, bitmaps and counted fields
void each_rdata(const std::function<void(uint16_t, uint16_t, const bytes &)> &);

struct GRec { RRec r; Segs segs; unsigned sec; };
struct GMsg {
	uint16_t id = 0, flags = 0; unsigned counts[4] = {0, 0, 0, 0};
	std::vector<GRec> recs;          // in order, all sections
	RMsg expect;                     // what a parser must report
};
struct Encoded { bytes b; unsigned pointers = 0, ptrptr = 0; std::vector<size_t> lenpos, ptrpos, recpos, namepos; };
GMsg gen_mass(Src &, unsigned scale);               // hundreds to tens of thousands of small records
bool gen_massive(Src &, GMsg *);                    // rarely, one of those
// messages whose sections are as large as their 16-bit counts allow, with what they hold
void each_huge_count(const std::function<void(const bytes &pkt, const RMsg &)> &fn);
GMsg gen_msg(Src &, unsigned maxrec, unsigned flags = GR_TRUNC | GR_BIG);
RMsg expect_of(const GMsg &);
// comp: 0 never compress, 255 always when possible
enum { COMP_CHAIN = 0x200 };   // every pointer goes to the newest occurrence: long chains of pointers
Encoded encode(Src &, const GMsg &, unsigned comp);
bytes mutate(Src &, const bytes &, const Encoded *e); // damage an encoded message
bytes gen_packet(Src &, unsigned maxrec);            // anything from well-formed to random
