// Bridges between the library's objects and the reference model.
#pragma once
#include "gen.h"
#include <wdns.h>
#include <stdlib.h>
#include <string.h>

inline bytes nbytes(const wdns_name_t &n) { return bytes((const char *) n.data, n.len); }
inline bytes rbytes(const wdns_rdata_t *r) { return bytes((const char *) r->data, r->len); }
bool known_res(wdns_res r);
void check_rr(const wdns_rr_t &got, const RRec &want, const char *what);
void check_rrset(const wdns_rrset_t &got, const RSet &want, const char *what);
void check_msg(const wdns_message_t &m, const RMsg &want);       // header, EDNS, records and RRsets
void check_cleared(const wdns_message_t &m);
wdns_rdata_t *make_rdata(const bytes &b);                        // malloc'd
wdns_rr_t make_rr(const RRec &r);                                // owned copies; clear with wdns_clear_rr
wdns_rrset_t make_rrset(const RSet &s);
RRec from_rr(const wdns_rr_t &r);
RSet from_rrset(const wdns_rrset_t &r);
RSet gen_rrset(Src &, unsigned flags, unsigned maxn);
std::string take(char *s);                                       // copies and frees a returned string
// compare texts line by line, ignoring blanks before line ends
std::string norm_text(const std::string &);
bool has_marker(const std::string &);
bool ends_marked(const std::string &);
