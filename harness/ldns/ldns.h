/* Stand-in for the part of ldns that libmy/zonefile.c uses: a zone file has one entry per
 * line; see shim_zone.c. */
#ifndef LDNS_STANDIN_H
#define LDNS_STANDIN_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
enum ldns_enum_status {
	LDNS_STATUS_OK, LDNS_STATUS_EMPTY_LABEL, LDNS_STATUS_LABEL_OVERFLOW, LDNS_STATUS_MEM_ERR = 8, LDNS_STATUS_INTERNAL_ERR, LDNS_STATUS_ERR = 11,
	LDNS_STATUS_FILE_ERR = 35, LDNS_STATUS_SYNTAX_TYPE_ERR = 51, LDNS_STATUS_SYNTAX_CLASS_ERR, LDNS_STATUS_SYNTAX_TTL_ERR, LDNS_STATUS_SYNTAX_INCLUDE_ERR_NOTIMPL,
	LDNS_STATUS_SYNTAX_RDATA_ERR, LDNS_STATUS_SYNTAX_DNAME_ERR, LDNS_STATUS_SYNTAX_VERSION_ERR, LDNS_STATUS_SYNTAX_ALG_ERR, LDNS_STATUS_SYNTAX_KEYWORD_ERR,
	LDNS_STATUS_SYNTAX_TTL, LDNS_STATUS_SYNTAX_ORIGIN, LDNS_STATUS_SYNTAX_INCLUDE, LDNS_STATUS_SYNTAX_EMPTY, LDNS_STATUS_SYNTAX_ITERATIONS_OVERFLOW, LDNS_STATUS_SYNTAX_MISSING_VALUE_ERR,
	LDNS_STATUS_SYNTAX_INTEGER_OVERFLOW, LDNS_STATUS_SYNTAX_BAD_ESCAPE, LDNS_STATUS_SYNTAX_ERR
};
typedef enum ldns_enum_status ldns_status;
enum ldns_enum_rr_type { LDNS_RR_TYPE_A = 1, LDNS_RR_TYPE_NS = 2, LDNS_RR_TYPE_CNAME = 5, LDNS_RR_TYPE_SOA = 6, LDNS_RR_TYPE_TXT = 16 };
typedef enum ldns_enum_rr_type ldns_rr_type;
typedef struct ldns_struct_rdf ldns_rdf;
typedef struct ldns_struct_rr ldns_rr;
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr);
ldns_rr_type ldns_rr_get_type(const ldns_rr *rr);
void ldns_rr_free(ldns_rr *rr);
ldns_rdf *ldns_rr_owner(const ldns_rr *rr);
uint32_t ldns_rr_ttl(const ldns_rr *rr);
ldns_rdf *ldns_rr_rdf(const ldns_rr *rr, size_t nr);
size_t ldns_rr_rd_count(const ldns_rr *rr);
ldns_rdf *ldns_rdf_clone(const ldns_rdf *rd);
void ldns_rdf_deep_free(ldns_rdf *rd);
void ldns_rdf_free(ldns_rdf *rd);
size_t ldns_rdf_size(const ldns_rdf *rd);
uint8_t *ldns_rdf_data(const ldns_rdf *rd);
uint32_t ldns_rdf2native_int32(const ldns_rdf *rd);
const char *ldns_get_errorstr_by_id(ldns_status err);
#ifdef __cplusplus
}
#endif
#endif
