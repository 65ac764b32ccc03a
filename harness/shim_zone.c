/* libmy/zonefile.c over a stand-in for ldns and over scripted input.
 *
 * Lines: "" and "; ..." are empty, "$TTL n", "$ORIGIN name.", "! ..." is malformed,
 * "OWNER TYPE FIELD..." is a record. OWNER is "@" for the origin, empty for that of the
 * previous record, absolute with a dot at its end, or relative to the origin. */
#include "shim_zone.h"
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
long zone_fail_at = -1; unsigned zone_chunk = 4096, zone_calls;
struct ldns_struct_rdf { size_t size; uint8_t *data; };
struct ldns_struct_rr { ldns_rdf *owner; ldns_rr_type type; uint32_t ttl; size_t n; ldns_rdf *rd[8]; };
static ldns_rdf *rdf(const void *p, size_t n) { ldns_rdf *r = malloc(sizeof *r); r->size = n; r->data = malloc(n ? n : 1); memcpy(r->data, p, n); return r; }
ldns_rdf *ldns_rdf_clone(const ldns_rdf *r) { return r ? rdf(r->data, r->size) : NULL; }
void ldns_rdf_deep_free(ldns_rdf *r) { if (r) { free(r->data); free(r); } }
void ldns_rdf_free(ldns_rdf *r) { free(r); }
size_t ldns_rdf_size(const ldns_rdf *r) { return r->size; }
uint8_t *ldns_rdf_data(const ldns_rdf *r) { return r->data; }
uint32_t ldns_rdf2native_int32(const ldns_rdf *r) { if (r->size != 4) return 0; return (uint32_t) r->data[0] << 24 | (uint32_t) r->data[1] << 16 | (uint32_t) r->data[2] << 8 | r->data[3]; }
ldns_rr_type ldns_rr_get_type(const ldns_rr *r) { return r->type; }
ldns_rdf *ldns_rr_owner(const ldns_rr *r) { return r->owner; }
uint32_t ldns_rr_ttl(const ldns_rr *r) { return r->ttl; }
size_t ldns_rr_rd_count(const ldns_rr *r) { return r->n; }
ldns_rdf *ldns_rr_rdf(const ldns_rr *r, size_t n) { return n < r->n ? r->rd[n] : NULL; }
void ldns_rr_free(ldns_rr *r) { if (!r) return; ldns_rdf_deep_free(r->owner); for (size_t i = 0; i < r->n; i++) ldns_rdf_deep_free(r->rd[i]); free(r); }
const char *ldns_get_errorstr_by_id(ldns_status e) { return e == LDNS_STATUS_OK ? "All OK" : "Error"; }
static char *word(char **p) { char *w = *p, *e = strchr(w, ' '); if (e) { *e = 0; *p = e + 1; } else *p = w + strlen(w); return w; }
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **out, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr) {
	char line[2048]; size_t n = 0; int c; ldns_rdf *none[2] = { NULL, NULL }; ldns_status st;
	if (!origin || !prev) { st = ldns_rr_new_frm_fp_l(out, fp, ttl, origin ? origin : &none[0], prev ? prev : &none[1], line_nr); ldns_rdf_deep_free(none[0]); ldns_rdf_deep_free(none[1]); return st; }
	if (++zone_calls > ZONE_CALLS) { fprintf(stderr, "a zone file is read for ever\n"); abort(); }
	while ((c = getc(fp)) != EOF && c != '\n') if (n + 1 < sizeof line) line[n++] = (char) c;
	line[n] = 0; if (line_nr) ++*line_nr;
	if (n == 0 || line[0] == ';') return LDNS_STATUS_SYNTAX_EMPTY;
	char *p = line, *w = word(&p);
	if (strcmp(w, "$TTL") == 0) { if (ttl) *ttl = (uint32_t) strtoul(word(&p), NULL, 10); return LDNS_STATUS_SYNTAX_TTL; }
	if (strcmp(w, "$ORIGIN") == 0) { w = word(&p); if (*origin) ldns_rdf_deep_free(*origin); *origin = rdf(w, strlen(w)); return LDNS_STATUS_SYNTAX_ORIGIN; }
	if (w[0] == '!') return LDNS_STATUS_SYNTAX_TYPE_ERR;
	char *t = word(&p); ldns_rr_type ty = strcmp(t, "SOA") == 0 ? LDNS_RR_TYPE_SOA : strcmp(t, "A") == 0 ? LDNS_RR_TYPE_A : strcmp(t, "NS") == 0 ? LDNS_RR_TYPE_NS : strcmp(t, "TXT") == 0 ? LDNS_RR_TYPE_TXT : 0;
	if (!ty) return LDNS_STATUS_SYNTAX_TYPE_ERR;
	ldns_rdf *o; size_t k = strlen(w);
	if (k == 0) { if (!*prev) return LDNS_STATUS_SYNTAX_DNAME_ERR; o = ldns_rdf_clone(*prev); }
	else if (w[k - 1] == '.') o = rdf(w, k);
	else { if (!*origin) return LDNS_STATUS_SYNTAX_DNAME_ERR; if (strcmp(w, "@") == 0) o = ldns_rdf_clone(*origin); else { char b[4096]; memcpy(b, w, k); b[k++] = '.'; memcpy(b + k, (*origin)->data, (*origin)->size); o = rdf(b, k + (*origin)->size); } }
	if (*prev) ldns_rdf_deep_free(*prev); *prev = ldns_rdf_clone(o);
	ldns_rr *r = calloc(1, sizeof *r); r->owner = o; r->type = ty; r->ttl = ttl ? *ttl : 0;
	while (*p && r->n < 8) { w = word(&p); if (ty == LDNS_RR_TYPE_SOA && r->n >= 2) { uint32_t v = (uint32_t) strtoul(w, NULL, 10); uint8_t b[4] = { (uint8_t) (v >> 24), (uint8_t) (v >> 16), (uint8_t) (v >> 8), (uint8_t) v }; r->rd[r->n++] = rdf(b, 4); } else r->rd[r->n++] = rdf(w, strlen(w)); }
	if (ty == LDNS_RR_TYPE_SOA && r->n < 7) { ldns_rr_free(r); return LDNS_STATUS_SYNTAX_MISSING_VALUE_ERR; }
	*out = r; return LDNS_STATUS_OK;
}
/* plain files: partial reads and a failing one */
struct in { int fd; long at; };
static ssize_t in_read(void *v, char *b, size_t n) {
	struct in *i = v; if (n > zone_chunk) n = zone_chunk;
	if (zone_fail_at >= 0) { if (i->at >= zone_fail_at) { errno = EIO; return -1; } if (i->at + (long) n > zone_fail_at) n = (size_t) (zone_fail_at - i->at); }
	ssize_t r = read(i->fd, b, n); if (r > 0) i->at += r; return r;
}
static int in_close(void *v) { struct in *i = v; int r = close(i->fd); free(i); return r; }
static FILE *in_open(const char *name, const char *mode) {
	int fd = open(name, O_RDONLY | O_CLOEXEC); if (fd < 0) return NULL;
	struct in *i = malloc(sizeof *i); i->fd = fd; i->at = 0; cookie_io_functions_t f = { in_read, NULL, NULL, in_close };
	FILE *fp = fopencookie(i, "r", f); if (!fp) in_close(i); return fp;
}
#define fopen in_open
#include "libmy/zonefile.c"
