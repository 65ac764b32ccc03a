#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/socket.h>
#ifdef __cplusplus
extern "C" {
#endif
// growable buffers: 0 octets, 1 32-bit numbers, 2 twelve-octet triples
void *sv_init(int k, unsigned hint);
void *sv_new(void);                 // ubuf_new
void *sv_dup(const char *);         // ubuf_dup_cstr
void sv_reinit(int k, void *v, unsigned hint); // frees the storage first
void sv_destroy(int k, void **v);
void sv_reserve(int k, void *v, size_t n);
void sv_add(int k, void *v, const void *e);
void sv_append(int k, void *v, const void *e, size_t n);
void sv_extend(int k, void *v, void *w);
void sv_reset(int k, void *v);
void sv_clip(int k, void *v, size_t n);
void sv_advance(int k, void *v, size_t n);
void sv_detach(int k, void *v, void **out, size_t *n);
size_t sv_size(int k, void *v), sv_bytes(int k, void *v);
void sv_value(int k, void *v, size_t i, void *out);
void *sv_ptr(int k, void *v), *sv_data(int k, void *v);
void su_add_cstr(void *u, const char *s);
void su_append_cstr(void *u, const char *s, size_t n);
void su_append_lit(void *u);        // appends "literal"
void su_cterm(void *u);
char *su_cstr(void *u);
void su_rstrip(void *u, char c);
void su_fmt_s(void *u, const char *s, unsigned n, const char *t); // "%s:%u:%s"
void su_fmt_empty(void *u);         // ""
void su_pb_append(void *u, const unsigned char *p, size_t n, size_t piece); // as protobuf-c packs into a ubuf
#ifdef __cplusplus
}
#endif
