#include "shim_fmt.h"
#include "libmy/ubuf.h"
typedef struct { uint32_t a, b, c; } triple;
VECTOR_GENERATE(u32v, uint32_t)
VECTOR_GENERATE(triv, triple)
#define EACH(k, call_u, call_n, call_t) do { if ((k) == 0) { call_u; } else if ((k) == 1) { call_n; } else { call_t; } } while (0)
#define D(name, args) if (k == 0) ubuf_##name args; else if (k == 1) u32v_##name args; else triv_##name args
void *sv_init(int k, unsigned hint) { return k == 0 ? (void *) ubuf_init(hint) : k == 1 ? (void *) u32v_init(hint) : (void *) triv_init(hint); }
void *sv_new(void) { return ubuf_new(); }
void *sv_dup(const char *s) { return ubuf_dup_cstr(s); }
void sv_reinit(int k, void *v, unsigned hint) { free(sv_data(k, v)); if (k == 0) ubuf_reinit(hint, v); else if (k == 1) u32v_reinit(hint, v); else triv_reinit(hint, v); }
void sv_destroy(int k, void **v) { if (k == 0) ubuf_destroy((ubuf **) v); else if (k == 1) u32v_destroy((u32v **) v); else triv_destroy((triv **) v); }
void sv_reserve(int k, void *v, size_t n) { D(reserve, (v, n)); }
void sv_add(int k, void *v, const void *e) { if (k == 0) ubuf_add(v, *(const uint8_t *) e); else if (k == 1) u32v_add(v, *(const uint32_t *) e); else triv_add(v, *(const triple *) e); }
void sv_append(int k, void *v, const void *e, size_t n) { D(append, (v, e, n)); }
void sv_extend(int k, void *v, void *w) { D(extend, (v, w)); }
void sv_reset(int k, void *v) { D(reset, (v)); }
void sv_clip(int k, void *v, size_t n) { D(clip, (v, n)); }
void sv_advance(int k, void *v, size_t n) { D(advance, (v, n)); }
void sv_detach(int k, void *v, void **out, size_t *n) { if (k == 0) ubuf_detach(v, (uint8_t **) out, n); else if (k == 1) u32v_detach(v, (uint32_t **) out, n); else triv_detach(v, (triple **) out, n); }
size_t sv_size(int k, void *v) { return k == 0 ? ubuf_size(v) : k == 1 ? u32v_size(v) : triv_size(v); }
size_t sv_bytes(int k, void *v) { return k == 0 ? ubuf_bytes(v) : k == 1 ? u32v_bytes(v) : triv_bytes(v); }
void sv_value(int k, void *v, size_t i, void *out) { if (k == 0) *(uint8_t *) out = ubuf_value(v, i); else if (k == 1) *(uint32_t *) out = u32v_value(v, i); else *(triple *) out = triv_value(v, i); }
void *sv_ptr(int k, void *v) { return k == 0 ? (void *) ubuf_ptr(v) : k == 1 ? (void *) u32v_ptr(v) : (void *) triv_ptr(v); }
void *sv_data(int k, void *v) { return k == 0 ? (void *) ubuf_data(v) : k == 1 ? (void *) u32v_data(v) : (void *) triv_data(v); }
void su_add_cstr(void *u, const char *s) { ubuf_add_cstr(u, s); }
void su_append_cstr(void *u, const char *s, size_t n) { ubuf_append_cstr((ubuf *) u, s, n); }
void su_append_lit(void *u) { ubuf_append_cstr_lit((ubuf *) u, "literal"); }
void su_cterm(void *u) { ubuf_cterm(u); }
char *su_cstr(void *u) { return ubuf_cstr(u); }
void su_rstrip(void *u, char c) { ubuf_rstrip(u, c); }
void su_fmt_s(void *u, const char *s, unsigned n, const char *t) { ubuf_add_fmt(u, "%s:%u:%s", s, n, t); }
void su_fmt_empty(void *u) { ubuf_add_fmt(u, "%s", ""); }
#if __has_include("libmy/ubuf-pb.h")
#include "libmy/ubuf-pb.h"
/* what protobuf-c's packing does: pieces through the buffer's append function */
void su_pb_append(void *u, const unsigned char *p, size_t n, size_t piece) {
	struct ubuf_protobuf_c_buffer b = UBUF_PROTOBUF_C_BUFFER_INIT(u);
	ProtobufCBuffer *q = &b.base;
	for (size_t i = 0; i < n; i += piece) q->append(q, n - i < piece ? n - i : piece, p + i);
}
#else
void su_pb_append(void *u, const unsigned char *p, size_t n, size_t piece) { ubuf_append((ubuf *) u, p, n); }
#endif
