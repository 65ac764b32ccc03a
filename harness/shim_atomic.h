/* Access to the atomic helpers and thread numbers of libmy. */
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { AT_ADD, AT_SUB, AT_ZERO, AT_SUB_TEST, AT_INC, AT_DEC, AT_DEC_TEST, AT_INC_TEST, AT_ADD_NEG, AT_OPS };
extern const int at_has_result[AT_OPS];
void *at_new(int wide, int64_t init);          /* a counter */
void at_set(int wide, void *c, int64_t v);
int64_t at_read(int wide, void *c);
int64_t at_op(int wide, void *c, int op, int64_t arg);
void *ap_new(void *p);
void *ap_get(void *a);
int ap_set(void *a, void *p);
void my_threadnum_register(void);
int my_threadnum(void);
#ifdef __cplusplus
}
#endif
