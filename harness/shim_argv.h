#pragma once
#include <setjmp.h>
#ifdef __cplusplus
extern "C" {
#endif
extern jmp_buf argv_exit_to; extern int argv_exit_code, argv_exit_armed;
#ifdef __cplusplus
}
#endif
