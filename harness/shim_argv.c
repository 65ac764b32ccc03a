/* The command-line parser with the end of the program replaced by a jump. */
#include <stdlib.h>
#include "shim_argv.h"
jmp_buf argv_exit_to; int argv_exit_code, argv_exit_armed;
static void argv_exit(int code) {
	if (!argv_exit_armed) abort();
	argv_exit_code = code; argv_exit_armed = 0; longjmp(argv_exit_to, 1);
}
#define exit(c) argv_exit(c)
#include "libmy/argv.c"
