#include <sys/types.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <alloca.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <wdns.h>
#include "shim_prog.h"
#undef stdout
#undef stderr
#undef putchar
#undef puts
#undef printf
#define stdout prog_out
#define stderr prog_err
#define printf(...) fprintf(prog_out, __VA_ARGS__)
#define putchar(c) fputc(c, prog_out)
#define puts(s) fprintf(prog_out, "%s\n", s)
#define fopen prog_fopen
#define fclose prog_fclose
