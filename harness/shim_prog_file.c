#include "prog_redirect.h"
#define main prog_file
#include "examples/wdns-dump-file.c"
