#include "prog_redirect.h"
#define main prog_downcase
#define loadfunc prog_downcase_load
#define testfunc prog_downcase_test
#define freefunc prog_downcase_free
#include "examples/wdns-test-downcase-rrset.c"
#include "examples/wdns-hex-driver.c"
