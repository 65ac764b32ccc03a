#include "prog_redirect.h"
#define main prog_serialize
#define loadfunc prog_serialize_load
#define testfunc prog_serialize_test
#define freefunc prog_serialize_free
#include "examples/wdns-test-serialize-rrset.c"
#include "examples/wdns-hex-driver.c"
