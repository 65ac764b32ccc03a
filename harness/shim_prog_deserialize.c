#include "prog_redirect.h"
#define main prog_deserialize
#define loadfunc prog_deserialize_load
#define testfunc prog_deserialize_test
#define freefunc prog_deserialize_free
#include "examples/wdns-test-deserialize-rrset.c"
#include "examples/wdns-hex-driver.c"
