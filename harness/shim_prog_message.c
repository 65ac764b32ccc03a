#include "prog_redirect.h"
#define main prog_message
#define loadfunc prog_message_load
#define testfunc prog_message_test
#define freefunc prog_message_free
#include "examples/wdns-test-print-message.c"
#include "examples/wdns-hex-driver.c"
