#include "prog_redirect.h"
#include <pcap.h>
#define main prog_pcap
#include "examples/wdns-dump-pcap.c"
