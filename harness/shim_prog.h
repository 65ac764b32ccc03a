/* The example programs as functions, with their streams and libpcap replaced. */
#pragma once
#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern FILE *prog_out, *prog_err;                    /* what the programs write to */
int prog_deserialize(int, char **), prog_downcase(int, char **), prog_message(int, char **), prog_serialize(int, char **), prog_file(int, char **), prog_pcap(int, char **);
FILE *prog_fopen(const char *, const char *);
int prog_fclose(FILE *);
/* the file that programs open */
struct prog_input { const uint8_t *data; size_t n; size_t chunk; long fail_at; int missing; };
extern struct prog_input prog_in;
void prog_close_all(void);                           /* closes what a program left open at its end */
/* the capture that programs open */
struct prog_packet { const uint8_t *data; uint32_t caplen, len; int dumped; };
struct prog_capture { struct prog_packet *p; size_t n, at; int no_open, no_dump, bad_filter, cut; int opened, dumpers, codes; };
extern struct prog_capture prog_cap;
#ifdef __cplusplus
}
#endif
