#include "shim_prog.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pcap.h>
FILE *prog_out, *prog_err;
struct prog_input prog_in;
struct prog_capture prog_cap;
static FILE *open_[4];
struct in { long at; };
static ssize_t in_read(void *v, char *b, size_t n) {
	struct in *i = v; if (n > prog_in.chunk) n = prog_in.chunk;
	if (prog_in.fail_at >= 0 && i->at + (long) n > prog_in.fail_at) { if (i->at >= prog_in.fail_at) { errno = EIO; return -1; } n = (size_t) (prog_in.fail_at - i->at); }
	if (n > prog_in.n - (size_t) i->at) n = prog_in.n - (size_t) i->at;
	memcpy(b, prog_in.data + i->at, n); i->at += (long) n; return (ssize_t) n;
}
static int in_close(void *v) { free(v); return 0; }
FILE *prog_fopen(const char *name, const char *mode) {
	(void) name; (void) mode; if (prog_in.missing) { errno = ENOENT; return NULL; }
	int k = 0; while (k < 4 && open_[k]) k++; if (k == 4) return NULL;
	struct in *i = malloc(sizeof *i); i->at = 0; cookie_io_functions_t f = { in_read, NULL, NULL, in_close };
	return open_[k] = fopencookie(i, "r", f);
}
int prog_fclose(FILE *fp) { for (int k = 0; k < 4; k++) if (open_[k] == fp) open_[k] = NULL; return fclose(fp); }
void prog_close_all(void) { for (int k = 0; k < 4; k++) if (open_[k]) { fclose(open_[k]); open_[k] = NULL; } }
/* libpcap: packets come from prog_cap */
#define P ((pcap_t *) (void *) &prog_cap)
#define D ((pcap_dumper_t *) (void *) &prog_cap.dumpers)
pcap_t *pcap_open_offline(const char *f, char *e) { if (prog_cap.no_open) { strcpy(e, "no such file"); return NULL; } prog_cap.opened++; return P; }
pcap_dumper_t *pcap_dump_open(pcap_t *p, const char *f) { if (prog_cap.no_dump) return NULL; prog_cap.dumpers++; return D; }
int pcap_compile(pcap_t *p, struct bpf_program *b, const char *s, int o, bpf_u_int32 m) { if (prog_cap.bad_filter == 1) return -1; static struct bpf_insn one; b->bf_len = 1; b->bf_insns = &one; return 0; }
int pcap_setfilter(pcap_t *p, struct bpf_program *b) { return prog_cap.bad_filter == 2 ? -1 : 0; }
void pcap_freecode(struct bpf_program *b) { b->bf_insns = NULL; b->bf_len = 0; }
void pcap_perror(pcap_t *p, const char *s) { fprintf(prog_err, "%s\n", s); }
char *pcap_geterr(pcap_t *p) { return "error"; }
int pcap_datalink(pcap_t *p) { return DLT_EN10MB; }
int pcap_snapshot(pcap_t *p) { return 65535; }
static int deliver(int cnt, pcap_handler h, u_char *u) {
	int n = 0;
	while (prog_cap.at < prog_cap.n && (cnt <= 0 || n < cnt)) { struct prog_packet *q = &prog_cap.p[prog_cap.at++]; struct pcap_pkthdr hd = { .caplen = q->caplen, .len = q->len }; h(u, &hd, q->data); n++; }
	return n;
}
int pcap_loop(pcap_t *p, int cnt, pcap_handler h, u_char *u) { deliver(cnt, h, u); return prog_cap.cut && prog_cap.at == prog_cap.n ? -1 : 0; }
int pcap_dispatch(pcap_t *p, int cnt, pcap_handler h, u_char *u) { int n = deliver(cnt, h, u); return n == 0 && prog_cap.cut ? -1 : n; }
int pcap_next_ex(pcap_t *p, struct pcap_pkthdr **h, const u_char **d) {
	static struct pcap_pkthdr hd; if (prog_cap.at == prog_cap.n) return prog_cap.cut ? -1 : -2;
	struct prog_packet *q = &prog_cap.p[prog_cap.at++]; hd.caplen = q->caplen; hd.len = q->len; *h = &hd; *d = q->data; return 1;
}
void pcap_dump(u_char *u, const struct pcap_pkthdr *h, const u_char *d) {
	if (u != (u_char *) D) { fprintf(stderr, "a packet is written to a capture that is not open\n"); abort(); }
	for (size_t i = 0; i < prog_cap.n; i++) if (prog_cap.p[i].data == d && prog_cap.p[i].caplen == h->caplen && prog_cap.p[i].len == h->len) { prog_cap.p[i].dumped++; return; }
	fprintf(stderr, "a packet is written that was not read\n"); abort();
}
int pcap_dump_flush(pcap_dumper_t *d) { return 0; }
void pcap_dump_close(pcap_dumper_t *d) { if (d) prog_cap.dumpers--; }
void pcap_close(pcap_t *p) { if (p) prog_cap.opened--; }
