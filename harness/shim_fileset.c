/* File sets over streams that can be made to fail. */
#include "shim_util.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
long fset_fail_at = -1; int fset_fail_open, fset_fired; unsigned fset_chunk = 4096;
struct in { int fd; long at; };
static ssize_t in_read(void *v, char *b, size_t n) {
	struct in *i = v; ssize_t r;
	if (n > fset_chunk) n = fset_chunk;
	if (i->at >= fset_fail_at) { fset_fired = 1; errno = EIO; return -1; }
	if (i->at + (long) n > fset_fail_at) n = (size_t) (fset_fail_at - i->at);
	r = read(i->fd, b, n); if (r > 0) i->at += r; return r;
}
static int in_close(void *v) { struct in *i = v; int r = close(i->fd); free(i); return r; }
static FILE *fset_open(const char *name, const char *mode) {
	if (fset_fail_open) { fset_fired = 1; errno = EMFILE; return NULL; }
	if (fset_fail_at < 0 || *mode != 'r') return fopen(name, mode);
	int fd = open(name, O_RDONLY | O_CLOEXEC); if (fd < 0) return NULL;
	struct in *i = malloc(sizeof *i); i->fd = fd; i->at = 0; cookie_io_functions_t f = { in_read, NULL, NULL, in_close };
	FILE *fp = fopencookie(i, "r", f); if (!fp) in_close(i); return fp;
}
#define fopen fset_open
#include "libmy/my_fileset.c"
