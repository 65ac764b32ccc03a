/* The spool directory with a stand-in for usleep, and with calls that change files
 * refused, and reported, outside the scratch directory of the case. */
#include "shim_util.h"
#include <unistd.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <assert.h>
#include <fcntl.h>
#include <sys/stat.h>
unsigned long fake_usleep_total;
const char *spool_scratch; /* no path elsewhere is touched */
int spool_escaped;
int spool_fail_rename, spool_failed;
static int broken(void) { if (!spool_fail_rename) return 0; spool_failed = 1; errno = EIO; return 1; }
static int inside(const char *p) {
	size_t n = spool_scratch ? strlen(spool_scratch) : 0;
	if (p && n > 1 && strncmp(p, spool_scratch, n) == 0 && p[n] == '/' && strstr(p + n, "/../") == NULL) return 1;
	spool_escaped = 1; errno = EPERM; return 0;
}
static int my_us(useconds_t n) { fake_usleep_total += n; return 0; }
static int my_unlink(const char *p) { return inside(p) ? unlink(p) : -1; }
static int my_rename(const char *a, const char *b) { return inside(a) && inside(b) && !broken() ? rename(a, b) : -1; }
static int my_mkdir(const char *p, mode_t m) { return inside(p) ? mkdir(p, m) : -1; }
static int my_remove(const char *p) { return inside(p) ? remove(p) : -1; }
static const char *full(int fd, const char *p, char *b, size_t n) {
	char l[40]; ssize_t k;
	if (p[0] == '/') return p;
	if (fd == AT_FDCWD) return getcwd(b, n - strlen(p) - 2) ? strcat(strcat(b, "/"), p) : "";
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	k = readlink(l, b, n - strlen(p) - 2);
	if (k < 0) return "";
	b[k] = 0;
	return strcat(strcat(b, "/"), p);
}
static int my_unlinkat(int fd, const char *p, int f) { char b[8192]; return strlen(p) < 4000 && inside(full(fd, p, b, sizeof b)) ? unlinkat(fd, p, f) : -1; }
static int my_renameat(int fd, const char *p, int gd, const char *q) { char a[8192], b[8192]; return strlen(p) < 4000 && strlen(q) < 4000 && inside(full(fd, p, a, sizeof a)) && inside(full(gd, q, b, sizeof b)) && !broken() ? renameat(fd, p, gd, q) : -1; }
static int my_link(const char *a, const char *b) { return inside(a) && inside(b) && !broken() ? link(a, b) : -1; }
#define usleep my_us
#define unlink my_unlink
#define rename my_rename
#define mkdir my_mkdir
#define remove my_remove
#define unlinkat my_unlinkat
#define renameat my_renameat
#define link my_link
#include "libmy/spooldir.c"
