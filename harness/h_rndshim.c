/* Linked into the command: makes /dev/urandom unavailable, failing, short or empty according to VS_RND. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
static int vfd = -1; static long left;
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
static const char *mode(void) { const char *s = getenv("VS_RND"); return s ? s : ""; }
int __wrap_open(const char *p, int f, ...) {
	va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a);
	if (strcmp(p, "/dev/urandom")) return __real_open(p, f, m);
	if (!strcmp(mode(), "open")) { errno = ENOENT; return -1; }
	left = atol(mode() + strcspn(mode(), "0123456789")); return vfd = __real_open(p, f, m);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
	ssize_t r; if (fd != vfd || fd < 0 || !mode()[0]) return __real_read(fd, b, n);
	if (!strncmp(mode(), "one", 3)) return __real_read(fd, b, n ? 1 : 0);
	if (left <= 0) { if (mode()[0] == 'z') return 0; errno = EIO; return -1; }
	r = __real_read(fd, b, (long)n < left ? n : (size_t)left); left -= r; return r;
}
int __wrap_close(int fd) { int r = __real_close(fd); if (fd == vfd && fd >= 0) { vfd = -1; if (!strcmp(mode(), "close")) { errno = EIO; return -1; } } return r; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { errno = ENOSYS; return -1; }
int __wrap_getentropy(void *b, size_t n) { errno = ENOSYS; return -1; }
