/* Fault shim linked into the scrypt command (--wrap=fopen): the input and output become streams that fail where told. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
struct ck { int fd; long long pos, failat; int once, hit, style, isout, closefail; unsigned n; };
static struct ck cin_, cout_;
static long long num(const char *e, long long d) { const char *s = getenv(e); return s ? atoll(s) : d; }
static void note(const char *w, long long pos) { const char *l = getenv("VS_LOG"); char b[80]; int fd, k; if (!l) return; fd = open(l, O_WRONLY | O_APPEND | O_CREAT, 0600); k = snprintf(b, 80, "%s %lld\n", w, pos); if (write(fd, b, k) != k) _exit(77); close(fd); }
static ssize_t rd(void *c, char *b, size_t k) {
	struct ck *s = c; ssize_t r; s->n++;
	if (s->failat >= 0 && s->pos >= s->failat && !(s->once && s->hit)) { s->hit++; note("read", s->pos); errno = EIO; return -1; }
	if (s->style == 1 && k > 1 + s->n * 37 % 101) k = 1 + s->n * 37 % 101; if (s->style == 2 && k > 65535) k = 65535;
	if (s->failat >= 0 && !s->hit && s->pos + (long long)k > s->failat) k = s->failat - s->pos;
	r = read(s->fd, b, k); if (r > 0) s->pos += r; return r;
}
static ssize_t wr(void *c, const char *b, size_t k) {
	struct ck *s = c; ssize_t r; size_t o = 0; int f = 0;
	if (s->failat >= 0 && s->pos + (long long)k > s->failat && !(s->once && s->hit)) { k = s->pos < s->failat ? s->failat - s->pos : 0; f = 1; s->hit++; note("write", s->pos + k); }
	while (o < k) { r = write(s->fd, b + o, k - o); if (r < 0) return o; o += r; }
	s->pos += k; if (f) errno = ENOSPC; return k;
}
static int cl(void *c) { struct ck *s = c; int fd = s->fd; s->fd = -1; note(s->isout ? "closed-out" : "closed-in", s->pos); if (fd > 2) close(fd); if (s->closefail) { note("close", s->pos); errno = EDQUOT; return -1; } return 0; }
static FILE *mk(struct ck *s, int fd, int isout, const char *pfx) {
	char e[32]; cookie_io_functions_t f; FILE *F; long long b; memset(&f, 0, sizeof f); memset(s, 0, sizeof *s);
	s->fd = fd; s->isout = isout; snprintf(e, 32, "VS_%sFAIL", pfx); s->failat = num(e, -1); snprintf(e, 32, "VS_%sONCE", pfx); s->once = num(e, 0); snprintf(e, 32, "VS_%sCLOSE", pfx); s->closefail = num(e, 0); s->style = num("VS_STYLE", 0);
	if (isout) f.write = wr; else f.read = rd; f.close = cl; F = fopencookie(s, isout ? "w" : "r", f);
	snprintf(e, 32, "VS_%sBUF", pfx); b = num(e, -1); if (b == 0) setvbuf(F, NULL, _IONBF, 0); else if (b > 0) setvbuf(F, NULL, _IOFBF, b);
	return F;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
	const char *i = getenv("VS_IN"), *o = getenv("VS_OUT"); int fd;
	if (i && !strcmp(p, i) && m[0] == 'r') { fd = open(p, O_RDONLY); return fd < 0 ? NULL : mk(&cin_, fd, 0, "R"); }
	if (o && !strcmp(p, o) && m[0] == 'w') { fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666); return fd < 0 ? NULL : mk(&cout_, fd, 1, "W"); }
	return __real_fopen(p, m);
}
__attribute__((constructor)) static void init(void) {
	if (getenv("VS_STDIN")) stdin = mk(&cin_, 0, 0, "R");
	if (getenv("VS_STDOUT")) stdout = mk(&cout_, 1, 1, "W");
}
