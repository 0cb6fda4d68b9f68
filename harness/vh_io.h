/* Streams with controlled delivery and injected errors (fopencookie). */
#ifndef VH_IO_H_
#define VH_IO_H_
#include "vh.h"
struct vsrc { const uint8_t *p; size_t n, pos; int style; long long failat; int failed, reads, once; };
struct vsnk { uint8_t *p; size_t n, cap; long long failat; int failed, writes, failclose, closed; int once; };
static ssize_t vsrc_read(void *c, char *b, size_t k) {
	struct vsrc *s = c; size_t w = k, l = s->n - s->pos; s->reads++;
	switch (s->style) {
	case 0: break;
	case 1: w = 1; break;
	case 2: w = 7; break;
	case 3: w = 1 + vh_rnd(100); break;
	case 4: w = 65536 - (s->reads & 1); break;
	case 5: w = 32; break;
	case 6: w = 4096; break;
	case 7: w = vh_rnd(5) ? 1 + vh_rnd(70000) : 1 + vh_rnd(3); break;
	case 8: w = 31 + s->reads % 3; break;
	}
	if (w > k) w = k; if (w > l) w = l;
	if (s->failat >= 0 && (long long)(s->pos + w) > s->failat) w = (size_t)s->failat - s->pos;
	if (s->failat >= 0 && (long long)s->pos >= s->failat && !(s->once && s->failed)) { s->failed++; errno = EIO; return -1; }
	memcpy(b, s->p + s->pos, w); s->pos += w; return w;
}
static FILE *vsrc_open(struct vsrc *s, const uint8_t *p, size_t n, int style, long long failat, int bufmode) {
	cookie_io_functions_t f = { vsrc_read, NULL, NULL, NULL }; FILE *F;
	memset(s, 0, sizeof *s); s->p = p; s->n = n; s->style = style; s->failat = failat;
	F = fopencookie(s, "r", f); if (!F) vh_hard("fopencookie");
	if (bufmode == 1) setvbuf(F, NULL, _IONBF, 0); else if (bufmode > 1) setvbuf(F, NULL, _IOFBF, bufmode);
	return F;
}
static ssize_t vsnk_write(void *c, const char *b, size_t k) {
	struct vsnk *s = c; size_t w = k; s->writes++;
	if (s->failat >= 0 && (long long)(s->n + k) > s->failat && !(s->once && s->failed)) { w = s->n < (size_t)s->failat ? s->failat - s->n : 0; s->failed++; errno = ENOSPC; }
	if (s->n + w > s->cap) { s->cap = (s->n + w) * 2 + 4096; s->p = realloc(s->p, s->cap); if (!s->p) vh_hard("memory"); }
	if (w) memcpy(s->p + s->n, b, w); s->n += w; return w;
}
static int vsnk_close(void *c) { struct vsnk *s = c; s->closed++; if (s->failclose) { errno = EIO; s->failed++; return -1; } return 0; }
static FILE *vsnk_open(struct vsnk *s, long long failat, int bufmode) {
	cookie_io_functions_t f = { NULL, vsnk_write, NULL, vsnk_close }; FILE *F;
	memset(s, 0, sizeof *s); s->failat = failat;
	F = fopencookie(s, "w", f); if (!F) vh_hard("fopencookie");
	if (bufmode == 1) setvbuf(F, NULL, _IONBF, 0); else if (bufmode > 1) setvbuf(F, NULL, _IOFBF, bufmode);
	return F;
}
static int vio_bufmode(void) { switch (vh_rnd(5)) { case 0: return 1; case 1: return 2 + vh_rnd(200); case 2: return 65536; case 3: return 100000; default: return 0; } }
/* pipe with a writer thread delivering in pieces */
struct vpipe { int fd; const uint8_t *p; size_t n; int style; uint64_t seed; pthread_t t; };
static void *vpipe_run(void *a) {
	struct vpipe *v = a; size_t o = 0, k; ssize_t w; uint64_t x = v->seed;
	while (o < v->n) { x = vh_mix(x); k = v->style == 0 ? v->n - o : v->style == 1 ? 1 + x % 5000 : 1 + x % 100; if (k > v->n - o) k = v->n - o; w = write(v->fd, v->p + o, k); if (w < 0) break; o += w; if (v->style == 2 && x % 64 == 0) usleep(50); }
	close(v->fd); return NULL;
}
static FILE *vpipe_open(struct vpipe *v, const uint8_t *p, size_t n, int style) {
	int fd[2]; FILE *F; if (pipe(fd)) vh_hard("pipe");
	v->fd = fd[1]; v->p = p; v->n = n; v->style = style; v->seed = vh_next();
	if (pthread_create(&v->t, NULL, vpipe_run, v)) vh_hard("thread"); F = fdopen(fd[0], "r"); if (!F) vh_hard("fdopen"); return F;
}
static void vpipe_close(struct vpipe *v, FILE *F) { fclose(F); pthread_join(v->t, NULL); }
#endif
