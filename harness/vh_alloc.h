/* Interposed allocator: tracks outstanding blocks, injects failures, scans at free (optional).
 * Link with --wrap= malloc calloc realloc free posix_memalign aligned_alloc strdup mmap munmap. */
#ifndef VH_ALLOC_H_
#define VH_ALLOC_H_
#include "vh.h"
#include <malloc.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); char *__real_strdup(const char *);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
#define VA_MAX 4096
static struct { void *p; size_t n; int kind; } va_tab[VA_MAX];
static int va_n;                       /* outstanding blocks */
static int va_on;                      /* tracking/injecting enabled */
static long va_cnt, va_failat = -1, va_failat2 = -1;   /* allocation number to fail */
static int va_denyall; static size_t va_denybig = (size_t)-1;
static long va_failed, va_attempts; static size_t va_maxreq;
static void (*va_onfree)(void *p, size_t n);
static void (*va_onalloc)(void *p, size_t n);
static void va_add(void *p, size_t n, int kind) {
	if (!p) return;
	if (va_n >= VA_MAX) vh_hard("allocation table full");
	va_tab[va_n].p = p; va_tab[va_n].n = n; va_tab[va_n++].kind = kind;
	if (va_onalloc) va_onalloc(p, n);
}
/* VA_SCRUB: new blocks are cleared, so that what is found in a block later was put there by its owner (and not by a stdio buffer or other
 * library block which occupied the memory before). */
#ifdef VA_SCRUB
#define VA_CLEAR(p, o, n) do { if ((p) && (n) > (o)) memset((char *)(p) + (o), 0, (n) - (o)); } while (0)
#else
#define VA_CLEAR(p, o, n) do { } while (0)
#endif
static int (*va_hook)(size_t n); /* may deny */
static int va_find(void *p) { int i; for (i = va_n - 1; i >= 0; i--) if (va_tab[i].p == p) return i; return -1; }
static void va_del(int i) { va_tab[i] = va_tab[--va_n]; }
static int va_deny(size_t n) {
	if (!va_on) return 0;
	va_attempts++; va_cnt++; if (n > va_maxreq) va_maxreq = n;
	if ((va_hook && va_hook(n)) || va_denyall || n >= va_denybig || va_cnt == va_failat || va_cnt == va_failat2) { va_failed++; errno = ENOMEM; return 1; }
	return 0;
}
void *__wrap_malloc(size_t n) { void *p; if (!va_on) return __real_malloc(n); if (va_deny(n)) return NULL; p = __real_malloc(n); VA_CLEAR(p, 0, n); va_add(p, n, 0); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p; if (!va_on) return __real_calloc(a, b); if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; } if (va_deny(a * b)) return NULL; p = __real_calloc(a, b); va_add(p, a * b, 0); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p; int i; size_t on = n; (void)on; if (!va_on) return __real_realloc(o, n); if (va_deny(n)) return NULL;
	i = o ? va_find(o) : -1; if (i >= 0) { if (va_onfree) va_onfree(o, va_tab[i].n); on = va_tab[i].n; va_del(i); } else if (!o) on = 0; p = __real_realloc(o, n); VA_CLEAR(p, on, n); va_add(p, n, 0); return p; }
void __wrap_free(void *p) { int i; if (p && (i = va_find(p)) >= 0) { if (va_onfree) va_onfree(p, va_tab[i].n); va_del(i); } __real_free(p); }
int __wrap_posix_memalign(void **r, size_t a, size_t n) { int rc; if (!va_on) return __real_posix_memalign(r, a, n); if (va_deny(n)) { errno = 0; return ENOMEM; }
	rc = __real_posix_memalign(r, a, n); if (rc == 0) { VA_CLEAR(*r, 0, n); va_add(*r, n, 0); } return rc; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p; if (!va_on) return __real_aligned_alloc(a, n); if (va_deny(n)) return NULL; p = __real_aligned_alloc(a, n); VA_CLEAR(p, 0, n); va_add(p, n, 0); return p; }
char *__wrap_strdup(const char *s) { char *p; if (!va_on) return __real_strdup(s); if (va_deny(strlen(s) + 1)) return NULL; p = __real_strdup(s); va_add(p, strlen(s) + 1, 0); return p; }
void *__wrap_mmap(void *ad, size_t n, int pr, int fl, int fd, off_t o) { void *p; if (!va_on) return __real_mmap(ad, n, pr, fl, fd, o); if (va_deny(n)) return MAP_FAILED;
	p = __real_mmap(ad, n, pr, fl, fd, o); if (p != MAP_FAILED) va_add(p, n, 1); return p; }
static int (*va_munmaphook)(void);
int __wrap_munmap(void *p, size_t n) { if (va_on && va_munmaphook && va_munmaphook()) return -1; int i = va_find(p), rc; if (i >= 0) { if (va_tab[i].n == n) { va_del(i); } else if (n < va_tab[i].n) { /* partial: stays outstanding */ va_tab[i].p = (char *)p + n; va_tab[i].n -= n; } else va_del(i); } rc = __real_munmap(p, n); return rc; }
static void va_begin(void) { va_n = 0; va_cnt = 0; va_failed = 0; va_attempts = 0; va_maxreq = 0; va_on = 1; }
static void va_stop(void) { va_on = 0; }
#define VA_WRAPS "malloc,calloc,realloc,free,posix_memalign,aligned_alloc,strdup,mmap,munmap"
#endif
