/* Linked into the command: from the start of the encryption/decryption on, call number VE_N of the environment fails.
 * What failed is appended to the file VE_LOG as "kind phase soft". */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/types.h>
#include "scryptenc.h"
static int on, rfd = -1; static long cnt; static const char *ph = "other";
int __real_open(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t);
static int env(const char *kind, int err, int soft) {
	const char *n = getenv("VE_N"), *l = getenv("VE_LOG"); char b[100]; int fd; if (!on || !n) return 0;
	cnt++; if (cnt != atol(n)) return 0;
	fd = __real_open(l, O_WRONLY | O_CREAT | O_APPEND, 0600); snprintf(b, sizeof b, "%s %s %d\n", kind, ph, soft); write(fd, b, strlen(b)); __real_close(fd);
	errno = err; return 1;
}
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t); char *__real_strdup(const char *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_malloc(size_t n) { return env("alloc", ENOMEM, 1) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return env("alloc", ENOMEM, 1) ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return env("alloc", ENOMEM, 1) ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *p) { return env("alloc", ENOMEM, 1) ? NULL : __real_strdup(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { return env("alloc", 0, 1) ? ENOMEM : __real_posix_memalign(p, a, n); }
void *__wrap_mmap(void *p, size_t n, int a, int b, int c, off_t d) { return env("alloc", ENOMEM, 1) ? MAP_FAILED : __real_mmap(p, n, a, b, c, d); }
static uint64_t now = 5000000000ULL;
int __real_getrlimit(int, struct rlimit *); int __real_sysinfo(struct sysinfo *); long __real_sysconf(int); int __real_clock_gettime(clockid_t, struct timespec *); int __real_clock_getres(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!on) return __real_clock_gettime(c, t); if (env("clock", EPERM, 0)) return -1; now += 1000000; t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000; return 0; }
int __wrap_clock_getres(clockid_t c, struct timespec *t) { if (!on) return __real_clock_getres(c, t); if (env("clock", EPERM, 0)) return -1; t->tv_sec = 0; t->tv_nsec = 1; return 0; }
int __wrap_sysinfo(struct sysinfo *i) { return env("limit", EFAULT, 0) ? -1 : __real_sysinfo(i); }
long __wrap_sysconf(int n) { return (n == _SC_PHYS_PAGES || n == _SC_PAGESIZE) && env("limit", EPERM, 0) ? -1 : __real_sysconf(n); }
int __wrap_getrlimit(int w, struct rlimit *l) { return env("limit", EFAULT, 0) ? -1 : __real_getrlimit(w, l); }
int __wrap_open(const char *p, int f, ...) { va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a); if (!on || strncmp(p, "/dev/u", 6)) return __real_open(p, f, m); if (env("entropy", ENOENT, 0)) return -1; return rfd = __real_open(p, f, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (on && fd == rfd && fd >= 0 && env("entropy", EIO, 0)) return -1; return __real_read(fd, b, n); }
int __wrap_close(int fd) { int r = __real_close(fd); if (on && fd == rfd && fd >= 0) { rfd = -1; if (env("entropy", EIO, 1)) return -1; } return r; }
struct crypto_aes_key; struct crypto_aesctr;
#define PH(name, T, params, args) T __real_##name params; T __wrap_##name params { const char *q = ph; T x; ph = #name; x = __real_##name args; ph = q; return x; }
PH(crypto_scrypt, int, (const uint8_t *a, size_t b, const uint8_t *c, size_t d, uint64_t N, uint32_t r, uint32_t p, uint8_t *o, size_t n), (a, b, c, d, N, r, p, o, n))
PH(crypto_entropy_read, int, (uint8_t *a, size_t b), (a, b))
PH(crypto_aes_key_expand, struct crypto_aes_key *, (const uint8_t *a, size_t b), (a, b))
PH(crypto_aesctr_init, struct crypto_aesctr *, (const struct crypto_aes_key *a, uint64_t b), (a, b))
int __real_scryptenc_file(FILE *, FILE *, const uint8_t *, size_t, struct scryptenc_params *, int, int);
int __wrap_scryptenc_file(FILE *a, FILE *b, const uint8_t *c, size_t d, struct scryptenc_params *e, int f, int g) { on = 1; return __real_scryptenc_file(a, b, c, d, e, f, g); }
int __real_scryptdec_file_prep(FILE *, const uint8_t *, size_t, struct scryptenc_params *, int, int, struct scryptdec_file_cookie **);
int __wrap_scryptdec_file_prep(FILE *a, const uint8_t *b, size_t c, struct scryptenc_params *d, int e, int f, struct scryptdec_file_cookie **g) { on = 1; return __real_scryptdec_file_prep(a, b, c, d, e, f, g); }
