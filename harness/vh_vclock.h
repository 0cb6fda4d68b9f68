/* Simulated clock, machine speed, memory size and key derivation.
 * Link with --wrap= crypto_scrypt clock_gettime clock_getres gettimeofday sysinfo sysconf getrlimit */
#ifndef VH_VCLOCK_H_
#define VH_VCLOCK_H_
#include "vh.h"
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <time.h>
static uint64_t vc_now = 1234567000000ULL;      /* nanoseconds */
static double vc_nspercore = 1000; static double vc_frac; /* machine speed */
static uint64_t vc_res = 1;                     /* clock resolution, ns */
static int vc_clockfail, vc_resfail, vc_sysinfofail, vc_sysconffail, vc_rlimitfail; static long vc_clockn, vc_resn, vc_sysinfon, vc_sysconfn, vc_rlimitn;
static long vc_failclockat = -1;
static int vc_on = 1;
static struct { uint64_t N; size_t r, p; uint8_t salt[32]; size_t sn, pn, dn; } vc_kdf[4]; static int vc_nkdf; static long vc_bench; static int vc_kdffail;
static int vc_realkdf;
static uint64_t vc_totalram = 8ULL << 30; static uint32_t vc_unit = 1; static int64_t vc_pages = 2 << 20, vc_pagesz = 4096; static int vc_sysconf_unlimited;
static rlim_t vc_as = RLIM_INFINITY, vc_rss = RLIM_INFINITY, vc_data = RLIM_INFINITY, vc_hard = RLIM_INFINITY;
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __real_clock_gettime(clockid_t, struct timespec *); int __real_clock_getres(clockid_t, struct timespec *); int __real_sysinfo(struct sysinfo *); long __real_sysconf(int); int __real_getrlimit(int, struct rlimit *); int __real_gettimeofday(struct timeval *, void *);
static void vc_fakekdf(const uint8_t *pw, size_t pn, const uint8_t *s, size_t sn, uint64_t N, uint64_t r, uint64_t p, uint8_t *out, size_t n) {
	uint8_t *m = malloc(pn + sn + 40), h[32]; size_t i; uint64_t pn8 = pn; if (pn) memcpy(m, pw, pn); if (sn) memcpy(m + pn, s, sn); memcpy(m + pn + sn, &N, 8); memcpy(m + pn + sn + 8, &r, 8); memcpy(m + pn + sn + 16, &p, 8); memcpy(m + pn + sn + 24, &pn8, 8);
	for (i = 0; i < n; i += 32) { uint64_t b = i; memcpy(m + pn + sn + 32, &b, 8); o_sha256(m, pn + sn + 40, h); memcpy(out + i, h, n - i < 32 ? n - i : 32); } free(m);
}
static void vc_spend(double cores) { double t = cores * vc_nspercore + vc_frac; uint64_t k = (uint64_t)t; vc_frac = t - (double)k; vc_now += k; }
int __wrap_crypto_scrypt(const uint8_t *pw, size_t pn, const uint8_t *s, size_t sn, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t n) {
	if (!vc_on) return __real_crypto_scrypt(pw, pn, s, sn, N, r, p, buf, n);
	if (n == 0 || (pn == 0 && sn == 0)) { vc_bench++; vc_spend(4.0 * N * r * p); if (n) memset(buf, 0, n); return 0; }
	if (vc_nkdf < 4) { vc_kdf[vc_nkdf].N = N; vc_kdf[vc_nkdf].r = r; vc_kdf[vc_nkdf].p = p; vc_kdf[vc_nkdf].sn = sn; vc_kdf[vc_nkdf].pn = pn; vc_kdf[vc_nkdf].dn = n; if (sn == 32) memcpy(vc_kdf[vc_nkdf].salt, s, 32); }
	vc_nkdf++; if (vc_kdffail) { errno = ENOMEM; return -1; }
	vc_fakekdf(pw, pn, s, sn, N, r, p, buf, n); return 0;
}
static uint64_t vc_read(void) { return vc_now / vc_res * vc_res; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { uint64_t v; if (!vc_on) return __real_clock_gettime(c, t); vc_clockn++; if (vc_clockfail || vc_clockn == vc_failclockat) { errno = vc_clockfail > 1 ? vc_clockfail : EPERM; return -1; } v = vc_read(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int __wrap_clock_getres(clockid_t c, struct timespec *t) { if (!vc_on) return __real_clock_getres(c, t); vc_resn++; if (vc_resfail) { errno = EPERM; return -1; } t->tv_sec = vc_res / 1000000000; t->tv_nsec = vc_res % 1000000000; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { uint64_t v; if (!vc_on) return __real_gettimeofday(t, z); vc_clockn++; v = vc_read(); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0; }
int __wrap_sysinfo(struct sysinfo *i) { if (!vc_on) return __real_sysinfo(i); vc_sysinfon++; if (vc_sysinfofail) { errno = EFAULT; return -1; } memset(i, 0x6b, sizeof *i); i->totalram = vc_totalram; i->mem_unit = vc_unit; return 0; }
long __wrap_sysconf(int n) { if (!vc_on || (n != _SC_PHYS_PAGES && n != _SC_PAGESIZE)) return __real_sysconf(n); vc_sysconfn++; if (vc_sysconffail) { errno = ENOMEM; return -1; } if (n == _SC_PAGESIZE) return vc_pagesz; if (vc_sysconf_unlimited) return -1; return vc_pages; }
int __wrap_getrlimit(int w, struct rlimit *l) {
	if (!vc_on) return __real_getrlimit(w, l); vc_rlimitn++; if (vc_rlimitfail == w + 1 || vc_rlimitfail == -1) { errno = EFAULT; return -1; }
	if (w == RLIMIT_AS) l->rlim_cur = vc_as; else if (w == RLIMIT_RSS) l->rlim_cur = vc_rss; else if (w == RLIMIT_DATA) l->rlim_cur = vc_data; else return __real_getrlimit(w, l);
	l->rlim_max = vc_hard; return 0;
}
/* Where long has 32 bits: figures which the system can report. */
static void vc_fit(void) { if (sizeof(long) == 4) { while (vc_totalram >> 32) { vc_totalram >>= 1; if (vc_unit < 1u << 31) vc_unit <<= 1; } while (vc_pages >> 31) { vc_pages >>= 1; if (vc_pagesz < 1 << 30) vc_pagesz <<= 1; } } }
/* The smallest of what the machine is said to have. */
static uint64_t vc_min(int data) {
	uint64_t m = UINT64_MAX, t = vc_totalram * vc_unit; if (t < m) m = t;
	if (!vc_sysconf_unlimited && (uint64_t)vc_pages * vc_pagesz < m) m = (uint64_t)vc_pages * vc_pagesz;
	if (m > SIZE_MAX) m = SIZE_MAX; if (vc_as != RLIM_INFINITY && vc_as < m) m = vc_as; if (vc_rss != RLIM_INFINITY && vc_rss < m) m = vc_rss; if (data && vc_data != RLIM_INFINITY && vc_data < m) m = vc_data; return m;
}
/* every 512 cores take this long: measured speed is then exactly 512/T */
static void vc_speed(uint64_t us_per_512) { vc_nspercore = (double)us_per_512 * 1000 / 512; vc_res = 1; vc_frac = 0; vc_now = (vc_now + 999999) / 1000000 * 1000000; }
/* encode a file with the simulated derivation */
static void vc_encode(const uint8_t *pw, size_t pn, const uint8_t salt[32], int logN, uint32_t r, uint32_t p, const uint8_t *in, size_t n, uint8_t *out) {
	uint8_t dk[64], h[32]; vc_fakekdf(pw, pn, salt, 32, (uint64_t)1 << (logN & 63), r, p, dk, 64);
	memcpy(out, "scrypt", 7); out[7] = logN; o_be32(out + 8, r); o_be32(out + 12, p); memcpy(out + 16, salt, 32); o_sha256(out, 48, h); memcpy(out + 48, h, 16);
	o_hmac(dk + 32, 32, out, 64, h); memcpy(out + 64, h, 32); if (n) o_aesctr(dk, 32, 0, 0, in, out + 96, n); o_hmac(dk + 32, 32, out, 96 + n, out + 96 + n);
}
#define VC_WRAPS "crypto_scrypt,clock_gettime,clock_getres,gettimeofday,sysinfo,sysconf,getrlimit"
#endif
