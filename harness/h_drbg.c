/* C10: salts and random bytes against a model of HMAC_DRBG fed with the entropy actually handed out.
 * wraps: open,open64,openat,read,close,getrandom,getentropy,generate_seed_rdrand */
#include "vh.h"
#include <fcntl.h>
#include <stdarg.h>
#include "crypto_entropy.h"
#include "scryptenc.h"

/* ---- interposed entropy ---- */
static uint64_t estream; static uint64_t epos;         /* deterministic entropy stream and position */
static uint8_t ebyte(uint64_t i) { return (uint8_t)(vh_mix(estream + i * 0x9e3779b97f4a7c15ULL) >> 23); }
static int shortmode, openfail, closefail, closeintr; static long readfail = -1; static int readeof; static int nopen, nclose; static int vfd = -1;
static struct { uint64_t pos; size_t n; } got[64]; static int ngot;       /* entropy handed out in this call */
static uint8_t rd[16][256]; static size_t rdn[16]; static int nrd, rdfailp, rdcalls;
static uint64_t delivered;
int __real_open(const char *, int, ...); int __real_openat(int, const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
static int isrnd(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
static int vopen(void) { if (openfail) { errno = openfail == 1 ? ENOENT : EMFILE; vh_ev("fault_open"); return -1; } vfd = __real_open("/dev/null", O_RDONLY); nopen++; return vfd; }
int __wrap_open(const char *p, int f, ...) { va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a); return isrnd(p) ? vopen() : __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a); return isrnd(p) ? vopen() : __real_open(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a); return isrnd(p) ? vopen() : __real_openat(d, p, f, m); }
static ssize_t give(void *b, size_t n) {
	size_t i, k = n;
	if (shortmode == 1) k = 1; else if (shortmode == 2) k = 1 + vh_rnd(n); else if (shortmode == 3 && n > 1) k = n - 1; else if (shortmode == 4 && n > 16) k = 16;
	if (readfail >= 0 && (uint64_t)readfail < k) k = readfail;
	if (readfail == 0 && n) { vh_ev(readeof ? "fault_eof" : "fault_read"); if (readeof) return 0; errno = vh_rnd(2) ? EIO : EINTR; return -1; }
	for (i = 0; i < k; i++) ((uint8_t *)b)[i] = ebyte(epos + i);
	epos += k; delivered += k; if (readfail > 0) readfail -= k; if (k < n) vh_ev("short_reads"); vh_ev("entropy_reads"); return k;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd == vfd && fd >= 0 ? give(b, n) : __real_read(fd, b, n); }
int __wrap_close(int fd) {
	if (fd != vfd || fd < 0) return __real_close(fd);
	if (closeintr) { closeintr--; errno = EINTR; return -1; }
	__real_close(fd); vfd = -1; nclose++; if (closefail) { vh_ev("fault_close"); errno = EIO; return -1; } return 0;
}
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { return give(b, n); }
int __wrap_getentropy(void *b, size_t n) { ssize_t k; while (n) { k = give(b, n); if (k <= 0) return -1; b = (uint8_t *)b + k; n -= k; } return 0; }
int __wrap_generate_seed_rdrand(unsigned *b, size_t n) {
	size_t i; rdcalls++; vh_ev("rdrand_calls");
	if (rdfailp && vh_rnd(3) == 0) { for (i = 0; i < n / 2; i++) b[i] = vh_next(); vh_ev("rdrand_failed"); return 1; }
	for (i = 0; i < n; i++) b[i] = vh_next(); if (nrd >= 16 || n * 4 > 256) vh_hard("rdrand log"); memcpy(rd[nrd], b, rdn[nrd] = 4 * n); nrd++; return 0;
}
/* ---- the model: SP 800-90A HMAC_DRBG ---- */
static uint8_t K[32], V[32]; static int inst; static uint32_t cnt;
static void m_update(const uint8_t *d, size_t n) {
	uint8_t t[33 + 300], x[32];
	memcpy(t, V, 32); t[32] = 0; if (n) memcpy(t + 33, d, n); o_hmac(K, 32, t, 33 + n, x); memcpy(K, x, 32); o_hmac(K, 32, V, 32, x); memcpy(V, x, 32);
	if (!n) return;
	memcpy(t, V, 32); t[32] = 1; memcpy(t + 33, d, n); o_hmac(K, 32, t, 33 + n, x); memcpy(K, x, 32); o_hmac(K, 32, V, 32, x); memcpy(V, x, 32);
}
static uint64_t mpos; static int mrd; static int why_ok;
static void m_rd(void) { while (mrd < nrd) { m_update(rd[mrd], rdn[mrd]); mrd++; } }
static void m_seed(size_t n) { uint8_t e[48]; size_t i; for (i = 0; i < n; i++) e[i] = ebyte(mpos + i); mpos += n; m_update(e, n); if (mrd < nrd) { m_update(rd[mrd], rdn[mrd]); mrd++; } cnt = 1; }
/* Expected output of one successful request. Requires the entropy positions to line up. */
static void m_read(uint8_t *out, size_t n) {
	size_t k, o; uint8_t x[32];
	if (!inst) { memset(K, 0, 32); memset(V, 1, 32); m_seed(48); inst = 1; vh_ev("instantiations"); }
	while (n) {
		if (cnt > 256) { m_seed(32); vh_ev("reseeds"); }
		k = n > 65536 ? 65536 : n;
		for (o = 0; o < k; o += 32) { o_hmac(K, 32, V, 32, x); memcpy(V, x, 32); memcpy(out + o, V, k - o < 32 ? k - o : 32); }
		m_update(NULL, 0); cnt++; out += k; n -= k;
	}
}
static int m_needs(size_t n) { uint32_t g = (n + 65535) / 65536; return !inst || cnt + g > 257; }
static uint8_t *exp_, *buf; static size_t bufn;
static void faults_off(void) { openfail = closefail = closeintr = 0; readfail = -1; readeof = 0; }
static void begin(void) { nrd = mrd = 0; ngot = 0; delivered = 0; mpos = epos; }
int main(int argc, char **argv) {
	uint64_t st = strtoull(argv[1], 0, 10); int reqs = atoi(argv[2]), i, rc, f, mid; size_t n, k; vh_seed(st + 101010);
	estream = vh_next(); bufn = 300000; exp_ = malloc(bufn); buf = malloc(bufn + 64); rdfailp = st % 3 == 0; { int z = open("/dev/null", O_WRONLY); if (z < 0 || dup2(z, 2) != 2) vh_hard("dup2"); }
	for (i = 0; i < reqs; i++) {
		struct scryptenc_params P = {0, 0.5, 1, 1, 1, 1}; int kind = vh_rnd(10), enc = 0, fault = 0; uint8_t *salt = NULL;
		shortmode = vh_rnd(5); faults_off();
		n = kind < 5 ? 32 : kind == 5 ? 1 + vh_rnd(100) : kind == 6 ? 1 + vh_rnd(3000) : kind == 7 ? 65536 + vh_rnd(3) - 1 : kind == 8 ? 131072 + vh_rnd(70) - 35 : 1 + vh_rnd(200000);
		if (kind > 6 && vh_rnd(4)) n = 32;
		enc = n == 32 && vh_rnd(2); mid = m_needs(n); begin();
		/* sometimes a fault; only matters when entropy is needed */
		if (vh_rnd(mid ? 2 : 30) == 0) { fault = 1 + vh_rnd(6); switch (fault) { case 1: openfail = 1 + vh_rnd(2); break; case 2: readfail = 0; break; case 3: readfail = vh_rnd(inst ? 32 : 48); break; case 4: readfail = vh_rnd(inst ? 32 : 48); readeof = 1; break; case 5: closefail = 1; break; case 6: closeintr = 1 + vh_rnd(3); break; } }
		for (k = 0; k < n + 64; k++) buf[k] = 0xc3;
		if (enc) { uint8_t in[40], out[168]; struct scryptenc_params Q = P; memset(out, 0xc3, sizeof out); vh_bytes(in, 40);
			if (vh_rnd(2)) rc = scryptenc_buf(in, 40, out, (uint8_t *)"pw", 2, &Q, 0, 1);
			else { char *mb = NULL; size_t ms = 0; FILE *I = fmemopen(in, 40, "r"), *O = open_memstream(&mb, &ms); rc = scryptenc_file(I, O, (uint8_t *)"pw", 2, &Q, 0, 1); fclose(I); fclose(O); if (rc == 0) memcpy(out, mb, 168); else if (ms) vh_viol("output-without-salt", "scryptenc_file fails (%d) after writing %zu bytes", rc, ms); free(mb); }
			if (rc && rc != 4) vh_viol("code", "entropy failure reported as %d, not as the salt error", rc);
			memcpy(buf, out + 16, 32); if (rc) for (k = 0; k < 168; k++) if (out[k] != 0xc3) { vh_viol("output-without-salt", "output written although no salt was read (%d)", rc); break; }
			vh_ev("salts"); }
		else { rc = crypto_entropy_read(buf, n); vh_ev("requests"); }
		f = mid && fault && fault != 6;
		if (f && rc == 0) { vh_viol("fault-ignored", "request %d of %zu bytes succeeds although entropy could not be %s", i, n, fault == 1 ? "opened" : fault == 5 ? "closed" : "read"); break; }
		if (!f && rc != 0) { vh_viol("control", "request %d of %zu bytes fails without a fault (short reads %d)", i, n, shortmode); break; }
		if (f) {
			vh_ev("failed_requests"); mpos = epos; /* what was read is lost; the state is unchanged */
			if (n <= 65536) for (k = 0; k < n; k++) if (buf[k] != 0xc3) { vh_viol("bytes-delivered", "request %d of %zu bytes fails but bytes were delivered at %zu", i, n, k); break; }
			if (n > 65536 && inst) { /* part of the request may have been generated before the reseed failed: follow that */
				size_t left = n, o = 0; uint8_t x[32]; while (left && cnt <= 256) { size_t kk = left > 65536 ? 65536 : left, q; for (q = 0; q < kk; q += 32) { o_hmac(K, 32, V, 32, x); memcpy(V, x, 32); } m_update(NULL, 0); cnt++; left -= kk; o += kk; } }
			vh_case(1, fault, inst, n);
		} else {
			int was = inst; m_read(exp_, n);
			if (mpos != epos) vh_viol("entropy-amount", "request %d: %llu bytes of entropy used, the DRBG calls for %llu", i, (unsigned long long)delivered, (unsigned long long)(delivered + mpos - epos));
			if (memcmp(buf, exp_, n)) { vh_viol(enc ? "salt" : "bytes", "request %d of %zu bytes is not the HMAC_DRBG output for the entropy supplied (%s)", i, n, was ? "running" : "after instantiation"); break; }
			for (k = 0; k < 64; k++) if (!enc && buf[n + k] != 0xc3) { vh_viol("overrun", "request %d writes past its buffer", i); break; }
			vh_ev("outputs_compared"); vh_case(2, cnt, n, mid * 8 + shortmode);
		}
		if (nopen != nclose || vfd != -1) { vh_viol("descriptor-leak", "opened %d times, closed %d times (fault %d)", nopen, nclose, fault); nclose = nopen; vfd = -1; }
	}
	vh_sample("%d requests: %llu entropy bytes consumed, reseed counter ends at %u", i, (unsigned long long)epos, cnt);
	free(buf); free(exp_); return vh_done();
}
