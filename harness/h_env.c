/* C21: every environment call made by the library fails in turn (alone, in pairs, persistently), in cold and warm processes.
 * One counter runs over all of: allocations, mmap, munmap, clock_gettime, clock_getres, gettimeofday, getrlimit, sysinfo,
 * sysconf, open/read/close of the entropy device and (software build) AES_set_encrypt_key.
 * args: mode(single|pair|persist) stream count */
#ifdef __clang__
#pragma clang attribute push(__attribute__((no_sanitize("address", "undefined"))), apply_to = function)
#endif
#include "vh.h"
#include "vh_alloc.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <openssl/aes.h>
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "scryptenc.h"
enum { K_ALLOC, K_MUNMAP, K_CLOCK, K_RES, K_LIMIT, K_OPEN, K_READ, K_CLOSE, K_AES, K_N };
static const char *KN[] = { "alloc", "munmap", "clock", "clockres", "limit", "open", "read", "close", "aeskey" };
enum { P_OTHER, P_KDF, P_SALT, P_KEY, P_CTR };
static struct shared { uint64_t n, fired, kinds[K_N], rcs[32], okfallback, trials, cleanok, reseeds, phases[8]; long lastn; int lastfired; } *S;
static int on, eintr; static int ph; static long cnt; static long kcnt[K_N];
static struct plan { long a, b; int kind; long from; uint32_t fl; } P;
static struct { int kind, ph, err, soft; } F[8]; static int nF; static long firedtot;
/* would this call fail? *e gets the error number; soft: a fallback or retry may legitimately hide it */
static int env(int kind, int *e) {
	int f; uint32_t x; if (!on) return 0;
	cnt++; kcnt[kind]++;
	f = cnt == P.a || cnt == P.b || (P.kind == kind && kcnt[kind] >= P.from) || (P.kind == K_N && cnt >= P.from);
	if (!f) return 0;
	x = P.fl; *e = ENOMEM; int soft = 0;
	switch (kind) {
	case K_ALLOC: soft = 1; break;
	case K_MUNMAP: *e = EINVAL; soft = 1; break;
	case K_CLOCK: case K_RES: *e = x % 4 == 0 ? EPERM : x % 4 == 1 ? EINVAL : x % 4 == 2 ? ENOSYS : EFAULT; soft = *e == EINVAL || *e == ENOSYS; break;
	case K_LIMIT: *e = x % 3 == 0 ? EFAULT : x % 3 == 1 ? EPERM : ENOMEM; break;
	case K_OPEN: *e = x % 3 == 0 ? ENOENT : x % 3 == 1 ? EMFILE : EACCES; break;
	case K_READ: *e = x % 3 == 0 ? EIO : x % 3 == 1 ? 0 /* EOF */ : EINVAL; break;
	case K_CLOSE: *e = x % 2 || eintr++ > 2 ? EIO : EINTR; soft = 1; break;
	case K_AES: break;
	}
	if (nF < 8) { F[nF].kind = kind; F[nF].ph = ph; F[nF].err = *e; F[nF].soft = soft; nF++; }
	firedtot++; S->kinds[kind]++; S->phases[ph]++;
	return 1;
}
static int hk_alloc(size_t n) { int e; return env(K_ALLOC, &e); }
static int hk_munmap(void) { int e; if (env(K_MUNMAP, &e)) { errno = e; return 1; } return 0; }
/* ---- simulated clock: one millisecond per reading ---- */
static uint64_t now = 5000000000ULL;
int __real_clock_gettime(clockid_t, struct timespec *); int __real_clock_getres(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *);
int __real_sysinfo(struct sysinfo *); long __real_sysconf(int); int __real_getrlimit(int, struct rlimit *);
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { int e; if (!on) return __real_clock_gettime(c, t); if (env(K_CLOCK, &e)) { errno = e; return -1; } now += 1000000; t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000; return 0; }
int __wrap_clock_getres(clockid_t c, struct timespec *t) { int e; if (!on) return __real_clock_getres(c, t); if (env(K_RES, &e)) { errno = e; return -1; } t->tv_sec = 0; t->tv_nsec = 1; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { int e; if (!on) return __real_gettimeofday(t, z); if (env(K_CLOCK, &e)) { errno = e; return -1; } now += 1000000; t->tv_sec = now / 1000000000; t->tv_usec = now % 1000000000 / 1000; return 0; }
int __wrap_sysinfo(struct sysinfo *i) { int e; if (on && env(K_LIMIT, &e)) { errno = e; return -1; } return __real_sysinfo(i); }
long __wrap_sysconf(int n) { int e; if (on && (n == _SC_PHYS_PAGES || n == _SC_PAGESIZE) && env(K_LIMIT, &e)) { errno = e; return -1; } return __real_sysconf(n); }
int __wrap_getrlimit(int w, struct rlimit *l) { int e; if (on && env(K_LIMIT, &e)) { errno = e; return -1; } return __real_getrlimit(w, l); }
static int rfd = -1; static int shortread; static long opens;
int __wrap_open(const char *p, int f, ...) {
	va_list a; int m, e, r; va_start(a, f); m = va_arg(a, int); va_end(a);
	if (!on || strncmp(p, "/dev/", 5)) return __real_open(p, f, m);
	opens++; if (env(K_OPEN, &e)) { errno = e; return -1; }
	r = __real_open(p, f, m); rfd = r; return r;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
	int e; if (!on || fd != rfd || fd < 0) return __real_read(fd, b, n);
	if (env(K_READ, &e)) { if (!e) return 0; errno = e; return -1; }
	return __real_read(fd, b, shortread && n > 20 ? 20 : n);
}
int __wrap_close(int fd) { int e; if (on && fd == rfd && fd >= 0) { if (env(K_CLOSE, &e)) { if (e != EINTR) { __real_close(fd); rfd = -1; } errno = e; return -1; } rfd = -1; } return __real_close(fd); }
#ifdef SOFTAES
int __real_AES_set_encrypt_key(const unsigned char *, const int, AES_KEY *);
int __wrap_AES_set_encrypt_key(const unsigned char *k, const int n, AES_KEY *s) { int e; if (on && env(K_AES, &e)) return -2; return __real_AES_set_encrypt_key(k, n, s); }
#endif
/* ---- phases ---- */
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t *a, size_t b, const uint8_t *c, size_t d, uint64_t N, uint32_t r, uint32_t p, uint8_t *o, size_t n) { int q = ph, x; ph = P_KDF; x = __real_crypto_scrypt(a, b, c, d, N, r, p, o, n); ph = q; return x; }
int __real_crypto_entropy_read(uint8_t *, size_t);
int __wrap_crypto_entropy_read(uint8_t *b, size_t n) { int q = ph, x; ph = P_SALT; x = __real_crypto_entropy_read(b, n); ph = q; return x; }
struct crypto_aes_key *__real_crypto_aes_key_expand(const uint8_t *, size_t);
struct crypto_aes_key *__wrap_crypto_aes_key_expand(const uint8_t *k, size_t n) { int q = ph; struct crypto_aes_key *x; ph = P_KEY; x = __real_crypto_aes_key_expand(k, n); ph = q; return x; }
struct crypto_aesctr *__real_crypto_aesctr_init(const struct crypto_aes_key *, uint64_t);
struct crypto_aesctr *__wrap_crypto_aesctr_init(const struct crypto_aes_key *k, uint64_t n) { int q = ph; struct crypto_aesctr *x; ph = P_CTR; x = __real_crypto_aesctr_init(k, n); ph = q; return x; }

/* ---- operations ---- */
enum { O_ENCBUF, O_DECBUF, O_ENCFILE, O_DECFILE, O_PREPCOPY, O_N };
static const char *ON[] = { "enc_buf", "dec_buf", "enc_file", "dec_file", "prep_copy" };
#define PTN 200
static uint8_t pt[PTN], goodfile[PTN + 128], salt0[32]; static const uint8_t *pw = (const uint8_t *)"environment"; static const size_t pwn = 11;
static uint8_t out[PTN + 4096]; static size_t outn; static int errfd;
struct cfg { int op, expl, force, verb; };
static int fdcount(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; if (!d) vh_hard("fds"); while (readdir(d)) n++; closedir(d); return n; }
static int doop(const struct cfg *c) {
	struct scryptenc_params p = { 1 << 22, 0.5, 0.001, 0, 0, 0 }; FILE *fi, *fo; int rc; struct scryptdec_file_cookie *C = NULL; int enc = c->op == O_ENCBUF || c->op == O_ENCFILE;
	if (enc && c->expl) { p.logN = 5; p.r = 3; p.p = 2; }
	if (!enc) { p.maxmem = 0; p.maxmemfrac = 0.5; p.maxtime = 10; }
	memset(out, 0, sizeof out); outn = 0;
	if (c->op == O_ENCBUF) { rc = scryptenc_buf(pt, PTN, out, pw, pwn, &p, c->verb, c->force); outn = PTN + 128; return rc; }
	if (c->op == O_DECBUF) { rc = scryptdec_buf(goodfile, PTN + 128, out, &outn, pw, pwn, &p, c->verb, c->force); return rc; }
	{ int w = on; on = 0; va_on = 0; fi = fmemopen(enc ? pt : goodfile, enc ? PTN : PTN + 128, "r"); fo = fmemopen(out, sizeof out, "w"); if (!fi || !fo) vh_hard("fmemopen"); on = w; va_on = w; }
	if (c->op == O_ENCFILE) rc = scryptenc_file(fi, fo, pw, pwn, &p, c->verb, c->force);
	else if (c->op == O_DECFILE) rc = scryptdec_file(fi, fo, pw, pwn, &p, c->verb, c->force);
	else { rc = scryptdec_file_prep(fi, pw, pwn, &p, c->verb, c->force, &C); if (rc == 0) rc = scryptdec_file_copy(C, fo); if (C || rc == 0) scryptdec_file_cookie_free(C); }
	{ int w = on; on = 0; va_on = 0; fflush(fo); outn = ftell(fo); fclose(fo); fclose(fi); on = w; va_on = w; }
	return rc;
}
/* 1 if out/outn is the correct result of the operation */
static int correct(const struct cfg *c) {
	static uint8_t pl[PTN]; uint8_t dk[64], h[32]; int logN;
	if (c->op != O_ENCBUF && c->op != O_ENCFILE) return outn == PTN && !memcmp(out, pt, PTN);
	if (outn != PTN + 128 || memcmp(out, "scrypt", 7)) return 0;
	logN = out[7]; if (logN < 1 || logN > 14) return 0;
	if (c->expl && (logN != 5 || out[11] != 3 || out[15] != 2)) return 0;
	{ int i, z = 1; for (i = 0; i < 32; i++) if (out[16 + i]) z = 0; if (z) return 0; }
	o_scrypt(pw, pwn, out + 16, 32, (uint64_t)1 << logN, out[8] << 24 | out[9] << 16 | out[10] << 8 | out[11], out[12] << 24 | out[13] << 16 | out[14] << 8 | out[15], dk, 64);
	o_sha256(out, 48, h); if (memcmp(h, out + 48, 16)) return 0;
	o_hmac(dk + 32, 32, out, 64, h); if (memcmp(h, out + 64, 32)) return 0;
	o_hmac(dk + 32, 32, out, 96 + PTN, h); if (memcmp(h, out + 96 + PTN, 32)) return 0;
	o_aesctr(dk, 32, 0, 0, out + 96, pl, PTN); return !memcmp(pl, pt, PTN);
}
static int expected(int i, int rc) {
	switch (F[i].kind) {
	case K_ALLOC: case K_MUNMAP: case K_AES:
		switch (F[i].ph) { case P_KDF: return rc == SCRYPT_EKEY; case P_SALT: return rc == SCRYPT_ESALT; case P_KEY: return rc == SCRYPT_EOPENSSL; case P_CTR: return rc == SCRYPT_ENOMEM; default: return rc == SCRYPT_ENOMEM; }
	case K_CLOCK: case K_RES: return rc == SCRYPT_ECLOCK;
	case K_LIMIT: return rc == SCRYPT_ELIMIT;
	default: return rc == SCRYPT_ESALT;
	}
}
static char desc[400];
static void describe(const struct cfg *c, int cold, int rc) {
	int i, o = snprintf(desc, sizeof desc, "%s explicit=%d force=%d verbose=%d %s:", ON[c->op], c->expl, c->force, c->verb, cold == 2 ? "reseed" : cold ? "cold" : "warm");
	for (i = 0; i < nF && i < 4; i++) o += snprintf(desc + o, sizeof desc - o, " %s[phase %d errno %d]", KN[F[i].kind], F[i].ph, F[i].err);
	snprintf(desc + o, sizeof desc - o, " (call %ld,%ld) returned %d", P.a, P.b, rc);
}
static void trial(const struct cfg *c, int cold) {
	int fd0, rc, i, ok = 0, anysoft = 1, unm = 0; struct plan none = { -1, -1, -1, 0, 0 }, keep = P; fd0 = fdcount();
	nF = 0; firedtot = 0; eintr = 0; cnt = 0; memset(kcnt, 0, sizeof kcnt); va_begin(); on = 1; ph = P_OTHER; errno = 0;
	rc = doop(c); on = 0; va_stop();
	S->lastn = cnt; S->lastfired = firedtot; S->trials++; if (rc >= 0 && rc < 32) S->rcs[rc]++;
	describe(c, cold, rc);
	for (i = 0; i < nF; i++) { if (!F[i].soft) anysoft = 0; if (F[i].kind == K_MUNMAP) unm++; }
	if (rc == SCRYPT_OK) {
		/* success is only right if every failure could be worked around, and with the right result */
		if (nF && !anysoft) vh_viol("false_success", "%s", desc);
		else if (!correct(c)) vh_viol("wrong_result", "%s", desc);
		else if (nF) S->okfallback++;
	} else {
		for (i = 0; i < nF; i++) if (expected(i, rc)) ok = 1;
		if (firedtot > 8) for (i = 0; i < nF; i++) ok |= rc > 0 && rc < 16; 
		if (!ok) vh_viol(nF ? "wrong_error" : "error_without_fault", "%s", desc);
	}
	if (va_n > unm) vh_viol("leak", "%s; %d blocks outstanding", desc, va_n);
	if (fdcount() != fd0) vh_viol("fd_leak", "%s", desc);
	if (nF) S->fired++;
	/* the failure has passed */
	P = none; va_begin(); on = 1; rc = doop(c); on = 0; va_stop();
	if (rc != SCRYPT_OK) vh_viol("later_call_fails", "%s; afterwards %d", desc, rc); else if (!correct(c)) vh_viol("later_call_wrong", "%s", desc); else S->cleanok++;
	if (va_n) vh_viol("leak_later", "%s; %d blocks", desc, va_n);
	P = keep;
}
/* bring the generator to the point where the next read reseeds */
static void to_reseed(void) {
	uint8_t b[32]; int i; struct plan none = { -1, -1, -1, 0, 0 }; P = none; on = 1; opens = 0;
	for (i = 0; i < 3000; i++) { if (crypto_entropy_read(b, 32)) vh_hard("entropy"); if (opens) break; }
	if (i == 0) { opens = 0; for (i = 0; i < 3000; i++) { if (crypto_entropy_read(b, 32)) vh_hard("entropy"); if (opens) break; } }
	if (opens) { for (i = 0; i < 255; i++) if (crypto_entropy_read(b, 32)) vh_hard("entropy"); S->reseeds++; }
	on = 0;
}
static void child(void (*f)(void *), void *a, const char *what) {
	pid_t pid; int st; fflush(stdout);
	pid = fork(); if (pid < 0) vh_hard("fork");
	if (pid == 0) { alarm(60); f(a); fflush(stdout); _exit(vh_nviol ? 9 : 0); }
	if (waitpid(pid, &st, 0) != pid) vh_hard("waitpid");
	if (WIFSIGNALED(st)) vh_viol(WTERMSIG(st) == SIGALRM ? "hang" : "crash", "%s: signal %d, call %ld,%ld kind %d from %ld flavour %u", what, WTERMSIG(st), P.a, P.b, P.kind, P.from, P.fl);
	else if (WEXITSTATUS(st) == 9) vh_nviol++;
	else if (WEXITSTATUS(st)) vh_viol("crash", "%s: exit status %d, call %ld,%ld kind %d from %ld", what, WEXITSTATUS(st), P.a, P.b, P.kind, P.from);
}
struct job { struct cfg c; int cold; };
static void run1(void *a) { struct job *j = a; struct plan k = P; if (j->cold == 2) { to_reseed(); P = k; } if (j->cold == 0) { struct plan none = { -1, -1, -1, 0, 0 }; P = none; on = 1; doop(&j->c); on = 0; P = k; } trial(&j->c, j->cold); }
/* warm: one process, all single failures one after another */
static void runall(void *a) { struct job *j = a; long k; struct plan p = { -1, -1, -1, 0, 0 }; P = p; trial(&j->c, 0);
	for (k = 1; k < 3000; k++) { P = p; P.a = k; P.fl = vh_next(); trial(&j->c, 0); if (!S->lastfired) break; } }
static void quiet(void) { int fd = __real_open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); __real_close(fd); } }
int main(int argc, char **argv) {
	const char *mode = argv[1]; int stream = atoi(argv[2]); int count = atoi(argv[3]), i, o, e, f, v; struct job j; char what[100]; uint8_t dk[64];
	va_hook = hk_alloc; va_munmaphook = hk_munmap;
	S = __real_mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (S == MAP_FAILED) vh_hard("mmap");
	vh_seed(2100 + stream); vh_bytes(pt, PTN); vh_bytes(salt0, 32);
	if (!getenv("VH_LOUD")) quiet();
	o_scrypt(pw, pwn, salt0, 32, 16, 2, 1, dk, 64); memcpy(goodfile, "scrypt", 7); goodfile[7] = 4; o_be32(goodfile + 8, 2); o_be32(goodfile + 12, 1); memcpy(goodfile + 16, salt0, 32);
	{ uint8_t h[32]; o_sha256(goodfile, 48, h); memcpy(goodfile + 48, h, 16); o_hmac(dk + 32, 32, goodfile, 64, h); memcpy(goodfile + 64, h, 32); o_aesctr(dk, 32, 0, 0, pt, goodfile + 96, PTN); o_hmac(dk + 32, 32, goodfile, 96 + PTN, goodfile + 96 + PTN); }
	shortread = stream & 1;
	for (o = 0; o < O_N; o++) for (e = 0; e < 2; e++) for (f = 0; f < 2; f++) for (v = 0; v < 2; v++) {
		int cold; if (e && o != O_ENCBUF && o != O_ENCFILE) continue;
		j.c.op = o; j.c.expl = e; j.c.force = f; j.c.verb = v;
		for (cold = 0; cold < 3; cold++) {
			long k, n; struct plan z = { -1, -1, -1, 0, 0 };
			if (cold == 2 && (!(o == O_ENCBUF || o == O_ENCFILE) || v)) continue;
			j.cold = cold; snprintf(what, sizeof what, "%s explicit=%d force=%d verbose=%d cold=%d", ON[o], e, f, v, cold);
			if (!strcmp(mode, "single")) {
				if (cold == 0) { child(runall, &j, what); n = S->lastn; for (k = 1; k <= n; k++) vh_case(o * 8 + e * 4 + f * 2 + v, 0, k, 0); continue; }
				for (k = 1; k < 3000; k++) { P = z; P.a = k; P.fl = vh_next(); S->lastfired = -1; child(run1, &j, what); vh_case(o * 8 + e * 4 + f * 2 + v, cold, k, P.fl % 12); if (S->lastfired <= 0) break; }
				/* each kind of error number at each place */
				continue;
			}
			P = z; child(run1, &j, what); n = S->lastn; if (n < 1) continue;
			for (i = 0; i < count; i++) {
				P = z; P.fl = vh_next();
				if (!strcmp(mode, "pair")) { P.a = 1 + vh_rnd(n); P.b = 1 + vh_rnd(n + 3); if (P.b <= P.a) { long t = P.a; P.a = P.b; P.b = t; } }
				else { P.kind = vh_rnd(K_N + 1); P.from = 1 + vh_rnd(P.kind == K_ALLOC || P.kind == K_N ? 12 : 4); }
				child(run1, &j, what); vh_case((uint64_t)(o * 8 + e * 4 + f * 2 + v) * 16 + cold, P.a + 1, P.b + 1 + 1000 * P.from, P.kind + 1 + 64 * (P.fl % 12));
			}
		}
	}
	vh_evn("trials", S->trials); vh_evn("trials_with_fault", S->fired); vh_evn("ok_by_fallback", S->okfallback); vh_evn("later_call_correct", S->cleanok); vh_evn("reseed_positions", S->reseeds);
	for (i = 0; i < K_N; i++) { static char nm[K_N][24]; snprintf(nm[i], 24, "fault_%s", KN[i]); vh_evn(nm[i], S->kinds[i]); }
	for (i = 0; i < 16; i++) if (S->rcs[i]) { static char nm[16][24]; snprintf(nm[i], 24, "returned_%d", i); vh_evn(nm[i], S->rcs[i]); }
	for (i = 0; i < 5; i++) if (S->phases[i]) { static char nm[5][24]; snprintf(nm[i], 24, "fault_in_phase_%d", i); vh_evn(nm[i], S->phases[i]); }
	vh_sample("%s: %llu trials, %llu with a fault", mode, (unsigned long long)S->trials, (unsigned long long)S->fired);
	return vh_done();
}
#ifdef __clang__
#pragma clang attribute pop
#endif
