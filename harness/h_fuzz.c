/* C14: hostile input to every parser of the library; sanitizers watch. Built as a libFuzzer target (-DLIBFUZZER) or stand-alone. */
#include "vh_io.h"
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include "scryptenc.h"
#include "scryptenc_print_error.h"
#include "crypto_scrypt.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "sha256.h"
#include "humansize.h"
#include "parsenum.h"
#include "passphrase_entry.h"
#include "readpass.h"

static const uint8_t *in_; static size_t left_;
static uint8_t b1(void) { if (!left_) return 0; left_--; return *in_++; }
static uint64_t bn(int n) { uint64_t v = 0; while (n--) v = v << 8 | b1(); return v; }
static FILE *realerr, *nullerr;
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { dprintf(2, "Assertion `%s' failed at %s:%u (%s)\n", e, f, l, fn); abort(); }
#define PW "fuzz-pass"
#define PWN 9
/* what a decryption of this header would cost; 0 if it must be refused without work */
static uint64_t cost(const uint8_t *h, size_t n) {
	uint64_t r, p; if (n < 16 || memcmp(h, "scrypt", 7)) return 0;
	r = (uint64_t)h[8] << 24 | h[9] << 16 | h[10] << 8 | h[11]; p = (uint64_t)h[12] << 24 | h[13] << 16 | h[14] << 8 | h[15];
	if (h[7] < 1 || h[7] > 63 || r == 0 || p == 0 || r * p >= 1 << 30) return 0;
	if (h[7] > 20) return UINT64_MAX; return (r * p) << h[7];
}
static void dk_(const uint8_t *f, uint8_t *dk) {
	uint32_t r = f[8] << 24 | f[9] << 16 | f[10] << 8 | f[11], p = f[12] << 24 | f[13] << 16 | f[14] << 8 | f[15];
	if (crypto_scrypt((const uint8_t *)PW, PWN, f + 16, 32, (uint64_t)1 << f[7], r, p, dk, 64)) memset(dk, 7, 64);
}
static void fix(uint8_t *f, size_t n, int how) {
	uint8_t h[32], dk[64]; uint64_t c;
	if (how & 8 && n >= 7) memcpy(f, "scrypt", 7);
	if (how & 16 && n >= 16) { f[7] = 1 + f[7] % 6; memset(f + 8, 0, 3); f[11] = 1 + f[11] % 8; memset(f + 12, 0, 3); f[15] = 1 + f[15] % 4; }
	if (n >= 64 && how & 1) { SHA256_Buf(f, 48, h); memcpy(f + 48, h, 16); }
	if (n >= 96 && how & 6) { c = cost(f, n); if (c == 0 || c > 1 << 14) return; dk_(f, dk); if (how & 2) HMAC_SHA256_Buf(dk + 32, 32, f, 64, f + 64); if (n >= 128 && how & 4) HMAC_SHA256_Buf(dk + 32, 32, f, n - 32, f + n - 32); }
}
static void status(int rc, const char *what) {
	if (rc < 0 || rc > 15 || (rc == 5)) { fprintf(realerr, "VH: undocumented status %d from %s\n", rc, what); abort(); }
	if (rc) scryptenc_print_error(rc, "in", rc & 1 ? NULL : "out");
#ifndef LIBFUZZER
	{ static char names[16][32]; static char nm[16][40]; snprintf(nm[rc], 40, "status_%d", rc); (void)names; vh_ev(nm[rc]); }
#endif
}
static FILE *srcf(struct vsrc *s, struct vpipe *v, const uint8_t *p, size_t n, int how, int *piped) {
	*piped = 0; if (how % 11 == 10) { *piped = 1; return vpipe_open(v, p, n, how / 11 % 3); }
	return vsrc_open(s, p, n, how % 9, how / 11 % 5 == 4 ? (long long)(n / 2) : -1, how & 1 ? 0 : how & 2 ? 1 : 4096);
}
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
	int op, how, rc, piped; struct scryptenc_params P = {1 << 20, 0.5, 300, 0, 0, 0}; size_t n, ol = 777; uint8_t *f, *o; struct vsrc s; struct vsnk k; struct vpipe v; FILE *I, *O; struct scryptdec_file_cookie *C; char tmp[64];
	if (!nullerr) { signal(SIGPIPE, SIG_IGN); nullerr = fopen("/dev/null", "w"); realerr = stderr; }
	if (size < 2) return 0;
	in_ = data; left_ = size; op = b1() % 12; how = b1(); stderr = nullerr;
	switch (op) {
	case 0: case 1: case 2: case 3: {
		struct gbuf gi, go; int io = b1(), force; uint64_t c; n = left_;
		f = gb_new(&gi, n, 0); if (n) memcpy(f, in_, n); fix(f, n, how); c = cost(f, n); force = c <= 1 << 14; if (!force) { P.maxtime = 0; P.maxmem = 1; }
		if (op == 0) { uint8_t *cp = malloc(n ? n : 1); if (n) memcpy(cp, f, n); o = gb_new(&go, n, 0); memset(o, 0x5a, n); mprotect(gi.map, gi.maplen, PROT_READ);
			rc = scryptdec_buf(f, n, o, &ol, (const uint8_t *)PW, PWN, &P, io & 1, force); status(rc, "scryptdec_buf");
			if (rc == 0 && ol != n - 128) { fprintf(realerr, "VH: output length %zu for %zu\n", ol, n); abort(); }
			if (!gb_ok(&go)) { fprintf(realerr, "VH: wrote outside the output buffer\n"); abort(); }
			if (rc == 0) { size_t i; volatile uint8_t x = 0; for (i = 0; i < ol; i++) if (o[i] == 1) x++; for (i = ol; i < n; i++) if (o[i] != 0x5a) { fprintf(realerr, "VH: wrote past the plaintext (byte %zu of %zu)\n", i, ol); abort(); } }
			if (n && memcmp(cp, f, n)) { fprintf(realerr, "VH: input changed\n"); abort(); }
			free(cp); gb_free(&go);
		} else if (op == 3) { I = srcf(&s, &v, f, n, io, &piped); rc = scryptdec_file_printparams(I); status(rc, "scryptdec_file_printparams"); if (piped) vpipe_close(&v, I); else fclose(I);
		} else { I = srcf(&s, &v, f, n, io, &piped); O = vsnk_open(&k, io / 55 % 3 == 2 ? (long long)(n / 3) : -1, io & 4 ? 1 : 0);
			if (op == 1) rc = scryptdec_file(I, O, (const uint8_t *)PW, PWN, &P, io & 1, force);
			else { C = NULL; rc = scryptdec_file_prep(I, (const uint8_t *)PW, PWN, &P, io & 1, force, &C); if (rc == 0) { if (io & 8) rc = scryptdec_file_copy(C, O); } scryptdec_file_cookie_free(C); }
			status(rc, op == 1 ? "scryptdec_file" : "prep/copy"); fclose(O); free(k.p); if (piped) vpipe_close(&v, I); else fclose(I); }
		gb_free(&gi); break; }
	case 4: case 5: { int fd = memfd_create("pw", 0); char *pw = NULL; size_t w = 0, rep = how & 1 ? 1 + bn(2) % 300 : 1; while (rep--) { if (left_ && write(fd, in_, left_) < 0) break; w += left_; if (w > 8000) break; } if (how & 2) { char pad[2100]; size_t want = 2030 + how / 4 % 40; memset(pad, 'x', sizeof pad); if (w < want) { if (write(fd, pad, want - w) < 0) abort(); w = want; } if (how & 128) if (write(fd, "\r\n", 2) < 0) abort(); }
		snprintf(tmp, sizeof tmp, "/proc/self/fd/%d", fd); rc = op == 4 ? readpass_file(&pw, tmp) : passphrase_entry_readpass(&pw, PASSPHRASE_FILE, tmp, "a", "b", how & 1);
		if (rc == 0) { if (strlen(pw) > 2047 || strpbrk(pw, "\r\n")) { fprintf(realerr, "VH: passphrase of %zu bytes or with a line end\n", strlen(pw)); abort(); } free(pw); } else if (rc != -1) { fprintf(realerr, "VH: readpass_file returned %d\n", rc); abort(); }
		close(fd); break; }
	case 6: { /* readpass from standard input without a terminal */
		char *pw = NULL; FILE *so = stdin; I = vsrc_open(&s, in_, left_, how % 9, how & 64 ? (long long)(left_ / 2) : -1, how & 32 ? 0 : 1); (void)so; fclose(I);
		{ int fd = memfd_create("in", 0); if (left_ && write(fd, in_, left_) < 0) abort(); if (how & 2) { char pad[2100]; memset(pad, 'y', sizeof pad); if (write(fd, pad, 2035 + how / 4 % 30) < 0) abort(); } lseek(fd, 0, SEEK_SET); stdin = fdopen(fd, "r"); rc = how & 1 ? readpass(&pw, "a", how & 128 ? "b" : NULL, 0) : passphrase_entry_readpass(&pw, PASSPHRASE_STDIN_ONCE, "", "a", "b", 0); fclose(stdin); stdin = so; }
		if (rc == 0) free(pw); break; }
	case 7: case 8: { /* encryption with arbitrary parameters and data */
		uint64_t c; struct scryptenc_params Q = {0, 0.125, 0.0001, 0, 0, 0}; int io = b1(), force = how & 1, L = b1();
		if (how & 2) { Q.logN = how & 4 ? L % 8 : how & 16 ? (int)bn(4) : L; Q.r = how & 4 ? b1() % 6 : bn(4); Q.p = how & 4 ? b1() % 4 : bn(4); }
		else { Q.maxmem = bn(1) << (b1() % 56); Q.maxmemfrac = (1 + bn(2)) / 65536.0; Q.maxtime = how & 8 ? 0 : bn(1) * 1e-6; }
		if (Q.logN || Q.r || Q.p) { if (!Q.logN) Q.logN = 1; if (!Q.r) Q.r = 1; if (!Q.p) Q.p = 1; } /* documented: all or none */
		/* expensive but valid parameters are not affordable; -1 < valid */
		if (Q.logN || Q.r || Q.p) { c = Q.logN < 1 || Q.logN > 63 || Q.r == 0 || Q.p == 0 || (uint64_t)Q.r * Q.p >= 1 << 30 ? 0 : Q.logN > 20 ? UINT64_MAX : ((uint64_t)Q.r * Q.p) << Q.logN; if (c > 1 << 15) break; }
		n = left_; if (op == 7) { struct gbuf gi, go; f = gb_new(&gi, n, 0); if (n) memcpy(f, in_, n); o = gb_new(&go, n + 128, 0); rc = scryptenc_buf(f, n, o, (const uint8_t *)PW, PWN, &Q, io & 1, force); status(rc, "scryptenc_buf"); if (!gb_ok(&go) || !gb_ok(&gi)) { fprintf(realerr, "VH: wrote outside the buffer\n"); abort(); }
			if (rc == 0) { volatile int z = 0; size_t i; for (i = 0; i < n + 128; i++) if (o[i] == 1) z++; } gb_free(&gi); gb_free(&go);
		} else { I = srcf(&s, &v, in_, n, io, &piped); O = vsnk_open(&k, io / 55 % 3 == 2 ? (long long)(n / 3) : -1, io & 4 ? 1 : 0); rc = scryptenc_file(I, O, (const uint8_t *)PW, PWN, &Q, io & 1, force); status(rc, "scryptenc_file"); fclose(O); free(k.p); if (piped) vpipe_close(&v, I); else fclose(I); }
		break; }
	case 9: { char *z = malloc(left_ + 1); enum passphrase_entry e; const char *a; memcpy(z, in_, left_); z[left_] = 0; (void)passphrase_entry_parse(z, &e, &a); free(z); break; }
	case 10: { char *z = malloc(left_ + 1); uint64_t u; double d; size_t q; uint32_t w; int i; char *h; memcpy(z, in_, left_); z[left_] = 0; (void)humansize_parse(z, &u);
		if (PARSENUM(&d, z, 0, how & 1 ? __builtin_inf() : 0.5) == 0 && !(d >= 0)) { fprintf(realerr, "VH: PARSENUM accepts %s as %g\n", z, d); abort(); }
		if (PARSENUM(&w, z, 1, 2048) == 0 && (w < 1 || w > 2048)) { fprintf(realerr, "VH: PARSENUM range\n"); abort(); } if (PARSENUM(&i, z, 10, 40) == 0 && (i < 10 || i > 40)) { fprintf(realerr, "VH: PARSENUM range\n"); abort(); } (void)PARSENUM(&q, z); (void)PARSENUM(&u, z, 0, UINT64_MAX); (void)PARSENUM(&i, z, -5, 5); free(z);
		u = bn(8) >> (how % 64); h = humansize(u); if (!h) abort(); if (strlen(h) > 8) { fprintf(realerr, "VH: humansize of %llu is %s\n", (unsigned long long)u, h); abort(); } free(h); break; }
	case 11: scryptenc_print_error(how % 2 ? 1 + how % 24 : -1 - how % 5, left_ & 1 ? "x" : NULL, left_ & 2 ? "y" : NULL); break;
	}
	stderr = realerr; return 0;
}
#ifndef LIBFUZZER
/* structured generation: argv = seed count maxlen */
int main(int argc, char **argv) {
	uint64_t st = strtoull(argv[1], 0, 10); long cnt = atol(argv[2]), i; static uint8_t b[300000]; size_t n, j; int only = argc > 3 ? atoi(argv[3]) : -1; char nm[12][24];
	for (i = 0; i < 12; i++) snprintf(nm[i], 24, "operation_%ld", i);
	vh_seed(st * 31 + 14);
	for (i = 0; i < cnt; i++) {
		int op = only >= 0 ? only : vh_rnd(12), how = vh_next(); size_t len;
		switch (vh_rnd(12)) { case 0: len = vh_rnd(4); break; case 1: case 2: len = vh_rnd(130); break; case 3: len = 60 + vh_rnd(80); break; case 4: len = vh_rnd(20) ? vh_rnd(3000) : 65536 - 200 + vh_rnd(400); break; case 5: len = vh_rnd(60) ? 90 + vh_rnd(10) : 131072 - 50 + vh_rnd(300); break; case 6: len = 120 + vh_rnd(20); break; case 7: len = 2040 + vh_rnd(16); break; default: len = vh_rnd(400); }
		b[0] = op; b[1] = how; n = 2;
		if (op <= 3) { b[n++] = vh_next(); size_t h0 = n; if (vh_rnd(12)) b[1] |= 8; if (vh_rnd(3)) b[1] |= 16 | 1; if (vh_rnd(2)) b[1] |= 2; if (vh_rnd(2)) b[1] |= 4; if (vh_rnd(2)) b[1] = 0x1f; vh_fill(b + n, len); n += len;
			if (vh_rnd(4) == 0 && len > 16) { b[1] &= ~16; b[h0 + 7] = vh_rnd(80); for (j = 8; j < 16; j++) b[h0 + j] = vh_rnd(3) ? 0 : vh_next(); if (vh_rnd(2)) { b[h0 + 11] = vh_rnd(256); b[h0 + 15] = vh_rnd(256); } if (vh_rnd(3) == 0) memset(b + h0 + 8 + 4 * vh_rnd(2), vh_rnd(2) ? 255 : 0, 4); }
		} else if (op >= 4 && op <= 6) { static const char al[] = "ab\r\n\0c\n\rde\xff\x80"; if (vh_rnd(2)) { len %= 12; for (j = 0; j < len; j++) b[n++] = al[vh_rnd(sizeof al)]; } else { for (j = 0; j < len; j++) b[n++] = 33 + vh_rnd(90); if (vh_rnd(2)) b[n++] = '\n'; if (vh_rnd(3) == 0) b[n++] = 'z'; if (vh_rnd(4) == 0) { memcpy(b + n, "\r\nmore\n", 7); n += 7; } } }
		else if (op == 9 || op == 10) { static const char *w[] = {"dev:", "tty-stdin", "env:", "file:", "stdin-once", "tty-once", ":", "dev", "kB", " ", "MB", "EB", "18446744073709551615", "18446744073709551616", "0", "1", "9", "inf", "nan", "-", "+", "0x", "1e", "e5", ".", "B", "P", "T", "\t", "999999999999999999999999", "infinity", "NAN(1)", "0.5", "k", "M", "G", "E"}; int kk = vh_rnd(5); while (kk--) { const char *q = w[vh_rnd(sizeof w / sizeof w[0])]; memcpy(b + n, q, strlen(q)); n += strlen(q); } if (vh_rnd(4) == 0) { vh_bytes(b + n, 9); n += 9; } }
		else { vh_fill(b + n, len + 20); n += len + 20; }
		LLVMFuzzerTestOneInput(b, n); vh_ev(nm[op]); { uint64_t h = 0; for (j = 0; j + 8 <= n; j += 8) { uint64_t x; memcpy(&x, b + j, 8); h = vh_mix(h ^ x); } vh_case(op, h, n, b[1]); }
	}
	if (nullerr) fclose(nullerr);
	return vh_done();
}
#endif
