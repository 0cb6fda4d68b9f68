/*
 * C20: secrets are marked undefined (valgrind memcheck) or poisoned (MemorySanitizer); every branch or
 * address that depends on one is then reported by the tool.
 */
#include "vh_io.h"
#include "scryptenc.h"
#include "sha256.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_verify_bytes.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#endif
#endif
#ifdef MSAN
#include <sanitizer/msan_interface.h>
#define SECRET(p, n) __msan_allocated_memory(p, n)
#define PUBLIC(p, n) __msan_unpoison(p, n)
#define TAINTED(p, n) (__msan_test_shadow(p, n) >= 0)
#else
#include <valgrind/memcheck.h>
#define SECRET(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define PUBLIC(p, n) VALGRIND_MAKE_MEM_DEFINED(p, n)
static int tainted(const uint8_t * p, size_t n) { uint8_t v[4096]; size_t i; if (n > sizeof v) n = sizeof v; if (VALGRIND_GET_VBITS(p, v, n) != 1) return 0; for (i = 0; i < n; i++) if (v[i]) return 1; return 0; }
#define TAINTED(p, n) tainted((const uint8_t *)(p), n)
#endif
static void must(int ok, const char * what) { if (!ok) { printf("HARNESS-ERROR secrets were lost in %s\n", what); fflush(stdout); _exit(3); } vh_ev("results_depending_on_secrets"); }

int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t * p, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t pp, uint8_t * b, size_t bl) {
	int rc; PUBLIC((void *)(uintptr_t)p, pl); rc = __real_crypto_scrypt(p, pl, s, sl, N, r, pp, b, bl); if (rc == 0) { PUBLIC(b, bl); SECRET(b, bl); vh_ev("keys_marked"); } return rc;
}
uint8_t __real_crypto_verify_bytes(const uint8_t *, const uint8_t *, size_t);
uint8_t __wrap_crypto_verify_bytes(const uint8_t * a, const uint8_t * b, size_t n) {
	uint8_t rc = __real_crypto_verify_bytes(a, b, n); if (n) must(TAINTED(&rc, sizeof rc), "a comparison"); PUBLIC(&rc, sizeof rc); vh_ev("decisions"); return rc;
}
static uint8_t A[70000], B[70000], D[256];
static void prim(int scale) {
	int k; size_t n, i, m;
	for (n = 0; n <= 70; n++) for (k = 0; k < 3 * scale; k++) {
		uint8_t rc; int pub; vh_bytes(A, n); memcpy(B, A, n); if (k && n) B[vh_rnd(n)] ^= 1 << vh_rnd(8);
		pub = !(k && n); SECRET(A, n); SECRET(B, n); rc = __real_crypto_verify_bytes(A, B, n); if (n) must(TAINTED(&rc, sizeof rc), "crypto_verify_bytes"); PUBLIC(&rc, sizeof rc); PUBLIC(A, n); PUBLIC(B, n);
		if ((rc == 0) != pub) vh_viol("verify-wrong", "crypto_verify_bytes of %zu bytes returns %d", n, rc);
		vh_ev("comparisons"); vh_case(1, n, k, 0);
	}
	for (k = 0; k < 60 * scale; k++) {
		SHA256_CTX c; HMAC_SHA256_CTX h; size_t kl = k % 4 == 0 ? vh_rnd(4) : k % 4 == 1 ? 62 + vh_rnd(6) : vh_rnd(200);
		n = k % 5 == 0 ? vh_rnd(3000) : vh_rnd(200); vh_bytes(A, n); vh_bytes(D, 256); SECRET(A, n); SECRET(D, kl);
		SHA256_Init(&c); for (i = 0; i < n; i += m) { m = 1 + vh_rnd(150); if (m > n - i) m = n - i; SHA256_Update(&c, A + i, m); } SHA256_Final(B, &c); if (n) must(TAINTED(B, 32), "SHA256"); PUBLIC(B, 32);
		SHA256_Buf(A, n, B); if (n) must(TAINTED(B, 32), "SHA256_Buf"); PUBLIC(B, 32); vh_evn("hashes", 2);
		HMAC_SHA256_Init(&h, D, kl); for (i = 0; i < n; i += m) { m = 1 + vh_rnd(150); if (m > n - i) m = n - i; HMAC_SHA256_Update(&h, A + i, m); } HMAC_SHA256_Final(B, &h); if (kl) must(TAINTED(B, 32), "HMAC"); PUBLIC(B, 32);
		HMAC_SHA256_Buf(D, kl, A, n, B); if (kl) must(TAINTED(B, 32), "HMAC_Buf"); PUBLIC(B, 32); vh_evn("macs", 2);
		m = 1 + vh_rnd(150); PBKDF2_SHA256(D, kl, A, vh_rnd(40), 1 + vh_rnd(3), B, m); if (kl) must(TAINTED(B, m), "PBKDF2"); PUBLIC(B, m); vh_ev("derivations");
		PUBLIC(A, n); PUBLIC(D, 256); vh_case(2, n, kl, k); vh_sample("hash, MAC and derivation with %zu secret message and %zu secret key bytes", n, kl);
	}
}
static void aes(int scale) {
	int k; size_t n, i, m;
	for (k = 0; k < 80 * scale; k++) {
		struct crypto_aes_key * K; struct crypto_aesctr * S; int kl = k & 1 ? 32 : 16;
		if (crypto_aes_can_use_intrinsics() == 0) { vh_ev("no_hardware_aes"); return; }
		vh_bytes(D, 32); n = vh_rnd(k % 7 ? 200 : 5000); vh_bytes(A, n); SECRET(D, kl); SECRET(A, n);
		if (!(K = crypto_aes_key_expand(D, kl))) vh_hard("key"); crypto_aes_encrypt_block(A, B, K); PUBLIC(B, 16);
		if (!(S = crypto_aesctr_init(K, vh_next()))) vh_hard("ctr");
		for (i = 0; i < n; i += m) { m = 1 + vh_rnd(100); if (m > n - i) m = n - i; crypto_aesctr_stream(S, A + i, B + i, m); }
		if (n) must(TAINTED(B, n), "AES-CTR"); PUBLIC(B, n); crypto_aesctr_free(S); crypto_aesctr_buf(K, 5, A, B, n); PUBLIC(B, n); crypto_aes_key_free(K); PUBLIC(D, 32); PUBLIC(A, n);
		vh_ev("cipher_streams"); vh_case(3, n, kl, k); vh_sample("AES-%d-CTR of %zu secret bytes", kl * 8, n);
	}
}
static uint8_t obuf[300000];
static void api(int scale, int hw) {
	int k, rc, op, bad; size_t n, ol = 0; struct scryptenc_params P; uint8_t pw[40];
	for (k = 0; k < 24 * scale; k++) for (op = 0; op < 4; op++) {
		struct vsrc s; struct vsnk t; FILE * I, * O; size_t en; static uint8_t enc[80000], dat[70000]; size_t pn = 1 + vh_rnd(40), p;
		if (!hw) return;
		vh_bytes(pw, pn); n = k % 6 == 5 ? 65000 + vh_rnd(1200) : vh_rnd(300); if (n > 69000) n = 69000; vh_bytes(dat, n); bad = vh_rnd(5);
		P = (struct scryptenc_params){ 0, 0.5, 300, 4, 1, 1 };
		/* a valid file, made beforehand by the library itself */
		if ((rc = scryptenc_buf(dat, n, enc, pw, pn, &P, 0, 1)) != 0) vh_hard("scryptenc_buf");
		PUBLIC(enc, n + 128); en = n + 128;
		if (op & 1) { if (bad == 1) enc[48 + vh_rnd(16)] ^= 1; if (bad == 2) enc[64 + vh_rnd(32)] ^= 1; if (bad == 3) { p = 96 + vh_rnd(en - 96); enc[p] ^= 1 << vh_rnd(8); } if (bad == 4) pw[vh_rnd(pn)] ^= 1; }
		else { PUBLIC(dat, n); SECRET(dat, n); }
		SECRET(pw, pn); if (op & 1) { SECRET(enc + 48, 48); if (n + 32) SECRET(enc + 96, n + 32); }
		P = (struct scryptenc_params){ 0, 0.5, 300, op & 1 ? 0 : 4, op & 1 ? 0 : 1, op & 1 ? 0 : 1 };
		if (op < 2) rc = op ? scryptdec_buf(enc, en, obuf, &ol, pw, pn, &P, 0, 1) : scryptenc_buf(dat, n, obuf, pw, pn, &P, 0, 1);
		else {
			I = vsrc_open(&s, op & 1 ? enc : dat, op & 1 ? en : n, 7, -1, 0); O = vsnk_open(&t, -1, 1); t.p = obuf; t.cap = sizeof obuf;
			rc = op & 1 ? scryptdec_file(I, O, pw, pn, &P, 0, 1) : scryptenc_file(I, O, pw, pn, &P, 0, 1); fclose(O); fclose(I);
		}
		PUBLIC(enc, sizeof enc); PUBLIC(dat, sizeof dat); PUBLIC(obuf, sizeof obuf); PUBLIC(pw, sizeof pw); PUBLIC(&rc, sizeof rc);
		if ((rc != 0) != ((op & 1) && bad)) vh_viol("api-wrong", "operation %d with damage %d returns %d", op, bad, rc);
		vh_ev(rc ? "files_rejected" : "files_accepted_or_made"); vh_case(4, n, op * 8 + bad, k); vh_sample("operation %d on %zu bytes, damage %d -> %d", op, n, bad, rc);
	}
}
int main(int argc, char ** argv) {
	uint64_t st = strtoull(argv[2], 0, 10); int scale = atoi(argv[3]); (void)argc; vh_seed(st);
#ifndef MSAN
	if (!RUNNING_ON_VALGRIND) vh_hard("not under valgrind");
#endif
	{ /* initialise everything outside the observation */ struct crypto_aes_key * K = crypto_aes_key_expand(D, 16); crypto_aes_key_free(K); SHA256_Buf(D, 3, A); }
	if (!strcmp(argv[1], "control")) { volatile int x; vh_bytes(A, 9); SECRET(A, 9); x = 0; if (A[3] > 100) x = 1; if (x) vh_ev("control_branch"); else vh_ev("control_branch_other"); PUBLIC(A, 9); return vh_done(); }
	prim(scale);
#ifndef MSAN
	aes(scale); api(scale, crypto_aes_can_use_intrinsics());
#endif
	return vh_done();
}
