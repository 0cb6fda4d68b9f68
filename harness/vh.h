/* Common part of the monitor harnesses: PRNG, reporting protocol, guarded buffers, oracles. */
#ifndef VH_H_
#define VH_H_
#include <sys/mman.h>
#include <assert.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>

/* ---- PRNG ---- */
static uint64_t vh_s[2] = {1, 2};
static inline uint64_t vh_next(void) {
	uint64_t a = vh_s[0], b = vh_s[1]; vh_s[0] = b; a ^= a << 23;
	vh_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return vh_s[1] + b;
}
static inline uint64_t vh_mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
static inline void vh_seed(uint64_t stream) {
	const char *e = getenv("VERIF_SEED"); uint64_t s = e ? strtoull(e, NULL, 10) : 1;
	vh_s[0] = vh_mix(s * 1000003 + stream); vh_s[1] = vh_mix(vh_s[0] + stream + 7); vh_next(); vh_next();
}
static inline uint64_t vh_rnd(uint64_t n) { return n ? vh_next() % n : 0; }
static inline void vh_bytes(void *p, size_t n) { uint8_t *b = p; size_t i; for (i = 0; i < n; i++) b[i] = (uint8_t)(vh_next() >> 11); }
/* fast filler for large buffers */
static inline void vh_fill(void *p, size_t n) {
	uint8_t *b = p; uint64_t v; size_t i = 0;
	for (; i + 8 <= n; i += 8) { v = vh_next(); memcpy(b + i, &v, 8); }
	for (; i < n; i++) b[i] = (uint8_t)(vh_next() >> 11);
}

/* NULL with length 0 is only offered to builds without sanitizers (formally NULL + 0 and memcpy(NULL, 0) are undefined). */
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(undefined_behavior_sanitizer)
#define VH_NULL(n, p) (p)
#endif
#endif
#ifndef VH_NULL
#define VH_NULL(n, p) ((n) || vh_rnd(2) ? (p) : NULL)
#endif

/* ---- reporting ---- */
#define VH_MAXEV 128
static struct { const char *n; uint64_t c; } vh_evs[VH_MAXEV];
static pthread_mutex_t vh_mtx = PTHREAD_MUTEX_INITIALIZER;
static uint64_t vh_nviol, vh_evals, vh_dist, vh_nsample;
static uint64_t *vh_set; static size_t vh_setcap, vh_setn;
static inline void vh_evn(const char *n, uint64_t k) {
	int i; pthread_mutex_lock(&vh_mtx);
	for (i = 0; i < VH_MAXEV; i++) {
		if (!vh_evs[i].n) { vh_evs[i].n = n; }
		if (!strcmp(vh_evs[i].n, n)) { vh_evs[i].c += k; break; }
	}
	pthread_mutex_unlock(&vh_mtx);
}
static inline void vh_ev(const char *n) { vh_evn(n, 1); }
static inline void vh_set_add(uint64_t h) {
	size_t i; if (h == 0) h = 1;
	if (vh_setn * 2 >= vh_setcap) {
		size_t oc = vh_setcap, j; uint64_t *os = vh_set; vh_setcap = oc ? oc * 2 : 4096;
		vh_set = calloc(vh_setcap, 8); vh_setn = 0;
		for (j = 0; j < oc; j++) if (os[j]) { i = vh_mix(os[j]) & (vh_setcap - 1); while (vh_set[i]) i = (i + 1) & (vh_setcap - 1); vh_set[i] = os[j]; vh_setn++; }
		free(os);
	}
	i = vh_mix(h) & (vh_setcap - 1);
	while (vh_set[i]) { if (vh_set[i] == h) return; i = (i + 1) & (vh_setcap - 1); }
	vh_set[i] = h; vh_setn++;
}
/* One evaluation, identified by the given numbers; counted distinct by identity. */
static inline void vh_case(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
	pthread_mutex_lock(&vh_mtx);
	vh_evals++; vh_set_add(vh_mix(a) ^ vh_mix(b * 3 + 1) * 5 ^ vh_mix(c * 7 + 2) * 11 ^ vh_mix(d * 13 + 3) * 17);
	pthread_mutex_unlock(&vh_mtx);
}
static inline void vh_viol(const char *key, const char *fmt, ...) {
	va_list ap; pthread_mutex_lock(&vh_mtx);
	if (vh_nviol++ < 25) {
		printf("VIOL %s|", key); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); fflush(stdout);
	}
	pthread_mutex_unlock(&vh_mtx);
}
static inline void vh_sample(const char *fmt, ...) {
	va_list ap; pthread_mutex_lock(&vh_mtx);
	if (vh_nsample++ < 4) { printf("SAMPLE "); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); }
	pthread_mutex_unlock(&vh_mtx);
}
static inline void vh_hard(const char *msg) { printf("HARNESS-ERROR %s errno=%d\n", msg, errno); fflush(stdout); _exit(3); }
/* instructions executed on the simulated ARM processor, in builds which use it */
extern unsigned long armsim_aes __attribute__((weak)), armsim_sha __attribute__((weak));
static inline int vh_done(void) {
	int i;
	if (&armsim_aes && armsim_aes) printf("EV arm_aes_instructions %lu\n", armsim_aes);
	if (&armsim_sha && armsim_sha) printf("EV arm_sha_instructions %lu\n", armsim_sha);
	for (i = 0; i < VH_MAXEV && vh_evs[i].n; i++) printf("EV %s %llu\n", vh_evs[i].n, (unsigned long long)vh_evs[i].c);
	printf("CASES %llu %llu\n", (unsigned long long)vh_evals, (unsigned long long)vh_setn);
	printf("DONE\n"); fflush(stdout);
	free(vh_set); vh_set = NULL; vh_setcap = vh_setn = 0;
	return 0;
}
static inline void vh_hex(char *o, const uint8_t *b, size_t n) { size_t i; for (i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", b[i]); o[2 * n] = 0; }

/* ---- guarded buffers: data ends exactly at an inaccessible page; canary in front ---- */
struct gbuf { uint8_t *map; size_t maplen; uint8_t *p; size_t n; size_t pad; uint8_t fillb; };
static inline uint8_t *gb_new(struct gbuf *g, size_t n, size_t tail) {
	/* tail: bytes of slack between the data and the inaccessible page (to vary alignment) */
	size_t pg = 4096, need = (n + tail + 64 + pg - 1) / pg * pg, i;
	g->maplen = need + 2 * pg;
	g->map = mmap(NULL, g->maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (g->map == MAP_FAILED) vh_hard("mmap");
	if (mprotect(g->map, pg, PROT_NONE) || mprotect(g->map + pg + need, pg, PROT_NONE)) vh_hard("mprotect");
	g->p = g->map + pg + need - n - tail; g->n = n; g->pad = tail; g->fillb = 0xa5;
	for (i = 1; i <= 64; i++) if (g->p - i >= g->map + pg) g->p[-(long)i] = 0xa5;
	memset(g->p + n, 0xa5, tail);
	return g->p;
}
/* 1 if the bytes around the data are intact */
static inline int gb_ok(struct gbuf *g) {
	size_t i;
	for (i = 1; i <= 64; i++) if (g->p - i >= g->map + 4096 && g->p[-(long)i] != 0xa5) return 0;
	for (i = 0; i < g->pad; i++) if (g->p[g->n + i] != 0xa5) return 0;
	return 1;
}
static inline void gb_free(struct gbuf *g) { munmap(g->map, g->maplen); }

/* ---- oracles (OpenSSL and straightforward code) ---- */
static inline void o_sha256(const uint8_t *in, size_t n, uint8_t out[32]) {
	unsigned int l; EVP_MD_CTX *c = EVP_MD_CTX_new();
	if (!c || EVP_DigestInit_ex(c, EVP_sha256(), NULL) != 1 || EVP_DigestUpdate(c, in, n) != 1 || EVP_DigestFinal_ex(c, out, &l) != 1) vh_hard("sha256");
	EVP_MD_CTX_free(c);
}
/* HMAC written out so that neither key nor message length is restricted by int. */
static inline void o_hmac2(const uint8_t *k, size_t kn, const uint8_t *a, size_t an, const uint8_t *b, size_t bn, uint8_t out[32]) {
	uint8_t kk[64], ih[32]; unsigned int l; int i; EVP_MD_CTX *c = EVP_MD_CTX_new(); uint8_t pad[64];
	memset(kk, 0, 64); if (kn > 64) o_sha256(k, kn, kk); else if (kn) memcpy(kk, k, kn);
	for (i = 0; i < 64; i++) pad[i] = kk[i] ^ 0x36;
	EVP_DigestInit_ex(c, EVP_sha256(), NULL); EVP_DigestUpdate(c, pad, 64);
	if (an) EVP_DigestUpdate(c, a, an); if (bn) EVP_DigestUpdate(c, b, bn);
	EVP_DigestFinal_ex(c, ih, &l);
	for (i = 0; i < 64; i++) pad[i] = kk[i] ^ 0x5c;
	EVP_DigestInit_ex(c, EVP_sha256(), NULL); EVP_DigestUpdate(c, pad, 64); EVP_DigestUpdate(c, ih, 32);
	if (EVP_DigestFinal_ex(c, out, &l) != 1) vh_hard("hmac");
	EVP_MD_CTX_free(c);
}
static inline void o_hmac(const uint8_t *k, size_t kn, const uint8_t *a, size_t an, uint8_t out[32]) { o_hmac2(k, kn, a, an, NULL, 0, out); }
/* Block index i (from 1) of PBKDF2-HMAC-SHA256. */
struct o_pb { EVP_MD_CTX *in, *out, *c, *insalt; };
static inline void o_pb_init(struct o_pb *P, const uint8_t *pw, size_t pwn, const uint8_t *s, size_t sn) {
	uint8_t kk[64], pad[64]; int i;
	memset(kk, 0, 64); if (pwn > 64) o_sha256(pw, pwn, kk); else if (pwn) memcpy(kk, pw, pwn);
	P->in = EVP_MD_CTX_new(); P->out = EVP_MD_CTX_new(); P->c = EVP_MD_CTX_new(); P->insalt = EVP_MD_CTX_new();
	for (i = 0; i < 64; i++) pad[i] = kk[i] ^ 0x36;
	EVP_DigestInit_ex(P->in, EVP_sha256(), NULL); EVP_DigestUpdate(P->in, pad, 64);
	for (i = 0; i < 64; i++) pad[i] = kk[i] ^ 0x5c;
	EVP_DigestInit_ex(P->out, EVP_sha256(), NULL); EVP_DigestUpdate(P->out, pad, 64);
	EVP_MD_CTX_copy_ex(P->insalt, P->in); if (sn) EVP_DigestUpdate(P->insalt, s, sn);
}
static inline void o_pb_block(struct o_pb *P, uint64_t c, uint64_t idx, uint8_t T[32]) {
	uint8_t ib[4], U[32]; unsigned int l; uint64_t j; int k;
	ib[0] = idx >> 24; ib[1] = idx >> 16; ib[2] = idx >> 8; ib[3] = idx;
	EVP_MD_CTX_copy_ex(P->c, P->insalt); EVP_DigestUpdate(P->c, ib, 4); EVP_DigestFinal_ex(P->c, U, &l);
	EVP_MD_CTX_copy_ex(P->c, P->out); EVP_DigestUpdate(P->c, U, 32); EVP_DigestFinal_ex(P->c, U, &l);
	memcpy(T, U, 32);
	for (j = 1; j < c; j++) {
		EVP_MD_CTX_copy_ex(P->c, P->in); EVP_DigestUpdate(P->c, U, 32); EVP_DigestFinal_ex(P->c, U, &l);
		EVP_MD_CTX_copy_ex(P->c, P->out); EVP_DigestUpdate(P->c, U, 32); EVP_DigestFinal_ex(P->c, U, &l);
		for (k = 0; k < 32; k++) T[k] ^= U[k];
	}
}
static inline void o_pb_free(struct o_pb *P) { EVP_MD_CTX_free(P->in); EVP_MD_CTX_free(P->out); EVP_MD_CTX_free(P->c); EVP_MD_CTX_free(P->insalt); }
static inline void o_pbkdf2(const uint8_t *pw, size_t pwn, const uint8_t *s, size_t sn, uint64_t c, uint8_t *out, size_t n) {
	struct o_pb P; uint64_t i; uint8_t T[32]; size_t k;
	o_pb_init(&P, pw, pwn, s, sn);
	for (i = 0; i * 32 < n; i++) { o_pb_block(&P, c, i + 1, T); k = n - i * 32; if (k > 32) k = 32; memcpy(out + i * 32, T, k); }
	o_pb_free(&P);
}
/* RFC 7914, written from the RFC. */
static inline uint32_t o_le32(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static inline void o_st32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static inline void o_salsa(uint32_t B[16]) {
	uint32_t x[16]; int i; memcpy(x, B, 64);
#define OR(a, b) (((a) << (b)) | ((a) >> (32 - (b))))
#define OQ(a, b, c, d) x[b] ^= OR(x[a] + x[d], 7); x[c] ^= OR(x[b] + x[a], 9); x[d] ^= OR(x[c] + x[b], 13); x[a] ^= OR(x[d] + x[c], 18);
	for (i = 0; i < 8; i += 2) {
		OQ(0, 4, 8, 12) OQ(5, 9, 13, 1) OQ(10, 14, 2, 6) OQ(15, 3, 7, 11)
		OQ(0, 1, 2, 3) OQ(5, 6, 7, 4) OQ(10, 11, 8, 9) OQ(15, 12, 13, 14)
	}
	for (i = 0; i < 16; i++) B[i] += x[i];
#undef OQ
#undef OR
}
static inline void o_blockmix(const uint32_t *B, uint32_t *Y, size_t r) {
	uint32_t X[16]; size_t i; int j;
	memcpy(X, &B[(2 * r - 1) * 16], 64);
	for (i = 0; i < 2 * r; i++) {
		for (j = 0; j < 16; j++) X[j] ^= B[i * 16 + j];
		o_salsa(X);
		memcpy(&Y[((i & 1) ? r + i / 2 : i / 2) * 16], X, 64);
	}
}
static inline void o_romix(uint8_t *B, size_t r, uint64_t N) {
	size_t w = 32 * r, k; uint64_t i, j; uint32_t *X = malloc(w * 4), *Y = malloc(w * 4), *V = malloc(w * 4 * N);
	if (!X || !Y || !V) vh_hard("oracle memory");
	for (k = 0; k < w; k++) X[k] = o_le32(B + 4 * k);
	for (i = 0; i < N; i++) { memcpy(V + i * w, X, w * 4); o_blockmix(X, Y, r); memcpy(X, Y, w * 4); }
	for (i = 0; i < N; i++) {
		j = (((uint64_t)X[(2 * r - 1) * 16 + 1] << 32) | X[(2 * r - 1) * 16]) & (N - 1);
		for (k = 0; k < w; k++) X[k] ^= V[j * w + k];
		o_blockmix(X, Y, r); memcpy(X, Y, w * 4);
	}
	for (k = 0; k < w; k++) o_st32(B + 4 * k, X[k]);
	free(X); free(Y); free(V);
}
static inline void o_scrypt(const uint8_t *pw, size_t pwn, const uint8_t *s, size_t sn, uint64_t N, size_t r, size_t p, uint8_t *out, size_t n) {
	size_t i; uint8_t *B = malloc(128 * r * p + 1); if (!B) vh_hard("oracle memory");
	o_pbkdf2(pw, pwn, s, sn, 1, B, 128 * r * p);
	for (i = 0; i < p; i++) o_romix(B + i * 128 * r, r, N);
	o_pbkdf2(pw, pwn, B, 128 * r * p, 1, out, n);
	free(B);
}
/* AES-CTR key stream position pos (byte) with 64-bit nonce, XORed over buf. keylen 16 or 32. */
static inline void o_aesctr(const uint8_t *key, size_t keylen, uint64_t nonce, uint64_t pos, const uint8_t *in, uint8_t *out, size_t n) {
	uint8_t iv[16], sk[16], z[16] = {0}; int l, i; uint64_t b = pos / 16; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); size_t off = 0, k;
	for (i = 0; i < 8; i++) { iv[i] = nonce >> (56 - 8 * i); iv[8 + i] = b >> (56 - 8 * i); }
	if (EVP_EncryptInit_ex(c, keylen == 32 ? EVP_aes_256_ctr() : EVP_aes_128_ctr(), NULL, key, iv) != 1) vh_hard("aes");
	if (pos % 16) EVP_EncryptUpdate(c, sk, &l, z, pos % 16);
	while (off < n) { k = n - off; if (k > 1 << 26) k = 1 << 26; if (EVP_EncryptUpdate(c, out + off, &l, in + off, k) != 1) vh_hard("aesupd"); off += k; }
	EVP_CIPHER_CTX_free(c);
}
static inline void o_be32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
/* Encode according to FORMAT; out has n + 128 bytes. dkout (64 bytes) may be NULL. */
static inline void o_encode(const uint8_t *pw, size_t pwn, const uint8_t salt[32], int logN, uint32_t r, uint32_t p,
    const uint8_t *in, size_t n, uint8_t *out, uint8_t *dkout) {
	uint8_t dk[64], h[32];
	o_scrypt(pw, pwn, salt, 32, (uint64_t)1 << logN, r, p, dk, 64);
	memcpy(out, "scrypt", 7); out[7] = logN; o_be32(out + 8, r); o_be32(out + 12, p); memcpy(out + 16, salt, 32);
	o_sha256(out, 48, h); memcpy(out + 48, h, 16);
	o_hmac(dk + 32, 32, out, 64, h); memcpy(out + 64, h, 32);
	o_aesctr(dk, 32, 0, 0, in, out + 96, n);
	o_hmac(dk + 32, 32, out, 96 + n, out + 96 + n);
	if (dkout) memcpy(dkout, dk, 64);
}
/* Recompute checksum / header HMAC / final HMAC of a (modified) file in place, given key_hmac (NULL: skip those). */
static inline void o_fix(uint8_t *f, size_t n, const uint8_t *kh, int which) {
	uint8_t h[32];
	if (which & 1) { o_sha256(f, 48, h); memcpy(f + 48, h, 16); }
	if ((which & 2) && kh) o_hmac(kh, 32, f, 64, f + 64);
	if ((which & 4) && kh) o_hmac(kh, 32, f, n - 32, f + n - 32);
}
/* Check a file against FORMAT. Returns NULL if it conforms, else what is wrong. plaintext compared to in/n. */
static inline const char *o_conforms(const uint8_t *f, size_t fn, const uint8_t *pw, size_t pwn, int logN, uint32_t r, uint32_t p,
    const uint8_t *in, size_t n) {
	uint8_t dk[64], h[32], t[4]; uint8_t *pt; const char *e = NULL;
	if (fn != n + 128) return "wrong length";
	if (memcmp(f, "scrypt", 6)) return "bad magic";
	if (f[6] != 0) return "bad version";
	if (f[7] != logN) return "wrong log2(N)";
	o_be32(t, r); if (memcmp(f + 8, t, 4)) return "wrong r";
	o_be32(t, p); if (memcmp(f + 12, t, 4)) return "wrong p";
	o_sha256(f, 48, h); if (memcmp(f + 48, h, 16)) return "bad checksum";
	o_scrypt(pw, pwn, f + 16, 32, (uint64_t)1 << logN, r, p, dk, 64);
	o_hmac(dk + 32, 32, f, 64, h); if (memcmp(h, f + 64, 32)) return "bad header HMAC";
	o_hmac(dk + 32, 32, f, fn - 32, h); if (memcmp(h, f + fn - 32, 32)) return "bad final HMAC";
	pt = malloc(n + 1); o_aesctr(dk, 32, 0, 0, f + 96, pt, n);
	if (n && memcmp(pt, in, n)) e = "ciphertext does not decrypt to the input";
	free(pt); return e;
}
#endif
