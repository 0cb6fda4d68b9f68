/* Start-up code and what libgcc and libcrypto would have, for 32-bit programs (only the 32-bit libc and libgcc_s are here). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/aes.h>
#include <openssl/evp.h>
int main(int, char **, char **);
extern int __libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
__attribute__((used)) void start_c(long *sp) { __libc_start_main(main, (int)sp[0], (char **)(sp + 1), 0, 0, 0, sp); __builtin_trap(); }
__asm__(".globl _start\n_start:\n xorl %ebp,%ebp\n movl %esp,%eax\n andl $-16,%esp\n subl $12,%esp\n pushl %eax\n call start_c\n");
extern int __cxa_atexit(void (*)(void *), void *, void *);
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void *))f, 0, 0); }
/* ---- SHA-256, straight from FIPS 180-4 ---- */
static uint32_t K[64], H0[8]; static int kdone;
static uint32_t frac(double x) { (void)x; return 0; }
/* first 32 bits of the fractional part of the (1/k)th power of p: the largest q with q^k <= p * 2^(32k), by bisection */
static uint32_t root(unsigned p, int k) {
	uint64_t lo = 0, hi = (uint64_t)1 << 37; int i;
	while (hi - lo > 1) {
		uint64_t m = (lo + hi) / 2; uint32_t a[8] = { 0 }, b[8]; int n = 0, j, l; /* a = m^k in base 2^32 */
		a[0] = (uint32_t)m; a[1] = (uint32_t)(m >> 32);
		for (i = 1; i < k; i++) { uint32_t d[2] = { (uint32_t)m, (uint32_t)(m >> 32) }; memset(b, 0, sizeof b); for (j = 0; j < 6; j++) { uint64_t c = 0; for (l = 0; l < 2; l++) { c += (uint64_t)a[j] * d[l] + b[j + l]; b[j + l] = (uint32_t)c; c >>= 32; } for (n = j + 2; c && n < 8; n++) { c += b[n]; b[n] = (uint32_t)c; c >>= 32; } } memcpy(a, b, sizeof a); }
		{ int big = 0; for (j = 7; j > k; j--) if (a[j]) big = 1; if (a[k] > p || (a[k] == p && ({ int z = 0; for (j = 0; j < k; j++) if (a[j]) z = 1; z; }))) big = 1; if (big) hi = m; else lo = m; }
	}
	return (uint32_t)lo;
}
static void kinit(void) { unsigned p = 2, i, n = 0; for (; n < 64; p++) { for (i = 2; i * i <= p; i++) if (p % i == 0) break; if (i * i > p) { K[n] = root(p, 3); if (n < 8) H0[n] = root(p, 2); n++; } } kdone = 1; (void)frac; }
#define R(x, n) ((x) >> (n) | (x) << (32 - (n)))
static void blk(uint32_t *h, const uint8_t *m) {
	uint32_t w[64], s[8], a, b; int i;
	for (i = 0; i < 16; i++) w[i] = (uint32_t)m[4 * i] << 24 | m[4 * i + 1] << 16 | m[4 * i + 2] << 8 | m[4 * i + 3];
	for (; i < 64; i++) w[i] = (R(w[i - 2], 17) ^ R(w[i - 2], 19) ^ w[i - 2] >> 10) + w[i - 7] + (R(w[i - 15], 7) ^ R(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 16];
	memcpy(s, h, 32);
	for (i = 0; i < 64; i++) {
		a = s[7] + (R(s[4], 6) ^ R(s[4], 11) ^ R(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i]; b = (R(s[0], 2) ^ R(s[0], 13) ^ R(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
		memmove(s + 1, s, 28); s[4] += a; s[0] = a + b;
	}
	for (i = 0; i < 8; i++) h[i] += s[i];
}
struct evp_md_ctx_st { uint32_t h[8]; uint64_t n; uint8_t b[64]; };
const EVP_MD *EVP_sha256(void) { return (const EVP_MD *)K; }
EVP_MD_CTX *EVP_MD_CTX_new(void) { return calloc(1, sizeof(struct evp_md_ctx_st)); }
void EVP_MD_CTX_free(EVP_MD_CTX *c) { free(c); }
int EVP_MD_CTX_copy_ex(EVP_MD_CTX *o, const EVP_MD_CTX *i) { memcpy(o, i, sizeof *o); return 1; }
__attribute__((constructor)) static void init(void) { if (!kdone) kinit(); }
int EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *m, ENGINE *e) { (void)m; (void)e; memcpy(c->h, H0, 32); c->n = 0; return 1; }
int EVP_DigestUpdate(EVP_MD_CTX *c, const void *v, size_t n) {
	const uint8_t *p = v; unsigned u = (unsigned)(c->n & 63); c->n += n;
	while (n) { size_t k = 64 - u < n ? 64 - u : n; if (k == 64) blk(c->h, p); else { memcpy(c->b + u, p, k); if (u + k == 64) blk(c->h, c->b); } u = (u + k) & 63; p += k; n -= k; }
	return 1;
}
int EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *o, unsigned *l) {
	uint64_t bits = c->n * 8; uint8_t t[72] = { 0x80 }; unsigned u = (unsigned)(c->n & 63), k = (u < 56 ? 56 : 120) - u; int i;
	EVP_DigestUpdate(c, t, k); for (i = 0; i < 8; i++) t[i] = (uint8_t)(bits >> (56 - 8 * i)); EVP_DigestUpdate(c, t, 8);
	for (i = 0; i < 32; i++) o[i] = (uint8_t)(c->h[i / 4] >> (24 - 8 * (i & 3))); if (l) *l = 32; return 1;
}
/* ---- AES, straight from FIPS 197 ---- */
static uint8_t S[256]; static int sdone;
static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); } return r; }
static void sinit(void) { int i, j; for (i = 0; i < 256; i++) { uint8_t v = 1, x; for (j = 0; j < 254; j++) v = mul(v, (uint8_t)i); if (!i) v = 0; x = v; for (j = 0; j < 4; j++) { v = (uint8_t)(v << 1 | v >> 7); x ^= v; } S[i] = x ^ 0x63; } sdone = 1; }
int AES_set_encrypt_key(const unsigned char *k, const int bits, AES_KEY *out) {
	int nk = bits / 32, i, j; uint8_t *w = (uint8_t *)out->rd_key, t[4], rc = 1; if (!sdone) sinit(); if (bits != 128 && bits != 192 && bits != 256) return -2;
	out->rounds = nk + 6; memcpy(w, k, 4 * nk);
	for (i = nk; i < 4 * (nk + 7); i++) { memcpy(t, w + 4 * i - 4, 4);
		if (i % nk == 0) { uint8_t a = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[a]; rc = mul(rc, 2); } else if (nk > 6 && i % nk == 4) for (j = 0; j < 4; j++) t[j] = S[t[j]];
		for (j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - nk) + j] ^ t[j]; }
	return 0;
}
void AES_encrypt(const unsigned char *in, unsigned char *out, const AES_KEY *k) {
	uint8_t s[16], t[16]; const uint8_t *w = (const uint8_t *)k->rd_key; int r, i, c;
	for (i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
	for (r = 1; r <= k->rounds; r++) {
		for (i = 0; i < 16; i++) t[i] = S[s[(i + 4 * (i & 3)) & 15]];
		for (c = 0; c < 16; c += 4) for (i = 0; i < 4; i++) s[c + i] = r == k->rounds ? t[c + i] : mul(t[c + i], 2) ^ mul(t[c + ((i + 1) & 3)], 3) ^ t[c + ((i + 2) & 3)] ^ t[c + ((i + 3) & 3)];
		for (i = 0; i < 16; i++) s[i] ^= w[16 * r + i];
	}
	memcpy(out, s, 16);
}
struct evp_cipher_ctx_st { AES_KEY k; uint8_t c[16], ks[16]; int ctr, used; };
static const int kinds[4] = { 128, 256, 128 | 1, 256 | 1 };
const EVP_CIPHER *EVP_aes_128_ecb(void) { return (const EVP_CIPHER *)&kinds[0]; }
const EVP_CIPHER *EVP_aes_256_ecb(void) { return (const EVP_CIPHER *)&kinds[1]; }
const EVP_CIPHER *EVP_aes_128_ctr(void) { return (const EVP_CIPHER *)&kinds[2]; }
const EVP_CIPHER *EVP_aes_256_ctr(void) { return (const EVP_CIPHER *)&kinds[3]; }
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { return calloc(1, sizeof(struct evp_cipher_ctx_st)); }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { free(c); }
int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX *c, int p) { (void)c; (void)p; return 1; }
int EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *key, const unsigned char *iv) { int k; (void)e; if (t) { k = *(const int *)t; c->ctr = k & 1; AES_set_encrypt_key(key, k & ~1, &c->k); } c->used = 16; if (iv) memcpy(c->c, iv, 16); return 1; }
int EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *l, const unsigned char *in, int n) {
	int i, j; *l = n;
	if (!c->ctr) { for (i = 0; i + 16 <= n; i += 16) AES_encrypt(in + i, out + i, &c->k); return 1; }
	for (i = 0; i < n; i++) { if (c->used == 16) { AES_encrypt(c->c, c->ks, &c->k); for (j = 15; j >= 0 && ++c->c[j] == 0; j--) continue; c->used = 0; } out[i] = in[i] ^ c->ks[c->used++]; }
	return 1;
}
int EVP_PBE_scrypt(const char *a, size_t b, const unsigned char *c, size_t d, uint64_t N, uint64_t r, uint64_t p, uint64_t m, unsigned char *o, size_t n) { (void)a; (void)b; (void)c; (void)d; (void)N; (void)r; (void)p; (void)m; (void)o; (void)n; return 0; }
