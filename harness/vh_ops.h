/* Random operations of the library with their expected results (by the oracles). */
#ifndef VH_OPS_H_
#define VH_OPS_H_
#include "vh.h"
#include <sched.h>
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_scrypt.h"
#include "crypto_verify_bytes.h"
#include "sha256.h"
#include "cpusupport.h"
enum { OP_KDF, OP_SHA, OP_SHAINC, OP_HMAC, OP_HMACINC, OP_PBKDF2, OP_CTR, OP_CTRINC, OP_BLOCK, OP_VERIFY, NOP };
static const char *ON[] = { "kdf", "sha256_buf", "sha256_inc", "hmac_buf", "hmac_inc", "pbkdf2", "aesctr_buf", "aesctr_inc", "aes_block", "verify" };
struct work { int op; uint8_t in[900], key[96], want[900]; size_t n, kn, wn; uint64_t N; uint32_t r, p, c; uint64_t nonce; };
static void mkwork(struct work *w, int op) {
	memset(w, 0, sizeof *w); w->op = op; w->n = vh_rnd(900); w->kn = vh_rnd(90); if (!vh_rnd(3)) w->kn = 32; vh_bytes(w->in, sizeof w->in); vh_bytes(w->key, sizeof w->key); w->wn = 32;
	switch (op) {
	case OP_KDF: w->N = 2 << vh_rnd(7); w->r = 1 + vh_rnd(9); w->p = 1 + vh_rnd(3); w->n = vh_rnd(100); w->wn = 1 + vh_rnd(200); o_scrypt(w->key, w->kn, w->in, w->n, w->N, w->r, w->p, w->want, w->wn); break;
	case OP_SHA: case OP_SHAINC: o_sha256(w->in, w->n, w->want); break;
	case OP_HMAC: case OP_HMACINC: o_hmac(w->key, w->kn, w->in, w->n, w->want); break;
	case OP_PBKDF2: w->c = 1 + vh_rnd(4); w->n = vh_rnd(200); w->wn = 1 + vh_rnd(300); o_pbkdf2(w->key, w->kn, w->in, w->n, w->c, w->want, w->wn); break;
	case OP_CTR: case OP_CTRINC: w->kn = vh_rnd(2) ? 32 : 16; w->nonce = vh_rnd(3) ? vh_next() : 0; w->wn = w->n; o_aesctr(w->key, w->kn, w->nonce, 0, w->in, w->want, w->n); break;
	case OP_BLOCK: { EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l; w->kn = vh_rnd(2) ? 32 : 16; w->wn = 16; EVP_EncryptInit_ex(c, w->kn == 32 ? EVP_aes_256_ecb() : EVP_aes_128_ecb(), NULL, w->key, NULL); EVP_EncryptUpdate(c, w->want, &l, w->in, 16); EVP_CIPHER_CTX_free(c); break; }
	case OP_VERIFY: w->n = 32; w->wn = 1; memcpy(w->key, w->in, 32); if (vh_rnd(2)) w->key[vh_rnd(32)] ^= 1 << vh_rnd(8); w->want[0] = memcmp(w->key, w->in, 32) != 0; break;
	}
}
static int doone(const struct work *w, uint64_t *rs, const char **why) {
	uint8_t out[900], tmp[900]; size_t o, k; *why = "result"; memset(out, 0xee, sizeof out);
#define RN(m) (*rs = vh_mix(*rs), (size_t)(*rs >> 9) % (m))
	switch (w->op) {
	case OP_KDF: if (crypto_scrypt(w->key, w->kn, w->in, w->n, w->N, w->r, w->p, out, w->wn)) { *why = "failed"; return 1; } break;
	case OP_SHA: SHA256_Buf(w->in, w->n, out); break;
	case OP_SHAINC: { SHA256_CTX c; SHA256_Init(&c); for (o = 0; o < w->n; o += k) { k = 1 + RN(200); if (k > w->n - o) k = w->n - o; SHA256_Update(&c, w->in + o, k); if (RN(8) == 0) sched_yield(); } SHA256_Final(out, &c); break; }
	case OP_HMAC: HMAC_SHA256_Buf(w->key, w->kn, w->in, w->n, out); break;
	case OP_HMACINC: { HMAC_SHA256_CTX c; HMAC_SHA256_Init(&c, w->key, w->kn); for (o = 0; o < w->n; o += k) { k = 1 + RN(200); if (k > w->n - o) k = w->n - o; HMAC_SHA256_Update(&c, w->in + o, k); if (RN(8) == 0) sched_yield(); } HMAC_SHA256_Final(out, &c); break; }
	case OP_PBKDF2: PBKDF2_SHA256(w->key, w->kn, w->in, w->n, w->c, out, w->wn); break;
	case OP_CTR: case OP_CTRINC: { struct crypto_aes_key *K = crypto_aes_key_expand(w->key, w->kn); struct crypto_aesctr *s; if (!K) { *why = "failed"; return 1; }
		if (w->op == OP_CTR) crypto_aesctr_buf(K, w->nonce, w->in, out, w->n); else { s = crypto_aesctr_init(K, w->nonce); if (!s) { *why = "failed"; return 1; }
			for (o = 0; o < w->n; o += k) { k = 1 + RN(100); if (k > w->n - o) k = w->n - o; memcpy(tmp, w->in + o, k); crypto_aesctr_stream(s, tmp, out + o, k); if (RN(8) == 0) sched_yield(); } crypto_aesctr_free(s); }
		crypto_aes_key_free(K); break; }
	case OP_BLOCK: { struct crypto_aes_key *K = crypto_aes_key_expand(w->key, w->kn); if (!K) { *why = "failed"; return 1; } crypto_aes_encrypt_block(w->in, out, K); crypto_aes_key_free(K); break; }
	case OP_VERIFY: out[0] = crypto_verify_bytes(w->in, w->key, 32) != 0; break;
	}
	return memcmp(out, w->want, w->wn) != 0;
}
#endif
