#include <time.h>
/* C04: AES-CTR (and the AES block function) against OpenSSL. */
#include "vh.h"
#include <openssl/aes.h>
#include "crypto_aes.h"
#include "crypto_aesctr.h"

static struct crypto_aes_key *expand(const uint8_t *k, size_t kl) {
	struct crypto_aes_key *K; uint8_t *c = malloc(kl); memcpy(c, k, kl);
	K = crypto_aes_key_expand(c, kl); if (!K) vh_viol("expand", "crypto_aes_key_expand(%zu) failed", kl);
	memset(c, 0xdd, kl); free(c); return K;
}
static size_t chunk(int style, size_t left, uint64_t pos) {
	size_t k;
	switch (style) {
	case 0: return left;
	case 1: k = 1; break;
	case 2: k = 16 - pos % 16; break;
	case 3: k = 15; break;
	case 4: k = 17; break;
	case 5: k = vh_rnd(8) ? vh_rnd(50) : vh_rnd(1000); break;
	case 6: k = vh_rnd(3); break;
	case 7: k = 16 * vh_rnd(6) + vh_rnd(3); break;
	case 8: k = 8 + vh_rnd(2); break;
	default: k = 16 + (16 - pos % 16) % 16 + vh_rnd(2) * 16; break;
	}
	return k > left ? left : k;
}
static void stream_case(size_t n, int style, size_t kl, uint64_t nonce, int inplace, size_t align) {
	struct gbuf gi, go; uint8_t key[32], *in = gb_new(&gi, n, align % 17), *out = inplace ? in : gb_new(&go, n, align / 17 % 17), *ref = malloc(n + 1), *sv = malloc(n + 1);
	struct crypto_aes_key *K; struct crypto_aesctr *S; size_t o = 0, k, i;
	vh_bytes(key, 32); vh_fill(in, n); memcpy(sv, in, n); o_aesctr(key, kl, nonce, 0, in, ref, n);
	if (!inplace) memset(out, 0x77, n);
	K = expand(key, kl);
	if (style == 100) crypto_aesctr_buf(K, nonce, in, out, n);
	else {
		if (vh_rnd(2)) S = crypto_aesctr_init(K, nonce);
		else { S = crypto_aesctr_alloc(); if (S) crypto_aesctr_init2(S, K, nonce); }
		if (!S) { vh_viol("init", "crypto_aesctr_init failed"); return; }
		while (o < n) { k = chunk(style, n - o, o); crypto_aesctr_stream(S, VH_NULL(k, in + o), VH_NULL(k, out + o), k); o += k; vh_ev("stream_calls"); }
		crypto_aesctr_free(S);
	}
	crypto_aes_key_free(K);
	for (i = 0; i < n && out[i] == ref[i]; i++) ;
	if (i < n) vh_viol("stream", "wrong from byte %zu of %zu: chunk style %d, %zu-byte key, nonce %llx, in place %d, align %zu", i, n, style, kl, (unsigned long long)nonce, inplace, align);
	if (!inplace && memcmp(sv, in, n)) vh_viol("input-modified", "input changed, length %zu style %d", n, style);
	if (!gb_ok(&gi) || (!inplace && !gb_ok(&go))) vh_viol("overrun", "bytes around a buffer changed: length %zu style %d align %zu", n, style, align);
	vh_ev("streams_compared"); vh_case(n, style, nonce ^ kl, align * 2 + inplace);
	gb_free(&gi); if (!inplace) gb_free(&go); free(ref); free(sv);
}
static uint64_t rnonce(void) { switch (vh_rnd(6)) { case 0: return 0; case 1: return ~0ULL; case 2: return 1ULL << vh_rnd(64); case 3: return vh_rnd(256); default: return vh_next(); } }
/* block function */
static void block_case(size_t kl, int how) {
	uint8_t key[32], in[16], buf[64], ref[16], z[16]; AES_KEY A; struct crypto_aes_key *K; uint8_t *i = buf + vh_rnd(16), *o = buf + 32 + vh_rnd(16);
	vh_bytes(key, 32); vh_bytes(in, 16); if (how & 4) memset(key, 0, 32); if (how & 8) memset(in, 0xff, 16);
	AES_set_encrypt_key(key, kl * 8, &A); AES_encrypt(in, ref, &A); (void)z;
	K = expand(key, kl); if (how & 1) o = i; if (how & 2) { o = i + vh_rnd(15); }
	memcpy(i, in, 16); crypto_aes_encrypt_block(i, o, K); crypto_aes_key_free(K);
	if (memcmp(o, ref, 16)) vh_viol("block", "AES-%zu block wrong (overlap %d)", kl * 8, how & 3);
	vh_ev("blocks_compared"); vh_case(how, kl, vh_next(), 600);
}
/* many streams over shared keys, interleaved, reset with init2 (NULL key keeps the key) */
static void inter(int rounds) {
	enum { M = 16, KN = 5 }; uint8_t key[KN][32]; size_t kl[KN]; struct crypto_aes_key *K[KN]; struct crypto_aesctr *S[M]; int kk[M]; uint64_t nonce[M], pos[M]; int i, r; uint8_t in[700], out[700], ref[700];
	for (i = 0; i < KN; i++) { vh_bytes(key[i], 32); kl[i] = i & 1 ? 16 : 32; K[i] = expand(key[i], kl[i]); }
	for (i = 0; i < M; i++) { kk[i] = vh_rnd(KN); nonce[i] = rnonce(); pos[i] = 0; S[i] = crypto_aesctr_init(K[kk[i]], nonce[i]); }
	for (r = 0; r < rounds; r++) {
		size_t n = vh_rnd(4) ? vh_rnd(40) : vh_rnd(700); i = vh_rnd(M);
		if (vh_rnd(12) == 0) { int keep = vh_rnd(2); nonce[i] = rnonce(); if (!keep) kk[i] = vh_rnd(KN); crypto_aesctr_init2(S[i], keep ? NULL : K[kk[i]], nonce[i]); pos[i] = 0; vh_ev("resets"); }
		if (vh_rnd(20) == 0) { crypto_aesctr_buf(K[vh_rnd(KN)], rnonce(), in, out, n); }
		vh_fill(in, n); o_aesctr(key[kk[i]], kl[kk[i]], nonce[i], pos[i], in, ref, n);
		if (vh_rnd(2)) { crypto_aesctr_stream(S[i], in, out, n); } else { memcpy(out, in, n); crypto_aesctr_stream(S[i], out, out, n); }
		if (memcmp(ref, out, n)) { vh_viol("interleaved", "stream %d wrong at position %llu, %zu bytes, after %d operations", i, (unsigned long long)pos[i], n, r); break; }
		pos[i] += n; vh_ev("interleaved_calls"); vh_case(pos[i], n, kk[i], 700);
	}
	for (i = 0; i < M; i++) crypto_aesctr_free(S[i]); for (i = 0; i < KN; i++) crypto_aes_key_free(K[i]);
	crypto_aes_key_free(NULL); crypto_aesctr_free(NULL);
}
/* Move one stream to a position by processing data there, checking around counter carries. Data before is checked too. */
static void carry(uint64_t upto, int fast) {
	uint8_t key[32]; size_t bs = 1 << 20; uint8_t *in = malloc(bs + 64), *out = malloc(bs + 64), *ref = malloc(bs + 64); struct crypto_aes_key *K; struct crypto_aesctr *S; uint64_t pos = 0, nonce = rnonce(), nb = 1; time_t t0 = time(NULL); int limit = upto > 1ULL << 35 ? 200 : 500; EVP_CIPHER_CTX *E = EVP_CIPHER_CTX_new(); uint8_t iv[16] = {0}; int l, i;
	vh_bytes(key, 32); vh_fill(in, bs); K = expand(key, 32); S = crypto_aesctr_init(K, nonce);
	for (i = 0; i < 8; i++) iv[i] = nonce >> (56 - 8 * i);
	EVP_EncryptInit_ex(E, EVP_aes_256_ctr(), NULL, key, iv);
	while (pos < upto) {
		/* near multiples of 2^8, 2^16, 2^24, 2^28, ... blocks go in small uneven pieces, otherwise in big ones */
		uint64_t nextb = ((pos / (16 * 256)) + 1) * 16 * 256, unit = fast ? 16ULL * (1 << 16) : 16 * 256, nx = (pos / unit + 1) * unit; size_t n;
		(void)nextb;
		if (nx - pos <= 64 || pos % unit < 64) n = vh_rnd(40); else n = nx - pos - 40;
		if (n > bs) n = bs; if (vh_rnd(3) == 0 && n > 33) n = n & ~(size_t)15;
		crypto_aesctr_stream(S, in, out, n); EVP_EncryptUpdate(E, ref, &l, in, n);
		if (memcmp(out, ref, n)) { size_t k; for (k = 0; out[k] == ref[k]; k++) ; vh_viol("carry", "wrong key stream at byte %llu (block %llu), call of %zu bytes", (unsigned long long)(pos + k), (unsigned long long)((pos + k) / 16), n); break; }
		pos += n; vh_ev("carry_calls");
		if (!(++nb & 255) && time(NULL) - t0 > limit) { vh_ev("carry_out_of_time"); break; }
	}
	vh_evn("carry_blocks", pos / 16); vh_case(upto, fast, nonce, 800);
	crypto_aesctr_free(S); crypto_aes_key_free(K); EVP_CIPHER_CTX_free(E); free(in); free(out); free(ref);
}
/* single call of more than 4 GiB, in place over untouched zero pages is too large: use a shared small file-less mapping trick */
static void huge(size_t n) {
	uint8_t *in = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *out = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), key[32]; struct crypto_aes_key *K; struct crypto_aesctr *S;
	uint8_t *ref = malloc(1 << 24), *z = calloc(1, 1 << 24), t[64]; size_t o, k; EVP_CIPHER_CTX *E = EVP_CIPHER_CTX_new(); uint8_t iv[16] = {0}; int l;
	if (in == MAP_FAILED || out == MAP_FAILED) vh_hard("mmap");
	vh_bytes(key, 32); K = expand(key, 32); S = crypto_aesctr_init(K, 0); crypto_aesctr_stream(S, in, out, n);
	EVP_EncryptInit_ex(E, EVP_aes_256_ctr(), NULL, key, iv);
	for (o = 0; o < n; o += k) { k = n - o > 1 << 24 ? 1 << 24 : n - o; EVP_EncryptUpdate(E, ref, &l, z, k); if (memcmp(ref, out + o, k)) { vh_viol("huge", "single call of %zu bytes wrong near byte %zu", n, o); break; } }
	crypto_aesctr_stream(S, z, t, 50); EVP_EncryptUpdate(E, ref, &l, z, 50); if (memcmp(t, ref, 50)) vh_viol("huge-after", "wrong bytes after a call of %zu bytes", n);
	vh_ev("huge_calls"); vh_case(n, 0, 0, 900); munmap(in, n); munmap(out, n); free(ref); free(z); EVP_CIPHER_CTX_free(E); crypto_aesctr_free(S); crypto_aes_key_free(K);
}
int main(int argc, char **argv) {
	const char *m = argv[1]; uint64_t st = strtoull(argv[2], 0, 10); int scale = atoi(argv[3]); size_t n; int i, s;
	vh_seed(st + 5000 * m[0]);
	if (!strcmp(m, "sweep")) {
		for (n = 0; n <= 300; n++) for (s = 0; s < 10; s++) stream_case(n, s, n & 1 ? 16 : 32, rnonce(), vh_rnd(2), vh_rnd(289));
		for (n = 0; n <= 130; n++) for (i = 0; i < 4; i++) stream_case(n, 100, i & 1 ? 16 : 32, rnonce(), i >> 1, vh_rnd(289));
		for (i = 0; i < 289; i++) { stream_case(100, 0, 32, 0, 0, i); stream_case(100, 5, 32, 7, 0, i); }
		for (i = 0; i < 64; i++) stream_case(5000, 5 + i % 5, 32, 1ULL << i, 0, vh_rnd(289));
		for (i = 0; i < 500 * scale; i++) stream_case(vh_rnd(i % 5 ? 2000 : 150000), i % 3 ? 5 + vh_rnd(5) : 0, vh_rnd(2) ? 16 : 32, rnonce(), vh_rnd(2), vh_rnd(289));
		/* every pair (first piece, second piece) */
		for (n = 0; n <= 48; n++) for (s = 0; s <= 48; s++) {
			uint8_t key[32], in[200], out[200], ref[200]; struct crypto_aes_key *K; struct crypto_aesctr *S; vh_bytes(key, 32); vh_bytes(in, 200); K = expand(key, 32); S = crypto_aesctr_init(K, 5);
			o_aesctr(key, 32, 5, 0, in, ref, 200); memset(out, 0, 200); crypto_aesctr_stream(S, in, out, n); crypto_aesctr_stream(S, in + n, out + n, s); crypto_aesctr_stream(S, in + n + s, out + n + s, 200 - n - s);
			if (memcmp(out, ref, 200)) vh_viol("pieces", "pieces %zu, %d, rest: wrong", n, s); vh_ev("piece_pairs"); vh_case(n, s, 0, 901); crypto_aesctr_free(S); crypto_aes_key_free(K);
		}
	} else if (!strcmp(m, "block")) { for (i = 0; i < 20000 * scale; i++) block_case(i & 1 ? 16 : 32, (i >> 1) & 15);
	} else if (!strcmp(m, "inter")) { for (i = 0; i < 3 * scale; i++) inter(15000);
	} else if (!strcmp(m, "carry")) carry(strtoull(argv[4], 0, 10), atoi(argv[5]));
	else if (!strcmp(m, "huge")) huge((1ULL << 32) + 16 * 3 + 7);
	else vh_hard("mode");
	printf("EV %s 1\n", crypto_aes_can_use_intrinsics() == 1 ? "impl_aesni" : crypto_aes_can_use_intrinsics() == 2 ? "impl_arm" : "impl_generic");
	return vh_done();
}
