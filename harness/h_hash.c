/* C03: SHA-256, HMAC-SHA-256 and PBKDF2 against OpenSSL. Modes: sweep, hmac, pbkdf2, ctx, long, first, bigpb */
#include "vh.h"
#include "sha256.h"

static void bad(const char *key, const char *what, size_t a, size_t b, size_t c) {
	vh_viol(key, "%s (%zu, %zu, %zu)", what, a, b, c);
}
/* Cut n bytes into update calls. style selects how. */
static size_t chunk(int style, size_t left, size_t done) {
	size_t k;
	switch (style) {
	case 0: return left;
	case 1: return 1;
	case 2: k = 64 - done % 64; break;                      /* up to each block boundary */
	case 3: k = 63; break;
	case 4: k = 65; break;
	case 5: k = vh_rnd(8) ? vh_rnd(140) : vh_rnd(2000); break;
	case 6: k = vh_rnd(3); break;                           /* with zero-length updates */
	case 7: k = 56; break;
	default: k = 64 * (1 + vh_rnd(4)) + vh_rnd(3) - 1; break;
	}
	return k > left ? left : k;
}
static void sha_case(size_t n, int style, size_t align, int mode) {
	struct gbuf gi, go; uint8_t ref[32], *in = gb_new(&gi, n, align % 32), *out = gb_new(&go, 32, align / 32); SHA256_CTX c; size_t o = 0, k;
	vh_fill(in, n); o_sha256(in, n, ref); memset(out, 0, 32);
	if (mode == 0) SHA256_Buf(in, n, out);
	else {
		vh_bytes(&c, sizeof c); /* contexts start with arbitrary content */
		SHA256_Init(&c);
		while (o < n) { k = chunk(style, n - o, o); SHA256_Update(&c, VH_NULL(k, in + o), k); o += k; vh_ev("updates"); }
		if (vh_rnd(4) == 0) SHA256_Update(&c, in, 0);
		SHA256_Final(out, &c);
	}
	if (memcmp(ref, out, 32)) bad("sha256", mode ? "SHA256 of a message given in pieces is wrong (length, style, align)" : "SHA256_Buf wrong (length, style, align)", n, style, align);
	if (!gb_ok(&go) || !gb_ok(&gi)) bad("sha256-overrun", "bytes around a buffer changed", n, style, align);
	vh_ev("digests_compared"); vh_case(n, style, align, mode);
	gb_free(&gi); gb_free(&go);
}
static void hmac_case(size_t kn, size_t n, int style, size_t align, int mode) {
	struct gbuf gk, gi, go; uint8_t ref[32], *key = gb_new(&gk, kn, align % 17), *in = gb_new(&gi, n, align % 16), *out = gb_new(&go, 32, align % 13);
	HMAC_SHA256_CTX c; size_t o = 0, k; uint8_t *kc = malloc(kn + 1);
	vh_fill(key, kn); vh_fill(in, n); memcpy(kc, key, kn); if (vh_rnd(16) == 0) { memset(key, 0, kn); memset(kc, 0, kn); }
	o_hmac(kc, kn, in, n, ref); memset(out, 0, 32);
	if (mode == 0) HMAC_SHA256_Buf(VH_NULL(kn, key), kn, in, n, out);
	else {
		vh_bytes(&c, sizeof c);
		HMAC_SHA256_Init(&c, VH_NULL(kn, key), kn); if (vh_rnd(2)) memset(key, 0xee, kn); /* key is not needed any more */
		while (o < n) { k = chunk(style, n - o, o); HMAC_SHA256_Update(&c, in + o, k); o += k; vh_ev("updates"); }
		HMAC_SHA256_Final(out, &c);
	}
	if (memcmp(ref, out, 32)) bad("hmac", "HMAC_SHA256 wrong (key length, length, style)", kn, n, style);
	if (!gb_ok(&gk) || !gb_ok(&gi) || !gb_ok(&go)) bad("hmac-overrun", "bytes around a buffer changed", kn, n, style);
	vh_ev("macs_compared"); vh_case(kn * 131072 + n, style, align, 100 + mode);
	gb_free(&gk); gb_free(&gi); gb_free(&go); free(kc);
}
static void pb_case(size_t pn, size_t sn, uint64_t c, size_t n, size_t align) {
	struct gbuf gp, gs, go; uint8_t *pw = gb_new(&gp, pn, align % 7), *sa = gb_new(&gs, sn, align % 5), *out = gb_new(&go, n, align % 33), *ref = malloc(n + 1);
	size_t i;
	vh_fill(pw, pn); vh_fill(sa, sn); memset(out, 0x11, n);
	PBKDF2_SHA256(VH_NULL(pn, pw), pn, VH_NULL(sn, sa), sn, c, out, n);
	o_pbkdf2(pw, pn, sa, sn, c, ref, n);
	for (i = 0; i < n && ref[i] == out[i]; i++) ;
	if (i < n) vh_viol("pbkdf2", "wrong from byte %zu: passwd %zu salt %zu c %llu dkLen %zu", i, pn, sn, (unsigned long long)c, n);
	if (!gb_ok(&gp) || !gb_ok(&gs) || !gb_ok(&go)) bad("pbkdf2-overrun", "bytes around a buffer changed (passwd, salt, dkLen)", pn, sn, n);
	vh_ev("pbkdf2_compared"); vh_case(pn * 100003 + sn, c, n, 200);
	gb_free(&gp); gb_free(&gs); gb_free(&go); free(ref);
}
/* Many contexts alive at once, updated in random order, copied and finished at random. */
static void ctx_case(int rounds) {
	enum { M = 24 }; SHA256_CTX s[M]; HMAC_SHA256_CTX h[M]; EVP_MD_CTX *es[M]; uint8_t *hm[M]; size_t hn[M], kl[M]; uint8_t key[M][200]; int r, i, j; uint8_t d[32], e[32], buf[600]; unsigned l;
	for (i = 0; i < M; i++) { SHA256_Init(&s[i]); es[i] = EVP_MD_CTX_new(); EVP_DigestInit_ex(es[i], EVP_sha256(), NULL); hm[i] = malloc(1 << 16); hn[i] = 0; kl[i] = vh_rnd(200); vh_bytes(key[i], kl[i]); HMAC_SHA256_Init(&h[i], key[i], kl[i]); }
	for (r = 0; r < rounds; r++) {
		size_t n = vh_rnd(4) ? vh_rnd(130) : vh_rnd(600); vh_fill(buf, n); i = vh_rnd(M); j = vh_rnd(M);
		switch (vh_rnd(12)) {
		case 0: SHA256_Final(d, &s[i]); EVP_DigestFinal_ex(es[i], e, &l); if (memcmp(d, e, 32)) bad("interleaved-sha", "wrong digest with interleaved contexts", r, 0, 0); vh_ev("interleaved_finals"); vh_case(r, 1, i, 300);
			SHA256_Init(&s[i]); EVP_DigestInit_ex(es[i], EVP_sha256(), NULL); break;
		case 1: if (i != j) { memcpy(&s[i], &s[j], sizeof s[i]); EVP_MD_CTX_copy_ex(es[i], es[j]); vh_ev("context_copies"); } break;
		case 2: HMAC_SHA256_Final(d, &h[i]); o_hmac(key[i], kl[i], hm[i], hn[i], e); if (memcmp(d, e, 32)) bad("interleaved-hmac", "wrong MAC with interleaved contexts", r, 0, 0); vh_ev("interleaved_finals"); vh_case(r, 2, i, 300);
			hn[i] = 0; kl[i] = vh_rnd(200); vh_bytes(key[i], kl[i]); HMAC_SHA256_Init(&h[i], key[i], kl[i]); break;
		case 3: if (i != j) { memcpy(&h[i], &h[j], sizeof h[i]); memcpy(key[i], key[j], 200); kl[i] = kl[j]; memcpy(hm[i], hm[j], hn[j]); hn[i] = hn[j]; vh_ev("context_copies"); } break;
		case 4: SHA256_Buf(buf, n, d); o_sha256(buf, n, e); if (memcmp(d, e, 32)) bad("interleaved-buf", "wrong digest", n, 0, 0); break;
		case 5: { uint8_t o1[77], o2[77]; PBKDF2_SHA256(buf, n / 2, buf + n / 2, n - n / 2, 2, o1, 77); o_pbkdf2(buf, n / 2, buf + n / 2, n - n / 2, 2, o2, 77); if (memcmp(o1, o2, 77)) bad("interleaved-pbkdf2", "wrong PBKDF2", n, 0, 0); } break;
		case 6: case 7: case 8: if (hn[i] + n < 1 << 16) { HMAC_SHA256_Update(&h[i], buf, n); memcpy(hm[i] + hn[i], buf, n); hn[i] += n; } break;
		default: SHA256_Update(&s[i], buf, n); EVP_DigestUpdate(es[i], buf, n);
		}
	}
	for (i = 0; i < M; i++) { EVP_MD_CTX_free(es[i]); free(hm[i]); }
}
/* Long messages: total bytes beyond 2^29 (bit count beyond 2^32) and 2^32. */
static void longmsg(uint64_t total, size_t step, int hmac) {
	uint8_t *b = malloc(step), d[32], e[32], pad[64]; SHA256_CTX c; HMAC_SHA256_CTX h; EVP_MD_CTX *m = EVP_MD_CTX_new(); uint64_t o = 0; unsigned l; size_t k; int i;
	vh_fill(b, step);
	EVP_DigestInit_ex(m, EVP_sha256(), NULL);
	if (hmac) { HMAC_SHA256_Init(&h, b, 32); for (i = 0; i < 64; i++) pad[i] = 0x36 ^ (i < 32 ? b[i] : 0); EVP_DigestUpdate(m, pad, 64); } else SHA256_Init(&c);
	while (o < total) { k = total - o > step ? step : total - o; if (hmac) HMAC_SHA256_Update(&h, b, k); else SHA256_Update(&c, b, k); EVP_DigestUpdate(m, b, k); o += k; }
	EVP_DigestFinal_ex(m, e, &l);
	if (hmac) { HMAC_SHA256_Final(d, &h); EVP_DigestInit_ex(m, EVP_sha256(), NULL); for (i = 0; i < 64; i++) pad[i] = 0x5c ^ (i < 32 ? b[i] : 0); EVP_DigestUpdate(m, pad, 64); EVP_DigestUpdate(m, e, 32); EVP_DigestFinal_ex(m, e, &l); }
	else SHA256_Final(d, &c);
	if (memcmp(d, e, 32)) vh_viol("long", "wrong digest of a message of %llu bytes in updates of %zu (hmac %d)", (unsigned long long)total, step, hmac);
	vh_ev("long_messages"); vh_case(total, step, hmac, 400); EVP_MD_CTX_free(m); free(b);
}
/* one call with more than 2^32 bytes */
static void hugecall(size_t n) {
	uint8_t *b = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), d[32], e[32], *p; SHA256_CTX c; size_t o, k; EVP_MD_CTX *m = EVP_MD_CTX_new(); unsigned l;
	if (b == MAP_FAILED) vh_hard("mmap"); mprotect(b, n, PROT_READ); (void)p;
	SHA256_Init(&c); SHA256_Update(&c, "x", 1); SHA256_Update(&c, b, n); SHA256_Final(d, &c);
	EVP_DigestInit_ex(m, EVP_sha256(), NULL); EVP_DigestUpdate(m, "x", 1); for (o = 0; o < n; o += k) { k = n - o > 1 << 30 ? 1 << 30 : n - o; EVP_DigestUpdate(m, b + o, k); } EVP_DigestFinal_ex(m, e, &l);
	if (memcmp(d, e, 32)) vh_viol("huge-update", "wrong digest of one update of %zu bytes", n);
	vh_ev("huge_updates"); vh_case(n, 0, 0, 401); EVP_MD_CTX_free(m); munmap(b, n);
}
static void bigpb(size_t blocks, size_t extra) {
	size_t n = blocks * 32 + extra, i, j; uint8_t *out = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), T[32]; struct o_pb P; uint64_t idx;
	if (out == MAP_FAILED) vh_hard("mmap");
	PBKDF2_SHA256((const uint8_t *)"passphrase", 10, (const uint8_t *)"saltsalt", 8, 1, out, n);
	o_pb_init(&P, (const uint8_t *)"passphrase", 10, (const uint8_t *)"saltsalt", 8);
	for (i = 0; i < 4000; i++) {
		static const uint64_t edges[] = {1, 2, 255, 256, 257, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2};
		idx = i < 13 ? edges[i] : i < 40 ? blocks + 1 - (i - 13) : 1 + vh_rnd(blocks);
		if (idx < 1 || idx > blocks + (extra != 0)) continue;
		o_pb_block(&P, 1, idx, T); j = idx == blocks + 1 ? extra : 32;
		if (memcmp(T, out + (idx - 1) * 32, j)) vh_viol("big-pbkdf2", "block %llu of %zu wrong", (unsigned long long)idx, blocks);
		vh_ev("big_pbkdf2_blocks"); vh_case(idx, blocks, 0, 402);
	}
	o_pb_free(&P); munmap(out, n);
}
int main(int argc, char **argv) {
	const char *m = argv[1]; uint64_t stream = strtoull(argv[2], 0, 10); int scale = atoi(argv[3]); size_t n, k; int i, s;
	vh_seed(stream + 1000 * (m[0] + 17 * m[1]));
	if (!strcmp(m, "first")) { /* the first call of a process */
		switch (stream % 6) {
		case 0: sha_case(100, 0, 0, 0); break; case 1: hmac_case(100, 100, 1, 0, 1); break; case 2: pb_case(10, 10, 3, 100, 0); break;
		case 3: hmac_case(64, 55, 0, 3, 0); break; case 4: sha_case(200, 1, 3, 1); break; default: pb_case(100, 100, 1, 33, 0); }
	} else if (!strcmp(m, "sweep")) {
		for (n = 0; n <= 520; n++) for (s = 0; s < 9; s++) sha_case(n, s, vh_rnd(64 * 32), 1);
		for (n = 0; n <= 520; n++) for (i = 0; i < 3; i++) sha_case(n, 0, i == 0 ? 0 : vh_rnd(1024), 0);
		for (i = 0; i < 64; i++) { sha_case(193, 0, i, 0); sha_case(1000, 8, i, 1); }
		/* every split of short messages into two updates */
		for (n = 0; n <= 200; n++) for (k = 0; k <= n; k += 1 + (n > 140)) {
			uint8_t b[200], d[32], e[32]; SHA256_CTX c; vh_fill(b, n); SHA256_Init(&c); SHA256_Update(&c, b, k); SHA256_Update(&c, b + k, n - k); SHA256_Final(d, &c); o_sha256(b, n, e);
			if (memcmp(d, e, 32)) bad("sha256-split", "two-part message wrong (length, first part)", n, k, 0); vh_ev("splits"); vh_case(n, k, 0, 500);
		}
		for (i = 0; i < 600 * scale; i++) sha_case(vh_rnd(i % 7 ? 3000 : 200000), 4 + vh_rnd(5), vh_rnd(1024), 1);
		for (i = 0; i < 200 * scale; i++) sha_case(vh_rnd(5000), 0, vh_rnd(1024), 0);
	} else if (!strcmp(m, "hmac")) {
		for (k = 0; k <= 200; k++) for (i = 0; i < 2; i++) for (s = 0; s < 8; s++) hmac_case(k, s == 0 ? 0 : vh_rnd(s == 1 ? 70 : 400), s, vh_rnd(200), i);
		for (n = 0; n <= 300; n++) for (i = 0; i < 2; i++) hmac_case(vh_rnd(2) ? 32 : vh_rnd(140), n, vh_rnd(9), vh_rnd(200), i);
		for (i = 0; i < 300 * scale; i++) hmac_case(vh_rnd(i % 5 ? 300 : 100000), vh_rnd(i % 3 ? 300 : 100000), vh_rnd(2) ? 0 : 2 + vh_rnd(7), vh_rnd(200), vh_rnd(2));
	} else if (!strcmp(m, "pbkdf2")) {
		static const uint64_t cs[] = {1, 2, 3, 4, 7, 10, 255, 256, 257, 1000, 1024, 4097};
		for (i = 0; i < 12; i++) for (k = 0; k < 6; k++) { static const size_t ln[] = {1, 31, 32, 33, 64, 100}; pb_case(vh_rnd(150), vh_rnd(150), cs[i], ln[k], vh_rnd(1000)); }
		for (n = 0; n <= 300; n++) pb_case(vh_rnd(100), vh_rnd(100), 1 + (n % 3 == 0), n, vh_rnd(1000));
		for (n = 0; n <= 200; n++) { pb_case(n, vh_rnd(40), 1, 40, vh_rnd(100)); pb_case(vh_rnd(40), n, 2, 40, vh_rnd(100)); }
		pb_case(5, 5, 70000, 40, 0); pb_case(5, 5, 1, 32 * 257 + 1, 0); pb_case(5, 5, 1, 32 * 65537 + 5, 0); pb_case(5, 5, 2, 32 * 65535, 0); pb_case(200000, 300000, 2, 64, 1);
		if (scale > 1) { pb_case(9, 9, 1 << 20, 33, 0); for (i = 0; i < 400; i++) pb_case(vh_rnd(300), vh_rnd(3000), 1 + vh_rnd(30), vh_rnd(3000), vh_rnd(1000)); }
	} else if (!strcmp(m, "ctx")) { for (i = 0; i < 3 * scale; i++) ctx_case(12000);
	} else if (!strcmp(m, "long")) {
		longmsg((1ULL << 29) + 77, (1 << 20) + 13, 0); longmsg((1ULL << 29) - 1, 1 << 22, 0); longmsg(1ULL << 29, 65536, 1);
	} else if (!strcmp(m, "long4")) { longmsg((1ULL << 32) + 333, (1 << 20) - 1, stream & 1);
	} else if (!strcmp(m, "huge")) { hugecall((1ULL << 32) + 100);
	} else if (!strcmp(m, "bigpb")) { bigpb(strtoull(argv[4], 0, 10), 11);
	} else vh_hard("mode");
	return vh_done();
}
