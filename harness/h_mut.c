/* C07: a changed file must never be accepted. */
#include "vh_io.h"
#include <signal.h>
#include "scryptenc.h"

static uint8_t pw[64]; static size_t pn;
/* one mutated file through one interface; orig only to make sure it really differs */
static void try(const uint8_t *f, size_t n, const uint8_t *orig, size_t on, int iface, int style, const char *what, size_t a, size_t b) {
	struct scryptenc_params P = {1 << 20, 0.5, 300, 0, 0, 0}; int rc; size_t ol = 0;
	if (n == on && !memcmp(f, orig, n)) return;
	if (vh_rnd(5) == 0) { /* the file as it was, accepted just before */
		struct scryptenc_params P0 = {0, 0.5, 300, 0, 0, 0}; uint8_t *o = malloc(on); if (vh_rnd(2)) rc = scryptdec_buf(orig, on, o, &ol, pw, pn, &P0, 0, 1);
		else { struct vsrc s; struct vsnk k; FILE *I = vsrc_open(&s, orig, on, 0, -1, 0), *O = vsnk_open(&k, -1, 0); rc = scryptdec_file(I, O, pw, pn, &P0, 0, 1); fclose(O); fclose(I); free(k.p); }
		free(o); vh_ev("original_accepted_just_before"); (void)rc;
	}
	if (iface == 0) {
		uint8_t *in = malloc(n ? n : 1), *out = malloc(n ? n : 1); memcpy(in, f, n);
		rc = scryptdec_buf(in, n, out, &ol, pw, pn, &P, 0, 1); free(in); free(out);
	} else {
		struct vsrc s; struct vsnk k; FILE *I = vsrc_open(&s, f, n, style, -1, vh_rnd(2) ? 0 : 65536), *O = vsnk_open(&k, -1, vh_rnd(2) ? 0 : 4096); struct scryptdec_file_cookie *C;
		if (iface == 1) rc = scryptdec_file(I, O, pw, pn, &P, 0, 1);
		else { rc = scryptdec_file_prep(I, pw, pn, &P, 0, 1, &C); if (rc == 0) { vh_ev("changed_body_reached_copy"); rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); } }
		fclose(O); fclose(I); free(k.p);
	}
	if (rc == 0) vh_viol(what, "a changed file was accepted through interface %d: %s (%zu, %zu), %zu bytes instead of %zu", iface, what, a, b, n, on);
	vh_ev("changed_files_offered"); vh_ev(what); vh_case(a, b, vh_mix(n) ^ vh_mix((uintptr_t)what), iface * 16 + style);
}
static void all(const uint8_t *f, size_t n, const uint8_t *o, size_t on, const char *what, size_t a, size_t b) {
	try(f, n, o, on, 0, 0, what, a, b); try(f, n, o, on, 1, vh_rnd(9), what, a, b); try(f, n, o, on, 2, vh_rnd(9), what, a, b);
}
static void some(const uint8_t *f, size_t n, const uint8_t *o, size_t on, const char *what, size_t a, size_t b) { try(f, n, o, on, vh_rnd(3), vh_rnd(9), what, a, b); }
/* is it affordable to run the KDF for this header? (o_ oracle not needed) */
static int cheap(const uint8_t *h) {
	uint64_t r = o_le32(h + 8), p; r = (uint64_t)h[8] << 24 | h[9] << 16 | h[10] << 8 | h[11]; p = (uint64_t)h[12] << 24 | h[13] << 16 | h[14] << 8 | h[15];
	if (memcmp(h, "scrypt", 7)) return 1;
	if (h[7] < 1 || h[7] > 63 || r == 0 || p == 0 || r * p >= 1 << 30) return 1;
	if (h[7] > 16) return 0; return ((r * p) << h[7]) < 1 << 14;
}
int main(int argc, char **argv) {
	const char *m = argv[1]; uint64_t st = strtoull(argv[2], 0, 10); int scale = atoi(argv[3]); size_t n, i, j, k, fn; uint8_t *f, *g, *h, *d, salt[32], dk[64];
	signal(SIGPIPE, SIG_IGN); vh_seed(st + 7000 * m[0] + 77 * m[1]); pn = 1 + vh_rnd(40); vh_bytes(pw, pn);
#define NEW(len) do { n = (len); fn = n + 128; f = malloc(fn + 70000); g = malloc(fn + 70000); h = malloc(fn + 70000); d = malloc(n + 1); vh_fill(d, n); vh_bytes(salt, 32); o_encode(pw, pn, salt, 1, 1, 1, d, n, f, dk); memcpy(g, f, fn); } while (0)
#define DONE do { memcpy(g, f, fn); struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; size_t ol; if (scryptdec_buf(g, fn, h, &ol, pw, pn, &P, 0, 1) != 0 || ol != n || memcmp(h, d, n)) vh_viol("control", "the unchanged file is refused"); vh_ev("control_accepted"); free(f); free(g); free(h); free(d); } while (0)
	if (!strcmp(m, "flip")) {
		for (k = 0; k < 12 * scale; k++) {
			NEW(k < 3 ? k : k < 6 ? 14 + k : vh_rnd(120));
			for (i = 0; i < fn; i++) for (j = 0; j < 8; j++) { g[i] ^= 1 << j; if (cheap(g)) { if (k % 4 == 0) all(g, fn, f, fn, "bit-flip", i, j); else some(g, fn, f, fn, "bit-flip", i, j); } g[i] = f[i]; }
			DONE;
		}
		NEW(20 + vh_rnd(20)); for (i = 0; i < fn; i++) for (j = 1; j < 256; j++) { g[i] ^= j; if (cheap(g)) try(g, fn, f, fn, vh_rnd(3), 0, "byte-value", i, j); g[i] = f[i]; } DONE;
	} else if (!strcmp(m, "hdr")) {
		/* header edits with valid checksum, also with a header HMAC made with the original key */
		for (k = 0; k < 6 * scale; k++) {
			NEW(vh_rnd(80));
			for (i = 0; i < 48; i++) for (j = 0; j < 8; j++) { g[i] ^= 1 << j; o_fix(g, fn, dk + 32, 1); if (cheap(g)) all(g, fn, f, fn, "header-checksum-fixed", i, j); o_fix(g, fn, dk + 32, 2); if (cheap(g)) all(g, fn, f, fn, "header-hmac-fixed", i, j); memcpy(g, f, fn);
				/* header HMAC fixed but not the checksum */
				g[i] ^= 1 << j; o_fix(g, fn, dk + 32, 2 | 4); if (cheap(g)) all(g, fn, f, fn, "header-checksum-stale", i, j); memcpy(g, f, fn); }
			for (i = 1; i <= 12; i++) for (j = 1; j <= 8; j++) { g[7] = i; o_be32(g + 8, j); o_be32(g + 12, 1 + vh_rnd(4)); o_fix(g, fn, dk + 32, 1); if (cheap(g)) all(g, fn, f, fn, "params-replaced", i, j); o_fix(g, fn, dk + 32, 3); if (cheap(g)) all(g, fn, f, fn, "params-replaced-hmac", i, j); memcpy(g, f, fn); }
			/* r and p swapped / traded so that r*p is the same */
			/* the final HMAC stays valid only for the original header: stale checksum/header HMAC fields with final HMAC fixed */
			for (i = 48; i < 96; i++) for (j = 0; j < 8; j++) { g[i] ^= 1 << j; o_fix(g, fn, dk + 32, 4); all(g, fn, f, fn, "check-field-with-final-hmac-fixed", i, j); memcpy(g, f, fn); }
			for (i = 0; i < 6; i++) { g[i] = vh_rnd(256); o_fix(g, fn, dk + 32, 7); all(g, fn, f, fn, "magic-all-fixed", i, 0); memcpy(g, f, fn); }
			for (j = 1; j < 256; j++) { g[6] = j; o_fix(g, fn, dk + 32, 7); all(g, fn, f, fn, "version-all-fixed", j, 0); memcpy(g, f, fn); }
			DONE;
		}
	} else if (!strcmp(m, "mac")) {
		/* pairs and groups inside each check value, with cancelling differences */
		struct { size_t o, l; } R[3] = {{48, 16}, {64, 32}, {0, 32}}; int q; size_t a, b;
		for (k = 0; k < 2 * scale; k++) {
			NEW(vh_rnd(100)); R[2].o = fn - 32;
			for (q = 0; q < 3; q++) {
				/* q 0: checksum stale while the HMACs are right for the stale content, etc: isolate each comparison */
				for (a = 0; a < R[q].l; a++) for (b = a + 1; b < R[q].l; b++) for (j = 0; j < 4; j++) {
					uint8_t x = 1 + vh_rnd(255), *A = g + R[q].o + a, *B = g + R[q].o + b, t;
					switch (j) { case 0: *A ^= x; *B ^= x; break; case 1: *A += x; *B -= x; break; case 2: t = *A; *A = *B; *B = t; break; default: *A ^= 0x80; *B ^= 0x80; }
					if (q == 0) o_fix(g, fn, dk + 32, 6); if (q == 1) o_fix(g, fn, dk + 32, 4);
					try(g, fn, f, fn, vh_rnd(3), 0, "mac-pair", q * 10000 + a * 100 + b, j); memcpy(g, f, fn);
				}
				for (a = 0; a <= R[q].l; a++) for (j = 0; j < 6; j++) { /* prefix right, rest not; and the reverse */
					size_t c0 = j & 1 ? 0 : a, c1 = j & 1 ? a : R[q].l; uint8_t *M = g + R[q].o;
					for (b = c0; b < c1; b++) M[b] = j < 2 ? M[b] ^ 0xff : j < 4 ? 0 : vh_rnd(256);
					if (q == 0) o_fix(g, fn, dk + 32, 6); if (q == 1) o_fix(g, fn, dk + 32, 4);
					all(g, fn, f, fn, "mac-part", q * 100 + a, j); memcpy(g, f, fn);
				}
				for (a = 0; a + 3 < R[q].l; a++) for (j = 0; j < 8; j++) { uint8_t *M = g + R[q].o + a; uint8_t x = 1 + vh_rnd(255); M[0] ^= x; M[1] ^= x; M[2] ^= x; M[3] ^= x; if (j & 1) { M[3] ^= x; x = 0; } if (q == 0) o_fix(g, fn, dk + 32, 6); if (q == 1) o_fix(g, fn, dk + 32, 4); some(g, fn, f, fn, "mac-group", q * 100 + a, j); memcpy(g, f, fn); }
			}
			/* the other, internally related values in place of the right one */
			{ uint8_t x[32]; uint8_t *M = g + fn - 32;
			  memcpy(M, f + 64, 32); all(g, fn, f, fn, "mac-is-header-hmac", 0, 0); memset(M, 0, 32); all(g, fn, f, fn, "mac-zero", 0, 0);
			  o_hmac(dk + 32, 32, f + 96, n, x); memcpy(M, x, 32); all(g, fn, f, fn, "mac-body-only", 0, 0);
			  o_hmac(dk + 32, 32, d, n, x); memcpy(M, x, 32); all(g, fn, f, fn, "mac-of-plaintext", 0, 0);
			  o_hmac(dk, 32, f, fn - 32, x); memcpy(M, x, 32); all(g, fn, f, fn, "mac-other-key", 0, 0);
			  o_sha256(f, fn - 32, x); memcpy(M, x, 32); all(g, fn, f, fn, "mac-is-hash", 0, 0);
			  { uint8_t *y = malloc(fn); memcpy(y, f, 96); memcpy(y + 96, d, n); o_hmac(dk + 32, 32, y, 96 + n, x); memcpy(M, x, 32); all(g, fn, f, fn, "mac-header-plaintext", 0, 0); free(y); }
			  memcpy(g, f, fn); memcpy(g + 64, f + fn - 32, 32); all(g, fn, f, fn, "header-hmac-is-mac", 0, 0); memcpy(g, f, fn); }
			DONE;
		}
	} else if (!strcmp(m, "len")) {
		for (k = 0; k < 5 * scale; k++) {
			NEW(k == 0 ? 0 : k == 1 ? 32 : vh_rnd(300));
			for (i = 0; i < fn; i++) all(f, i, f, fn, "prefix", i, 0);
			for (i = 1; i < 200; i++) { memset(g + fn, 0, i); all(g, fn + i, f, fn, "extended-zero", i, 0); vh_bytes(g + fn, i); some(g, fn + i, f, fn, "extended-random", i, 0); memcpy(g + fn, f + fn - (i < fn ? i : fn), i < fn ? i : fn); all(g, fn + i, f, fn, "extended-repeat", i, 0); }
			for (i = 0; i < fn; i++) for (j = 1; j <= 40; j += 1 + (j > 3) * 6) { if (i + j <= fn) { memcpy(g, f, i); memcpy(g + i, f + i + j, fn - i - j); some(g, fn - j, f, fn, "removed", i, j); } memcpy(g, f, i); vh_bytes(g + i, j); memcpy(g + i + j, f + i, fn - i); if (cheap(g)) some(g, fn + j, f, fn, "inserted", i, j); }
			memcpy(g, f, fn);
			/* what editors, mailers and transfers add or change */
			{ static const char *X[] = { "\r\n", "\n\n", "\r\n\r\n", "\x1a", "\r\n\x1a", "\n.\n", "EOF", "\n--\n", "=", "==", "\xef\xbb\xbf", "\xff\xfe", "scrypt", "TAG", " \n" }; size_t xn, y;
			  for (i = 0; i < 256; i++) { g[fn] = i; all(g, fn + 1, f, fn, "byte-appended", i, 0); memset(g + fn, i, 300); all(g, fn + 2 + vh_rnd(3), f, fn, "bytes-appended", i, 0); all(g, fn + 16 + vh_rnd(280), f, fn, "bytes-appended", i, 1);
			    memcpy(h, f, fn); memmove(h + 1, f, fn); h[0] = i; all(h, fn + 1, f, fn, "byte-put-first", i, 0); memmove(g + 97, f + 96, fn - 96); g[96] = i; all(g, fn + 1, f, fn, "byte-after-header", i, 0);
			    memcpy(g, f, fn - 32); g[fn - 32] = i; memcpy(g + fn - 31, f + fn - 32, 32); all(g, fn + 1, f, fn, "byte-before-mac", i, 0); memcpy(g, f, fn); }
			  for (i = 0; i < sizeof(X) / sizeof(X[0]); i++) { xn = strlen(X[i]); memcpy(g + fn, X[i], xn); all(g, fn + xn, f, fn, "text-appended", i, 0); memcpy(g + fn, X[i], xn + 1); all(g, fn + xn + 1, f, fn, "text-appended", i, 1);
			    memcpy(h, X[i], xn); memcpy(h + xn, f, fn); all(h, fn + xn, f, fn, "text-put-first", i, 0); }
			  for (j = 0, i = 0; i < fn; i++) { if (f[i] == '\n') h[j++] = '\r'; h[j++] = f[i]; } if (cheap(h)) all(h, j, f, fn, "newlines-translated", 0, 0);
			  for (j = 0, i = 0; i < fn; i++) if (f[i] != '\r') h[j++] = f[i]; if (j >= 16 && cheap(h)) all(h, j, f, fn, "newlines-translated", 1, 0);
			  for (i = 0; i < fn; i++) h[i] = f[i] & 0x7f; if (cheap(h)) all(h, fn, f, fn, "high-bits-cleared", 0, 0);
			  for (y = 0; y < 8; y++) { for (j = i = 0; i < fn; i++) if (i < 16 || vh_rnd(y + 2)) h[j++] = f[i]; all(h, j, f, fn, "bytes-dropped", y, 0); } memcpy(g, f, fn); }
			/* every shorter or longer body with the original final HMAC moved to the end */
			for (i = 0; i < n; i++) { memcpy(g, f, 96 + i); memcpy(g + 96 + i, f + fn - 32, 32); all(g, 128 + i, f, fn, "body-cut-mac-kept", i, 0); }
			for (i = 1; i < 70; i++) { memcpy(g, f, fn - 32); vh_bytes(g + fn - 32, i); memcpy(g + fn - 32 + i, f + fn - 32, 32); all(g, fn + i, f, fn, "body-grown-mac-kept", i, 0); }
			memcpy(g, f, fn); DONE;
		}
	} else if (!strcmp(m, "mix")) {
		/* files of the same passphrase: other salts, or the very same keys */
		for (k = 0; k < 12 * scale; k++) {
			uint8_t *o; size_t on, n2; uint8_t *d2, s2[32]; NEW(vh_rnd(200)); n2 = k & 1 ? n : vh_rnd(200); d2 = malloc(n2 + 1); vh_fill(d2, n2); o = malloc(n2 + 128); on = n2 + 128;
			memcpy(s2, salt, 32); if (k & 2) vh_bytes(s2, 32); o_encode(pw, pn, s2, 1, 1, 1, d2, n2, o, NULL);
			memcpy(g, f, 96); memcpy(g + 96, o + 96, n2 + 32); if (memcmp(g, o, on)) all(g, on, f, fn, "header-other-body", k, 0);
			memcpy(g, o, 64); memcpy(g + 64, f + 64, fn - 64); all(g, fn, f, fn, "fields-other-file", k, 0);
			memcpy(g, f, fn - 32); memcpy(g + fn - 32, o + on - 32, 32); all(g, fn, f, fn, "mac-of-other-file", k, 0);
			memcpy(g, o, on - 32); memcpy(g + on - 32, f + fn - 32, 32); all(g, on, o, on, "mac-of-other-file", k, 1);
			memcpy(g, f, fn); memcpy(g + fn, o, on); all(g, fn + on, f, fn, "concatenated", k, 0);
			memcpy(g, f, fn - 32); memcpy(g + fn - 32, o + 96, n2 + 32); all(g, fn - 32 + n2 + 32, f, fn, "bodies-joined", k, 0);
			memcpy(g, f, fn); memcpy(g + fn, f, fn); all(g, 2 * fn, f, fn, "doubled", k, 0);
			for (i = 0; i + 32 <= n; i += 16) { memcpy(g, f, fn); memcpy(g + 96 + i, f + 96 + i + 16, 16); memcpy(g + 96 + i + 16, f + 96 + i, 16); all(g, fn, f, fn, "blocks-swapped", i, 0); }
			for (i = 0; i + 1 < n && i < 60; i++) { uint8_t x = 1 + vh_rnd(255); memcpy(g, f, fn); g[96 + i] ^= x; g[96 + i + 1] ^= x; all(g, fn, f, fn, "adjacent-flips", i, x); if (i + 64 < n) { memcpy(g, f, fn); g[96 + i] ^= x; g[96 + i + 64] ^= x; all(g, fn, f, fn, "distant-flips", i, x); } }
			memcpy(g, f, fn); DONE; free(o); free(d2);
		}
	} else if (!strcmp(m, "big")) {
		static const size_t L[] = {65536 - 33, 65536 - 32, 65536 - 1, 65536, 65536 + 1, 65536 + 31, 65536 + 32, 65536 + 33, 131072 - 32, 131072, 131072 + 32, 196608 + 17, 300000};
		for (k = 0; k < 13; k++) {
			size_t pos; NEW(L[k]);
			for (j = 0; j <= fn / 65536; j++) for (i = 0; i < 300 + scale; i++) {
				if (i < 290) { static const long off[] = {0, 32, 96, 128}; pos = j * 65536 + off[i % 4] + (long)(i / 4) - 36; if (i / 4 % 2 && scale < 2) continue; } else pos = vh_rnd(fn);
				if (pos >= fn || (pos < 16)) continue;
				g[pos] ^= 1 << vh_rnd(8); try(g, fn, f, fn, i % 3, i % 9 == 1 || i % 9 == 2 ? 4 : i % 9, "big-flip", pos, k); g[pos] = f[pos];
				if (i % 2 == 0) try(f, pos, f, fn, (i / 2) % 3, 4, "big-prefix", pos, k);
			}
			for (i = 1; i < 70; i += 3) { vh_bytes(g + fn, i); try(g, fn + i, f, fn, i % 3, 0, "big-extended", i, k); }
			{ static const size_t E[] = {65536 - 32, 65536 - 1, 65536, 65536 + 1, 65536 + 32}; for (i = 0; i < 5; i++) { vh_fill(g + fn, E[i]); all(g, fn + E[i], f, fn, "big-extended", E[i], k); } }
			memcpy(g, f, fn);
			if (n >= 131072) { memcpy(g + 96, f + 96 + 65536, 65536); memcpy(g + 96 + 65536, f + 96, 65536); all(g, fn, f, fn, "big-blocks-swapped", k, 0); memcpy(g, f, fn); memcpy(g, f, 96); memcpy(g + 96, f + 96 + 65536, fn - 96 - 65536); all(g, fn - 65536, f, fn, "big-block-removed", k, 0); memcpy(g, f, 96 + 65536); memcpy(g + 96 + 65536, f + 96, fn - 96); all(g, fn + 65536, f, fn, "big-block-repeated", k, 0); memcpy(g, f, fn); }
			/* a file cut after each whole block, with each 32 bytes before the cut standing for the MAC */
			DONE;
		}
	} else vh_hard("mode");
	return vh_done();
}
