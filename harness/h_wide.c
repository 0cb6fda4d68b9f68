/* C05/C06: the whole range of parameters. The key derivation is replaced by a simulated one which records its arguments (so that
 * N = 2^63 or r * p = 2^30 - 1 cost nothing); everything else is the real code. Mode "enc"/"dec" sweep; "real" uses the real derivation. */
#include "vh_vclock.h"
#include "vh_io.h"
#include <signal.h>
#include "scryptenc.h"

static uint32_t edgev(void) {
	uint32_t v; switch (vh_rnd(6)) {
	case 0: return 1 + vh_rnd(300);
	case 1: v = 1u << vh_rnd(30); v += (uint32_t)vh_rnd(3) - 1; return v ? v : 1;
	case 2: return 1 + vh_rnd(0x3fffffff);
	case 3: return (1 + vh_rnd(0x3fff)) << 16;             /* low half zero */
	case 4: v = vh_rnd(0x40) << 24 | (vh_rnd(3) ? 0 : 0xff) << 16 | (vh_rnd(2) ? 0 : 0x80) << 8 | vh_rnd(256); return v ? v : 1;
	default: return 1 + (vh_next() & 0x3fffffff) % (1u << (1 + vh_rnd(29)));
	}
}
static void rp(uint32_t *r, uint32_t *p) {
	for (;;) { *r = vh_rnd(3) ? edgev() : 1 + vh_rnd(9); *p = vh_rnd(3) ? edgev() : 1 + vh_rnd(9);
		if ((uint64_t)*r * *p >= 0x40000000) { if (vh_rnd(2)) *p = 0x3fffffff / *r; else *r = 0x3fffffff / *p; }
		if (*r && *p && (uint64_t)*r * *p < 0x40000000) return; }
}
static size_t pwlen(void) { switch (vh_rnd(6)) { case 0: return vh_rnd(3); case 1: return 60 + vh_rnd(10); case 2: return 250 + vh_rnd(12); case 3: return 65530 + vh_rnd(12); default: return 1 + vh_rnd(60); } }
static uint8_t pw[70000], pwsv[70000];

static const char *conforms(const uint8_t *f, size_t fn, size_t pn, int l, uint32_t r, uint32_t p, const uint8_t *in, size_t n) {
	uint8_t *w = malloc(n + 128), salt[32]; const char *e = NULL; size_t i;
	if (fn != n + 128) { free(w); return "wrong length"; }
	memcpy(salt, f + 16, 32); vc_encode(pwsv, pn, salt, l, r, p, in, n, w);
	for (i = 0; i < fn && w[i] == f[i]; i++);
	if (i < fn) e = i < 6 ? "wrong magic" : i < 7 ? "wrong version" : i < 8 ? "wrong log2(N)" : i < 12 ? "wrong r" : i < 16 ? "wrong p" : i < 64 ? "wrong checksum" : i < 96 ? "wrong header HMAC" : i < fn - 32 ? "wrong ciphertext" : "wrong final HMAC";
	free(w); return e;
}
static void enc(int l, uint32_t r, uint32_t p, int via) {
	size_t n = vh_rnd(4) ? vh_rnd(200) : vh_rnd(3) ? 0 : vh_rnd(70000), pn = pwlen(), on = n + 128; uint8_t *in = malloc(n + 1), *out = malloc(on); int rc; const char *e; struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0};
	P.logN = l; P.r = r; P.p = p; vh_fill(in, n); vh_fill(pw, pn); memcpy(pwsv, pw, pn); vc_nkdf = 0; memset(vc_kdf, 0, sizeof vc_kdf);
	if (via == 0) rc = scryptenc_buf(in, n, out, pw, pn, &P, 0, 1);
	else { struct vsrc s; struct vsnk k; FILE *I = vsrc_open(&s, in, n, vh_rnd(9), -1, vio_bufmode()), *O = vsnk_open(&k, -1, vio_bufmode()); rc = scryptenc_file(I, O, pw, pn, &P, 0, 1); fclose(I); if (fclose(O)) vh_hard("fclose"); free(out); out = k.p; on = k.n; }
	if (rc) vh_viol("wide-enc-failed", "encryption with logN=%d r=%u p=%u returns %d (interface %d, passphrase of %zu bytes)", l, r, p, rc, via, pn);
	else {
		if ((e = on < 128 ? "shorter than 128 bytes" : conforms(out, on, pn, l, r, p, in, n)) != NULL) vh_viol("wide-format", "%s: logN=%d r=%u p=%u, %zu bytes, passphrase of %zu bytes, interface %d (header says %d, r %02x%02x%02x%02x, p %02x%02x%02x%02x)", e, l, r, p, n, pn, via, out[7], out[8], out[9], out[10], out[11], out[12], out[13], out[14], out[15]);
		if (P.logN != l || P.r != r || P.p != p) vh_viol("wide-params", "logN=%d r=%u p=%u became %d %u %u", l, r, p, P.logN, P.r, P.p);
		if (vc_nkdf != 1 || vc_kdf[0].N != (uint64_t)1 << l || vc_kdf[0].r != r || vc_kdf[0].p != p || vc_kdf[0].sn != 32 || vc_kdf[0].pn != pn) vh_viol("wide-kdf", "logN=%d r=%u p=%u: derivation called %d times, with N=%llu r=%zu p=%zu, passphrase of %zu bytes instead of %zu", l, r, p, vc_nkdf, (unsigned long long)vc_kdf[0].N, vc_kdf[0].r, vc_kdf[0].p, vc_kdf[0].pn, pn);
	}
	if (memcmp(pw, pwsv, pn)) vh_viol("wide-passphrase", "the caller's passphrase changed");
	vh_ev("wide_parameter_encryptions"); vh_case(l * 2 + (via != 0), (uint64_t)r << 32 | p, n, pn); vh_sample("logN=%d r=%u p=%u: %zu bytes", l, r, p, on);
	free(in); free(out);
}
static void dec(int l, uint32_t r, uint32_t p, int via) {
	size_t n = vh_rnd(4) ? vh_rnd(200) : vh_rnd(3) ? 0 : vh_rnd(70000), pn = pwlen(), on = 777777; uint8_t *in = malloc(n + 1), *f = malloc(n + 128), *out = malloc(n + 128), salt[32]; int rc; struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; struct scryptdec_file_cookie *C = NULL;
	vh_fill(in, n); vh_fill(pw, pn); memcpy(pwsv, pw, pn); vh_bytes(salt, 32); vc_encode(pw, pn, salt, l, r, p, in, n, f); vc_nkdf = 0; memset(vc_kdf, 0, sizeof vc_kdf);
	if (via == 0) rc = scryptdec_buf(f, n + 128, out, &on, pw, pn, &P, 0, 1);
	else { struct vsrc s; struct vsnk k; FILE *I = vsrc_open(&s, f, n + 128, vh_rnd(9), -1, vio_bufmode()), *O = vsnk_open(&k, -1, vio_bufmode());
		if (via == 1) rc = scryptdec_file(I, O, pw, pn, &P, 0, 1); else { rc = scryptdec_file_prep(I, pw, pn, &P, 0, 1, &C); if (rc == 0) { rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); } }
		fclose(I); if (fclose(O)) vh_hard("fclose"); free(out); out = k.p; on = k.n; }
	if (rc) vh_viol("wide-dec-failed", "a valid file with logN=%d r=%u p=%u is refused (%d), %zu bytes, passphrase of %zu bytes, interface %d", l, r, p, rc, n, pn, via);
	else {
		if (on != n || (n && memcmp(in, out, n))) vh_viol("wide-plaintext", "file with logN=%d r=%u p=%u: wrong plaintext (%zu bytes instead of %zu)", l, r, p, on, n);
		if (P.logN != l || P.r != r || P.p != p) vh_viol("wide-params", "file with logN=%d r=%u p=%u: returned %d %u %u", l, r, p, P.logN, P.r, P.p);
		if (vc_nkdf != 1 || vc_kdf[0].N != (uint64_t)1 << l || vc_kdf[0].r != r || vc_kdf[0].p != p || vc_kdf[0].pn != pn || memcmp(vc_kdf[0].salt, salt, 32)) vh_viol("wide-kdf", "file with logN=%d r=%u p=%u: derivation called %d times, with N=%llu r=%zu p=%zu", l, r, p, vc_nkdf, (unsigned long long)vc_kdf[0].N, vc_kdf[0].r, vc_kdf[0].p);
	}
	vh_ev("wide_parameter_decryptions"); vh_case(l * 4 + via, (uint64_t)r << 32 | p, n, pn); vh_sample("logN=%d r=%u p=%u: %zu bytes", l, r, p, n);
	free(in); free(f); free(out);
}
/* the real derivation at sizes beyond 16 bits */
static void real(int dec_, int l, uint32_t r, uint32_t p, int via) {
	uint8_t in[100], out[300], f[300], salt[32]; size_t n = vh_rnd(100), on = 0; int rc; const char *e; struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0};
	vc_on = 0; vh_bytes(in, n); vh_bytes(pw, 9);
	if (!dec_) { P.logN = l; P.r = r; P.p = p;
		if (via == 0) rc = scryptenc_buf(in, n, out, pw, 9, &P, 0, 1); else { FILE *I = fmemopen(NULL, 200, "w+"), *O = fmemopen(out, sizeof out, "w"); if (n && fwrite(in, n, 1, I) != 1) vh_hard("fmemopen"); rewind(I); { struct vsrc s; fclose(I); I = vsrc_open(&s, in, n, 3, -1, 0); rc = scryptenc_file(I, O, pw, 9, &P, 0, 1); } fclose(I); fclose(O); }
		e = rc ? "failed" : o_conforms(out, n + 128, pw, 9, l, r, p, in, n); if (e) vh_viol("wide-real-format", "encryption with logN=%d r=%u p=%u: %s (%d)", l, r, p, e, rc); }
	else { vh_bytes(salt, 32); o_encode(pw, 9, salt, l, r, p, in, n, f, NULL);
		if (via == 0) rc = scryptdec_buf(f, n + 128, out, &on, pw, 9, &P, 0, 1); else { struct vsrc s; struct vsnk k; FILE *I = vsrc_open(&s, f, n + 128, 3, -1, 0), *O = vsnk_open(&k, -1, 0); rc = scryptdec_file(I, O, pw, 9, &P, 0, 1); fclose(I); fclose(O); on = k.n; if (on <= 300 && on) memcpy(out, k.p, on); free(k.p); }
		if (rc || on != n || memcmp(in, out, n)) vh_viol("wide-real-plaintext", "a valid file with logN=%d r=%u p=%u: %d, %zu bytes instead of %zu", l, r, p, rc, on, n); }
	vh_ev("wide_real_derivations"); vh_case(l, (uint64_t)r << 32 | p, n, dec_); vc_on = 1;
}
int main(int argc, char **argv) {
	int d = argv[1][0] == 'd', n = atoi(argv[3]), i, l, via; uint64_t st = strtoull(argv[2], 0, 10); uint32_t r, p;
	signal(SIGPIPE, SIG_IGN); vh_seed(st + (d ? 66100 : 55100)); (void)argc;
#define GO(l, r, p, v) do { if (d) dec(l, r, p, v); else enc(l, r, p, v); } while (0)
	if (!strcmp(argv[1] + 3, "real")) {
		for (i = 0; i < n; i++) { r = 65536 + vh_rnd(9000); if (i % 2) real(d, 1 + (i & 2) / 2, r, 1, vh_rnd(2)); else real(d, 1 + (i & 2) / 2, 1, r, vh_rnd(2)); }
		return vh_done();
	}
	for (via = 0; via < (d ? 3 : 2); via++) {
		for (l = 1; l <= 63; l++) { rp(&r, &p); GO(l, r, p, via); GO(l, 8, 1, via); }
		for (i = 0; i < 30; i++) { uint32_t b = 1u << i; GO(1 + (int)vh_rnd(63), b, 1, via); GO(1 + (int)vh_rnd(63), 1, b, via); GO(1 + (int)vh_rnd(63), b, 0x3fffffff / b, via); GO(1 + (int)vh_rnd(63), 0x3fffffff / b, b, via); if (i) { GO(1 + (int)vh_rnd(63), b - 1, 1, via); GO(1 + (int)vh_rnd(63), 1, b - 1, via); GO(1 + (int)vh_rnd(63), b + 1, 1, via); GO(1 + (int)vh_rnd(63), 1, b + 1, via); } }
	}
	for (i = 0; i < n; i++) { rp(&r, &p); GO(1 + (int)vh_rnd(63), r, p, (int)vh_rnd(d ? 3 : 2)); }
	return vh_done();
}
