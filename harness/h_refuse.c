/* C08: a refused decryption leaves the caller's output untouched and returns the code of its cause. */
#include "vh_io.h"
#include <signal.h>
#include "scryptenc.h"

static uint8_t pw[400]; static size_t pn; static uint8_t salt[32], dk[64];
static const char *nm[] = {"OK", "ELIMIT", "ECLOCK", "EKEY", "ESALT", "EOPENSSL", "ENOMEM", "EINVAL", "EVERSION", "ETOOBIG", "ETOOSLOW", "EPASS", "EWRFILE", "ERDFILE", "EPARAM", "EBIGSLOW"};
static const char *name(int rc) { return rc >= 0 && rc <= 15 ? nm[rc] : "?"; }
/* the file as it was made, and the same memory for every passphrase: a decryption that is refused may follow one that was not */
static const uint8_t *good; static size_t goodn; static uint8_t Q[1024];
static void prime(int iface) {
	struct scryptenc_params P = {0, 0.5, 1e300, 0, 0, 0}; int rc; size_t ol = 0; memcpy(Q, pw, pn);
	if (iface == 0) { uint8_t *o = malloc(goodn); rc = scryptdec_buf(good, goodn, o, &ol, Q, pn, &P, 0, 1); free(o); }
	else { struct vsrc s; struct vsnk k; FILE *I = vsrc_open(&s, good, goodn, 0, -1, vio_bufmode()), *O = vsnk_open(&k, -1, vio_bufmode()); struct scryptdec_file_cookie *C = NULL;
		if (iface == 1) rc = scryptdec_file(I, O, Q, pn, &P, 0, 1); else { rc = scryptdec_file_prep(I, Q, pn, &P, 0, 1, &C); if (rc == 0) { if (vh_rnd(2)) rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); } }
		fclose(O); fclose(I); free(k.p); }
	if (rc) vh_viol("control", "the unchanged file is refused (%d) between refusals", rc);
	vh_ev("successes_before_a_refusal");
}
/* the file through the interfaces in mask; want is the code for streams, wantb for buffers (-1: do not use buffers) */
static void refuse(const uint8_t *f, size_t n, const uint8_t *q0, size_t qn, struct scryptenc_params P0, int force, int want, int wantb, long long failat, const char *what, uint64_t a, uint64_t b) {
	int i, rc, style = vh_rnd(9); struct scryptenc_params P; const uint8_t *q = Q;
	for (i = 0; i < 3; i++) {
		P = P0;
		if (i == 0 && wantb < 0) continue;
		if (vh_rnd(3) == 0) prime(vh_rnd(3));
		memcpy(Q, q0, qn);
		if (i == 0) {
			struct gbuf gi, go; size_t k, ol = 0x5a5a; uint8_t *fp;
			gb_new(&gi, n, 0); if (n) memcpy(gi.p, f, n); gb_new(&go, n, vh_rnd(16)); fp = malloc(n + 1);
			for (k = 0; k < n; k++) fp[k] = vh_rnd(256); if (n) memcpy(go.p, fp, n);
			rc = scryptdec_buf(gi.p, n, go.p, &ol, q, qn, &P, 0, force);
			if (rc != wantb) vh_viol("code", "%s (%llu, %llu): scryptdec_buf returns %d (%s), not %d (%s); %zu bytes, force %d", what, (unsigned long long)a, (unsigned long long)b, rc, name(rc), wantb, name(wantb), n, force);
			if ((n && memcmp(go.p, fp, n)) || !gb_ok(&go)) vh_viol("output-buffer-written", "%s (%llu, %llu): refused (%s) but the output buffer was written to", what, (unsigned long long)a, (unsigned long long)b, name(rc));
			if (n && memcmp(gi.p, f, n)) vh_viol("input-buffer-written", "%s", what);
			gb_free(&gi); gb_free(&go); free(fp);
		} else {
			struct vsrc s; struct vsnk k; FILE *I = vsrc_open(&s, f, n, style, failat, vio_bufmode()), *O = vsnk_open(&k, -1, vio_bufmode()); struct scryptdec_file_cookie *C = NULL;
			if (i == 1) rc = scryptdec_file(I, O, q, qn, &P, 0, force);
			else { rc = scryptdec_file_prep(I, q, qn, &P, 0, force, &C); if (rc == 0) { vh_ev("prep_accepted"); scryptdec_file_cookie_free(C); } }
			fclose(O); fclose(I);
			if (rc != want) vh_viol("code", "%s (%llu, %llu): %s returns %d (%s), not %d (%s); %zu bytes, force %d, read error at %lld", what, (unsigned long long)a, (unsigned long long)b, i == 1 ? "scryptdec_file" : "scryptdec_file_prep", rc, name(rc), want, name(want), n, force, failat);
			if (k.n || k.writes) vh_viol("output-stream-written", "%s (%llu, %llu): refused (%s) but %zu bytes were written to the output", what, (unsigned long long)a, (unsigned long long)b, name(rc), k.n);
			free(k.p);
		}
		vh_ev("refusals_checked"); { char e[32]; static char tab[16][32]; snprintf(e, 32, "refused_%s", name(i ? want : wantb)); if (!tab[(i ? want : wantb) & 15][0]) strcpy(tab[(i ? want : wantb) & 15], e); vh_ev(tab[(i ? want : wantb) & 15]); }
		vh_case(a, b, vh_mix((uintptr_t)what) ^ n, i * 2 + force);
	}
}
static void params(uint8_t *g, int logN, uint32_t r, uint32_t p) { g[7] = logN; o_be32(g + 8, r); o_be32(g + 12, p); o_fix(g, 0, dk + 32, 1); }
int main(int argc, char **argv) {
	uint64_t st = strtoull(argv[1], 0, 10); int scale = atoi(argv[2]), it; size_t n, fn, i, j; uint8_t *f, *g, *d, q[500]; size_t qn;
	struct scryptenc_params any = {0, 0.5, 1e300, 0, 0, 0};          /* nothing exceeds the time */
	struct scryptenc_params small = {1 << 20, 0.5, 1e300, 0, 0, 0};  /* 1 MiB */
	struct scryptenc_params slow = {0, 0.5, 1e-9, 0, 0, 0};
	struct scryptenc_params both = {1, 0.5, 1e-9, 0, 0, 0};
	signal(SIGPIPE, SIG_IGN); vh_seed(st + 8800);
	for (it = 0; it < 3 * scale; it++) {
		n = it % 3 == 0 ? vh_rnd(3) : it % 3 == 1 ? vh_rnd(300) : vh_rnd(200000); pn = 1 + (vh_rnd(3) ? vh_rnd(40) : vh_rnd(300)); for (i = 0; i < pn; i++) pw[i] = 1 + vh_rnd(255);
		fn = n + 128; f = malloc(fn + 10); g = malloc(fn + 10); d = malloc(n + 1); vh_fill(d, n); vh_bytes(salt, 32);
		o_encode(pw, pn, salt, 1 + vh_rnd(4), 1 + vh_rnd(4), 1 + vh_rnd(3), d, n, f, dk); memcpy(g, f, fn); goodn = fn; { static uint8_t *keep; free(keep); keep = malloc(fn); memcpy(keep, f, fn); good = keep; }
#define LIM(k) ((k) == 0 ? any : (k) == 1 ? small : (k) == 2 ? slow : both)
#define L vh_rnd(2) ? any : small
		/* wrong passphrases, close to the right one */
#define WRONG(w, x, y) do { if (!(qn == pn && !memcmp(q, pw, pn))) refuse(f, fn, q, qn, L, vh_rnd(2), 11, 11, -1, w, x, y); } while (0)
		for (i = 0; i < pn; i += 1 + pn / 40) for (j = 0; j < 8; j++) { memcpy(q, pw, qn = pn); q[i] ^= 1 << j; if (q[i] == 0 && i == pn - 1) continue; WRONG("wrong passphrase bit", i, j); }
		memcpy(q, pw, pn); q[pn] = 'x'; qn = pn + 1; WRONG("passphrase + 1", 0, 0); q[pn] = '\n'; WRONG("passphrase + newline", 0, 0); q[pn] = ' '; WRONG("passphrase + blank", 0, 0);
		qn = pn - 1; WRONG("passphrase - 1", 0, 0); qn = 0; WRONG("empty passphrase", 0, 0);
		memcpy(q, pw + 1, qn = pn - 1); WRONG("passphrase without first", 0, 0); memcpy(q, pw, pn); memcpy(q + pn, pw, qn = pn < 200 ? pn : 200); qn = pn + qn; WRONG("passphrase twice", 0, 0);
		for (i = 1; i < pn && i < 70; i += 3) { memcpy(q, pw, qn = i); WRONG("passphrase prefix", i, 0); }
		memcpy(q, pw, qn = pn);
		/* header HMAC, salt: indistinguishable from a wrong passphrase */
		for (i = 64; i < 96; i++) { j = vh_rnd(8); g[i] ^= 1 << j; refuse(g, fn, pw, pn, L, vh_rnd(2), 11, 11, -1, "header HMAC", i, j); g[i] = f[i]; }
		for (i = 16; i < 48; i++) { j = vh_rnd(8); g[i] ^= 1 << j; refuse(g, fn, pw, pn, LIM(vh_rnd(4)), vh_rnd(2), 7, 7, -1, "salt with stale checksum", i, j); o_fix(g, fn, dk + 32, 1); if (i % 4 == 0) refuse(g, fn, pw, pn, L, vh_rnd(2), 11, 11, -1, "salt with checksum", i, j); memcpy(g, f, 96); }
		/* checksum */
		for (i = 48; i < 64; i++) for (j = 0; j < 8; j++) { g[i] ^= 1 << j; refuse(g, fn, pw, pn, LIM(vh_rnd(4)), vh_rnd(2), 7, 7, -1, "checksum", i, j); g[i] = f[i]; }
		for (i = 7; i < 16; i++) for (j = 0; j < 8; j++) { g[i] ^= 1 << j; refuse(g, fn, pw, pn, LIM(vh_rnd(4)), vh_rnd(2), 7, 7, -1, "parameter with stale checksum", i, j); g[i] = f[i]; }
		/* magic and version; magic takes precedence */
		for (i = 0; i < 6; i++) for (j = 0; j < 8; j++) { g[i] ^= 1 << j; g[6] = vh_rnd(2) * vh_rnd(256); if (vh_rnd(2)) o_fix(g, fn, dk + 32, 7); refuse(g, fn, pw, pn, LIM(vh_rnd(4)), vh_rnd(2), 7, 7, -1, "magic", i, j); memcpy(g, f, fn); }
		for (j = 1; j < 256; j += it < 3 ? 1 : 7) { g[6] = j; if (vh_rnd(2)) o_fix(g, fn, dk + 32, 7); if (vh_rnd(2)) params(g, 200, 0, 0); refuse(g, vh_rnd(3) ? fn : 7 + vh_rnd(fn - 7), pw, pn, LIM(vh_rnd(4)), vh_rnd(2), 8, 8, -1, "version", j, 0); memcpy(g, f, fn); }
		/* truncation: in a buffer 128 bytes are needed, in a stream the 96-byte header */
		for (i = 0; i < 96; i++) refuse(f, i, pw, pn, LIM(vh_rnd(4)), vh_rnd(2), 7, 7, -1, "truncated header", i, 0);
		for (i = 96; i < 128; i++) { struct scryptenc_params P = any; size_t ol; uint8_t o[128]; memset(o, 0x33, 128); int rc = scryptdec_buf(f, i, o, &ol, pw, pn, &P, 0, vh_rnd(2)); if (rc != 7) vh_viol("code", "buffer of %zu bytes: %d", i, rc); for (j = 0; j < 128; j++) if (o[j] != 0x33) { vh_viol("output-buffer-written", "buffer of %zu bytes", i); break; } vh_ev("refusals_checked");
			refuse(f, i, pw, pn - 1, L, vh_rnd(2), 11, 7, -1, "truncated and wrong passphrase", i, 0); }
		g[6] = 3; for (i = 0; i < 7; i++) refuse(g, i, pw, pn, any, 1, 7, 7, -1, "truncated before version", i, 0); for (i = 7; i < 100; i += 9) refuse(g, i, pw, pn, any, 1, 8, 8, -1, "truncated after version", i, 0); memcpy(g, f, fn);
		g[3] ^= 1; for (i = 0; i < 130 && i < fn; i += 3) refuse(g, i, pw, pn, any, 1, 7, 7, -1, "truncated, not scrypt", i, 0); memcpy(g, f, fn);
		for (i = 0; i < 20; i++) { size_t k = vh_rnd(300); uint8_t x[300]; vh_bytes(x, 300); x[0] |= 0x80; refuse(x, k, pw, pn, any, vh_rnd(2), 7, 7, -1, "random bytes", k, i); memset(x, i % 2 ? 0 : 's', 300); refuse(x, k, pw, pn, any, vh_rnd(2), 7, 7, -1, "constant bytes", k, i); }
		/* invalid parameters with a valid checksum, forced or not, whatever the limits */
		{ static const struct { int l; uint32_t r, p; } bad[] = {{0, 8, 1}, {64, 8, 1}, {65, 1, 1}, {127, 1, 1}, {128, 1, 1}, {255, 1, 1}, {10, 0, 1}, {10, 1, 0}, {10, 0, 0}, {10, 0x8000, 0x8000}, {10, 1, 0x40000000}, {10, 0x40000000, 1}, {10, 0xffffffff, 0xffffffff}, {10, 0xffffffff, 1}, {10, 1, 0xffffffff}, {10, 0x10000, 0x10000}, {10, 0x80000000, 2}, {1, 0x20000000, 2}, {0, 0, 0}, {10, 0xffff, 0x10001}, {10, 3, 0x15555556}, {10, 0x7fffffff, 0x7fffffff}};
		for (i = 0; i < sizeof bad / sizeof bad[0]; i++) for (j = 0; j < 4; j++) { params(g, bad[i].l, bad[i].r, bad[i].p); if (vh_rnd(2)) o_fix(g, fn, dk + 32, 6); refuse(g, fn, pw, pn, LIM(j), vh_rnd(2), 7, 7, -1, "invalid parameters", i, j); memcpy(g, f, fn); } }
		/* limits: over both in every case chosen, the limits decide which */
		{ static const struct { int l; uint32_t r, p; } big[] = {{50, 8, 1}, {63, 1, 1}, {63, 0x3fffffff, 1}, {40, 8, 1024}, {48, 0x10000, 3}, {63, 1, 0x3fffffff}};
		for (i = 0; i < 6; i++) { params(g, big[i].l, big[i].r, big[i].p); if (vh_rnd(2)) o_fix(g, fn, dk + 32, 6);
			refuse(g, fn, pw, pn, small, 0, 9, 9, -1, "too big", i, 0); refuse(g, fn, pw, pn, both, 0, 15, 15, -1, "too big and slow", i, 0); memcpy(g, f, fn); }
		params(g, 10, 1, 0x3fffffff); refuse(g, fn, pw, pn, slow, 0, 10, 10, -1, "too slow", 0, 0); params(g, 4, 8, 0x7ffffff); refuse(g, fn, pw, pn, slow, 0, 10, 10, -1, "too slow", 1, 0); params(g, 12, 64, 0xfffff); refuse(g, fn, pw, pn, slow, 0, 10, 10, -1, "too slow", 2, 0); memcpy(g, f, fn); }
		/* read errors inside the header; everything read before decides first */
		for (i = 0; i < 96; i++) { refuse(f, fn, pw, pn, LIM(vh_rnd(4)), vh_rnd(2), 13, -1, i, "read error in header", i, 0); if (i >= 7) { g[2] ^= 4; refuse(g, fn, pw, pn, any, 1, 7, -1, i, "read error, not scrypt", i, 0); memcpy(g, f, fn); g[6] = 9; refuse(g, fn, pw, pn, any, 1, 8, -1, i, "read error, version", i, 0); g[6] = 0; } }
		refuse(f, fn, pw, pn - 1, L, 1, 11, -1, 96, "read error after header, wrong passphrase", 0, 0);
		/* control */
		{ struct scryptenc_params P = any; size_t ol; if (scryptdec_buf(f, fn, g, &ol, pw, pn, &P, 0, 1) || ol != n || memcmp(g, d, n)) vh_viol("control", "the unchanged file is refused"); vh_ev("control_accepted"); }
		free(f); free(g); free(d);
	}
	vh_sample("near-miss passphrases, header/limit/version/truncation/read-error causes through 3 interfaces, last file %zu bytes", fn);
	return vh_done();
}
