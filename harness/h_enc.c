/* C05/C06: what the encryption functions produce, what the decryption functions return. */
#include "vh_io.h"
#include <signal.h>
#include "scryptenc.h"

static size_t picklen(int big) {
	static const size_t b[] = {0,1,15,16,17,31,32,33,63,64,65,95,96,97,127,128,129,255,256,257};
	switch (vh_rnd(big ? 5 : 3)) { case 0: return b[vh_rnd(20)]; case 1: return vh_rnd(300); case 2: return vh_rnd(5000); case 3: return 65536 * (1 + vh_rnd(4)) + vh_rnd(81) - 40; default: return vh_rnd(700000); }
}
static size_t pickpw(uint8_t *pw) {
	size_t n; switch (vh_rnd(6)) { case 0: n = 0; break; case 1: n = 63 + vh_rnd(3); break; case 2: n = 65 + vh_rnd(400); break; default: n = 1 + vh_rnd(40); }
	vh_bytes(pw, n); return n;
}
static void pickparams_(int *l, uint32_t *r, uint32_t *p, int hard) {
	switch (vh_rnd(hard ? 8 : 4)) {
	case 0: *l = 1; *r = 1; *p = 1; break; case 1: *l = 1 + vh_rnd(6); *r = 1 + vh_rnd(4); *p = 1 + vh_rnd(3); break;
	case 2: *l = 1 + vh_rnd(4); *r = 1 + vh_rnd(40); *p = 1 + vh_rnd(5); break; case 3: *l = 1 + vh_rnd(3); *r = 1 + vh_rnd(3); *p = 1 + vh_rnd(60); break;
	case 4: *l = 10; *r = 8; *p = 1; break; case 5: *l = 11 + vh_rnd(2); *r = 1 + vh_rnd(2); *p = 1; break; case 6: *l = 1; *r = 256 + vh_rnd(600); *p = 1 + vh_rnd(2); break; default: *l = 1; *r = 1; *p = 256 + vh_rnd(1500); break;
	}
}
/* ---- C05 ---- */
static void enc_case(size_t n, int iface, int style, int hard) {
	uint8_t pw[600], *in, *out, *sv = malloc(n + 1); size_t pn = pickpw(pw), on = 0; struct gbuf gi, go; struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; int l; uint32_t r, p; int rc, force = 1; const char *e; struct vsrc s; struct vsnk k; FILE *I, *O; struct vpipe vp; char *mb = NULL; size_t ml = 0; uint8_t pwsv[600];
	pickparams_(&l, &r, &p, hard); P.logN = l; P.r = r; P.p = p;
	if (vh_rnd(60) == 0) { P.logN = P.r = P.p = 0; P.maxmem = 1 << 20; P.maxmemfrac = 0.1; P.maxtime = vh_rnd(2) ? 0 : 0.001; force = vh_rnd(2); vh_ev("picked_params"); }
	else if (vh_rnd(60) == 0) force = 0;
	in = gb_new(&gi, n, vh_rnd(3) ? vh_rnd(20) : 0); vh_fill(in, n); memcpy(sv, in, n); memcpy(pwsv, pw, sizeof pw);
	if (vh_rnd(8) == 0) { memset(in, 0, n); memset(sv, 0, n); }
	if (iface == 0) {
		out = gb_new(&go, n + 128, vh_rnd(3) ? vh_rnd(20) : 0); memset(out, 0x5f, n + 128);
		rc = scryptenc_buf(in, n, out, pw, pn, &P, 0, force); on = n + 128;
		if (!gb_ok(&go)) vh_viol("overrun", "scryptenc_buf wrote outside its output, length %zu", n);
	} else {
		if (iface == 2) I = vpipe_open(&vp, in, n, style % 3);
		else if (iface == 3) { I = tmpfile(); if (!I) vh_hard("tmpfile"); if (n && fwrite(in, n, 1, I) != 1) vh_hard("tmpfile"); rewind(I); }
		else I = vsrc_open(&s, in, n, style, -1, vio_bufmode());
		if (style == 0 && iface != 1) { O = open_memstream(&mb, &ml); memset(&k, 0, sizeof k); } else O = vsnk_open(&k, -1, vio_bufmode());
		rc = scryptenc_file(I, O, pw, pn, &P, 0, force);
		if (fclose(O)) vh_hard("fclose");
		if (mb) { out = (uint8_t *)mb; on = ml; } else { out = k.p; on = k.n; }
		if (iface == 2) vpipe_close(&vp, I); else fclose(I);
	}
	if (rc != 0) vh_viol("enc-failed", "encryption failed with %d (length %zu, interface %d, logN %d r %u p %u)", rc, n, iface, l, r, p);
	else {
		if (P.logN == 0) vh_viol("params-unset", "no parameters returned");
		if (l && force && P.maxtime > 1 && (P.logN != l || P.r != r || P.p != p)) vh_viol("params-changed", "parameters changed");
		e = on < 128 ? "shorter than 128 bytes" : o_conforms(out, on, pwsv, pn, P.logN, P.r, P.p, sv, n);
		if (e) vh_viol("format", "%s (data %zu bytes, output %zu, interface %d, style %d, logN %d r %u p %u, passphrase %zu bytes)", e, n, on, iface, style, P.logN, P.r, P.p, pn);
	}
	if (memcmp(in, sv, n) || !gb_ok(&gi)) vh_viol("input-modified", "the input data changed (interface %d)", iface);
	if (memcmp(pw, pwsv, pn)) vh_viol("passphrase-modified", "the caller's passphrase changed");
	vh_ev(iface == 0 ? "buf_outputs_decoded" : "stream_outputs_decoded"); vh_case(n, iface * 100 + style, pn, ((uint64_t)l << 48) ^ ((uint64_t)r << 24) ^ p);
	vh_sample("encrypted %zu bytes via %s logN=%d r=%u p=%u -> %zu bytes", n, iface == 0 ? "buf" : iface == 1 ? "cookie stream" : iface == 2 ? "pipe" : "file", P.logN, P.r, P.p, on);
	gb_free(&gi); if (iface == 0) gb_free(&go); else free(mb ? (void *)mb : k.p); free(sv);
}
/* ---- C06 ---- */
static void dec_case(size_t n, int iface, int style, int hard) {
	uint8_t pw[600], salt[32], *data = malloc(n + 1), *enc = malloc(n + 128), *in, *out; size_t pn = pickpw(pw), on = 0; int l; uint32_t r, p; int rc, force = vh_rnd(40) != 0; struct gbuf gi, go; struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; struct vsrc s; struct vsnk k; FILE *I, *O; struct scryptdec_file_cookie *C = NULL; struct vpipe vp;
	pickparams_(&l, &r, &p, hard); vh_fill(data, n); vh_bytes(salt, 32); if (vh_rnd(20) == 0) memset(salt, vh_rnd(2) ? 0 : 0xff, 32);
	o_encode(pw, pn, salt, l, r, p, data, n, enc, NULL);
	in = gb_new(&gi, n + 128, vh_rnd(3) ? vh_rnd(20) : 0); memcpy(in, enc, n + 128);
	if (iface == 0) {
		out = gb_new(&go, n + 128, vh_rnd(3) ? vh_rnd(20) : 0); memset(out, 0x21, n + 128); on = 12345678;
		rc = scryptdec_buf(in, n + 128, out, &on, pw, pn, &P, 0, force);
		if (!gb_ok(&go)) vh_viol("overrun", "scryptdec_buf wrote outside its output, length %zu", n);
	} else {
		if (iface == 3) I = vpipe_open(&vp, in, n + 128, style % 3); else if (iface == 4) { I = tmpfile(); fwrite(in, n + 128, 1, I); rewind(I); } else I = vsrc_open(&s, in, n + 128, style, -1, vio_bufmode());
		O = vsnk_open(&k, -1, vio_bufmode());
		if (iface == 2) {
			rc = scryptdec_file_prep(I, pw, pn, &P, 0, force, &C); memset(pw, 0, sizeof pw); /* the passphrase may go away now */
			if (rc == 0) { rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); }
		} else rc = scryptdec_file(I, O, pw, pn, &P, 0, force);
		if (fclose(O)) vh_hard("fclose"); out = k.p; on = k.n;
		if (iface == 3) vpipe_close(&vp, I); else fclose(I);
	}
	if (rc != 0) vh_viol("dec-failed", "a valid file of %zu+128 bytes was refused with %d (interface %d style %d logN %d r %u p %u, passphrase %zu bytes)", n, rc, iface, style, l, r, p, pn);
	else if (on != n || (n && memcmp(out, data, n))) { size_t i = 0; while (i < n && i < on && out[i] == data[i]) i++; vh_viol("plaintext", "wrong plaintext: %zu bytes instead of %zu, first difference at %zu (interface %d style %d)", on, n, i, iface, style); }
	if (rc == 0 && (P.logN != l || P.r != r || P.p != p)) vh_viol("params", "returned parameters differ from the file's");
	if (memcmp(in, enc, n + 128) || !gb_ok(&gi)) vh_viol("input-modified", "the encrypted input changed");
	vh_ev(iface == 0 ? "buf_decryptions" : iface == 2 ? "prep_copy_decryptions" : "stream_decryptions"); vh_case(n, iface * 100 + style, pn, ((uint64_t)l << 48) ^ ((uint64_t)r << 24) ^ p);
	vh_sample("decrypted %zu bytes via interface %d logN=%d r=%u p=%u", n, iface, l, r, p);
	gb_free(&gi); if (iface == 0) gb_free(&go); else free(k.p); free(data); free(enc);
}
/* a stream positioned after other data; several files encrypted with the same streams */
static void seq_case(void) {
	uint8_t pw[600]; size_t pn = pickpw(pw), n1 = picklen(0), n2 = picklen(0); uint8_t *d = malloc(n1 + 1), *d2 = malloc(n2 + 1); FILE *T = tmpfile(); struct scryptenc_params P = {0, 0.5, 300, 1, 1, 1}, Q = {0, 0.5, 300, 0, 0, 0}; char *mb; size_t ml; FILE *O; struct vsrc s; FILE *I; int rc;
	vh_fill(d, n1); vh_fill(d2, n2); fwrite("prefix", 6, 1, T);
	I = vsrc_open(&s, d, n1, 3, -1, 0); rc = scryptenc_file(I, T, pw, pn, &P, 0, 1); fclose(I); if (rc) vh_viol("seq", "encryption after a prefix failed: %d", rc);
	fflush(T); fseek(T, 6, SEEK_SET); O = open_memstream(&mb, &ml); rc = scryptdec_file(T, O, pw, pn, &Q, 0, 1); fclose(O);
	if (rc || ml != n1 || memcmp(mb, d, n1)) vh_viol("seq", "round trip at an offset of a stream failed: %d", rc);
	vh_ev("offset_round_trips"); vh_case(n1, n2, pn, 77); free(mb); free(d); free(d2); fclose(T);
}
/* other complete operations of the library, between the two phases of a decryption */
static void other_op(void) {
	uint8_t pw[600], salt[32], data[700], out[900], *e; size_t pn = pickpw(pw), n = vh_rnd(600), on = 99999; struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; int rc; struct vsrc s; struct vsnk k; FILE *I, *O; struct scryptdec_file_cookie *C = NULL; const char *w;
	vh_bytes(data, sizeof data); vh_bytes(salt, 32); vh_ev("operations_between_phases");
	switch (vh_rnd(5)) {
	case 0: P.logN = 1 + vh_rnd(3); P.r = 1 + vh_rnd(3); P.p = 1; rc = scryptenc_buf(data, n, out, pw, pn, &P, 0, 1); w = rc ? "failed" : o_conforms(out, n + 128, pw, pn, P.logN, P.r, P.p, data, n); if (w) vh_viol("inter-enc", "encryption between the phases of a decryption: %s", w); break;
	case 1: o_encode(pw, pn, salt, 2, 1, 1, data, n, out, NULL); e = malloc(n + 128); rc = scryptdec_buf(out, n + 128, e, &on, pw, pn, &P, 0, 1); if (rc || on != n || memcmp(e, data, n)) vh_viol("inter-dec", "decryption between the phases of another: %d", rc); free(e); break;
	case 2: o_encode(pw, pn, salt, 1, 1, 1, data, n, out, NULL); I = vsrc_open(&s, out, n + 128, vh_rnd(9), -1, vio_bufmode()); pw[0]++; rc = scryptdec_file_prep(I, pw, pn ? pn : 1, &P, 0, 1, &C); if (rc != 11) { vh_viol("inter-wrong", "wrong passphrase between the phases of a decryption: %d", rc); if (!rc) scryptdec_file_cookie_free(C); } fclose(I); break;
	case 3: o_encode(pw, pn, salt, 1, 2, 1, data, n, out, NULL); out[vh_rnd(n + 32) + 96] ^= 1 << vh_rnd(8); I = vsrc_open(&s, out, n + 128, vh_rnd(9), -1, vio_bufmode()); O = vsnk_open(&k, -1, vio_bufmode()); rc = scryptdec_file(I, O, pw, pn, &P, 0, 1); if (rc != 7) vh_viol("inter-bad", "damaged file between the phases of a decryption: %d", rc); fclose(I); fclose(O); free(k.p); break;
	default: I = vsrc_open(&s, data, n, vh_rnd(9), -1, vio_bufmode()); O = vsnk_open(&k, -1, vio_bufmode()); P.logN = 1; P.r = P.p = 1; rc = scryptenc_file(I, O, pw, pn, &P, 0, 1); fclose(I); fclose(O); w = rc ? "failed" : o_conforms(k.p, k.n, pw, pn, 1, 1, 1, data, n); if (w) vh_viol("inter-encfile", "stream encryption between the phases of a decryption: %s", w); free(k.p); break;
	}
}
/* several two-phase decryptions at the same time, their phases interleaved */
static void inter_case(void) {
	enum { M = 5 }; struct { uint8_t *data, *enc; size_t n; FILE *I; struct vsrc s; struct scryptdec_file_cookie *C; int state, style; struct scryptenc_params P; } f[M]; int m = 2 + vh_rnd(M - 1), i, left = m, rc; uint8_t pw[600], same[600], salt[32]; size_t pn, sn = pickpw(same), sk = vh_rnd(3);
	for (i = 0; i < m; i++) {
		f[i].n = picklen(1); f[i].data = malloc(f[i].n + 1); f[i].enc = malloc(f[i].n + 128); vh_fill(f[i].data, f[i].n); vh_bytes(salt, 32); f[i].style = vh_rnd(9);
		if (sk == 0) { memcpy(pw, same, sizeof pw); pn = sn; } else pn = pickpw(pw);
		o_encode(pw, pn, salt, 1 + vh_rnd(3), 1 + vh_rnd(3), 1 + vh_rnd(2), f[i].data, f[i].n, f[i].enc, NULL);
		f[i].I = vsrc_open(&f[i].s, f[i].enc, f[i].n + 128, f[i].style, -1, vio_bufmode()); f[i].C = NULL; memset(&f[i].P, 0, sizeof f[i].P); f[i].P.maxmemfrac = 0.5; f[i].P.maxtime = 300; f[i].state = 0;
		if (vh_rnd(3) == 0) other_op();
		rc = scryptdec_file_prep(f[i].I, pw, pn, &f[i].P, 0, 1, &f[i].C); memset(pw, 0, sizeof pw);
		if (rc) { vh_viol("inter-prep", "scryptdec_file_prep of a valid file returned %d with %d others open", rc, i); f[i].state = 3; left--; }
	}
	while (left) {
		i = vh_rnd(m); if (vh_rnd(4) == 0) other_op();
		if (f[i].state == 0) {
			struct vsnk k; FILE *O;
			if (vh_rnd(6) == 0) { f[i].state = 2; vh_ev("abandoned_cookies"); continue; }
			O = vsnk_open(&k, -1, vio_bufmode()); rc = scryptdec_file_copy(f[i].C, O); if (fclose(O)) vh_hard("fclose");
			if (rc || k.n != f[i].n || (k.n && memcmp(k.p, f[i].data, k.n))) vh_viol("inter-copy", "scryptdec_file_copy returned %d with %zu bytes instead of %zu, with other decryptions under way", rc, k.n, f[i].n);
			vh_ev("interleaved_copies"); vh_case(f[i].n, 900 + f[i].style, m, left); free(k.p); f[i].state = 1;
		} else if (f[i].state < 3) { scryptdec_file_cookie_free(f[i].C); f[i].state = 3; left--; }
	}
	for (i = 0; i < m; i++) { fclose(f[i].I); free(f[i].data); free(f[i].enc); }
}
int main(int argc, char **argv) {
	const char *m = argv[1]; uint64_t st = strtoull(argv[2], 0, 10); int scale = atoi(argv[3]), i, part = st % 4; size_t n; void (*f)(size_t, int, int, int) = m[0] == 'e' ? enc_case : dec_case; int ni = m[0] == 'e' ? 4 : 5;
	signal(SIGPIPE, SIG_IGN); vh_seed(st + (m[0] == 'e' ? 100000 : 200000));
	if (part == 0) { for (n = 0; n <= 400; n++) for (i = 0; i < ni; i++) f(n, i, vh_rnd(9), 0); for (i = 0; i < 40; i++) seq_case(); }
	else if (part == 1) { for (i = 1; i <= 3; i++) for (n = 65536 * i - 40; n <= 65536 * i + 40; n++) { f(n, 0, 0, 0); f(n, 1, vh_rnd(9), 0); if (m[0] != 'e' || n % 3 == 0) f(n, 2, vh_rnd(9), 0); } }
	else if (part == 2) { if (m[0] != 'e') for (i = 0; i < 40 * scale; i++) inter_case(); for (i = 0; i < 250 * scale; i++) f(picklen(0), vh_rnd(ni), vh_rnd(9), 1); for (i = 0; i < 40 * scale; i++) f(picklen(1), vh_rnd(ni), vh_rnd(9), 0); }
	else { for (i = 0; i < 9; i++) f(200000 + vh_rnd(100), 1, i, 0); f(5000000 + vh_rnd(1000), 0, 0, 0); f(6000000 + vh_rnd(1000), 1, 7, 0); f(4 << 20, 2, 0, 0); if (scale > 1) { f(100000000 + vh_rnd(1000), 0, 0, 0); f(150000000 + vh_rnd(1000), 1, 7, 0); f(150000000 + vh_rnd(1000), 2, 1, 0); } }
	return vh_done();
}
