/* C09: read and write faults at every position of the stream functions. */
#include "vh_io.h"
#include <signal.h>
#include "scryptenc.h"
static uint8_t pw[40]; static size_t pn;
enum { ENC, DEC, PREPCOPY };
static int op(int what, FILE *I, FILE *O) {
	struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; struct scryptdec_file_cookie *C; int rc;
	if (what == ENC) { P.logN = 1; P.r = P.p = 1; return scryptenc_file(I, O, pw, pn, &P, 0, 1); }
	if (what == DEC) return scryptdec_file(I, O, pw, pn, &P, 0, 1);
	if ((rc = scryptdec_file_prep(I, pw, pn, &P, 0, 1, &C))) return rc;
	rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); return rc;
}
/* rf, wf: byte positions of the faults (-1: none) */
static void one(int what, const uint8_t *in, size_t n, const uint8_t *exp, size_t en, long long rf, long long wf, int failclose, int once) {
	struct vsrc s; struct vsnk k; int ib = vio_bufmode(), ob = vio_bufmode(), style = vh_rnd(9), rc, fc; FILE *I, *O; int complete; const char *w = what == ENC ? "enc" : what == DEC ? "dec" : "prep/copy"; const char *bad = NULL;
	if (n > 4000 && style >= 1 && style <= 5 && style != 4) style = 7; if (n > 4000 && ib == 1) ib = 0; if (n > 4000 && ob > 1 && ob < 300) ob = 1;
	I = vsrc_open(&s, in, n, style, rf, ib); O = vsnk_open(&k, wf, ob); s.once = k.once = once; k.failclose = failclose;
	rc = op(what, I, O); fc = fclose(O); fclose(I);
	if (k.closed != 1) vh_viol("stream-closed", "%s: caller's output closed %d times", w, k.closed);
	if (what == ENC) { bad = rc ? "failed" : o_conforms(k.p, k.n, pw, pn, 1, 1, 1, in, n); complete = bad == NULL; }
	else complete = k.n == en && !memcmp(k.p ? k.p : (uint8_t *)"", exp, en);
	if (rc == 0 && fc == 0 && !complete) vh_viol("false-success", "%s of %zu bytes reports success and the close succeeds, but the output is not complete and correct (%zu of %zu bytes, %s); read fault at %lld (hit %d times), write fault at %lld (hit %d)", w, n, k.n, en, bad ? bad : "differs", rf, s.failed, wf, k.failed);
	if (s.failed && rc == 0) vh_viol("read-error-ignored", "%s of %zu bytes: success although reading failed at %lld (once %d, style %d)", w, n, rf, once, style);
	if (s.failed && !k.failed && rc != 0 && rc != 13) vh_viol("wrong-code", "%s: read fault at %lld gives %d", w, rf, rc);
	if (k.failed && ob == 1 && !failclose && rc == 0) vh_viol("write-error-ignored", "%s of %zu bytes: success although writing failed at %lld (once %d)", w, n, wf, once);
	if (k.failed && !s.failed && rc != 0 && rc != 12) vh_viol("wrong-code", "%s: write fault at %lld gives %d", w, wf, rc);
	if (s.failed && k.failed && rc != 12 && rc != 13 && rc != 0) vh_viol("wrong-code", "%s: read and write fault give %d", w, rc);
	if (!s.failed && !k.failed && rc != 0) vh_viol("control", "%s of %zu bytes fails (%d) without any fault (style %d, buffers %d %d)", w, n, rc, style, ib, ob);
	if (s.failed) vh_ev("read_faults"); if (k.failed) vh_ev("write_faults"); if (!s.failed && !k.failed) vh_ev("no_fault_runs"); if (failclose) vh_ev("close_faults");
	vh_case(what * 4 + once * 2 + failclose, n, rf + 2, wf + 2); free(k.p);
}
int main(int argc, char **argv) {
	uint64_t st = strtoull(argv[1], 0, 10); int scale = atoi(argv[2]), it, w; size_t n; long long k; uint8_t *d, *f, salt[32]; signal(SIGPIPE, SIG_IGN); vh_seed(st + 9900);
	for (it = 0; it < 8 * scale; it++) {
		int big = it % 4 == 3; pn = 1 + vh_rnd(30); vh_bytes(pw, pn);
		n = big ? 65536 * (1 + vh_rnd(3)) + vh_rnd(200) - 100 : it % 4 == 0 ? vh_rnd(4) : vh_rnd(260); d = malloc(n + 1); f = malloc(n + 129); vh_fill(d, n); vh_bytes(salt, 32); o_encode(pw, pn, salt, 1, 1, 1, d, n, f, NULL);
		for (w = ENC; w <= PREPCOPY; w++) {
			const uint8_t *in = w == ENC ? d : f, *ex = w == ENC ? f : d; size_t inn = w == ENC ? n : n + 128, exn = w == ENC ? n + 128 : n; int j;
			for (j = 0; j < 12; j++) one(w, in, inn, ex, exn, -1, -1, 0, 0);
			one(w, in, inn, ex, exn, -1, -1, 1, 0);
			if (!big) for (k = 0; k <= (long long)inn; k++) { one(w, in, inn, ex, exn, k, -1, 0, 0); one(w, in, inn, ex, exn, k, -1, 0, 1); }
			if (!big) for (k = 0; k < (long long)exn; k++) { one(w, in, inn, ex, exn, -1, k, 0, 0); one(w, in, inn, ex, exn, -1, k, 0, 1); one(w, in, inn, ex, exn, -1, k, 1, 0); one(w, in, inn, ex, exn, vh_rnd(inn + 1), k, 0, vh_rnd(2)); }
			if (big) { long long b; for (b = 0; b <= (long long)inn; b += 4096) for (j = -40; j <= 140; j += 1 + vh_rnd(9)) { k = b + j; if (b % 65536 && vh_rnd(12)) continue; if (k >= 0 && k <= (long long)inn) one(w, in, inn, ex, exn, k, -1, 0, vh_rnd(2)); if (k >= 0 && k < (long long)exn) one(w, in, inn, ex, exn, -1, k, 0, vh_rnd(2)); }
				for (k = 0; k < 34; k++) { one(w, in, inn, ex, exn, inn - k, -1, 0, vh_rnd(2)); one(w, in, inn, ex, exn, -1, exn - 1 - k, 0, vh_rnd(2)); } }
		}
		vh_sample("%zu bytes: read and write fault at %s position, persistent and transient, enc/dec/prep+copy", n, big ? "boundary" : "every"); free(d); free(f);
	}
	return vh_done();
}
