/* C19: after every library call no block is left allocated and no key remains in freed memory,
 * on the stack or in static memory. */
#include "vh_io.h"
#include "resid.h"
#include <signal.h>
#include "scryptenc.h"

static char ctx[300]; static const char * sc;
static void report(const char * where, const char * name, size_t len) { char key[200]; snprintf(key, sizeof key, "left:%s:%s", name, where); vh_viol(key, "%zu bytes of %s found in %s: %s", len, name, where, ctx); }
static uint8_t pw[80], dat[300000], enc[300200], out[300400], salt[32], dk[64]; static size_t pn, n, en, ol; static int op;
static struct scryptenc_params P; static FILE * I, * O; static struct scryptdec_file_cookie * C;
static int call(void * a) {
	int rc; (void)a;
	switch (op) {
	case 0: return scryptenc_buf(dat, n, out, pw, pn, &P, 0, 1);
	case 1: return scryptdec_buf(enc, en, out, &ol, pw, pn, &P, 0, 1);
	case 2: return scryptenc_file(I, O, pw, pn, &P, 0, 1);
	case 3: return scryptdec_file(I, O, pw, pn, &P, 0, 1);
	default: C = NULL; rc = scryptdec_file_prep(I, pw, pn, &P, 0, 1, &C); if (rc == 0) { rs_deadstack("the stack after scryptdec_file_prep"); if (op == 4) rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); } return rc;
	}
}
static const char * ops[] = { "scryptenc_buf", "scryptdec_buf", "scryptenc_file", "scryptdec_file", "prep+copy+free", "prep+free" };
static uint8_t obuf[700000];
/* sc: scenario already reflected in enc/pw/failure positions */
static int once(long long rfail, long long wfail, long afail, int expectok) {
	struct vsrc s; struct vsnk k; int rc, style = vh_rnd(9), bi = vh_rnd(2) ? 1 : 65536, bo = vh_rnd(3) ? 1 : 4096; char key[100];
	if (n > 5000 && (style == 1 || style == 2 || style == 5 || style == 8)) style = 0;
	snprintf(ctx, sizeof ctx, "%s, %s, %zu bytes, read error at %lld, write error at %lld, allocation %ld failing", ops[op], sc, n, rfail, wfail, afail);
	I = O = NULL;
	if (op >= 2) { I = vsrc_open(&s, op == 2 ? dat : enc, op == 2 ? n : en, style, rfail, bi); O = vsnk_open(&k, wfail, bo); k.p = obuf; k.cap = sizeof obuf; }
	P = (struct scryptenc_params){ 0, 0.5, 300, 0, 0, 0 }; if (op == 0 || op == 2) P.logN = 10, P.r = 1, P.p = 1 + vh_rnd(2);
	rs_reset(); rs_add(dk, 0, 1, 1, ""); va_begin(); va_failat = afail; va_onfree = rs_freehook;
	rc = rs_run(call, NULL);
	va_stop(); va_failat = -1; va_onfree = NULL;
	rs_stack("the stack after the call"); rs_static();
	if (va_n) { snprintf(key, sizeof key, "leak:%s", ops[op]); vh_viol(key, "%d blocks not released: rc %d, %s", va_n, rc, ctx); }
	if (expectok && rc) { snprintf(key, sizeof key, "fails:%s", ops[op]); vh_viol(key, "returns %d: %s", rc, ctx); }
	if (op >= 2) { fclose(O); fclose(I); }
	vh_ev("calls"); vh_ev(rc ? "calls_failing" : "calls_succeeding"); { char e[80], * q; snprintf(e, sizeof e, "calls: %s", sc); for (q = e; *q; q++) if (*q == ' ') *q = '_'; static char names[32][80]; static int nn; int j; for (j = 0; j < nn && strcmp(names[j], e); j++); if (j == nn) strcpy(names[nn++], e); vh_ev(names[j]); } if (rs->ns) vh_ev("calls_with_keys_known");
	vh_case(op, vh_mix(n) ^ vh_mix((uintptr_t)sc), rfail * 1000003 + wfail, afail); vh_sample("%s -> %d", ctx, rc);
	return rc;
}
static int seen; static void cnt(const char * w, const char * nm, size_t l) { (void)w; (void)nm; (void)l; seen++; }
int main(int argc, char ** argv) {
	uint64_t st = strtoull(argv[1], 0, 10); int scale = atoi(argv[2]), i; long a; (void)argc;
	vh_seed(st); rs_init(); rs_report = report; signal(SIGPIPE, SIG_IGN);
	/* positive control: the scanner sees a planted key */
	{ uint8_t * q = malloc(400); rs_reset(); vh_bytes(rs->dk, 64); rs_addkeys(NULL); int before = vh_nviol; void (*rp)(const char *, const char *, size_t) = rs_report;
	  rs_report = cnt; memset(q, 7, 400); memcpy(q + 123, rs->dk + 30, 34); rs_scanh(q, 400, "x"); memset(q, 7, 400); rs_expand(rs->dk, q + 51); q[51 + 100] ^= 1; memset(q + 51, 9, 60); rs_scanh(q, 400, "x"); if (seen != 2 || before != (int)vh_nviol) vh_hard("scanner blind"); rs_report = rp; free(q); vh_evn("scanner_selftests", 2); }
	for (i = 0; i < 40 * scale; i++) {
		int k = vh_rnd(6); uint8_t keep;
		pn = vh_rnd(80); vh_bytes(pw, pn); vh_bytes(salt, 32);
		n = k == 0 ? vh_rnd(3) : k < 4 ? vh_rnd(400) : k == 4 ? 65536 * (1 + vh_rnd(3)) + vh_rnd(80) - 40 : vh_rnd(9000); vh_fill(dat, n);
		o_encode(pw, pn, salt, 4 + vh_rnd(5), 1 + vh_rnd(3), 1 + vh_rnd(2), dat, n, enc, dk); memset(dk, 0, 64); en = n + 128;
		for (op = 0; op < 6; op++) {
			sc = "success"; once(-1, -1, -1, 1);
			if (op == 1 || op >= 3) {
				size_t p;
				if (pn) { sc = "wrong passphrase"; keep = pw[p = vh_rnd(pn)]; pw[p] ^= 1; once(-1, -1, -1, 0); pw[p] = keep; }
				sc = "changed body"; p = 96 + vh_rnd(n + 32); enc[p] ^= 4; once(-1, -1, -1, 0); enc[p] ^= 4;
				sc = "changed header check"; p = 64 + vh_rnd(32); enc[p] ^= 4; once(-1, -1, -1, 0); enc[p] ^= 4;
				sc = "changed header"; p = vh_rnd(64); keep = enc[p]; enc[p] ^= 4; once(-1, -1, -1, 0); enc[p] = keep;
				sc = "truncated"; en = vh_rnd(2) ? 96 + vh_rnd(n + 32) : vh_rnd(n + 128); once(-1, -1, -1, 0); en = 96 + vh_rnd(32); once(-1, -1, -1, 0); en = n + 128;
			}
			if (op >= 2) {
				sc = "read error"; once(vh_rnd(op == 2 ? n + 1 : en), -1, -1, 0); once(op == 2 ? n : 96 + vh_rnd(n + 32), -1, -1, 0);
				if (op < 5) { size_t ow = op == 2 ? n + 128 : n; if (ow) { sc = "write error"; once(-1, vh_rnd(ow), -1, 0); once(-1, ow - 1, -1, 0); once(-1, 0, -1, 0); } }
			}
			sc = "allocation failure"; for (a = 1; a < 40; a++) { once(-1, -1, a, 0); if (!va_failed) break; }
			if (op >= 2 && op != 5) { sc = "write error and allocation failure"; once(-1, vh_rnd(op == 2 ? n + 128 : n + 1), 1 + vh_rnd(9), 0); }
		}
	}
	vh_evn("heap_blocks_scanned_at_release", rs_freed); vh_evn("heap_bytes_scanned", rs_freedbytes); vh_evn("stacks_scanned", rs_stacks); vh_evn("keys_known_in_advance", rs_kdfs);
	return vh_done();
}
