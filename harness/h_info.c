/* C15: what scryptdec_file_printparams says about a header. */
#include "vh_io.h"
#include "scryptenc.h"
typedef unsigned __int128 u128;
static void human(uint64_t x, char *o) {
	static const uint64_t pw[] = {1, 1000, 1000000, 1000000000ULL, 1000000000000ULL, 1000000000000000ULL, 1000000000000000000ULL}; static const char *pf = " kMGTPE"; int e; uint64_t q;
	if (x < 1000) { sprintf(o, "%d B", (int)x); return; } for (e = 6; pw[e] > x; e--); if (x / pw[e] < 10) { q = x / (pw[e] / 10); sprintf(o, "%d.%d %cB", (int)(q / 10), (int)(q % 10), pf[e]); } else sprintf(o, "%d %cB", (int)(x / pw[e]), pf[e]);
}
static uint32_t rnd32(void) { switch (vh_rnd(6)) { case 0: return vh_rnd(40); case 1: return 1u << vh_rnd(32); case 2: return (1u << vh_rnd(32)) - 1; case 3: return vh_rnd(2048); case 4: return (uint32_t)vh_next(); default: return (uint32_t)vh_next() >> vh_rnd(32); } }
int main(int argc, char **argv) {
	uint64_t st = strtoull(argv[1], 0, 10); long n = atol(argv[2]), i; uint8_t f[300]; FILE *realerr = stderr; vh_seed(st + 1515);
	for (i = 0; i < n; i++) {
		uint32_t r = rnd32(), p = rnd32(); int logN = vh_rnd(5) ? 1 + vh_rnd(63) : vh_rnd(256), rc, want, valid, kind = vh_rnd(8); size_t len = vh_rnd(3) ? 128 + vh_rnd(100) : 96; struct vsrc s; FILE *I; char *e = NULL; size_t en = 0; char exp[300], m[40]; u128 mem; long long fail = -1; const char *g;
		if (vh_rnd(2) && (uint64_t)r * p >= 1u << 30) p = r ? 1 + vh_rnd(((1u << 30) - 1) / r + 1) : 1; if (vh_rnd(10) == 0 && r) p = (1u << 30) / r + vh_rnd(3) - 1;
		if (vh_rnd(3) == 0) { /* memory exactly at, just above or just below a change of the displayed value */
			u128 T = vh_rnd(3) ? 10 + vh_rnd(991) : 1000, b; int k = vh_rnd(18), lo; while (k--) T *= 10; if (T > (u128)1 << 70) T = ((u128)1 << 64) - 128;
			for (lo = 1; lo < 63 && T / ((u128)128 << lo) >= (1u << 30) - 2; lo++) ; logN = lo + (vh_rnd(3) ? 0 : vh_rnd(6)); if (logN > 63) logN = 63; b = (u128)128 << logN;
			r = (uint32_t)((T + b - 1) / b) - (vh_rnd(4) == 0); if (vh_rnd(8) == 0) r++; if (r == 0) r = 1; p = 1 + vh_rnd(((1u << 30) - 1) / r); vh_ev("boundary_memory"); }
		vh_bytes(f, sizeof f); memcpy(f, "scrypt", 7); f[7] = logN; o_be32(f + 8, r); o_be32(f + 12, p); { uint8_t h[32]; o_sha256(f, 48, h); memcpy(f + 48, h, 16); }
		valid = logN >= 1 && logN <= 63 && r && p && (uint64_t)r * p < 1u << 30; want = valid ? 0 : 7;
		if (kind == 0) { len = vh_rnd(96); want = 7; if (vh_rnd(3) == 0) { len = 7 + vh_rnd(60); f[6] = 1 + vh_rnd(255); want = 8; } }
		else if (kind == 1) { f[vh_rnd(6)] ^= 1 << vh_rnd(8); want = 7; if (vh_rnd(2)) f[6] = vh_next(); }
		else if (kind == 2) { f[6] = vh_rnd(3) ? 1 + vh_rnd(255) : 1 << vh_rnd(8); want = 8; }
		else if (kind == 3) { fail = vh_rnd(len < 96 ? len + 1 : 96); if (fail < (long long)len) want = -1; else fail = -1; want = 13; if (fail < 0) want = valid ? 0 : 7; }
		I = vsrc_open(&s, f, len, vh_rnd(9), fail, vio_bufmode()); stderr = open_memstream(&e, &en); rc = scryptdec_file_printparams(I); fclose(stderr); stderr = realerr; fclose(I);
		if (rc != want) vh_viol("status", "info of %zu bytes (logN %d, r %u, p %u, version %d, read failing at %lld) returns %d instead of %d", len, logN, r, p, f[6], fail, rc, want);
		if (rc == 0 && want == 0) {
			mem = (u128)128 * r << logN; if (mem > UINT64_MAX) mem = UINT64_MAX; human((uint64_t)mem, m);
			snprintf(exp, sizeof exp, "N = %llu; r = %u; p = %u;", 1ULL << logN, r, p); g = strstr(e, exp); if (!g) vh_viol("parameters", "logN %d, r %u, p %u are shown as: %.200s", logN, r, p, e);
			snprintf(exp, sizeof exp, "requires at least %s of memory", m); if (!strstr(e, exp)) vh_viol("memory", "memory for logN %d, r %u should be shown as %s: %.300s", logN, r, m, e);
			if (strstr(e, "available") || strstr(e, "seconds")) vh_viol("noise", "info shows limits: %.300s", e);
			vh_ev("infos_shown"); if ((u128)128 * r << logN > UINT64_MAX) vh_ev("infos_saturated");
		} else if (rc) { if (en) vh_viol("output-on-error", "info fails with %d after printing %.200s", rc, e); vh_ev(rc == 7 ? "infos_invalid" : rc == 8 ? "infos_version" : rc == 13 ? "infos_readerror" : "infos_other"); }
		free(e); vh_case((uint64_t)r << 32 | p, logN | f[6] << 8, len << 8 | kind, rc);
	}
	return vh_done();
}
