/* C11, C12, C13, C23: parameter choice and limit enforcement on a simulated machine. */
#include "vh_vclock.h"
#include "scryptenc.h"
/* not long double: clang 18 miscompiles its multiplication by powers of two */
typedef __float128 xfloat;
#include "memlimit.h"
#include "scryptenc_cpuperf.h"

static uint8_t pw[40]; static size_t pn; static int nommap;
static char *eb; static size_t en; static FILE *realerr;
static void err_start(void) { realerr = stderr; eb = NULL; stderr = open_memstream(&eb, &en); }
static void err_stop(void) { fclose(stderr); stderr = realerr; }
/* random machine */
static uint64_t rndmem(void) {
	switch (vh_rnd(8)) {
	case 0: return (1ULL << (20 + vh_rnd(30))) + vh_rnd(3) - 1;
	case 1: return vh_rnd(1 << 22);
	case 2: return (1ULL << (10 + vh_rnd(50))) + vh_rnd(3) - 1;
	case 3: return 1048576 + vh_rnd(5) - 2;
	case 4: return UINT64_MAX >> (1 + vh_rnd(12));
	case 5: return (1 + vh_rnd(255)) << (20 + vh_rnd(16));
	default: return vh_next() >> (12 + vh_rnd(35)); }
}
static void machine(void) {
	vc_unit = vh_rnd(3) ? 1 : 1 << vh_rnd(13); vc_totalram = rndmem() / vc_unit; if (vc_totalram == 0) vc_totalram = 1;
	vc_pagesz = 4096 << (vh_rnd(4) ? 0 : vh_rnd(5)); vc_pages = (vh_rnd(4) ? vc_totalram * vc_unit : rndmem()) / vc_pagesz; vc_sysconf_unlimited = vh_rnd(10) == 0;
	vc_as = vh_rnd(3) ? RLIM_INFINITY : rndmem(); vc_rss = vh_rnd(3) ? RLIM_INFINITY : rndmem(); vc_data = vh_rnd(3) ? RLIM_INFINITY : rndmem();
	if (vh_rnd(40) == 0) vc_as = 0; if (vh_rnd(40) == 0) vc_rss = 0; if (vh_rnd(40) == 0) vc_data = 0; vc_hard = vh_rnd(2) ? RLIM_INFINITY : rndmem();
	vc_clockfail = vc_resfail = vc_sysinfofail = vc_sysconffail = vc_rlimitfail = vc_kdffail = 0; vc_failclockat = -1;
}
/* memory limit; *ok = 1 if it is exact, 0 if rounding of the fraction may change it slightly, -1 if outside the domain */
static uint64_t limit(uint64_t maxmem, double frac, int *ok) {
	uint64_t m = (vc_fit(), vc_min(nommap)), a; xfloat x = (xfloat)frac * (xfloat)m;
	if ((double)x >= 18446744073709551615.0) { *ok = -1; return 0; }
	a = (uint64_t)x; *ok = (m >> 53) == 0 && (frac == 1.0 || frac == 0.5 || frac == 0.25 || frac == 0.125);
	if (maxmem > 0 && a > maxmem) { a = maxmem; if ((xfloat)maxmem * 1.000001Q + 2 < x) *ok = 1; } if (a < 1048576) { a = 1048576; if (x < 1048000 || (maxmem && maxmem < 1048576)) *ok = 1; } return a;
}
/* is v within rounding of b? */
static int near_(xfloat v, xfloat b) { return v > b * (1 - 1e-9Q) - 2 && v < b * (1 + 1e-9Q) + 2; }
static double fracs[] = {1.0, 0.5, 0.125, 0.25, 1e-9, 0.1, 0.3, 0.9999, 1e-300, 0.0123};
static int readhdr(const uint8_t *f, uint32_t *r, uint32_t *p) { *r = (uint32_t)f[8] << 24 | f[9] << 16 | f[10] << 8 | f[11]; *p = (uint32_t)f[12] << 24 | f[13] << 16 | f[14] << 8 | f[15]; return f[7]; }
/* exact speeds: T such that usec * 1e-6 is exact */
static const uint64_t TT[] = {1000000, 2000000, 500000, 250000, 4000000, 125000};
static const double SP[] = {512, 256, 1024, 2048, 128, 4096};

static void pick(int it) {
	struct scryptenc_params P; int i, k, rc, ok, exact, verbose = vh_rnd(8) == 0; uint64_t M, N; uint64_t p; double S, ops; uint8_t in[64], out[192]; size_t n = vh_rnd(64); uint32_t hr, hp; int hl; uint64_t T;
	machine(); memset(&P, 0, sizeof P); exact = it % 2;
	P.maxmemfrac = vh_rnd(2) ? fracs[vh_rnd(10)] : (1 + vh_rnd(1000)) / 1000.0; P.maxmem = vh_rnd(3) ? 0 : rndmem(); if (vh_rnd(4) == 0) P.maxmem = (1024ULL << vh_rnd(40)) + vh_rnd(3) - 1;
	if (vh_rnd(5) == 0) { vc_as = vc_rss = vc_data = RLIM_INFINITY; vc_unit = 1; vc_totalram = 1ULL << 62; vc_pages = vc_totalram / 4096; vc_pagesz = 4096; vc_sysconf_unlimited = 0; P.maxmemfrac = 1.0; P.maxmem = (1024ULL << vh_rnd(50)) + vh_rnd(3) - 1; }
	M = limit(P.maxmem, P.maxmemfrac, &ok); if (ok < 0) return; if (!ok) for (i = 20; i < 64; i++) if (near_(M, (xfloat)(1ULL << i))) return;
	if (exact) { k = vh_rnd(6); T = TT[k]; vc_speed(T); S = SP[k];
		/* opslimit exactly on, just below or just above 32 * N * q */
		double target = 32.0 * (double)(1ULL << (10 + vh_rnd(36))) * (vh_rnd(2) ? 1 : 1 + vh_rnd(60)); if (vh_rnd(3) == 0) target = 32.0 * (double)(M / 1024) ; if (vh_rnd(12) == 0) target = 32768 + 512.0 * vh_rnd(3) - 512; target += (double)((long)vh_rnd(3) - 1) * 0.5; P.maxtime = target / S; ops = S * P.maxtime; }
	else { T = 1 + (vh_rnd(2) ? vh_rnd(5000) : vh_rnd(2000000)); vc_speed(T); S = 512.0 / (T * 1e-6); switch (vh_rnd(7)) { case 0: P.maxtime = 0; break; case 1: P.maxtime = 1e300; break; case 2: P.maxtime = __builtin_inf(); break; case 3: P.maxtime = (1 + vh_rnd(1000)) * 1e-6; break; case 4: P.maxtime = (1 + vh_rnd(100000)) * 1e3; break; default: P.maxtime = (1 + vh_rnd(100000)) * 0.01; } ops = S * P.maxtime; }
	if (ops < 32768) ops = 32768;
	/* the statement, in exact arithmetic */
	{ xfloat o = ops >= 1e37 ? 1e37Q : ops < 1e15 ? (xfloat)(uint64_t)ops : (xfloat)ops, pq;
	for (N = 2; N <= ((uint64_t)1 << 62) && (xfloat)N * 2 * 1024 <= M && (xfloat)N * 2 * 32 <= o; N *= 2);
	pq = o / 32 / N; p = pq > 0x3fffffff / 8 ? 0x3fffffff / 8 : (uint64_t)pq; if (p < 1) p = 1;
	if (!exact && ops < 1e37) { double q = ops / 32 / N, fl = (double)(uint64_t)(q + 0.5); uint64_t b; if (q < 2e8 && fl > 0 && q / fl > 1 - 1e-7 && q / fl < 1 + 1e-7) return; for (b = 1; b; b <<= 1) if (ops / 32 / (double)b > 1 - 1e-7 && ops / 32 / (double)b < 1 + 1e-7) return; } }
	vh_bytes(in, 64); vc_nkdf = 0; vc_bench = 0; err_start();
	if (vh_rnd(2)) rc = scryptenc_buf(in, n, out, pw, pn, &P, verbose, vh_rnd(2));
	else { char *mb = NULL; size_t ms = 0; FILE *I = fmemopen(n ? in : (uint8_t *)"x", n ? n : 1, "r"), *O = open_memstream(&mb, &ms); if (!n) fgetc(I); rc = scryptenc_file(I, O, pw, pn, &P, verbose, vh_rnd(2)); fclose(I); fclose(O); if (rc == 0) memcpy(out, mb, 96); free(mb); }
	err_stop(); free(eb);
	if (rc) { vh_viol("pick-failed", "encryption fails (%d) with memory limit %llu and budget %g", rc, (unsigned long long)M, ops); return; }
	hl = readhdr(out, &hr, &hp);
	if (hl != P.logN || hr != P.r || hp != P.p) vh_viol("params-returned", "header has %d/%u/%u, returned %d/%u/%u", hl, hr, hp, P.logN, P.r, P.p);
	if (vc_nkdf != 1 || vc_kdf[0].N != (uint64_t)1 << hl || vc_kdf[0].r != hr || vc_kdf[0].p != hp || vc_kdf[0].dn != 64 || memcmp(vc_kdf[0].salt, out + 16, 32)) vh_viol("params-used", "key derived %d times, with N=%llu r=%zu p=%zu; header %d/%u/%u", vc_nkdf, (unsigned long long)vc_kdf[0].N, vc_kdf[0].r, vc_kdf[0].p, hl, hr, hp);
	if (hr != 8 || ((uint64_t)1 << hl) != N || hp != (uint32_t)p) vh_viol("choice", "memory limit %llu, CPU budget %.17g (speed %g, time %g): chose N=2^%d r=%u p=%u instead of N=%llu r=8 p=%u (m=%llu frac=%.17g maxmem=%zu ok=%d)", (unsigned long long)M, ops, S, P.maxtime, hl, hr, hp, (unsigned long long)N, (uint32_t)p, (unsigned long long)vc_min(nommap), P.maxmemfrac, P.maxmem, ok);
	vh_ev("choices"); if (hp > 1) vh_ev("choices_memory_bound"); else vh_ev("choices_cpu_bound"); if (ops == 32768) vh_ev("choices_minimum_cpu"); if (M == 1048576) vh_ev("choices_minimum_memory"); if (exact) vh_ev("choices_on_boundary"); if (hp == 0x3fffffff / 8) vh_ev("choices_p_capped");
	vh_case(hl, hp, M, (uint64_t)(ops < 1e18 ? ops : 1e18)); vh_sample("limit %llu bytes, budget %g cores: N=2^%d r=%u p=%u", (unsigned long long)M, ops, hl, hr, hp);
}
static void dec(int it) {
	struct scryptenc_params P, P0; int rc, ok, exact, big, slow, want, force, logN, i, via; uint64_t M; uint32_t r, p; double S, ops; xfloat cost, mem; uint8_t in[64], f[192], out[192], salt[32]; size_t n = vh_rnd(64), ol = 0; uint64_t T; struct scryptdec_file_cookie *C = NULL; int valid, badpw = vh_rnd(12) == 0, verbose = vh_rnd(10) == 0;
	machine(); memset(&P, 0, sizeof P); vh_bytes(in, 64); vh_bytes(salt, 32);
	P.maxmemfrac = vh_rnd(2) ? fracs[vh_rnd(10)] : (1 + vh_rnd(1000)) / 1000.0; P.maxmem = vh_rnd(2) ? 0 : rndmem();
	logN = 1 + vh_rnd(vh_rnd(3) ? 30 : 63); r = 1 + vh_rnd(vh_rnd(3) ? 40 : 1 << (1 + vh_rnd(29))); p = 1 + vh_rnd(vh_rnd(3) ? 40 : 1 << (1 + vh_rnd(29)));
	if (vh_rnd(8) == 0) { r = 1; p = 0x3fffffff - vh_rnd(3); } if (vh_rnd(8) == 0) { p = 1; r = 0x3fffffff - vh_rnd(3); }
	if (vh_rnd(15) == 0) { static const uint32_t ex[] = {0, 1, 0x40000000, 0x80000000, 0xffffffff, 0x10000, 0x8000, 2}; r = ex[vh_rnd(8)]; p = ex[vh_rnd(8)]; if (vh_rnd(3) == 0) logN = vh_rnd(2) ? 0 : 64 + vh_rnd(192); }
	valid = logN >= 1 && logN <= 63 && r && p && (uint64_t)r * p < 0x40000000;
	mem = 128.0Q * r; for (i = 0; i < (logN & 63); i++) mem *= 2; cost = mem / 32 * p;
	exact = it % 3 != 0;
	if (exact) { int k; /* the limits placed on or next to the need */
		vc_as = vc_rss = vc_data = RLIM_INFINITY; vc_unit = 1; vc_totalram = 1ULL << 62; vc_pagesz = 4096; vc_pages = vc_totalram / 4096; vc_sysconf_unlimited = 0; P.maxmemfrac = 1.0; P.maxmem = mem < 4e18Q ? (uint64_t)mem + (long)vh_rnd(3) - 1 : 0; if (P.maxmem == 0) P.maxmem = 1; if (vh_rnd(4) == 0) P.maxmem = mem < 1e18L ? (uint64_t)mem * 2 : 0;
		k = vh_rnd(6); T = TT[k]; vc_speed(T); S = SP[k]; P.maxtime = (double)cost / S; switch (vh_rnd(6)) { case 0: break; case 1: P.maxtime *= 1 - 1e-6; break; case 2: P.maxtime *= 1 + 1e-6; break; case 3: P.maxtime *= 2; break; case 4: P.maxtime /= 2; break; case 5: P.maxtime *= 1000; }
		if ((p & (p - 1)) == 0 && (r & (r - 1)) == 0) ; else if (P.maxtime * S == (double)cost) P.maxtime *= 1 + 1e-7; }
	else { T = 1 + vh_rnd(200000); vc_speed(T); S = 512.0 / (T * 1e-6); P.maxtime = vh_rnd(10) == 0 ? 0 : vh_rnd(10) == 0 ? __builtin_inf() : vh_rnd(10) == 0 ? 1e300 : (1 + vh_rnd(1000000)) * 1e-3 * (double)(1ULL << vh_rnd(40)); }
	ops = S * P.maxtime; M = limit(P.maxmem, P.maxmemfrac, &ok); if (ok < 0 || (!ok && near_(M, mem))) return;
	if (!exact && ops > 0 && ops < 1e300 && cost / ops > 1 - 1e-6Q && cost / ops < 1 + 1e-6Q) return;
	big = mem > (xfloat)M; slow = cost > (xfloat)ops; force = vh_rnd(4) == 0;
	if (force) { /* nothing about the machine may matter */ if (vh_rnd(2)) { vc_clockfail = 1; vc_resfail = 1; vc_sysinfofail = 1; vc_sysconffail = 1; vc_rlimitfail = -1; } if (vh_rnd(2)) P.maxtime = 0; }
	if (vh_rnd(40) == 0) vc_kdffail = 1;
	want = !valid ? 7 : !force && big && slow ? 15 : !force && big ? 9 : !force && slow ? 10 : vc_kdffail ? 3 : badpw ? 11 : 0;
	vc_encode(pw, pn, salt, logN, r, p, in, n, f); P0 = P; via = vh_rnd(3); vc_nkdf = 0; err_start();
	{ uint8_t q[40]; memcpy(q, pw, 40); if (badpw) q[pn - 1] ^= 1;
	memset(out, 0x39, sizeof out);
	if (via == 0) { size_t z; rc = scryptdec_buf(f, n + 128, out, &ol, q, pn, &P, verbose, force); for (z = 0; rc && z < sizeof out; z++) if (out[z] != 0x39) { vh_viol("refused-output", "file N=2^%d r=%u p=%u refused (%d) but the output buffer was written to", logN, r, p, rc); break; } }
	else { char *mb = NULL; size_t ms = 0; FILE *I = fmemopen(f, n + 128, "r"), *O = open_memstream(&mb, &ms); if (via == 1) rc = scryptdec_file(I, O, q, pn, &P, verbose, force); else { rc = scryptdec_file_prep(I, q, pn, &P, verbose, force, &C); if (rc == 0) { rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); } } fclose(I); fclose(O); if (rc && ms) vh_viol("refused-output", "file N=2^%d r=%u p=%u refused (%d) but %zu bytes were written", logN, r, p, rc, ms); if (rc == 0) memcpy(out, mb, ol = ms); free(mb); } }
	err_stop(); free(eb);
	if (rc != want) vh_viol(force ? "decision-forced" : "decision", "file N=2^%d r=%u p=%u needs %.0Lf bytes and %.0Lf cores; limit %llu bytes, %.17g cores, force %d: returns %d instead of %d", logN, r, p, (long double)mem, (long double)cost, (unsigned long long)M, ops, force, rc, want);
	if ((want == 7 || want == 9 || want == 10 || want == 15) && vc_nkdf) vh_viol("work-before-refusal", "file N=2^%d r=%u p=%u: key derivation started although it is refused (%d)", logN, r, p, want);
	if ((want == 0 || want == 11 || want == 3) && (vc_nkdf != 1 || vc_kdf[0].N != (uint64_t)1 << logN || vc_kdf[0].r != r || vc_kdf[0].p != p || memcmp(vc_kdf[0].salt, salt, 32))) vh_viol("params-used", "file N=2^%d r=%u p=%u: %d key derivations, first with N=%llu r=%zu p=%zu", logN, r, p, vc_nkdf, (unsigned long long)vc_kdf[0].N, vc_kdf[0].r, vc_kdf[0].p);
	if (rc == 0 && (P.logN != logN || P.r != r || P.p != p)) vh_viol("params-returned", "file N=2^%d r=%u p=%u: returned %d %u %u", logN, r, p, P.logN, P.r, P.p);
	if (P.maxmem != P0.maxmem || P.maxmemfrac != P0.maxmemfrac || P.maxtime != P0.maxtime) vh_viol("limits-changed", "the caller's limits were modified");
	if (rc == 0 && (ol != n || memcmp(out, in, n))) vh_viol("plaintext", "wrong plaintext");
	if (force && (vc_clockn < 0)) vh_hard("count");
	vh_ev(want == 0 ? "decisions_accept" : want == 7 ? "decisions_invalid" : want == 9 ? "decisions_toobig" : want == 10 ? "decisions_tooslow" : want == 15 ? "decisions_bigslow" : "decisions_other"); if (force) vh_ev("decisions_forced"); if (exact) vh_ev("decisions_on_boundary");
	vh_case(logN * 2 + force, (uint64_t)r << 32 | p, M, want); vh_sample("file N=2^%d r=%u p=%u, limit %llu bytes, %g cores, force %d: %d", logN, r, p, (unsigned long long)M, ops, force, rc);
}
static void mem(int it) {
	size_t got = 0; uint64_t maxmem, want; double frac; int ok, rc, f, expect; xfloat x;
	machine(); maxmem = (size_t)(vh_rnd(3) ? 0 : rndmem()); frac = vh_rnd(2) ? fracs[vh_rnd(10)] : vh_rnd(2) ? (1 + vh_rnd(1000)) / 1000.0 : (double)(1 + vh_rnd(1 << 30)) / (1 << 30);
	if (vh_rnd(20) == 0) { vc_as = vc_rss = vc_data = RLIM_INFINITY; }
	f = vh_rnd(12); if (f == 0) vc_sysinfofail = 1; if (f == 1) vc_sysconffail = 1; if (f == 2) vc_rlimitfail = RLIMIT_AS + 1; if (f == 3) vc_rlimitfail = RLIMIT_RSS + 1; if (f == 4) vc_rlimitfail = -1; if (f == 5 && nommap) vc_rlimitfail = RLIMIT_DATA + 1; if (f == 5 && !nommap) f = 6;
	want = limit(maxmem, frac, &ok); if (ok < 0) return;
	rc = memtouse(maxmem, frac, &got); expect = f <= 5;
	if (expect) { struct scryptenc_params P = {maxmem, frac, 1, 0, 0, 0}; uint8_t o[128]; int e;
		if (rc == 0) vh_viol("query-failure-ignored", "memtouse succeeds (%zu) although a system query fails (%d)", got, f);
		vc_speed(1000); vc_nkdf = 0; if ((e = scryptenc_buf(o, 0, o, pw, pn, &P, 0, vh_rnd(2))) != 1 || vc_nkdf) vh_viol("query-failure-code", "encryption returns %d, %d key derivations, when a system query fails (%d)", e, vc_nkdf, f); vh_ev("query_failures"); vh_case(f, 0, 0, nommap); return; }
	if (rc) { vh_viol("memtouse-failed", "memtouse fails without a failing query"); return; }
	x = (xfloat)frac * (xfloat)vc_min(nommap);
	if (ok ? got != want : (got > want ? got - want : want - got) > 1 + want / (1ULL << 50)) vh_viol("limit", "limit is %zu instead of %llu: totalram %llu*%u, sysconf %ld*%ld%s, AS %llu, RSS %llu, DATA %llu, fraction %.17g, maximum %llu", got, (unsigned long long)want, (unsigned long long)vc_totalram, vc_unit, (long)vc_pages, (long)vc_pagesz, vc_sysconf_unlimited ? " (unlimited)" : "", (unsigned long long)vc_as, (unsigned long long)vc_rss, (unsigned long long)vc_data, frac, (unsigned long long)maxmem);
	{ uint64_t m = vc_min(nommap); vh_ev("limits_compared"); if (got == 1048576) vh_ev("limit_at_minimum"); else if (maxmem && got == maxmem) vh_ev("limit_by_maximum"); else if (m == vc_as) vh_ev("limit_by_AS"); else if (m == vc_rss) vh_ev("limit_by_RSS"); else if (nommap && m == vc_data) vh_ev("limit_by_DATA"); else if (m == vc_totalram * vc_unit) vh_ev("limit_by_ram"); else vh_ev("limit_by_sysconf"); }
	vh_case(got, vc_totalram, maxmem, vh_mix(vc_as) ^ (uint64_t)(frac * 1e15)); vh_sample("ram %llu, AS %lld, RSS %lld, fraction %g, maximum %llu: %zu", (unsigned long long)vc_totalram * vc_unit, (long long)vc_as, (long long)vc_rss, frac, (unsigned long long)maxmem, got);
}
static void explicit_(int it) {
	struct scryptenc_params P, P0; int rc, ok, big, slow, force, logN, i, valid, want, wm, wt, gm, gt, verbose = vh_rnd(8) == 0, kf = 0; uint32_t r, p, hr, hp; uint64_t M; xfloat m, cost; double S, ops; uint8_t in[64], out[192]; size_t n = vh_rnd(64); uint64_t T;
	machine(); memset(&P, 0, sizeof P); vh_bytes(in, 64);
	P.maxmemfrac = vh_rnd(2) ? 0.125 : (1 + vh_rnd(1000)) / 1000.0; P.maxmem = vh_rnd(2) ? 0 : rndmem();
	logN = 1 + vh_rnd(vh_rnd(3) ? 40 : 63); r = 1 + vh_rnd(vh_rnd(2) ? 32 : 1 << (1 + vh_rnd(29))); p = 1 + vh_rnd(vh_rnd(2) ? 2048 : 1 << (1 + vh_rnd(29)));
	if (vh_rnd(12) == 0) { static const uint32_t ex[] = {1, 0x40000000, 0x80000000, 0xffffffff, 0x10000, 0x8000, 2}; r = ex[vh_rnd(7)]; p = ex[vh_rnd(7)]; if (vh_rnd(3) == 0) logN = vh_rnd(2) ? -1 - (int)vh_rnd(100) : 64 + vh_rnd(1000); }
	valid = logN >= 1 && logN <= 63 && (uint64_t)r * p < 0x40000000; m = 128.0Q * r; for (i = 0; i < logN && i < 64; i++) m *= 2; cost = m / 32 * p;
	T = 1 + vh_rnd(200000); vc_speed(T); S = 512.0 / (T * 1e-6); P.maxtime = vh_rnd(8) == 0 ? 0 : vh_rnd(8) == 0 ? __builtin_inf() : (double)cost / S * (0.25 + vh_rnd(200) / 100.0); ops = S * P.maxtime; if (valid && ops > 0 && cost / ops > 1 - 1e-6Q && cost / ops < 1 + 1e-6Q) return;
	if (vh_rnd(3) == 0 && m < 1e18Q) { P.maxmem = (uint64_t)m + (long)vh_rnd(3) - 1; vc_as = vc_rss = vc_data = RLIM_INFINITY; vc_unit = 1; vc_totalram = 1ULL << 62; vc_pagesz = 4096; vc_pages = vc_totalram / 4096; P.maxmemfrac = 1.0; }
	M = limit(P.maxmem, P.maxmemfrac, &ok); if (ok < 0 || (!ok && near_(M, m))) return; big = m > (xfloat)M; slow = cost > (xfloat)ops; force = vh_rnd(3) == 0;
	if (force && vh_rnd(2)) { vc_clockfail = vc_resfail = vc_sysinfofail = vc_sysconffail = 1; vc_rlimitfail = -1; }
	if (vh_rnd(30) == 0) vc_kdffail = 1;
	want = !valid ? 14 : vc_kdffail ? 3 : 0; P.logN = logN; P.r = r; P.p = p; P0 = P; vc_nkdf = 0; err_start();
	if (vh_rnd(2)) rc = scryptenc_buf(in, n, out, pw, pn, &P, verbose, force);
	else { char *mb = NULL; size_t ms = 0; FILE *I = fmemopen(n ? in : (uint8_t *)"x", n ? n : 1, "r"), *O = open_memstream(&mb, &ms); if (!n) fgetc(I); rc = scryptenc_file(I, O, pw, pn, &P, verbose, force); fclose(I); fclose(O); if (rc == 0) memcpy(out, mb, 96); else if (ms) vh_viol("output-of-failed-encryption", "%zu bytes written although it fails with %d", ms, rc); free(mb); }
	err_stop(); gm = strstr(eb, "Explicit parameters might exceed memory limit") != NULL; gt = strstr(eb, "Explicit parameters might exceed time limit") != NULL;
	wm = valid && !force && big; wt = valid && !force && slow;
	if (rc != want) vh_viol("explicit-result", "explicit N=2^%d r=%u p=%u, force %d: returns %d instead of %d (over memory limit: %d, over time limit: %d)", logN, r, p, force, rc, want, big, slow);
	if (gm != wm || gt != wt) vh_viol("explicit-warning", "explicit N=2^%d r=%u p=%u, force %d: memory warning %d (should be %d), time warning %d (should be %d): %.200s", logN, r, p, force, gm, wm, gt, wt, eb);
	if (!verbose && !wm && !wt && en) vh_viol("explicit-noise", "unexpected message: %.200s", eb);
	free(eb);
	if (rc == 0) { int hl = readhdr(out, &hr, &hp);
		if (hl != logN || hr != r || hp != p) vh_viol("explicit-header", "explicit %d/%u/%u, header %d/%u/%u", logN, r, p, hl, hr, hp);
		if (vc_nkdf != 1 || vc_kdf[0].N != (uint64_t)1 << logN || vc_kdf[0].r != r || vc_kdf[0].p != p) vh_viol("explicit-used", "explicit %d/%u/%u, key derivation N=%llu r=%zu p=%zu", logN, r, p, (unsigned long long)vc_kdf[0].N, vc_kdf[0].r, vc_kdf[0].p);
		vh_ev("explicit_used"); if (big) vh_ev("explicit_over_memory"); if (slow) vh_ev("explicit_over_time"); } else vh_ev("explicit_refused");
	if (rc == 0 && (P.logN != logN || P.r != r || P.p != p)) vh_viol("explicit-returned", "explicit %d/%u/%u, returned %d/%u/%u", logN, r, p, P.logN, P.r, P.p);
	if (force) vh_ev("explicit_forced"); if (wm) vh_ev("memory_warnings"); if (wt) vh_ev("time_warnings");
	vh_case(logN, (uint64_t)r << 32 | p, wm * 2 + wt, force); vh_sample("explicit N=2^%d r=%u p=%u, limit %llu bytes, %g cores, force %d: %d, warnings %d %d", logN, r, p, (unsigned long long)M, ops, force, rc, gm, gt);
}
/* measured speed against the simulated one, at clock resolutions fine and coarse */
static void perf(int it) {
	double o = 0, S; int rc; uint64_t res[] = {1, 1000, 1000000, 4000000, 10000000, 1000000000};
	machine(); vc_res = res[vh_rnd(6)]; vc_nspercore = (1 + vh_rnd(1000)) * (vh_rnd(2) ? 1.0 : 0.01 * (1 + vh_rnd(10000))); S = 1e9 / vc_nspercore; vc_now += vh_rnd(2000000000);
	if (vc_res == 1) vc_res = 1; rc = scryptenc_cpuperf(&o);
	if (rc) { vh_viol("perf-failed", "cpuperf fails: %d", rc); return; }
	/* at least one tick of the clock is observed, which lasts less than two ticks and more than half of what is measured */
	if (o < S * 0.45 || o > S * 2.1) vh_viol("perf", "machine does %g cores/s, measured %g (clock resolution %llu ns)", S, o, (unsigned long long)vc_res);
	vh_ev("speed_measurements"); vh_case(it, vc_res, (uint64_t)S, 0);
}
int main(int argc, char **argv) {
	const char *m = argv[1]; uint64_t st = strtoull(argv[2], 0, 10); int n = atoi(argv[3]), i; nommap = argc > 4 && atoi(argv[4]); vh_seed(st + 111 * m[0] + m[1]); pn = 1 + vh_rnd(39); vh_bytes(pw, pn); if (pw[pn - 1] <= 1) pw[pn - 1] = 5;
	for (i = 0; i < n; i++) { if (!strcmp(m, "pick")) pick(i); else if (!strcmp(m, "dec")) dec(i); else if (!strcmp(m, "mem")) mem(i); else if (!strcmp(m, "explicit")) explicit_(i); else if (!strcmp(m, "perf")) perf(i); }
	return vh_done();
}
