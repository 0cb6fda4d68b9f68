/* C02: parameter domain of the KDF, refusal without side effects, allocation failures. */
#include "vh_alloc.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include "crypto_scrypt.h"
static uint8_t ref64[64];
static int isp2(uint64_t n) { return n >= 2 && (n & (n - 1)) == 0; }
#define LIM ((((uint64_t)1 << 32) - 1) * 32)
static uint64_t mul(uint64_t a, uint64_t b) { return b && a > ~0ULL / b ? ~0ULL : a * b; } /* saturating */
static int prim(const char *when) { /* a plain call must still work */
	uint8_t o[64]; int on = va_on; va_on = 0;
	if (crypto_scrypt((uint8_t *)"pw", 2, (uint8_t *)"salt", 4, 16, 2, 2, o, 64) || memcmp(o, ref64, 64)) { vh_viol("later-call-wrong", "after %s", when); return 1; }
	va_on = on; vh_ev("later_calls_checked"); return 0;
}
static int ctr;
static void tryit(uint64_t N, uint32_t r, uint32_t p, uint64_t n0, int denyall) {
	size_t n = n0; /* where size_t has 32 bits no length is too large */
	struct gbuf g; uint8_t *o; int rc, e, inv, big; uint64_t rp = (uint64_t)r * p; size_t k; char d[200];
	uint64_t vmem = mul(mul(N, 128), r), bmem = mul(128, rp); int toolarge;
	inv = r == 0 || p == 0 || !isp2(N); big = rp >= (1u << 30) || n > LIM;
	o = gb_new(&g, n > 8192 ? 8192 : n, 0); memset(o, 0x77, g.n);
	if (!inv && !big && n > 8192) denyall = 1; /* the buffer given is not that long */
	if (!inv && !big && !denyall && mul(mul(N, r), p) > (1u << 17) && vmem < (64u << 20) && bmem < (64u << 20)) denyall = 1; /* keep it quick */
	toolarge = vmem >= (64u << 20) || bmem >= (64u << 20) || (uint64_t)256 * r >= (64u << 20);
	snprintf(d, sizeof(d), "N=%llu r=%u p=%u buflen=%llu%s", (unsigned long long)N, r, p, (unsigned long long)n, denyall ? " (allocations refused)" : "");
	va_denyall = denyall; va_denybig = 64u << 20; va_begin(); errno = 0;
	rc = crypto_scrypt((uint8_t *)"pw", 2, (uint8_t *)"salt", 4, N, r, p, o, n);
	e = errno; va_stop();
	if (inv || big || denyall || toolarge) {
		if (rc == 0) vh_viol("accepted", "accepted %s", d);
		else if (rc != -1) vh_viol("return-value", "returned %d for %s", rc, d);
		else if (inv || big) { if (!((inv && e == EINVAL) || (big && e == EFBIG))) vh_viol("wrong-errno", "errno %d for %s", e, d); else vh_ev(inv ? "refused_invalid" : "refused_toobig"); }
		else if (e != ENOMEM) vh_viol("wrong-errno-nomem", "errno %d instead of ENOMEM for %s", e, d); else vh_ev("refused_nomem");
		for (k = 0; k < g.n; k++) if (o[k] != 0x77) { vh_viol("output-touched", "output byte %zu written by refused call %s", k, d); break; }
	} else if (rc != 0) vh_viol("refused-valid", "errno %d for valid %s", e, d);
	else vh_ev("accepted_valid");
	if (!gb_ok(&g)) vh_viol("overrun", "%s", d);
	if (va_n) vh_viol("leak", "%d blocks still allocated after %s", va_n, d);
	va_denyall = 0; va_denybig = (size_t)-1;
	if (++ctr % 64 == 0) prim(d);
	vh_case(N, ((uint64_t)r << 32) | p, n, denyall); if (ctr % 3001 == 0) vh_sample("%s -> rc %d errno %d", d, rc, e);
	gb_free(&g);
}
int main(int argc, char **argv) {
	uint64_t Ns[300]; int nN = 0, i, j, k, l; uint64_t s = strtoull(argv[1], 0, 10); int scale = atoi(argv[2]);
	static const uint32_t RP[] = {0,1,2,3,7,8,255,256,32767,32768,32769,65535,65536,65537,(1u<<25)-1,1u<<25,(1u<<25)+1,(1u<<29)-1,1u<<29,(1u<<30)-1,1u<<30,(1u<<30)+1,0x7fffffff,0x80000000,0x80000001,0xffffffff};
	static const uint64_t BL[] = {0,1,64,LIM-1,LIM,LIM+1,LIM+32,1ULL<<38,1ULL<<63,~0ULL};
	int NR = sizeof(RP) / 4, NB = sizeof(BL) / 8;
	vh_seed(s);
	o_scrypt((uint8_t *)"pw", 2, (uint8_t *)"salt", 4, 16, 2, 2, ref64, 64);
	prim("start");
	for (i = 0; i < 64; i++) { Ns[nN++] = 1ULL << i; Ns[nN++] = (1ULL << i) - 1; Ns[nN++] = (1ULL << i) + 1; if (i > 2) Ns[nN++] = (1ULL << i) + (1ULL << (i - 2)); }
	Ns[nN++] = 0; Ns[nN++] = ~0ULL; Ns[nN++] = 6; Ns[nN++] = 100;
	/* r x p with N=2 and a few others; N x r; buffer lengths */
	for (i = 0; i < NR; i++) for (j = 0; j < NR; j++) { tryit(2, RP[i], RP[j], 64, 0); tryit(2, RP[i], RP[j], 64, 1); tryit(Ns[vh_rnd(nN)], RP[i], RP[j], BL[vh_rnd(NB)], vh_rnd(2)); }
	for (k = 0; k < nN; k++) for (i = 0; i < NR; i++) { tryit(Ns[k], RP[i], 1, 64, 0); if (k % 4 == 0) tryit(Ns[k], RP[i], 1 + vh_rnd(4), 10, 1); }
	for (l = 0; l < NB; l++) for (k = 0; k < 12; k++) { tryit(Ns[k], 1, 1, BL[l], 0); tryit(Ns[k], 1, 1, BL[l], 1); }
	/* products near 2^30 */
	for (i = 1; i < 3000 * scale; i++) { uint32_t r = 1 + vh_rnd(1u << (1 + vh_rnd(29))); uint32_t p = (1u << 30) / r; int dlt = (int)vh_rnd(3) - 1;
		if ((int64_t)p + dlt > 0) { tryit(2ULL << vh_rnd(3), r, p + dlt, 16, 0); tryit(2, p + dlt, r, 16, 1); } }
	/* 128*N*r near 2^64 */
	for (i = 7; i < 62; i++) for (j = 0; j < 31 && i + j < 70; j++) { tryit(1ULL << i, 1u << j, 1, 16, 0); tryit(1ULL << i, (1u << j) + 1, 1, 16, 0); if (j) tryit(1ULL << i, (1u << j) - 1, 1, 16, 0); }
	for (i = 0; i < 20000 * scale; i++) tryit(vh_rnd(3) ? 1ULL << vh_rnd(64) : vh_next(), vh_rnd(2) ? vh_next() >> vh_rnd(32) : 1u << vh_rnd(32), vh_rnd(2) ? vh_next() >> (32 + vh_rnd(32)) : 1u << vh_rnd(32), vh_rnd(4) ? 16 : vh_next() >> vh_rnd(64), 0);
	/* every allocation failing, several shapes */
	for (i = 0; i < 200 * scale; i++) {
		uint32_t r = 1 + vh_rnd(8), p = 1 + vh_rnd(4); uint64_t N = 2ULL << vh_rnd(6); long f, total; uint8_t o[80], want[80]; int rc, e; size_t q;
		memset(o, 0x55, 80); va_failat = va_failat2 = -1; va_begin(); rc = crypto_scrypt((uint8_t *)"a", 1, (uint8_t *)"b", 1, N, r, p, o, 70); va_stop(); total = va_cnt;
		o_scrypt((uint8_t *)"a", 1, (uint8_t *)"b", 1, N, r, p, want, 70);
		if (rc || memcmp(o, want, 70)) vh_viol("wrong", "N=%llu r=%u p=%u", (unsigned long long)N, r, p);
		if (va_n) vh_viol("leak-success", "%d blocks outstanding", va_n);
		for (f = 1; f <= total; f++) {
			memset(o, 0x55, 80); va_failat = f; va_begin(); errno = 0; rc = crypto_scrypt((uint8_t *)"a", 1, (uint8_t *)"b", 1, N, r, p, o, 70); e = errno; va_stop(); va_failat = -1;
			if (va_failed != 1) vh_ev("fault_not_reached"); else vh_ev("alloc_faults_injected");
			if (rc != -1) vh_viol("fault-ignored", "allocation %ld of %ld failed but crypto_scrypt returned %d", f, total, rc);
			else { if (e != ENOMEM) vh_viol("fault-errno", "errno %d when allocation %ld fails", e, f);
				for (q = 0; q < 80; q++) if (o[q] != 0x55) { vh_viol("fault-output", "output written though allocation %ld failed", f); break; } }
			if (va_n) vh_viol("fault-leak", "%d blocks leaked when allocation %ld of %ld fails", va_n, f, total);
			vh_case(N, r, p, 1000000 + f);
		}
		prim("allocation fault");
	}
	/* the kernel refusing memory */
	for (i = 0; i < 6; i++) {
		pid_t pid; int st; fflush(stdout);
		if ((pid = fork()) == 0) {
			struct rlimit rl = {300u << 20, 300u << 20}; uint8_t o[8] = {9,9,9,9,9,9,9,9}; int rc;
			setrlimit(RLIMIT_AS, &rl); errno = 0;
			rc = crypto_scrypt((uint8_t *)"a", 1, (uint8_t *)"b", 1, i < 3 ? 1ULL << 20 : 16, i < 3 ? 8 : i < 5 ? 4u << 20 : 1, i < 5 ? 1 : 8u << 20, o, 8);
			if (rc != -1 || errno != ENOMEM || o[0] != 9) _exit(1);
			if (crypto_scrypt((uint8_t *)"pw", 2, (uint8_t *)"salt", 4, 16, 2, 2, o, 8) || memcmp(o, ref64, 8)) _exit(2);
			_exit(0);
		}
		waitpid(pid, &st, 0); vh_ev("kernel_refusals");
		if (st != 0) vh_viol("rlimit", "under RLIMIT_AS case %d ended with status %x", i, st);
	}
	return vh_done();
}
