/* C01: the KDF against an independent RFC 7914 implementation. */
#include "vh.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include "crypto_scrypt.h"

static const size_t LENS[] = {0,1,2,3,7,8,15,16,17,24,31,32,33,40,47,48,55,56,57,63,64,65,66,72,95,96,100,119,120,121,127,128,129,183,191,192,193,247,255,256,257,300,511,512,513};
#define NL (sizeof(LENS) / sizeof(LENS[0]))
static size_t picklen(size_t max) { size_t n = vh_rnd(3) ? LENS[vh_rnd(NL)] : vh_rnd(max); return n > max ? max : n; }

static int one(size_t pwn, size_t sn, uint64_t N, uint32_t r, uint32_t p, size_t n, int check_ossl) {
	struct gbuf gp, gs, go; uint8_t *pw, *sa, *out, *pc, *sc, *ref; int rc, bad = 0; size_t i;
	pw = gb_new(&gp, pwn, vh_rnd(4) ? vh_rnd(20) : 0); sa = gb_new(&gs, sn, vh_rnd(4) ? vh_rnd(20) : 0);
	out = gb_new(&go, n, vh_rnd(3) ? vh_rnd(40) : 0);
	vh_bytes(pw, pwn); vh_bytes(sa, sn);
	if (vh_rnd(10) == 0) memset(pw, vh_rnd(2) ? 0 : 0xff, pwn);
	pc = malloc(pwn + 1); sc = malloc(sn + 1); ref = malloc(n + 1);
	memcpy(pc, pw, pwn); memcpy(sc, sa, sn); memset(out, 0x3c, n);
	rc = crypto_scrypt(VH_NULL(pwn, pw), pwn, VH_NULL(sn, sa), sn, N, r, p, VH_NULL(n, out), n);
	o_scrypt(pc, pwn, sc, sn, N, r, p, ref, n);
	if (check_ossl && n > 0) {
		uint8_t *r2 = malloc(n);
		if (EVP_PBE_scrypt((char *)pc, pwn, sc, sn, N, r, p, 4ULL << 30, r2, n) == 1) { vh_ev("oracle_cross_checks"); if (memcmp(ref, r2, n)) vh_hard("oracle disagrees with OpenSSL"); }
		free(r2);
	}
	if (rc != 0) { vh_viol("refused", "crypto_scrypt failed (errno %d) for pw=%zu salt=%zu N=%llu r=%u p=%u len=%zu", errno, pwn, sn, (unsigned long long)N, r, p, n); bad = 1; }
	else if (n && memcmp(ref, out, n)) { for (i = 0; ref[i] == out[i]; i++) ;
		vh_viol("wrong-output", "first wrong byte %zu of %zu: pw=%zu salt=%zu N=%llu r=%u p=%u", i, n, pwn, sn, (unsigned long long)N, r, p); bad = 1; }
	if (!gb_ok(&go)) { vh_viol("overrun", "bytes around the output changed: pw=%zu salt=%zu N=%llu r=%u p=%u len=%zu", pwn, sn, (unsigned long long)N, r, p, n); bad = 1; }
	if (memcmp(pc, pw, pwn) || memcmp(sc, sa, sn) || !gb_ok(&gp) || !gb_ok(&gs)) { vh_viol("input-modified", "password or salt modified N=%llu r=%u p=%u", (unsigned long long)N, r, p); bad = 1; }
	vh_ev("kdf_calls_compared"); vh_case(pwn * 65536 + sn, N, ((uint64_t)r << 32) | p, n);
	vh_sample("pw=%zu salt=%zu N=%llu r=%u p=%u len=%zu -> %02x%02x%02x%02x", pwn, sn, (unsigned long long)N, r, p, n, n > 0 ? out[0] : 0, n > 1 ? out[1] : 0, n > 2 ? out[2] : 0, n > 3 ? out[3] : 0);
	gb_free(&gp); gb_free(&gs); gb_free(&go); free(pc); free(sc); free(ref);
	return bad;
}

int main(int argc, char **argv) {
	const char *mode = argv[1]; uint64_t stream = strtoull(argv[2], 0, 10); int scale = atoi(argv[3]), i;
	vh_seed(stream);
	if (!strcmp(mode, "sweep")) {
		uint32_t r, p; int l; size_t k; int part = stream % 4;
		if (part == 0) { /* r x p grid */
			for (r = 1; r <= 24; r++) for (p = 1; p <= 12; p++) one(picklen(300), picklen(300), 2ULL << vh_rnd(r * p < 60 ? 7 : 3), r, p, picklen(600), (r + p) % 4 == 0);
			for (r = 25; r <= 70; r++) one(picklen(100), picklen(100), 2ULL << vh_rnd(4), r, 1 + vh_rnd(2), picklen(100), 0);
			for (p = 13; p <= 140; p++) one(picklen(100), picklen(100), 2ULL << vh_rnd(3), 1 + vh_rnd(3), p, picklen(100), 0);
			for (k = 0; k < 12; k++) one(picklen(100), picklen(100), 2, 1 + vh_rnd(1000), 1 + vh_rnd(60), picklen(100), 0);
		} else if (part == 1) { /* every logN */
			for (l = 1; l <= (scale > 1 ? 20 : 16); l++) for (r = 1; r <= 4; r++) if (l < 14 || r == 1 + (l + stream) % 4) one(picklen(100), picklen(100), 1ULL << l, r, 1 + (l < 12 ? vh_rnd(3) : 0), picklen(200), l < 15);
			for (l = 1; l <= 13; l++) one(picklen(100), picklen(100), 1ULL << l, 8, 1, 64, l < 12);
			one(8, 32, 1ULL << 18, 1, 1, 64, 0);
			if (scale > 1) { one(8, 32, 1ULL << 20, 8, 1, 64, 1); one(8, 32, 1ULL << 22, 1, 1, 64, 0); }
		} else if (part == 2) { /* lengths */
			for (k = 0; k < 300; k++) one(k, LENS[vh_rnd(NL)], 2, 1, 1, 64, 0);
			for (k = 0; k < 300; k++) one(LENS[vh_rnd(NL)], k, 2, 1, 1, 64, 0);
			for (k = 0; k < 600; k++) one(LENS[vh_rnd(NL)], LENS[vh_rnd(NL)], 2, 1, 1, k, 0);
			one(5, 7, 2, 1, 1, 255 * 32 + 5, 1); one(5, 7, 2, 1, 1, 256 * 32 + 33, 1); one(5, 7, 2, 1, 1, 65535 * 32 + 40, 1); one(5, 7, 2, 1, 1, 65537 * 32 + 7, 0);
			one(100000, 3, 2, 1, 1, 64, 1); one(3, 1000000, 2, 1, 1, 64, 1); one(70000, 70000, 4, 1, 2, 70000, 1);
		} else { /* larger memory blocks: many PBKDF2 blocks */
			one(5, 7, 2, 1, 20000, 64, 1); one(5, 7, 2, 20011, 1, 64, 0); one(9, 32, 4, 257, 65, 64, 0); one(9, 32, 16, 1000, 3, 40, 0); one(9, 32, 2, 1, 131072 + 3, 33, 0);
			one(9, 32, 128, 32, 32, 64, 0); one(0, 0, 1024, 32, 2, 64, 1); one(9, 0, 2, 2048, 16, 64, 0);
			if (scale > 1) { one(5, 7, 2, 1 << 18, 1, 64, 0); one(5, 7, 2, 1, 1 << 20, 64, 0); one(5, 7, 2, 1 << 22, 1, 64, 0); one(5, 7, 2, 3, 1 << 21, 64, 0); }
		}
		for (i = 0; i < 150 * scale; i++) { /* random combinations */
			int l = 1 + vh_rnd(9); r = 1 + vh_rnd(vh_rnd(3) ? 10 : 40); p = 1 + vh_rnd(vh_rnd(3) ? 5 : 30);
			while (((uint64_t)r * p << l) > 40000) { if (l > 1) l--; else if (p > 1) p /= 2; else r /= 2; }
			one(picklen(400), picklen(400), 1ULL << l, r, p, picklen(1200), vh_rnd(8) == 0);
		}
	} else if (!strcmp(mode, "big")) {
		/* One derivation using more than 4 GiB, against EVP_PBE_scrypt.  argv: N r p */
		uint64_t N = strtoull(argv[4], 0, 10); uint32_t r = atoi(argv[5]), p = atoi(argv[6]); size_t need = 128 * (size_t)r * N;
		uint8_t pw[20], sa[33], o1[70], o2[70]; int rc;
		vh_bytes(pw, 20); vh_bytes(sa, 33); memset(o1, 0x3c, 70);
		errno = 0; rc = crypto_scrypt(pw, 20, sa, 33, N, r, p, o1, 69);
		if (rc != 0) {
			void *m = mmap(NULL, need, PROT_READ | PROT_WRITE, MAP_ANON | MAP_PRIVATE, -1, 0);
			if (m == MAP_FAILED) { vh_ev("big_no_memory"); return vh_done(); }
			munmap(m, need);
			vh_viol("refused", "crypto_scrypt failed (errno %d) for N=%llu r=%u p=%u though %zu bytes can be mapped", errno, (unsigned long long)N, r, p, need);
			return vh_done();
		}
		if (EVP_PBE_scrypt((char *)pw, 20, sa, 33, N, r, p, 1ULL << 40, o2, 69) != 1) { vh_ev("big_no_memory"); return vh_done(); }
		if (memcmp(o1, o2, 69)) vh_viol("wrong-output", "result differs from EVP_PBE_scrypt for N=%llu r=%u p=%u (%zu bytes of memory)", (unsigned long long)N, r, p, need);
		if (o1[69] != 0x3c) vh_viol("overrun", "byte after the output changed, N=%llu r=%u p=%u", (unsigned long long)N, r, p);
		vh_ev("kdf_calls_above_4GiB"); vh_case(0, N, r, p); vh_sample("N=%llu r=%u p=%u above 4 GiB", (unsigned long long)N, r, p);
	} else if (!strcmp(mode, "first")) {
		/* The first call of a process uses varied parameters; also an invalid call first. */
		for (i = 0; i < 40 * scale; i++) {
			uint64_t s = vh_next(); pid_t pid; int st; fflush(stdout);
			if ((pid = fork()) == 0) {
				int b = 0; uint8_t o[8]; memset(vh_evs, 0, sizeof(vh_evs)); vh_seed(s);
				if (s % 3 == 0) crypto_scrypt(NULL, 0, NULL, 0, 3, 1, 1, o, 8);
				if (s % 3 == 1) { b |= one(0, 0, 16, 1, 1, 0, 0); }
				b |= one(picklen(90), picklen(90), 2ULL << vh_rnd(5), 1 + vh_rnd(9), 1 + vh_rnd(5), picklen(100), 0);
				b |= one(picklen(90), picklen(90), 2ULL << vh_rnd(5), 1 + vh_rnd(9), 1 + vh_rnd(5), picklen(100), 0);
				fflush(stdout); _exit(b ? 7 : 0);
			}
			waitpid(pid, &st, 0);
			if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7))) vh_viol("first-call-died", "status %x", st);
			vh_ev("fresh_processes"); vh_case(s, 1, 2, 3);
		}
	}
	return vh_done();
}
