/* C01: p > 2^25, where block offsets exceed 2^32.  The (expensive, separately checked) PBKDF2 is
 * interposed so that all p blocks start as zero; then every block must end up mixed exactly once. */
#include "vh.h"
#include "crypto_scrypt.h"
#include "sha256.h"
static uint64_t P; static uint32_t R; static int stage, intercepted; static uint8_t X[4096];
void __real_PBKDF2_SHA256(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint8_t *, size_t);
static int armed; static uint8_t *seenB;
void __wrap_PBKDF2_SHA256(const uint8_t *pw, size_t pwn, const uint8_t *s, size_t sn, uint64_t c, uint8_t *buf, size_t n) {
	size_t bl = 128 * (size_t)R; uint64_t i;
	if (!armed) { __real_PBKDF2_SHA256(pw, pwn, s, sn, c, buf, n); return; }
	if (stage == 0 && n == P * bl) { /* B: freshly allocated, i.e. zero pages */ seenB = buf; stage = 1; intercepted++; vh_ev("B_blocks_initialised");
		if (buf[0] || buf[n - 1]) memset(buf, 0, n); return; }
	if (stage == 1 && sn == P * bl) {
		intercepted++;
		for (i = 0; i < P; i++) if (memcmp(s + i * bl, X, bl)) { vh_viol("block-not-mixed-once", "p=%llu: block %llu was not mixed exactly once", (unsigned long long)P, (unsigned long long)i); break; }
		vh_evn("blocks_verified", i); memset(buf, 1, n); stage = 2; return;
	}
	__real_PBKDF2_SHA256(pw, pwn, s, sn, c, buf, n);
}
int main(int argc, char **argv) {
	uint8_t out[64], t[16]; int rc;
	R = atoi(argv[1]); P = strtoull(argv[2], 0, 10);
	crypto_scrypt(NULL, 0, NULL, 0, 16, 1, 1, t, 16); /* implementation selection, un-hooked */
	memset(X, 0, 128 * R); o_romix(X, R, 2);
	armed = 1;
	rc = crypto_scrypt((const uint8_t *)"x", 1, (const uint8_t *)"y", 1, 2, R, (uint32_t)P, out, 64);
	armed = 0;
	if (intercepted == 2 && stage == 2) { vh_ev("bigp_observed"); vh_case(R, P, 0, 0); }
	if (intercepted == 2 && rc != 0) vh_viol("refused", "crypto_scrypt(N=2, r=%u, p=%llu) failed, errno %d", R, (unsigned long long)P, errno);
	else if (rc != 0 && errno == ENOMEM) vh_ev("bigp_no_memory");
	vh_sample("N=2 r=%u p=%llu: all blocks mixed exactly once", R, (unsigned long long)P);
	return vh_done();
}
