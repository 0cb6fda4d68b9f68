/* C19: the function all zeroing rests on: every length, at every alignment, nothing less and nothing more. */
#include "vh.h"
#include "insecure_memzero.h"
int main(int argc, char **argv) {
	static uint8_t b[70000]; size_t n, a, i; (void)argc; vh_seed(strtoull(argv[1], 0, 10));
	for (n = 0; n < 700; n++) for (a = 0; a < (n < 300 ? 64 : 17); a++) {
		size_t k = n < 600 ? n : 600 + vh_rnd(60000); uint8_t f = 1 + vh_rnd(255);
		memset(b, f, k + a + 200); insecure_memzero(b + 64 + a, k);
		for (i = 0; i < k; i++) if (b[64 + a + i]) { vh_viol("zeroing", "byte %zu of %zu (at alignment %zu) is not zeroed", i, k, a); break; }
		for (i = 0; i < 64 + a; i++) if (b[i] != f) { vh_viol("zeroing", "a byte before the %zu zeroed ones changed", k); break; }
		for (i = 64 + a + k; i < k + a + 200; i++) if (b[i] != f) { vh_viol("zeroing", "a byte after the %zu zeroed ones changed", k); break; }
		vh_ev("zeroings_checked"); vh_case(n, a, k, 0);
	}
	vh_sample("lengths 0 to 599 and larger ones up to 60600, alignments 0 to 63");
	return vh_done();
}
