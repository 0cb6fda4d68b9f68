/* C16, C15: sizes and numbers, compared with 128-bit arithmetic. */
#include "vh.h"
#include "humansize.h"
#include "parsenum.h"
typedef unsigned __int128 u128;
static int model(const char *s, uint64_t *out) {
	u128 v = 0, mul = 1; int nd = 0, big = 0; static const char *pf = "kMGTPE", *q; int i;
	while (*s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); if (v >> 70) { big = 1; v = (u128)1 << 70; } s++; nd++; }
	if (!nd) return -1; if (*s == ' ') s++; if (*s && (q = strchr(pf, *s))) { for (i = 0; i <= q - pf; i++) mul *= 1000; s++; } if (*s == 'B') s++; if (*s) return -1;
	if (big && v * 1 == 0) return -1; if (v > UINT64_MAX || v * mul > UINT64_MAX || big) return -1; *out = (uint64_t)(v * mul); return 0;
}
static void dec(char *o, u128 v) { char t[60]; int n = 0; do { t[n++] = '0' + (int)(v % 10); v /= 10; } while (v); while (n) *o++ = t[--n]; *o = 0; }
int main(int argc, char **argv) {
	uint64_t st = strtoull(argv[1], 0, 10), a, b; long n = atol(argv[2]), i; vh_seed(st + 1616);
	for (i = 0; i < n; i++) {
		char s[120], d[60], d2[60]; int r1, r2, k; uint64_t w; static const uint64_t pw[] = {1, 1000, 1000000, 1000000000ULL, 1000000000000ULL, 1000000000000000ULL, 1000000000000000000ULL}; static const char *pf[] = {"", "k", "M", "G", "T", "P", "E"};
		k = vh_rnd(7); u128 base;
		switch (vh_rnd(6)) { case 0: base = vh_next() >> vh_rnd(64); break; case 1: base = ((u128)1 << 64) / pw[k] + vh_rnd(5); base = base > 2 ? base - 2 : base; break; case 2: base = (u128)(vh_next() >> 60) * ((u128)1 << 64) + vh_rnd(100); break;
		case 3: base = ((u128)1 << 64) + vh_rnd(2000) - 1000; break; case 4: base = (((u128)1 << 64) / 10 + vh_rnd(3) - 1) * 10 + vh_rnd(10); break; default: base = vh_rnd(2000); }
		dec(d, base); { int z = vh_rnd(8) ? 0 : vh_rnd(30); memset(d2, '0', z); d2[z] = 0; } if (strlen(d) + strlen(d2) > 50) d2[0] = 0;
		snprintf(s, sizeof s, "%s%s%s%s%s", d2, d, vh_rnd(3) ? "" : " ", vh_rnd(4) ? pf[k] : "", vh_rnd(2) ? "B" : "");
		if (vh_rnd(4) == 0) { size_t l = strlen(s), at = vh_rnd(l + 1); static const char al[] = "0123456789 kKMGTPEBb.-+x\tmg,e"; char ch = vh_rnd(6) ? al[vh_rnd(sizeof al - 1)] : (char)vh_next(); if (vh_rnd(2) && at < l) s[at] = ch; else { memmove(s + at + 1, s + at, l + 1 - at); s[at] = ch; } }
		a = 0x1234; b = 0x1234; r1 = humansize_parse(s, &a); r2 = model(s, &b);
		if ((r1 != 0) != (r2 != 0) || (r1 == 0 && a != b)) vh_viol("size", "size '%s' is parsed as %d (%llu) instead of %d (%llu)", s, r1, (unsigned long long)a, r2, (unsigned long long)b);
		vh_ev(r2 ? "sizes_rejected" : "sizes_accepted"); vh_case(vh_mix(a), r1, strlen(s), s[0]);
		/* integers of the option types, every power-of-two wrap */
		{ int lo = vh_rnd(3), r, want; __int128 v; uint32_t u = 0; int L = 0; static const int mn[] = {10, 1, 1}, mx[] = {40, 32, 2048};
		switch (vh_rnd(5)) { case 0: v = (__int128)vh_rnd(2 * mx[lo]) - mx[lo] / 2; break; case 1: v = ((__int128)1 << (8 * (1 + vh_rnd(9)))) + vh_rnd(2 * mx[lo]); break; case 2: v = -(((__int128)1 << (8 * (1 + vh_rnd(9)))) - (__int128)vh_rnd(2 * mx[lo])); break; case 3: v = mx[lo] + (int)vh_rnd(5) - 2; break; default: v = mn[lo] + (int)vh_rnd(5) - 2; }
		if (v < 0) { s[0] = '-'; dec(s + 1, -v); } else dec(s, v);
		want = v >= mn[lo] && v <= mx[lo]; if (lo == 0) { r = PARSENUM(&L, s, 10, 40); u = L; } else if (lo == 1) r = PARSENUM(&u, s, 1, 32); else r = PARSENUM(&u, s, 1, 2048);
		if ((r == 0) != want || (want && u != (uint32_t)v)) vh_viol("integer", "'%s' within %d..%d gives %d (%u)", s, mn[lo], mx[lo], r, u); vh_ev(want ? "integers_accepted" : "integers_rejected"); vh_case(vh_mix((uint64_t)v), lo, r != 0, w = (uint64_t)(v >> 64)); }
		/* formatting of sizes */
		{ char want[32], *h; uint64_t x = vh_next() >> vh_rnd(64), q; int e; switch (vh_rnd(4)) { case 0: x = pw[vh_rnd(7)] * (1 + vh_rnd(19)) + vh_rnd(5) - 2; break; case 1: x = pw[vh_rnd(7)] / 10 * (vh_rnd(200)) + vh_rnd(3) - 1; break; case 2: x = UINT64_MAX - vh_rnd(3); break; }
		if (x < 1000) snprintf(want, 32, "%d B", (int)x); else { for (e = 6; pw[e] > x; e--); if (x / pw[e] < 10) { q = x / (pw[e] / 10); snprintf(want, 32, "%d.%d %sB", (int)(q / 10), (int)(q % 10), pf[e]); } else snprintf(want, 32, "%d %sB", (int)(x / pw[e]), pf[e]); }
		h = humansize(x); if (!h || strcmp(h, want)) vh_viol("format", "%llu is shown as %s instead of %s", (unsigned long long)x, h, want); free(h); vh_ev("sizes_formatted"); vh_case(vh_mix(x), 3, 3, 3); }
	}
	return vh_done();
}
