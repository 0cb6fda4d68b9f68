/* C26: what an operation costs: key derivations made and the most memory held at any time.
 * args: seed cases ; "-run" exe args...: runs a command and prints its peak RSS. */
#include "vh_io.h"
#include "vh_alloc.h"
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "crypto_scrypt.h"
#include "scryptenc.h"
#define SLACK (1 << 20)
static size_t live, peak; static long kdfs, others; static uint64_t kN; static uint32_t kr, kp;
static void count(void *p, size_t n) { int i; (void)p; (void)n; live = 0; for (i = 0; i < va_n; i++) live += va_tab[i].n; if (live > peak) peak = live; }
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t *pw, size_t pn, const uint8_t *s, size_t sn, uint64_t N, uint32_t r, uint32_t p, uint8_t *o, size_t on) {
	/* measuring the machine is no derivation of a key */
	if (pn == 0 && sn == 0 && N <= 1024 && r == 1 && p == 1) others++; else { kdfs++; kN = N; kr = r; kp = p; }
	return __real_crypto_scrypt(pw, pn, s, sn, N, r, p, o, on);
}
/* reading and discarding streams which allocate nothing themselves */
struct src { const uint8_t *p; size_t n, o; }; static uint64_t sunk;
static ssize_t srd(void *c, char *b, size_t n) { struct src *s = c; if (n > s->n - s->o) n = s->n - s->o; memcpy(b, s->p + s->o, n); s->o += n; return n; }
static ssize_t swr(void *c, const char *b, size_t n) { (void)c; (void)b; sunk += n; return n; }
static FILE *rd(struct src *s, const uint8_t *p, size_t n) { cookie_io_functions_t f = { srd, NULL, NULL, NULL }; s->p = p; s->n = n; s->o = 0; return fopencookie(s, "r", f); }
static FILE *wr(void) { cookie_io_functions_t f = { NULL, swr, NULL, NULL }; sunk = 0; return fopencookie(NULL, "w", f); }
static const char *ON[] = { "crypto_scrypt", "scryptenc_buf", "scryptdec_buf", "scryptenc_file", "scryptdec_file", "scryptdec_file_prep/copy" };
static void one(void) {
	int op = vh_rnd(6), l, cause = vh_rnd(3) ? 0 : 1 + vh_rnd(6), rc, want = 1, autop = 0; uint32_t r, p; size_t n, on = 0, i; uint64_t bound; uint8_t pw[80], salt[32], *d, *f, *o; size_t pn = 1 + vh_rnd(79); struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; struct src s; FILE *I = NULL, *O = NULL; struct scryptdec_file_cookie *C = NULL; char det[200];
	switch (vh_rnd(4)) { case 0: l = 8 + vh_rnd(7); r = 1 + vh_rnd(16); p = 1 + vh_rnd(3); break; /* memory is V */
	case 1: l = 1 + vh_rnd(3); r = 1 + vh_rnd(8); p = 1 + vh_rnd(20000); break; /* memory is B */
	case 2: l = 1 + vh_rnd(2); r = 1000 + vh_rnd(30000); p = 1 + vh_rnd(3); break; /* memory is XY */
	default: l = 1 + vh_rnd(14); r = 1 + vh_rnd(32); p = 1 + vh_rnd(8); break; }
	while (((uint64_t)r * p << l) > 1 << 18) { if (p > 1) p /= 2; else l--; }
	if (l < 1) l = 1;
	n = vh_rnd(3) ? vh_rnd(2000) : vh_rnd(4) ? vh_rnd(200000) : (4 << 20) + vh_rnd(100000);
	d = malloc(n + 1); f = malloc(n + 128 + 1); o = malloc(n + 128); vh_fill(d, n); vh_bytes(pw, 80); vh_bytes(salt, 32);
	if (op == 2 || op >= 4) {
		o_encode(pw, pn, salt, l, r, p, d, n, f, NULL);
		switch (cause) { case 1: pw[vh_rnd(pn)] ^= 1; break; case 2: f[vh_rnd(6)] ^= 1 << vh_rnd(8); want = 0; break; case 3: f[6] = 1 + vh_rnd(255); want = 0; break; case 4: f[48 + vh_rnd(16)] ^= 4; want = 0; break; case 5: f[96 + vh_rnd(n + 32)] ^= 16; break; case 6: P.maxmem = 1; P.maxmemfrac = 0.5; want = -1; break; default: break; }
	} else if (op == 1 || op == 3) {
		if (vh_rnd(8) == 0) { autop = 1; P.maxmem = (1 << 20) + vh_rnd(1 << 22); P.maxtime = 0.01; } else { P.logN = l; P.r = r; P.p = p; }
		if (cause == 2 && !autop) { P.r = 1 << 20; P.p = 1 << 11; want = 0; }
	}
	if (op == 3) { I = rd(&s, d, n); O = wr(); } else if (op >= 4) { I = rd(&s, f, n + 128); O = wr(); }
	kdfs = others = 0; live = peak = 0; va_onalloc = count; va_begin();
	switch (op) {
	case 0: rc = crypto_scrypt(pw, pn, salt, 32, (uint64_t)1 << l, r, p, o, n + 128 > 5000 ? 5000 : n + 128); break;
	case 1: rc = scryptenc_buf(d, n, o, pw, pn, &P, 0, !autop && vh_rnd(2)); break;
	case 2: rc = scryptdec_buf(f, n + 128, o, &on, pw, pn, &P, 0, cause != 6); break;
	case 3: rc = scryptenc_file(I, O, pw, pn, &P, 0, !autop && vh_rnd(2)); break;
	case 4: rc = scryptdec_file(I, O, pw, pn, &P, 0, cause != 6); break;
	default: rc = scryptdec_file_prep(I, pw, pn, &P, 0, cause != 6, &C); if (rc == 0) { rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); } break;
	}
	va_stop(); va_onalloc = NULL;
	live = 0; for (i = 0; i < (size_t)va_n; i++) live += va_tab[i].n;
	if (autop) { l = P.logN; r = P.r; p = P.p; }
	bound = ((uint64_t)128 * r << l) + (uint64_t)128 * r * p + 256 * (uint64_t)r;
	snprintf(det, sizeof det, "%s returning %d: logN %d r %u p %u, %zu bytes of data, cause %d", ON[op], rc, l, r, p, n, cause);
	if (want == -1) want = rc == 9 || rc == 10 || rc == 15 ? 0 : 1;
	if ((op == 0 || want == 1) && kdfs != 1) vh_viol("derivations", "%s: %ld key derivations", det, kdfs);
	else if (want == 0 && kdfs) vh_viol("derivations-refused", "%s: %ld key derivations for a refused request", det, kdfs);
	else if (kdfs == 1 && (kN != (uint64_t)1 << l || kr != r || kp != p)) vh_viol("derivation-parameters", "%s: derived with N %llu r %u p %u", det, (unsigned long long)kN, kr, kp);
	if (want == 0) { if (peak > SLACK) vh_viol("memory-refused", "%s: %zu bytes held although no derivation is made", det, peak); vh_ev("refused_cheaply"); }
	else if (peak > bound + SLACK) vh_viol("memory", "%s: held %zu bytes at a time, parameters announce %llu", det, peak, (unsigned long long)bound);
	if (live) vh_viol("memory-kept", "%s: %zu bytes not given back", det, live);
	if (peak > bound / 2 && bound > 4 << 20 && kdfs) vh_ev("peaks_near_the_announced_memory");
	vh_ev(kdfs ? "operations_with_derivation" : "operations_without_derivation"); if (others) vh_ev("operations_measuring_the_machine"); if (n > SLACK && op) vh_ev("operations_on_much_data"); if (rc) vh_ev("operations_failed");
	vh_case(op * 10 + cause, l, ((uint64_t)r << 32) | p, n);
	if (vh_rnd(50) == 0) vh_sample("%s: peak %zu of %llu bytes announced", det, peak, (unsigned long long)bound);
	if (I) fclose(I); if (O) fclose(O); free(d); free(f); free(o);
}
int main(int argc, char **argv) {
	int i, n, st; struct rusage ru; pid_t k;
	if (!strcmp(argv[1], "-run")) {
		if ((k = fork()) == 0) { execv(argv[2], argv + 2); _exit(127); }
		while (wait4(k, &st, 0, &ru) != k) ;
		fprintf(stderr, "\nRSS %ld STATUS %d\n", ru.ru_maxrss, WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); return 0;
	}
	signal(SIGPIPE, SIG_IGN); vh_seed(strtoull(argv[1], 0, 10) + 260000); n = atoi(argv[2]);
	for (i = 0; i < n; i++) one();
	return vh_done();
}
