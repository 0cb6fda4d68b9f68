/* C25: accelerated functions are made to misbehave (consistently); results must stay correct and a warning be printed.
 * Each configuration runs in a process of its own (the choice of implementation is made once per process).
 * args: stream count */
#include "vh.h"
#include "vh_ops.h"
#include "scryptenc.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
enum { F_SHANI, F_SHASSE2, F_SMIX, F_AESKEY, F_AESENC, F_AESCTR, F_N };
static const char *FN[] = { "sha256_shani", "sha256_sse2", "smix_sse2", "aesni_key", "aesni_encrypt", "aesctr_aesni" };
static int fam(int f) { return f == F_AESENC ? F_AESKEY : f; }
static int mode[F_N], pos[F_N]; static struct { uint64_t calls[F_N], brokencalls[F_N], warned, masked_calls[F_N], runs, ops; } *S;
static int mask_shani, mask_ssse3, mask_sse2, mask_aesni, mask_rdrand; /* feature reported absent */
/* kinds of misbehaviour applied to n bytes at b, o being the correct output's place before the call */
static void spoil(int f, uint8_t *b, const uint8_t *before, size_t n) {
	S->brokencalls[f]++;
	switch (mode[f]) {
	case 1: b[pos[f] / 8 % n] ^= 1 << (pos[f] & 7); break;
	case 2: memcpy(b, before, n); break;
	case 3: memset(b, 0, n); break;
	case 4: { uint8_t t; size_t i; for (i = 0; i < n / 2; i++) { t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; } break; }
	case 5: b[n - 1] += 1; break;
	}
}
#ifdef ARMSIM
/* the ARM implementations on the simulated processor take the places of SHA-NI and AES-NI */
extern unsigned long armsim_hwcap;
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define R_(f) CAT(__real_, f)
#define W_(f) CAT(__wrap_, f)
#ifdef ARMSIM
#define T_SHA SHA256_Transform_arm
#define T_KEY crypto_aes_key_expand_arm
#define T_ENC crypto_aes_encrypt_block_arm
#define T_CTR crypto_aesctr_arm_stream
#else
#define T_SHA SHA256_Transform_shani
#define T_KEY crypto_aes_key_expand_aesni
#define T_ENC crypto_aes_encrypt_block_aesni
#define T_CTR crypto_aesctr_aesni_stream
#endif
#ifdef HAVE_SHANI
void R_(T_SHA)(uint32_t *, const uint8_t *);
void W_(T_SHA)(uint32_t *s, const uint8_t *b) { uint32_t o[8]; S->calls[F_SHANI]++; memcpy(o, s, 32); if (mask_shani || mask_ssse3) S->masked_calls[F_SHANI]++; R_(T_SHA)(s, b); if (mode[F_SHANI]) spoil(F_SHANI, (uint8_t *)s, (uint8_t *)o, 32); }
#endif
#ifdef HAVE_SHASSE2
void __real_SHA256_Transform_sse2(uint32_t *, const uint8_t *, uint32_t *, uint32_t *);
void __wrap_SHA256_Transform_sse2(uint32_t *s, const uint8_t *b, uint32_t *W, uint32_t *T) { uint32_t o[8]; S->calls[F_SHASSE2]++; memcpy(o, s, 32); if (mask_sse2) S->masked_calls[F_SHASSE2]++; __real_SHA256_Transform_sse2(s, b, W, T); if (mode[F_SHASSE2]) spoil(F_SHASSE2, (uint8_t *)s, (uint8_t *)o, 32); }
#endif
#ifdef HAVE_SMIX
void __real_crypto_scrypt_smix_sse2(uint8_t *, size_t, uint64_t, void *, void *);
void __wrap_crypto_scrypt_smix_sse2(uint8_t *B, size_t r, uint64_t N, void *V, void *X) { uint8_t *o = malloc(128 * r); S->calls[F_SMIX]++; memcpy(o, B, 128 * r); if (mask_sse2) S->masked_calls[F_SMIX]++; __real_crypto_scrypt_smix_sse2(B, r, N, V, X); if (mode[F_SMIX]) spoil(F_SMIX, B, o, 128 * r); free(o); }
#endif
#ifdef HAVE_AESNI
void *R_(T_KEY)(const uint8_t *, size_t); static size_t lastlen;
void *W_(T_KEY)(const uint8_t *k, size_t n) {
	uint8_t kk[32]; S->calls[F_AESKEY]++; if (mask_aesni) S->masked_calls[F_AESKEY]++; lastlen = n; memcpy(kk, k, n);
	/* modes: 1, 4, 5: another key is expanded; 2: fails; 3: only 128-bit keys wrong; 6: only 256-bit keys wrong */
	if (mode[F_AESKEY]) { int m = mode[F_AESKEY]; if (m == 2) { S->brokencalls[F_AESKEY]++; return NULL; }
		if (m == 1 || m == 4 || m == 5 || (m == 3 && n == 16) || (m == 6 && n == 32)) { S->brokencalls[F_AESKEY]++; kk[pos[F_AESKEY] / 8 % n] ^= 1 << (pos[F_AESKEY] & 7); } }
	return R_(T_KEY)(kk, n);
}
void R_(T_ENC)(const uint8_t *, uint8_t *, const void *);
void W_(T_ENC)(const uint8_t *i, uint8_t *o, const void *k) { uint8_t b[16]; S->calls[F_AESENC]++; memcpy(b, i, 16); if (mask_aesni) S->masked_calls[F_AESENC]++; R_(T_ENC)(i, o, k); if (mode[F_AESENC]) spoil(F_AESENC, o, b, 16); }
#endif
#ifdef HAVE_AESCTR
void R_(T_CTR)(void *, const uint8_t *, uint8_t *, size_t);
void W_(T_CTR)(void *s, const uint8_t *i, uint8_t *o, size_t n) { S->calls[F_AESCTR]++; if (mask_aesni) S->masked_calls[F_AESCTR]++; if (mode[F_AESCTR]) vh_viol("aesctr_used", "the AES-NI stream code is used although AES-NI failed its test"); R_(T_CTR)(s, i, o, n); }
#endif
#define DET(f) int __real_cpusupport_x86_##f##_detect_1(void); int __wrap_cpusupport_x86_##f##_detect_1(void) { return mask_##f ? 0 : __real_cpusupport_x86_##f##_detect_1(); }
#ifdef DET_shani
DET(shani)
#endif
#ifdef DET_ssse3
DET(ssse3)
#endif
#ifdef DET_sse2
DET(sse2)
#endif
#ifdef DET_aesni
DET(aesni)
#endif
#ifdef DET_rdrand
DET(rdrand)
#endif
static struct work W[NOP * 3]; static uint8_t file[400], plain[200];
static void mkfile(void) {
	uint8_t h[32], dk[64]; vh_bytes(plain, 200); memcpy(file, "scrypt", 7); file[7] = 5; o_be32(file + 8, 3); o_be32(file + 12, 1); vh_bytes(file + 16, 32); o_scrypt((uint8_t *)"pw", 2, file + 16, 32, 32, 3, 1, dk, 64);
	o_sha256(file, 48, h); memcpy(file + 48, h, 16); o_hmac(dk + 32, 32, file, 64, h); memcpy(file + 64, h, 32); o_aesctr(dk, 32, 0, 0, plain, file + 96, 200); o_hmac(dk + 32, 32, file, 296, file + 296);
}
static char conf[300];
static uint64_t hwnoise;
static void setcaps(void) {
#ifdef ARMSIM
	armsim_hwcap = (mask_aesni ? 0 : 8) | (mask_shani ? 0 : 64) | (hwnoise & 0x7fffffff & ~72UL); /* other features: any */
#endif
}
/* everything, in an order that varies what is initialised first */
static void ops(uint64_t rs) {
	int i, j, k = NOP * 3; const char *why;
	for (i = 0; i < k; i++) { j = (rs >> 8) % k; rs = vh_mix(rs); { struct work *w = &W[(i * 7 + j) % k]; if (doone(w, &rs, &why)) vh_viol("wrong_result", "%s: %s %s", conf, ON[w->op], why); S->ops++; } }
	for (i = 0; i < NOP; i++) { if (doone(&W[i], &rs, &why)) vh_viol("wrong_result", "%s: %s %s", conf, ON[W[i].op], why); S->ops++; }
	{ uint8_t out[400]; size_t n = 0; struct scryptenc_params p = { 0, 0.5, 100, 0, 0, 0 }; int rc = scryptdec_buf(file, 328, out, &n, (uint8_t *)"pw", 2, &p, 0, 1); if (rc || n != 200 || memcmp(out, plain, 200)) vh_viol("wrong_result", "%s: scryptdec_buf %d", conf, rc); S->ops++; }
}
static void one(const char *what) {
	int ep[2], st, i, want = 0, lines = 0, broken = 0; pid_t pid; char buf[8192]; size_t bn = 0; ssize_t r; uint64_t rs = vh_next(); int o = snprintf(conf, sizeof conf, "%s", what);
	for (i = 0; i < F_N; i++) if (mode[i]) o += snprintf(conf + o, sizeof conf - o, " %s broken (kind %d, bit %d)", FN[i], mode[i], pos[i]);
#ifdef ARMSIM
	mask_ssse3 = mask_sse2 = mask_rdrand = 0;
#endif
	if (mask_shani | mask_ssse3 | mask_sse2 | mask_aesni | mask_rdrand) snprintf(conf + o, sizeof conf - o, " absent:%s%s%s%s%s", mask_shani ? " shani" : "", mask_ssse3 ? " ssse3" : "", mask_sse2 ? " sse2" : "", mask_aesni ? " aesni" : "", mask_rdrand ? " rdrand" : "");
	memset(S, 0, sizeof *S); fflush(stdout); if (pipe(ep)) vh_hard("pipe"); pid = fork(); if (pid < 0) vh_hard("fork");
	if (pid == 0) { alarm(100); hwnoise = rs; setcaps(); dup2(ep[1], 2); close(ep[0]); close(ep[1]); ops(rs); fflush(stdout); fflush(stderr); _exit(vh_nviol ? 9 : 0); }
	close(ep[1]); while ((r = read(ep[0], buf + bn, sizeof buf - 1 - bn)) > 0) bn += r; close(ep[0]); buf[bn] = 0; waitpid(pid, &st, 0);
	for (i = 0; i < (int)bn; i++) if (buf[i] == '\n') lines++;
	if (WIFSIGNALED(st)) vh_viol("died", "%s: signal %d: %.300s", conf, WTERMSIG(st), buf); else if (WEXITSTATUS(st) == 9) vh_nviol++; else if (WEXITSTATUS(st)) vh_viol("died", "%s: exit status %d: %.300s", conf, WEXITSTATUS(st), buf);
	for (i = 0; i < F_N; i++) { if (S->calls[i]) { static char nm[F_N][40]; snprintf(nm[i], 40, "calls_%s", FN[i]); vh_evn(nm[i], S->calls[i]); }
		if (S->brokencalls[i]) { static char nb[F_N][40]; snprintf(nb[i], 40, "broken_calls_%s", FN[i]); vh_evn(nb[i], S->brokencalls[i]); broken = 1; }
		if (S->masked_calls[i]) vh_viol("unsupported_used", "%s: %s called although the processor lacks the feature", conf, FN[i]); }
	want = (S->brokencalls[F_SHANI] != 0) + (S->brokencalls[F_SHASSE2] != 0) + (S->brokencalls[F_SMIX] != 0) + (S->brokencalls[F_AESKEY] || S->brokencalls[F_AESENC]);
	if (lines < want) vh_viol("no_warning", "%s: %d misbehaving implementations, %d lines of warnings: %.300s", conf, want, lines, buf);
	if (!broken && lines) vh_viol("spurious_warning", "%s: %.300s", conf, buf);
	if (broken) vh_ev("processes_with_broken_code"); else vh_ev("processes_with_sound_code"); if (want) vh_evn("warnings_seen", lines); vh_evn("results_compared", S->ops);
	if (mask_shani | mask_ssse3 | mask_sse2 | mask_aesni) vh_ev("processes_with_absent_features");
	{ uint64_t h = 0; for (i = 0; i < F_N; i++) h = vh_mix(h * 1000 + mode[i] * 100000 + pos[i]); vh_case(h, mask_shani * 16 + mask_ssse3 * 8 + mask_sse2 * 4 + mask_aesni * 2 + mask_rdrand, broken, 0); }
	memset(mode, 0, sizeof mode); mask_shani = mask_ssse3 = mask_sse2 = mask_aesni = mask_rdrand = 0;
}
int main(int argc, char **argv) {
	int i, f, m, n = atoi(argv[2]), q; vh_seed(2500 + atoi(argv[1])); setvbuf(stdout, NULL, _IOLBF, 0);
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (i = 0; i < NOP * 3; i++) mkwork(&W[i], i % NOP); mkfile();
	one("sound");
	for (q = 0; q < 32; q++) { mask_shani = q & 1; mask_ssse3 = q >> 1 & 1; mask_sse2 = q >> 2 & 1; mask_aesni = q >> 3 & 1; mask_rdrand = q >> 4; one(""); }
	/* each function alone, each kind */
	for (f = 0; f < F_AESCTR; f++) for (m = 1; m <= (f == F_AESKEY ? 6 : 5); m++) for (q = 0; q < 2; q++) { mode[f] = m; pos[f] = vh_rnd(256); if (q && f == F_SHASSE2) mask_shani = 1; one(""); }
	for (q = 0; q < n; q++) { /* every output bit of the hash, random bits of the others; subsets */
		if (q < 256) { mode[F_SHANI] = 1; pos[F_SHANI] = q; if (q & 1) { mode[F_SHASSE2] = 1; pos[F_SHASSE2] = vh_rnd(256); } mode[F_SMIX] = 1; pos[F_SMIX] = vh_rnd(8192); mode[F_AESENC] = 1; pos[F_AESENC] = q % 128; }
		else { for (f = 0; f < F_AESCTR; f++) if (vh_rnd(2)) { mode[f] = 1 + vh_rnd(f == F_AESKEY ? 6 : 5); pos[f] = vh_rnd(8192); } if (!vh_rnd(3)) mask_shani = vh_rnd(2), mask_ssse3 = vh_rnd(2), mask_sse2 = vh_rnd(2), mask_aesni = vh_rnd(2); }
		if (mode[F_AESKEY] || mode[F_AESENC]) mode[F_AESCTR] = 1;
		one("");
	}
	vh_sample("%d configurations of broken and absent features", (int)vh_evals); return vh_done();
}
