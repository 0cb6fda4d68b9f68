/* C28: operations are executed one instruction at a time (trap flag) on simulated x86 processors: CPUID instructions in this
 * program answer as a given processor would, and every instruction address of this program that is executed is recorded.
 * args: outfile stream count part parts */
#include "vh.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <cpuid.h>
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "scryptenc.h"
#include "sha256.h"
extern char __executable_start[], etext[];
static uint8_t *seen; static size_t span; static volatile int going, stop; static volatile uint64_t *cnt;
static struct { uint32_t max, c1, d1, b7, c7, d7, noise; } P; static uint64_t *cpuids;
enum { C_AES = 1 << 25, C_RDRAND = 1 << 30, C_SSSE3 = 1 << 9, D_SSE2 = 1 << 26, B_SHA = 1 << 29 };
static void cpuid(uint32_t leaf, uint32_t sub, uint32_t o[4]) {
	uint32_t orig = leaf; cpuids[0]++;
	if (leaf >= 0x80000000) { memset(o, 0, 16); if (leaf == 0x80000000) o[0] = 0x80000001; return; }
	if (leaf > P.max) { leaf = P.max; cpuids[1]++; } /* the highest basic leaf answers */
	switch (leaf) {
	case 0: o[0] = P.max; o[1] = 0x756e6547; o[3] = 0x49656e69; o[2] = 0x6c65746e; break;
	case 1: o[0] = 0x306a9; o[1] = P.noise; o[2] = P.c1; o[3] = P.d1; break;
	case 7: if (sub == 0 && orig == 7) { o[0] = 1; o[1] = P.b7; o[2] = P.c7; o[3] = P.d7; break; } /* FALLTHROUGH */
	default: o[0] = o[1] = o[2] = o[3] = ~(uint32_t)0; /* other leaves: whatever they mean, not features */
	}
}
/* Calls out of this program, and calls of functions which have been stepped through often enough, run at full speed: a
 * breakpoint at the return address ends that. */
static uint8_t *bp, bpbyte; static uint64_t bpsp, lastsp, lastip; static uint8_t *ncall;
#define IN(x) ((uint64_t)(x) - (uint64_t)__executable_start < span)
static int fast(greg_t *g, uint64_t ret) { if (!IN(ret)) return 0; bp = (uint8_t *)ret; bpbyte = *bp; bpsp = g[REG_RSP] + 8; *bp = 0xcc; g[REG_EFL] &= ~0x100L; cnt[3]++; return 1; }
static void trap(int sig, siginfo_t *si, void *v) {
	ucontext_t *u = v; greg_t *g = u->uc_mcontext.gregs; uint64_t ip = g[REG_RIP], ret; (void)sig; (void)si;
	if (bp) { if (ip != (uint64_t)bp + 1 && ip != (uint64_t)bp) _exit(77); *bp = bpbyte; bp = NULL; if ((uint64_t)g[REG_RSP] != bpsp) _exit(78); ip = g[REG_RIP] = ip - 1; g[REG_EFL] |= 0x100; lastsp = lastip = 0; }
	if (stop) { g[REG_EFL] &= ~0x100L; return; }
	(*cnt)++;
	ret = *(uint64_t *)g[REG_RSP];
	if (!IN(ip)) { if (IN(lastip) && fast(g, ret)) { lastip = 0; return; } }
	else if (lastsp == (uint64_t)g[REG_RSP] + 8 && ret - lastip >= 2 && ret - lastip <= 7) { uint64_t o = ip - (uint64_t)__executable_start; if (ncall[o] < 6) ncall[o]++; else if (fast(g, ret)) { seen[o] = 1; return; } }
	lastsp = g[REG_RSP]; lastip = ip;
	while (ip - (uint64_t)__executable_start < span) {
		const uint8_t *b = (const uint8_t *)ip;
		if (b[0] == 0x0f && b[1] == 0xa2) { uint32_t o[4]; cpuid((uint32_t)g[REG_RAX], (uint32_t)g[REG_RCX], o); g[REG_RAX] = o[0]; g[REG_RBX] = o[1]; g[REG_RCX] = o[2]; g[REG_RDX] = o[3]; ip = g[REG_RIP] = ip + 2; continue; }
		seen[ip - (uint64_t)__executable_start] = 1; break;
	}
	if (!(g[REG_EFL] & 0x100)) g[REG_EFL] |= 0x100;
}
static __attribute__((noinline)) void step(void) { stop = 0; __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "cc", "memory"); }
static __attribute__((noinline)) void unstep(void) { stop = 1; __asm__ volatile("nop; nop"); }
static uint8_t key[64], in[700], got[8][800], want[8][800]; static size_t gotn; static int rc[12]; static struct scryptenc_params EP = { 0, 0.5, 100, 1, 1, 1 }, DP = { 0, 0.5, 100, 0, 0, 0 };
static void ops(int order) {
	int i; struct crypto_aes_key *k; struct crypto_aesctr *a; SHA256_CTX c;
	for (i = 0; i < 6; i++) switch ((i + order) % 6) {
	case 0: SHA256_Buf(in, 300, got[0]); SHA256_Init(&c); SHA256_Update(&c, in, 7); SHA256_Update(&c, in + 7, 200); SHA256_Final(got[0] + 32, &c); break;
	case 1: HMAC_SHA256_Buf(key, 64, in, 130, got[1]); PBKDF2_SHA256(key, 20, in, 70, 2, got[1] + 32, 70); break;
	case 2: rc[2] = (k = crypto_aes_key_expand(key, 32)) == NULL; if (k) { crypto_aes_encrypt_block(in, got[2], k); if ((a = crypto_aesctr_init(k, 77)) != NULL) { crypto_aesctr_stream(a, in, got[2] + 16, 100); crypto_aesctr_stream(a, in + 100, got[2] + 116, 200); crypto_aesctr_free(a); } crypto_aes_key_free(k); } break;
	case 3: rc[3] = (k = crypto_aes_key_expand(key, 16)) == NULL; if (k) { crypto_aes_encrypt_block(in, got[3], k); if ((a = crypto_aesctr_init(k, 5)) != NULL) { crypto_aesctr_stream(a, in, got[3] + 16, 47); crypto_aesctr_free(a); } crypto_aes_key_free(k); } break;
	case 4: rc[4] = crypto_scrypt(key, 9, in, 16, 4, 2, 1, got[4], 64); break;
	case 5: rc[5] = crypto_entropy_read(got[5], 40); rc[6] = scryptenc_buf(in, 200, got[6], (uint8_t *)"pw", 2, &EP, 0, 1); rc[7] = scryptdec_buf(got[6], 328, got[7], &gotn, (uint8_t *)"pw", 2, &DP, 0, 1); break;
	}
}
static uint8_t *bytes; static FILE *out; static int host;
static void gethost(void) {
	unsigned a, b, c, d;
	if (__get_cpuid(1, &a, &b, &c, &d)) host |= (d & D_SSE2 ? 1 : 0) | (c & C_SSSE3 ? 2 : 0) | (c & C_AES ? 8 : 0) | (c & C_RDRAND ? 16 : 0);
	if (__get_cpuid_count(7, 0, &a, &b, &c, &d) && b & B_SHA) host |= 4;
}
static void one(uint32_t max, int feat, uint64_t rs) {
	int st; pid_t pid; uint32_t n = rs; size_t i; char d[200];
	P.max = max; P.noise = n; P.c1 = (uint32_t)vh_mix(rs) & ~(C_AES | C_RDRAND | C_SSSE3); P.d1 = (uint32_t)(vh_mix(rs) >> 32) & ~D_SSE2; P.b7 = (uint32_t)vh_mix(rs + 1) & ~B_SHA; P.c7 = (uint32_t)vh_mix(rs + 2); P.d7 = (uint32_t)vh_mix(rs + 3);
	if (!(n & 3)) P.c1 = ~(C_AES | C_RDRAND | C_SSSE3), P.d1 = ~D_SSE2, P.b7 = ~B_SHA; else if ((n & 3) == 1) P.c1 = P.d1 = P.b7 = P.c7 = P.d7 = 0;
	feat &= host; /* what this machine cannot execute cannot be promised */
	if (feat & 1) P.d1 |= D_SSE2;
	if (feat & 2) P.c1 |= C_SSSE3;
	if (feat & 4) P.b7 |= B_SHA;
	if (feat & 8) P.c1 |= C_AES;
	if (feat & 16) P.c1 |= C_RDRAND;
	snprintf(d, sizeof d, "processor with highest leaf %u, leaf 1 ecx %08x edx %08x, leaf 7 ebx %08x (%s%s%s%s%s)", max, P.c1, P.d1, P.b7, feat & 1 ? " SSE2" : "", feat & 2 ? " SSSE3" : "", feat & 4 ? " SHA" : "", feat & 8 ? " AES" : "", feat & 16 ? " RDRAND" : "");
	memset(seen, 0, span); *cnt = 0; cpuids[0] = cpuids[1] = 0; fflush(stdout); pid = fork(); if (pid < 0) vh_hard("fork");
	if (pid == 0) {
		struct sigaction sa; size_t q; alarm(250); memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
		uint64_t pg = (uint64_t)__executable_start & ~4095UL; if (mprotect((void *)pg, ((uint64_t)etext - pg + 4095) & ~4095UL, PROT_READ | PROT_WRITE | PROT_EXEC)) vh_hard("mprotect");
		ncall = calloc(1, span + 1); step(); ops(n % 6); unstep();
		for (q = 0; q < 8; q++) if (rc[q]) vh_viol("failed", "%s: operation %d fails: %d", d, (int)q, rc[q]);
		for (q = 0; q < 5; q++) if (memcmp(got[q], want[q], 800)) vh_viol("wrong_result", "%s: operation %d gives a wrong result", d, (int)q);
		{ uint8_t t[400]; size_t k = 0; struct scryptenc_params dp = { 0, 0.5, 100, 0, 0, 0 }; const char *why = o_conforms(got[6], 328, (uint8_t *)"pw", 2, 1, 1, 1, in, 200); if (why) vh_viol("wrong_result", "%s: encrypted data: %s", d, why); if (gotn != 200 || memcmp(got[7], in, 200)) vh_viol("wrong_result", "%s: decrypted data", d); (void)t; (void)k; (void)dp; }
		fflush(stdout); _exit(vh_nviol ? 9 : 0);
	}
	waitpid(pid, &st, 0);
	if (WIFSIGNALED(st)) vh_viol("died", "%s: signal %d", d, WTERMSIG(st)); else if (WEXITSTATUS(st) == 9) vh_nviol++; else if (WEXITSTATUS(st)) vh_viol("died", "%s: exit status %d", d, WEXITSTATUS(st));
	vh_evn("instructions_executed_on_simulated_processors", *cnt); vh_evn("cpuid_instructions", cpuids[0]); vh_evn("calls_run_at_full_speed", cnt[3]); vh_evn("cpuid_beyond_the_highest_leaf", cpuids[1]); vh_ev("processors_simulated"); vh_case(max, feat, P.c1, P.b7);
	fprintf(out, "%u %u %u %u %u %u", max >= 1 ? P.c1 : 0, max >= 1 ? P.d1 : 0, max >= 7 ? P.b7 : 0, max >= 7 ? P.c7 : 0, max, feat);
	for (i = 0; i < span; i++) if (seen[i]) fprintf(out, " %zx", i);
	fprintf(out, "\n");
}
int main(int argc, char **argv) {
	int i, n = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]); static const uint32_t low[] = { 0, 1, 2, 4, 5, 6, 1, 3 };
	(void)argc; vh_seed(2800 + atoi(argv[2])); gethost(); setvbuf(stdout, NULL, _IOLBF, 0); out = fopen(argv[1], "w"); if (!out) vh_hard("out");
	span = etext - __executable_start; seen = mmap(NULL, span, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bytes = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); cnt = (uint64_t *)bytes; cpuids = (uint64_t *)bytes + 1;
	vh_bytes(key, 64); vh_bytes(in, 700);
	o_sha256(in, 300, want[0]); o_sha256(in, 207, want[0] + 32); o_hmac(key, 64, in, 130, want[1]); o_pbkdf2(key, 20, in, 70, 2, want[1] + 32, 70);
	{ uint8_t z[16] = { 0 }, b[32]; int s; for (s = 0; s < 2; s++) { /* one block: E(x) from the key stream of nonce = first half, counter = second half */
		uint64_t nonce = 0, ctr = 0; for (i = 0; i < 8; i++) nonce = nonce << 8 | in[i], ctr = ctr << 8 | in[8 + i]; (void)b;
		{ EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); int l; EVP_EncryptInit_ex(e, s ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), NULL, key, NULL); EVP_CIPHER_CTX_set_padding(e, 0); EVP_EncryptUpdate(e, want[2 + s], &l, in, 16); EVP_CIPHER_CTX_free(e); } (void)z; (void)nonce; (void)ctr; } }
	o_aesctr(key, 32, 77, 0, in, want[2] + 16, 300); o_aesctr(key, 16, 5, 0, in, want[3] + 16, 47); o_scrypt(key, 9, in, 16, 4, 2, 1, want[4], 64);
	for (i = part; i < n; i += parts) {
		uint64_t rs = vh_mix(vh_s[0] + i);
		if (i < 32) one(7 + rs % 20, i, rs); else if (i < 40) one(low[i - 32], 31, rs); else one(rs >> 20 & 1 ? 7 + rs % 20 : rs % 7, rs >> 32 & 31, rs);
	}
	vh_sample("%d simulated processors", n / parts); fclose(out); return vh_done();
}
