/* C32: a program using the scrypt-kdf library by its public header alone; compiled as C and as C++, linked with the shared or the static
 * library, or (-DDYN) loading it. Knows the expected results from a file. No other part of scrypt or of the harness is used.
 * args: cases mode [library] [seed]. Results on descriptor 3. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "scrypt-kdf.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
typedef int (*kdf)(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
struct kase { uint8_t *pw, *salt, *want; size_t pwl, sl, bl; uint64_t N; uint32_t r, p; int err; };
static struct kase *K; static int nk, own_errno; static int nviol;
static void say(const char *fmt, ...) { char b[1500]; va_list a; int n; va_start(a, fmt); n = vsnprintf(b, sizeof b - 1, fmt, a); va_end(a); if (n > (int)sizeof b - 2) n = sizeof b - 2; b[n] = '\n'; if (write(3, b, n + 1) < 0) _exit(9); if (b[0] == 'V') __sync_add_and_fetch(&nviol, 1); }
#ifdef __cplusplus
extern "C"
#endif
void trap_hit(const char *n) { say("V trap %s: the library calls the function of this name of the program", n); _exit(1); }
static uint8_t *hex(FILE *f, size_t *n) { char *b = (char *)malloc(70000); uint8_t *o; size_t i; if (fscanf(f, "%69999s", b) != 1) _exit(8); *n = strlen(b) / 2; o = (uint8_t *)malloc(*n + 1); for (i = 0; i < *n; i++) { unsigned x; sscanf(b + 1 + 2 * i, "%2x", &x); o[i] = x; } free(b); return o; }
static void load(const char *p) { FILE *f = fopen(p, "r"); int i; unsigned long long N; if (!f || fscanf(f, "%d", &nk) != 1) _exit(7); K = (struct kase *)calloc(nk, sizeof *K); for (i = 0; i < nk; i++) { size_t l; if (fscanf(f, "%llu %u %u %d %zu", &N, &K[i].r, &K[i].p, &K[i].err, &K[i].bl) != 5) _exit(8); K[i].N = N; K[i].pw = hex(f, &K[i].pwl); K[i].salt = hex(f, &K[i].sl); K[i].want = hex(f, &l); } fclose(f); }
static int one(kdf f, int i, const char *how) { struct kase *k = K + i; uint8_t *b = (uint8_t *)malloc(k->bl < 70000 ? k->bl + 1 : 1); int rc; b[k->bl < 70000 ? k->bl : 0] = 0x5a; errno = 0; rc = f(k->pw, k->pwl, k->salt, k->sl, k->N, k->r, k->p, b, k->bl);
	if (k->err ? rc != -1 || (errno != k->err && !own_errno) : rc != 0 || memcmp(b, k->want, k->bl)) say("V result %s: case %d (N %llu r %u p %u, %zu bytes): returns %d, errno %d%s", how, i, (unsigned long long)k->N, k->r, k->p, k->bl, rc, errno, k->err || rc ? "" : ", wrong key");
	if (b[k->bl < 70000 ? k->bl : 0] != 0x5a) say("V result %s: case %d writes behind the buffer", how, i);
	free(b); say("E derivations"); return rc; }
static int light(int i) { return K[i].N * K[i].r * K[i].p < 3000; }
static char lib[500];
static void *op(void **h, int flags) { void *s; *h = dlopen(lib, flags); if (!*h) { say("V load %s", dlerror()); _exit(1); } s = dlsym(*h, "crypto_scrypt"); if (!s) { say("V load crypto_scrypt is not exported"); _exit(1); } return s; }
static int mapped(const char *what) { FILE *f = fopen("/proc/self/maps", "r"); char l[700]; int n = 0; while (fgets(l, sizeof l, f)) if (strstr(l, what)) n++; fclose(f); return n; }
static int execstack(void) { FILE *f = fopen("/proc/self/maps", "r"); char l[700]; int n = 0; while (fgets(l, sizeof l, f)) if (strstr(l, " rwx") || strstr(l, "-wx")) n = 1; fclose(f); return n; }
static size_t anon(void) { FILE *f = fopen("/proc/self/maps", "r"); char l[700]; size_t n = 0; unsigned long a, b; while (fgets(l, sizeof l, f)) if (sscanf(l, "%lx-%lx", &a, &b) == 2) n += b - a; fclose(f); return n; }
static int nfd(void) { int i, n = 0; for (i = 0; i < 300; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
#ifdef DYN
static kdf LK; static void *LH; static kdf get(void) { void *s; if (!LK) { s = op(&LH, RTLD_NOW); memcpy(&LK, &s, sizeof s); } return LK; }
#define F get()
#else
#define F scrypt_kdf
#endif
static int tseed; static kdf tf; static size_t tstack;
static void *th(void *x) { int i = (int)(intptr_t)x, k; char how[60]; snprintf(how, sizeof how, "thread of a stack of %zu", tstack); for (k = 0; k < 3; k++) { int c = (i * 7 + k * 13 + tseed) % nk; one(tf, c, how); } return NULL; }
static void threads(size_t stack, int n) { pthread_t t[32]; pthread_attr_t a; int i; pthread_attr_init(&a); tstack = stack; if (stack && pthread_attr_setstacksize(&a, stack)) { say("E stack-refused"); return; } tf = F; for (i = 0; i < n; i++) if (pthread_create(t + i, &a, th, (void *)(intptr_t)i)) _exit(6); for (i = 0; i < n; i++) pthread_join(t[i], NULL); pthread_attr_destroy(&a); say("E threads"); }
static void *stay(void *x) { int *st = (int *)x; while (__sync_fetch_and_add(st, 0) == 0) usleep(100); one(tf, 0, "thread outliving the library"); __sync_fetch_and_add(st, 1); while (__sync_fetch_and_add(st, 0) < 3) usleep(100); return NULL; }
static void late(void) { int i; for (i = 0; i < nk; i++) if (light(i)) { one(F, i, "handler at exit"); break; } say("E at-exit"); }
static void finish(int rc) { say("D %d", nviol); exit(rc); }
int main(int argc, char **argv) {
	int i, seed = argc > 4 ? atoi(argv[4]) : 1; const char *mode = argv[2]; void *h; kdf f; (void)h; (void)f;
	load(argv[1]); if (argc > 3) snprintf(lib, sizeof lib, "%s", argv[3]); srandom(seed); tseed = seed;
	if (!strcmp(mode, "use")) { for (i = 0; i < nk; i++) one(F, (i + seed) % nk, "plain use"); }
	else if (!strcmp(mode, "exit")) { atexit(late); one(F, 0, "before exit"); }
	else if (!strcmp(mode, "exit-first")) { atexit(late); }
	else if (!strcmp(mode, "threads")) { static const size_t S[] = { 65536, 131072, 0, 1 << 20 }; for (i = 0; i < 4; i++) threads(S[(i + seed) % 4], 8); for (i = 0; i < 8; i++) threads(65536, 1); }
	else if (!strcmp(mode, "fork")) { one(F, 0, "before fork"); for (i = 0; i < 12; i++) { pid_t p = i & 1 ? fork() : fork(); int st; if (!p) { if (!(i & 2)) threads(0, 4); one(F, i % nk, "in a child process"); _exit(nviol != 0); } one(F, (i + 1) % nk, "beside a child process"); if (waitpid(p, &st, 0) != p || st) say("V child status %x", st); say("E children"); } }
	else if (!strcmp(mode, "quiet")) { /* nothing but mapping happens when the library is loaded and unloaded */
#ifdef DYN
		int e0 = execstack(), fl; if (write(-1, "VSLOAD", 6) < 0) {} h = dlopen(lib, RTLD_NOW); if (write(-1, "VSLOADED", 8) < 0) {} if (!h) { say("V load %s", dlerror()); _exit(1); } if (execstack() != e0) say("V executable-memory when loaded"); dlclose(h); if (write(-1, "VSGONE", 6) < 0) {} fl = mapped(strrchr(lib, '/')); if (fl) say("V unload the library is still there after being unloaded without use"); say("E loads");
#endif
	} else if (!strcmp(mode, "reload")) {
#ifdef DYN
		size_t a0 = 0, m0 = 0; int d0 = 0; static const int FL[] = { RTLD_NOW, RTLD_LAZY, RTLD_NOW | RTLD_GLOBAL, RTLD_NOW | RTLD_DEEPBIND };
		for (i = 0; i < 400; i++) { int c; void *s = op(&h, FL[(i + seed) % 4]); memcpy(&f, &s, sizeof s); c = (int)random() % nk; if (i % 40 && !light(c)) c = 0; one(f, c, "loaded with dlopen"); if (i % 7 == 0) { int st = 0; pthread_t t; tf = f; pthread_create(&t, NULL, stay, &st); __sync_fetch_and_add(&st, 1); while (__sync_fetch_and_add(&st, 0) < 2) usleep(100); if (dlclose(h)) say("V unload dlclose fails"); __sync_fetch_and_add(&st, 1); pthread_join(t, NULL); say("E threads"); } else if (dlclose(h)) say("V unload dlclose fails");
			if (mapped(strrchr(lib, '/'))) { say("V unload the library is still there after being unloaded"); break; } say("E loads");
			if (i == 60) { malloc_trim(0); a0 = anon(); m0 = mallinfo2().uordblks; d0 = nfd(); } }
		malloc_trim(0); if (m0 && mallinfo2().uordblks > m0 + 4096) say("V unload %zu bytes of the heap remain in use after 340 times", mallinfo2().uordblks - m0); if (a0 && anon() > a0 + (1 << 20)) say("V unload %zu bytes remain mapped after 340 times", anon() - a0); if (m0 && nfd() != d0) say("V unload descriptors left open");
		{ struct sigaction sa; for (i = 1; i < 32; i++) if (!sigaction(i, NULL, &sa) && sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN) say("V unload signal %d has a handler", i); }
#endif
	} else if (!strcmp(mode, "spaces")) { /* several copies in namespaces of their own, used in turn */
#ifdef DYN
		void *H[8]; kdf G[8]; own_errno = 1; int k, n = 0; for (i = 0; i < 8; i++) { void *s; H[i] = dlmopen(LM_ID_NEWLM, lib, RTLD_NOW); if (!H[i]) break; s = dlsym(H[i], "crypto_scrypt"); memcpy(&G[i], &s, sizeof s); n++; } for (k = 0; k < 6 * n; k++) one(G[(k * 5) % n], k % nk, "copy in a namespace of its own"); for (i = 0; i < n; i++) { one(G[i], 0, "last"); dlclose(H[i]); say("E namespaces"); }
#endif
	} else if (!strcmp(mode, "symbols")) { /* only crypto_scrypt is offered */
#ifdef DYN
		void *s = op(&h, RTLD_NOW); (void)s; for (i = 5; i < argc; i++) { void *q = dlsym(h, argv[i]); Dl_info d; if (q && dladdr(q, &d) && strstr(d.dli_fname, strrchr(lib, '/'))) say("V exported %s", argv[i]); say("E symbols"); }
#endif
	}
	finish(nviol != 0);
}
#ifndef DYN
__attribute__((constructor)) static void early(void) { uint8_t b[16], c[16]; int r; if (!getenv("VSEARLY")) return; r = scrypt_kdf((const uint8_t *)"p", 1, (const uint8_t *)"s", 1, 16, 8, 1, b, 16); (void)c; if (r) say("V result in a constructor: fails"); else { char x[40]; int i; for (i = 0; i < 16; i++) snprintf(x + 2 * i, 3, "%02x", b[i]); say(strcmp(x, getenv("VSEARLY")) ? "V result in a constructor: wrong key" : "E constructors"); } }
__attribute__((destructor)) static void veryend(void) { uint8_t b[16]; if (!getenv("VSEARLY")) return; if (scrypt_kdf((const uint8_t *)"p", 1, (const uint8_t *)"s", 1, 16, 8, 1, b, 16)) say("V result in a destructor: fails"); else say("E destructors"); }
#endif
#ifdef OWNNAMES
/* functions of the program's own with names which the static library takes care not to define */
#define T(n) void n(void) { trap_hit(#n); }
#ifdef __cplusplus
extern "C" {
#endif
T(SHA256_Init) T(SHA256_Update) T(SHA256_Final) T(SHA256_Buf) T(HMAC_SHA256_Init) T(HMAC_SHA256_Update) T(HMAC_SHA256_Final) T(HMAC_SHA256_Buf) T(warn) T(warnx) T(err) T(errx) T(verr) T(SHA256_Transform) T(salsa20_8) T(blockmix_salsa8) T(smix) T(integerify) T(blkcpy) T(blkxor) T(be32enc) T(be32dec) T(be64enc) T(be64dec) T(le32enc) T(le32dec) T(le64enc) T(le64dec) T(SHA256_Pad) T(readpass) T(monoclock_get) T(humansize) T(entropy_read) T(memtouse) T(getopt_) T(usage) T(die) T(init) T(cleanup) T(done) T(debug) T(hash)
#ifdef __cplusplus
}
#endif
#endif
