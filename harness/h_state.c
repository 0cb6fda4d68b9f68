/* C29: calls leave the calling process as they found it. The state of the process (descriptors, signals, limits, floating point control,
 * locale, environment, identity, timers, threads, stdio, random()) is recorded before and after each call.
 * args: seed cases fault(0/1) */
#define _GNU_SOURCE
#include "vh_io.h"
#include "vh_alloc.h"
#include <dirent.h>
#include <fcntl.h>
#include <fenv.h>
#include <grp.h>
#include <locale.h>
#include <sched.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include "asprintf.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "crypto_verify_bytes.h"
#include "humansize.h"
#include "insecure_memzero.h"
#include "memlimit.h"
#include "monoclock.h"
#include "passphrase_entry.h"
#include "scryptenc.h"
#include "scryptenc_cpuperf.h"
#include "sha256.h"
#include "warnp.h"
extern char **environ;
/* the random device: cannot be opened, fails or ends early when read, or reports an error when closed */
static int seeded_, eopen_, eread_, eclose_, efd_ = -1, ehits_;
int __real_open(const char *, int, int); int __real_open64(const char *, int, int); ssize_t __real_read(int, void *, size_t); int __real_close(int);
static int israndom(const char *p) { return !strncmp(p, "/dev/", 5) && strstr(p, "random") != NULL; }
int __wrap_open(const char *p, int fl, int mode) { int f; if (eopen_ && israndom(p)) { ehits_++; errno = eopen_; return -1; } f = __real_open(p, fl, mode); if (f >= 0 && (eread_ || eclose_) && israndom(p)) efd_ = f; return f; }
int __wrap_open64(const char *p, int fl, int mode) { int f; if (eopen_ && israndom(p)) { ehits_++; errno = eopen_; return -1; } f = __real_open64(p, fl, mode); if (f >= 0 && (eread_ || eclose_) && israndom(p)) efd_ = f; return f; }
ssize_t __wrap_read(int f, void *b, size_t n) { if (f >= 0 && f == efd_ && eread_) { ehits_++; if (eread_ < 0) return 0; errno = eread_; return -1; } return __real_read(f, b, n); }
int __wrap_close(int f) { int r = __real_close(f); if (f >= 0 && f == efd_) { efd_ = -1; if (eclose_) { ehits_++; errno = eclose_; return -1; } } return r; }
static char SA[65536], SB[65536]; static size_t sn; static char *sp;
static FILE *skip[4]; /* streams taking part in the call: their position moves */
static char rstate[128];
static void add(const char *k, const char *fmt, ...) { va_list a; int n; n = snprintf(sp + sn, 65536 - sn, "%s=", k); sn += n; va_start(a, fmt); n = vsnprintf(sp + sn, 65536 - sn - 1, fmt, a); va_end(a); sn += n; sp[sn++] = '\n'; sp[sn] = 0; if (sn > 60000) vh_hard("snapshot"); }
static uint64_t hash(const void *p, size_t n, uint64_t h) { const uint8_t *b = p; while (n--) h = (h ^ *b++) * 0x100000001b3ULL; return h; }
static char rb[16384];
static void readall(const char *p) { int f = open(p, O_RDONLY | O_CLOEXEC); ssize_t n; size_t o = 0; rb[0] = 0; if (f < 0) return; while (o < sizeof rb - 1 && (n = read(f, rb + o, sizeof rb - 1 - o)) > 0) o += n; rb[o] = 0; close(f); }
static void fpstate(unsigned *cw, unsigned *tw, unsigned *mx) {
#if defined(__x86_64__) || defined(__i386__)
	struct { uint16_t w[14]; } e; uint32_t m; __asm__ volatile("fnstenv %0\n\tfldenv %0" : "=m"(e)); __asm__ volatile("stmxcsr %0" : "=m"(m)); *cw = e.w[0]; *tw = e.w[4]; *mx = m & 0xffc0;
#else
	*cw = *tw = *mx = 0;
#endif
}
static struct { unsigned cw, tw, mx; int dir; } fpat; /* taken right at the call */
static void fpnow(void) { unsigned long f = 0; fpstate(&fpat.cw, &fpat.tw, &fpat.mx);
#if defined(__x86_64__)
	__asm__ volatile("pushfq; popq %0" : "=r"(f));
#endif
	fpat.dir = f >> 10 & 1; }
static void snap(char *o) {
	int i, j; char k[40], b[600]; struct rlimit rl; struct sigaction sa; sigset_t ss; stack_t st; struct itimerval it; uid_t u[3]; gid_t g[3], gr[200]; cpu_set_t cs; uint64_t h; char *l, *nl;
	sp = o; sn = 0;
	add("floating-point-control", "x87 %x, in use %x, mxcsr %x, rounding %d", fpat.cw, fpat.tw, fpat.mx, fegetround()); add("direction-flag", "%d", fpat.dir);
	for (i = 0; i < 400; i++) { int fl = fcntl(i, F_GETFD); ssize_t n; long off = -1; struct stat s; if (fl < 0) continue; snprintf(k, sizeof k, "/proc/self/fd/%d", i); n = readlink(k, b, sizeof b - 1); b[n < 0 ? 0 : n] = 0;
		for (j = 0; j < 4; j++) if (skip[j] && fileno(skip[j]) == i) break;
		if (j == 4 && i > 2 && fstat(i, &s) == 0 && S_ISREG(s.st_mode)) off = (long)lseek(i, 0, SEEK_CUR);
		add("descriptors", "%d:%s flags %x status %x offset %ld", i, b, fl, fcntl(i, F_GETFL), off); }
	for (i = 1; i < 65; i++) if (sigaction(i, NULL, &sa) == 0) add("signal-dispositions", "%d: %p %x %llx", i, (void *)sa.sa_handler, sa.sa_flags & ~0x04000000, (unsigned long long)hash(&sa.sa_mask, 8, 0));
	sigprocmask(SIG_BLOCK, NULL, &ss); add("signal-mask", "%llx", (unsigned long long)hash(&ss, 8, 0)); sigpending(&ss); add("pending-signals", "%llx", (unsigned long long)hash(&ss, 8, 0));
	if (sigaltstack(NULL, &st) == 0) add("signal-stack", "%p %x", st.ss_sp, st.ss_flags);
	for (i = 0; i < 16; i++) if (getrlimit(i, &rl) == 0) add("resource-limits", "%d: %llx %llx", i, (unsigned long long)rl.rlim_cur, (unsigned long long)rl.rlim_max);
	{ mode_t m = umask(0); umask(m); add("umask", "%o", m); }
	add("working-directory", "%s", getcwd(b, sizeof b) ? b : "?");
	getresuid(u, u + 1, u + 2); getresgid(g, g + 1, g + 2); j = getgroups(200, gr); add("identity", "%d %d %d %d %d %d groups %llx", u[0], u[1], u[2], g[0], g[1], g[2], (unsigned long long)hash(gr, j > 0 ? j * sizeof *gr : 0, 0));
	add("process-group", "%d %d %d", getpgrp(), getsid(0), getpid()); errno = 0; add("priority", "%d %d", getpriority(PRIO_PROCESS, 0), sched_getscheduler(0)); CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); add("affinity", "%llx", (unsigned long long)hash(&cs, sizeof cs, 0));
	{ char nm[20] = ""; prctl(PR_GET_NAME, nm); i = 0; prctl(PR_GET_PDEATHSIG, &i); add("process-attributes", "dumpable %d name %s deathsig %d keepcaps %d nonewprivs %d slack %d personality %x", prctl(PR_GET_DUMPABLE), nm, i, prctl(PR_GET_KEEPCAPS), prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0), prctl(PR_GET_TIMERSLACK), personality(0xffffffff)); }
	h = hash(&environ, sizeof environ, 0); for (i = 0; environ && environ[i]; i++) h = hash(environ[i], strlen(environ[i]) + 1, h); add("environment", "%llx %d", (unsigned long long)h, i);
	add("locale", "%s %s", setlocale(LC_ALL, NULL), localeconv()->decimal_point);
	for (i = 0; i < 3; i++) { getitimer(i, &it); add("timers", "%d: %d %ld", i, it.it_value.tv_sec || it.it_value.tv_usec, (long)it.it_interval.tv_sec); }
	readall("/proc/self/timers"); add("timers", "%zu", strlen(rb));
	readall("/proc/self/status"); for (l = rb; *l; l = nl) { nl = strchr(l, '\n'); if (!nl) break; *nl++ = 0; if (!strncmp(l, "Threads", 7)) add("threads", "%s", l); else if (!strncmp(l, "VmLck", 5)) add("locked-memory", "%s", l); else if (!strncmp(l, "Cap", 3) || !strncmp(l, "Seccomp:", 8)) add("privileges", "%s", l); }
	errno = 0; i = (int)waitpid(-1, &j, WNOHANG); add("children", "%d %d", i, errno);
	add("random", "%llx", (unsigned long long)hash(rstate, sizeof rstate, 0));
	{ FILE *f[3] = { stdin, stdout, stderr }; for (i = 0; i < 3; i++) add("standard-streams", "%d: %d line-buffered %d", i, fileno(f[i]), __flbf(f[i]) != 0); }
	for (i = 0; i < 4; i++) if (skip[i]) add("streams", "%d: %d size %zu line-buffered %d", i, fileno(skip[i]), __fbufsize(skip[i]), __flbf(skip[i]) != 0);
}
static FILE *lockf_; static void *trylock(void *x) { (void)x; if (ftrylockfile(lockf_)) return (void *)1; funlockfile(lockf_); return NULL; }
static int locked(FILE *f) { pthread_t t; void *r; lockf_ = f; if (pthread_create(&t, NULL, trylock, NULL)) vh_hard("thread"); pthread_join(t, &r); return r != NULL; }
static int wx(void) { char *l, *n; readall("/proc/self/maps"); for (l = rb; *l; l = n) { n = strchr(l, '\n'); if (!n) break; *n++ = 0; if (strstr(l, " rwx")) return 1; } return 0; }
static const char *ON[] = { "crypto_scrypt", "scryptenc_buf", "scryptdec_buf", "scryptenc_file", "scryptdec_file", "scryptdec_file_prep/copy/free", "scryptdec_file_printparams", "crypto_entropy_read", "SHA-256, HMAC and PBKDF2", "AES and AES-CTR", "memtouse", "scryptenc_cpuperf", "passphrase_entry_readpass (file)", "passphrase_entry_readpass (environment)", "passphrase_entry_readpass (standard input)", "humansize and asprintf", "clocks", "passphrase_entry_parse" };
static char dir[200], pf[300]; static int sawwx, canquiet = 1;
/* limits and flags of the process's own, renewed before every call */
static void limits(void) { static const int L[] = { RLIMIT_CORE, RLIMIT_CORE, RLIMIT_STACK, RLIMIT_MEMLOCK, RLIMIT_NPROC, RLIMIT_MSGQUEUE }; struct rlimit r; int k = L[vh_rnd(6)];
	if (getrlimit(k, &r)) return; if (k == RLIMIT_CORE) { if (r.rlim_max < 8192) return; r.rlim_cur = 4096 * vh_rnd(3); } else { if (r.rlim_max == RLIM_INFINITY || r.rlim_max > (rlim_t)1 << 30) r.rlim_cur = r.rlim_max - 4096 * vh_rnd(3); }
	setrlimit(k, &r); prctl(PR_SET_DUMPABLE, 1); if (!vh_rnd(3)) errno = vh_rnd(100); }
static FILE *badout(void) { FILE *f = fopen("/dev/full", "w"); if (!f) f = tmpfile(); if (!f) vh_hard("out"); return f; }
static FILE *fl(const void *p, size_t n) { FILE *f = tmpfile(); if (!f || fwrite(p, 1, n, f) != n || fflush(f)) vh_hard("tmpfile"); rewind(f); return f; }
static void one(int fault) {
	static uint8_t pw[80], salt[32], d[70000], f[71000], o[71000]; int op = vh_rnd(18), cause = vh_rnd(2) ? 0 : 1 + vh_rnd(7), l, rc = 0, sin_ = -1, so, se, ssi = -1, verbose = vh_rnd(4) == 0, i, quiet, errs; uint32_t r, p; size_t n, pn = 1 + vh_rnd(70), on, fn; struct scryptenc_params P = {0, 0.5, 300, 0, 0, 0}; FILE *I = NULL, *O = NULL, *co, *ce; struct scryptdec_file_cookie *C = NULL; char det[200], *s = NULL, *a, *b, *na, *nb; struct stat st1, st2; double dv; int ioerr = 0; size_t sz; struct timeval tv;
	l = 1 + vh_rnd(6); r = 1 + vh_rnd(4); p = 1 + vh_rnd(2); n = vh_rnd(4) ? vh_rnd(500) : vh_rnd(70000); vh_bytes(pw, 80); vh_bytes(salt, 32); vh_fill(d, n); fn = n + 128;
	if (op == 2 || (op >= 4 && op <= 6)) { o_encode(pw, pn, salt, l, r, p, d, n, f, NULL);
		switch (cause) { case 1: pw[0] ^= 1; break; case 2: f[vh_rnd(6)] ^= 4; break; case 3: f[6] = 9; break; case 4: f[50] ^= 2; break; case 5: f[96 + vh_rnd(n + 32)] ^= 1; break; case 6: fn = vh_rnd(fn); break; case 7: P.maxtime = 0; break; } }
	else if (op == 1 || op == 3) { P.logN = l; P.r = r; P.p = p; if (cause == 2) P.p = 1 << 30; if (cause == 3) { P.logN = P.r = P.p = 0; P.maxtime = 0.01; P.maxmem = 1 << 20; } }
	co = tmpfile(); ce = tmpfile(); if (!co || !ce) vh_hard("tmpfile");
	memset(skip, 0, sizeof skip);
	eopen_ = eread_ = eclose_ = ehits_ = 0; efd_ = -1;
	if ((op == 1 || op == 3 || op == 7) && (op == 7 || seeded_ == 0 || vh_rnd(3) == 0) && (seeded_ || vh_rnd(12))) switch (vh_rnd(4)) { case 0: eopen_ = vh_rnd(2) ? EMFILE : ENOENT; break; case 1: eread_ = EIO; break; case 2: eread_ = -1; break; case 3: eclose_ = EIO; break; }
	if (op == 3) { I = fl(d, n); O = tmpfile(); } else if (op >= 4 && op <= 6) { I = fl(f, fn); O = tmpfile(); }
	if ((op >= 3 && op <= 5) && vh_rnd(4) == 0) { fclose(O); O = badout(); ioerr = 1; }
	if ((op >= 3 && op <= 6) && vh_rnd(8) == 0) { fclose(I); I = fopen(dir, "r"); if (!I) vh_hard("dir"); ioerr = 1; }
	if (I && vh_rnd(3) == 0) setvbuf(I, NULL, vh_rnd(2) ? _IONBF : _IOFBF, vh_rnd(2) ? 17 : 100000);
	if (O && vh_rnd(3) == 0) { i = vh_rnd(3); setvbuf(O, NULL, i == 0 ? _IONBF : i == 1 ? _IOLBF : _IOFBF, 1000 + vh_rnd(9000)); }
	if (op == 12) { FILE *q = fopen(pf, "w"); if (!q) vh_hard("pf"); fprintf(q, "pass%d%s", (int)vh_rnd(1000), vh_rnd(2) ? "\n" : ""); if (cause == 1) fprintf(q, "\nx\n"); fclose(q); if (cause == 2) unlink(pf); }
	if (op == 13) { if (cause == 1) unsetenv("VSPASS"); else setenv("VSPASS", "some passphrase", 1); }
	if (op == 14) { FILE *q = tmpfile(); fprintf(q, cause == 1 ? "" : "passphrase\nmore\n"); fflush(q); ssi = dup(0); dup2(fileno(q), 0); fclose(q); lseek(0, 0, SEEK_SET); rewind(stdin); clearerr(stdin); }
	fflush(stdout); fflush(stderr); so = dup(1); se = dup(2); dup2(fileno(co), 1); dup2(fileno(ce), 2); skip[0] = I; skip[1] = O; skip[2] = co; skip[3] = ce;
	if (I) { __fbufsize(I); i = getc(I); ungetc(i, I); if (i == EOF) { clearerr(I); rewind(I); } } if (O) { fputc('x', O); if (fflush(O)) { __fpurge(O); clearerr(O); } }
	if (fault) { va_failat = 1 + vh_rnd(vh_rnd(2) ? 6 : 20); }
	snprintf(det, sizeof det, "%s", ON[op]);
	limits();
	fpnow(); snap(SA); sawwx = wx();
	if (fault) va_begin();
	switch (op) {
	case 0: rc = crypto_scrypt(pw, pn, salt, 32, cause == 1 ? 3 : (uint64_t)1 << l, cause == 2 ? 0 : r, cause == 3 ? 1 << 30 : p, o, 1 + n % 300); break;
	case 1: rc = scryptenc_buf(d, n, o, pw, pn, &P, verbose, 1); break;
	case 2: rc = scryptdec_buf(f, fn, o, &on, pw, pn, &P, verbose, cause != 7); break;
	case 3: rc = scryptenc_file(I, O, pw, pn, &P, verbose, 1); break;
	case 4: rc = scryptdec_file(I, O, pw, pn, &P, verbose, cause != 7); break;
	case 5: rc = scryptdec_file_prep(I, pw, pn, &P, verbose, cause != 7, &C); if (rc == 0) { if (vh_rnd(4)) rc = scryptdec_file_copy(C, O); scryptdec_file_cookie_free(C); } break;
	case 6: rc = scryptdec_file_printparams(I); break;
	case 7: for (i = eopen_ || eread_ || eclose_ ? 300 : 1; i && (rc = crypto_entropy_read(o, 1 + (i == 1) * (n % 3000))) == 0; i--) ; break; /* the generator is seeded anew now and then */
	case 8: { HMAC_SHA256_CTX h; SHA256_CTX c; SHA256_Buf(d, n, o); SHA256_Init(&c); SHA256_Update(&c, d, n / 3); SHA256_Final(o, &c); HMAC_SHA256_Init(&h, pw, pn); HMAC_SHA256_Update(&h, d, n); HMAC_SHA256_Final(o, &h); PBKDF2_SHA256(pw, pn, salt, 32, 1 + cause, o, 1 + n % 1000); rc = crypto_verify_bytes(o, d, 32) * 0; break; }
	case 9: { struct crypto_aes_key *k = crypto_aes_key_expand(pw, cause & 1 ? 16 : 32); if (k) { crypto_aes_encrypt_block(d, o, k); crypto_aesctr_buf(k, n, d, o, n); crypto_aes_key_free(k); } else rc = -1; break; }
	case 10: rc = memtouse(cause * 1000000, 0.5, &sz); break;
	case 11: rc = cause ? 0 : scryptenc_cpuperf(&dv); break;
	case 12: rc = passphrase_entry_readpass(&s, PASSPHRASE_FILE, pf, "p", NULL, 1); break;
	case 13: rc = passphrase_entry_readpass(&s, PASSPHRASE_ENV, "VSPASS", "p", NULL, 1); break;
	case 14: rc = passphrase_entry_readpass(&s, vh_rnd(2) ? PASSPHRASE_STDIN_ONCE : PASSPHRASE_TTY_STDIN, NULL, "p", vh_rnd(2) ? "q" : NULL, 1); break;
	case 15: { uint64_t q; s = humansize(vh_next() >> vh_rnd(64)); if (s && asprintf(&a, "%s%d", s, op) >= 0) { humansize_parse(a, &q); free(a); } break; }
	case 16: rc = monoclock_get(&tv); if (!rc) rc = monoclock_get_cputime(&tv); if (!rc) rc = monoclock_getres(&dv); break;
	default: { enum passphrase_entry e; const char *q; rc = passphrase_entry_parse(cause ? "env:X" : "bogus:", &e, &q); break; }
	}
	fpnow(); if (fault) va_stop(); { int h = ehits_; eopen_ = eread_ = eclose_ = 0; efd_ = -1; if (h) vh_ev("random_device_failures"); if (ioerr) vh_ev("failing_streams"); if (!h && rc == 0 && (op == 1 || op == 3 || op == 7)) seeded_ = 1; } i = wx(); snap(SB); if (s) free(s);
	fflush(stdout); fflush(stderr); if (fstat(1, &st1) || fstat(2, &st2)) vh_hard("fstat");
	errs = locked(stdout) + locked(stderr) + locked(stdin) + (I ? locked(I) : 0) + (O ? locked(O) : 0);
	dup2(so, 1); dup2(se, 2); close(so); close(se); if (op == 14) { dup2(ssi, 0); close(ssi); clearerr(stdin); } (void)sin_;
	snprintf(det, sizeof det, "%s returning %d%s", ON[op], rc, fault && va_failed ? " after an allocation failed" : "");
	for (a = SA, b = SB; *a || *b; a = na, b = nb) { char key[60]; size_t kl; na = strchr(a, '\n'); nb = strchr(b, '\n'); if (!na || !nb || na - a != nb - b || memcmp(a, b, na - a)) { kl = strcspn(*a ? a : b, "="); snprintf(key, sizeof key, "%.*s", (int)kl, *a ? a : b); vh_viol(key, "%s: %.*s became %.*s", det, na ? (int)(na - a) : 0, a, nb ? (int)(nb - b) : 0, b); break; } na++; nb++; vh_ev("items_compared"); }
	if (i && !sawwx) vh_viol("executable-memory", "%s leaves memory that can be written and executed", det);
	if (errs) vh_viol("locked-stream", "%s leaves a stream locked", det);
	if (st1.st_size) vh_viol("standard-output", "%s writes %ld bytes to standard output", det, (long)st1.st_size);
	quiet = !verbose && op != 6 && !ehits_ && !ioerr && !(fault && va_failed) && op != 15 && ((op < 12 && !(op == 0 && rc) && rc <= 15) || rc == 0);
	if (quiet && canquiet && (op == 2 || op == 4 || op == 5 || rc == 0)) { vh_ev("silent_calls"); if (st2.st_size) { char m[200]; ssize_t k = pread(fileno(ce), m, 199, 0); m[k < 0 ? 0 : k] = 0; for (k = 0; m[k]; k++) if (m[k] == '\n') m[k] = ' '; vh_viol("standard-error", "%s, not verbose, prints: %s", det, m); } }
	vh_ev("calls_observed"); if (rc == 0) vh_ev("successful_calls"); else vh_ev("failed_calls"); if (fault && va_failed) vh_ev("allocation_failures"); vh_case(op, rc, cause, fault);
	if (I) { fclose(I); } if (O) { fclose(O); } fclose(co); fclose(ce); unlink(pf); memset(skip, 0, sizeof skip);
}
static void h1(int s) { (void)s; }
int main(int argc, char **argv) {
	int i, n = atoi(argv[2]), fault = atoi(argv[3]); uint64_t s = strtoull(argv[1], 0, 10); struct sigaction sa; sigset_t m; struct rlimit rl; stack_t st; static char stk[65536]; static const int rnd[] = { FE_TONEAREST, FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
	(void)argc; vh_seed(2900 + s); snprintf(dir, sizeof dir, "%s", argv[4]); snprintf(pf, sizeof pf, "%s/pf%s-%d", dir, argv[1], fault); if (chdir(dir)) vh_hard("chdir"); setvbuf(stdout, NULL, _IOLBF, 0);
	/* a process with a state of its own */
	memset(&sa, 0, sizeof sa);
	for (i = 1; i < 65; i++) { if (i == SIGKILL || i == SIGSTOP || i == SIGCHLD || i == SIGSEGV || i == SIGBUS || i == SIGFPE || i == SIGILL || i == SIGTRAP || i == SIGALRM || i == SIGABRT || (i > 31 && i < 36)) continue; switch (vh_rnd(4)) { case 0: sa.sa_handler = SIG_IGN; break; case 1: sa.sa_handler = h1; sa.sa_flags = vh_rnd(2) ? SA_RESTART : 0; sigfillset(&sa.sa_mask); break; default: continue; } sigaction(i, &sa, NULL); }
	sigemptyset(&m); for (i = 1; i < 32; i++) if (!vh_rnd(4) && i != SIGALRM) sigaddset(&m, i); sigprocmask(SIG_SETMASK, &m, NULL);
	if (vh_rnd(2)) { st.ss_sp = stk; st.ss_size = sizeof stk; st.ss_flags = 0; sigaltstack(&st, NULL); }
	umask(vh_rnd(512) & 077); if (vh_rnd(2)) { getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl); } if (vh_rnd(2)) { getrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_cur > 300) rl.rlim_cur = 300; setrlimit(RLIMIT_NOFILE, &rl); }
	if (vh_rnd(2)) setlocale(LC_ALL, "C.UTF-8"); initstate(vh_rnd(1000), rstate, sizeof rstate); for (i = vh_rnd(5); i; i--) open("/dev/null", O_RDONLY);
	vh_bytes(stk, 10); { uint8_t a[200], b[32]; memset(a, 1, sizeof a); o_encode(a, 3, a, 4, 1, 1, a, 5, a + 10, NULL); o_sha256(a, 9, b); } { char nm[16]; snprintf(nm, sizeof nm, "vs%d", (int)vh_rnd(1000)); prctl(PR_SET_NAME, nm); }
	if (vh_rnd(2)) { alarm(3000); } if (vh_rnd(3) == 0) setpriority(PRIO_PROCESS, 0, 1 + vh_rnd(5));
	fesetround(rnd[vh_rnd(5)]); 
	for (i = 0; i < n; i++) { one(fault); if (vh_nviol > 20) break; if (!vh_rnd(50)) fesetround(rnd[vh_rnd(5)]); }
	vh_sample("%d calls, last snapshot of %zu bytes", n, sn); return vh_done();
}
