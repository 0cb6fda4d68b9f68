/* C31: what warn(), warnx() and scryptenc_print_error() print, for program names, messages and errors of every kind, to the
 * standard error or to syslog. wraps: syslog,closelog,openlog,vsyslog ; args: seed cases */
#include "vh.h"
#include <syslog.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include "scryptenc.h"
#include "scryptenc_print_error.h"
#include "warnp.h"
static char got[70000]; static size_t gotn; static int calls, prio, closed;
void __wrap_vsyslog(int p, const char *f, va_list a) { gotn = vsnprintf(got, sizeof got, f, a); if (gotn >= sizeof got) vh_hard("syslog"); calls++; prio = p; }
void __wrap_syslog(int p, const char *f, ...) { va_list a; va_start(a, f); __wrap_vsyslog(p, f, a); va_end(a); }
void __wrap___vsyslog_chk(int p, int x, const char *f, va_list a) { (void)x; __wrap_vsyslog(p, f, a); }
void __wrap___syslog_chk(int p, int x, const char *f, ...) { va_list a; (void)x; va_start(a, f); __wrap_vsyslog(p, f, a); va_end(a); }
void __wrap_closelog(void) { closed++; }
static FILE *cap; static int se;
static void start(void) { fflush(stderr); if (ftruncate(fileno(cap), 0)) vh_hard("ftruncate"); lseek(fileno(cap), 0, SEEK_SET); se = dup(2); dup2(fileno(cap), 2); }
static void end(void) { ssize_t n; fflush(stderr); dup2(se, 2); close(se); n = pread(fileno(cap), got, sizeof got - 1, 0); gotn = n < 0 ? 0 : n; got[gotn] = 0; }
static void text(char *s, size_t n, const char *no) { size_t i; for (i = 0; i < n; i++) { do s[i] = vh_rnd(6) == 0 ? "%%%ns/:\\ \t"[vh_rnd(9)] : (char)(1 + vh_rnd(255)); while (strchr(no, s[i])); } s[n] = 0; }
static char pname[5000], base[5000]; static int named;
static void setname(void) {
	size_t n = vh_rnd(4) ? vh_rnd(30) : vh_rnd(4900); char *c, tmp[5000]; text(pname, n, "\n"); if (vh_rnd(2)) for (c = pname; *c; c++) if (*c == '/') *c = '_'; if (vh_rnd(3) == 0) { size_t k = strlen(pname); pname[vh_rnd(k + 1)] = k ? '/' : 0; }
	if (vh_rnd(6) == 0) strcpy(pname, vh_rnd(2) ? "" : "/"); pname[4999] = 0; c = strrchr(pname, '/'); strcpy(base, c ? c + 1 : pname);
	strcpy(tmp, pname); warnp_setprogname(tmp); memset(tmp, 'Z', sizeof tmp); named = 1;
}
static void cmp(const char *what, const char *want, int e0, int e1) {
	size_t n = strlen(want); vh_ev("messages");
	if (gotn != n || memcmp(got, want, n)) { size_t i = 0; while (i < n && i < gotn && got[i] == want[i]) i++; vh_viol("message", "%s: %zu bytes instead of %zu, different from byte %zu on: %.60s | instead of %.60s", what, gotn, n, i, got + (i > 20 ? i - 20 : 0), want + (i > 20 ? i - 20 : 0)); }
	if (e0 != e1) vh_viol("errno", "%s: errno %d became %d", what, e0, e1);
}
/* the program's standard output, while the message is printed: unusable, with something still to write */
static FILE *sto; static size_t stp; static int odd;
static void out_odd(void) { char t[200]; if (!odd) return; sto = stdout; stdout = fopen(vh_rnd(2) ? "/dev/full" : "/dev/null", vh_rnd(3) ? "w" : "r"); if (!stdout) { stdout = sto; odd = 0; return; } memset(t, 'a', 200); fwrite(t, 1, 1 + vh_rnd(200), stdout); stp = __fpending(stdout); }
static void out_back(const char *what) { FILE *f = stdout; size_t p; if (!odd) return; p = __fpending(f); stdout = sto; __fpurge(f); fclose(f); if (p != stp) vh_viol("standard-output", "%s: %zu bytes waiting to be written to standard output became %zu", what, stp, p); vh_ev("unusable_standard_output"); odd = 0; }
static char msg[20100], want[26000];
static pthread_barrier_t bar;
static void *talk(void *x) { int i; char m[100]; pthread_barrier_wait(&bar); for (i = 0; i < 200; i++) { snprintf(m, sizeof m, "thread %ld message %d", (long)x, i); if (i & 1) warnx("%s", m); else { errno = ENOENT; warn("%s", m); if (errno != ENOENT) vh_viol("errno", "changed by warn"); } } return NULL; }
int main(int argc, char **argv) {
	int i, n = atoi(argv[2]); (void)argc; vh_seed(3100 + atoi(argv[1])); cap = tmpfile(); if (!cap) vh_hard("tmpfile"); setvbuf(stdout, NULL, _IOLBF, 0); if (vh_rnd(2)) setvbuf(stderr, NULL, _IOFBF, 4096);
	for (i = 0; i < n && vh_nviol < 20; i++) {
		int e = vh_rnd(140), e1, how = vh_rnd(10); size_t l = vh_rnd(5) ? vh_rnd(100) : vh_rnd(3) ? vh_rnd(5000) : vh_rnd(20000); char what[100]; const char *nm;
		if (!vh_rnd(3)) setname();
		nm = named ? base : "(unknown)"; text(msg, l, "\n"); snprintf(what, sizeof what, "case %d, message of %zu bytes, errno %d, name of %zu bytes", i, l, e, strlen(nm));
		if (how < 6) {
			start(); odd = vh_rnd(3) == 0; out_odd(); errno = e;
			switch (how) { case 0: warn("%s", msg); snprintf(want, sizeof want, "%s: %s: %s\n", nm, msg, strerror(e)); break;
			case 1: warnx("%s", msg); snprintf(want, sizeof want, "%s: %s\n", nm, msg); break;
			case 2: warn(NULL); snprintf(want, sizeof want, "%s: %s\n", nm, strerror(e)); break;
			case 3: warnx(NULL); snprintf(want, sizeof want, "%s\n", nm); break;
			case 4: warn("%d%% of %s (%c) %05.1f %ju", e, msg, 'q', 2.25, (uintmax_t)l); snprintf(want, sizeof want, "%s: %d%% of %s (%c) %05.1f %ju: %s\n", nm, e, msg, 'q', 2.25, (uintmax_t)l, strerror(e)); break;
			default: warnx("%s%s", msg, ""); snprintf(want, sizeof want, "%s: %s\n", nm, msg); break; }
			e1 = errno; out_back(what); end(); cmp(what, want, e, e1); vh_case(1, how, l, e);
		} else if (how < 8) { /* what the command says about each code */
			static const char *T[] = { 0, "!Error determining amount of available memory", "!Error reading clocks", "!Error computing derived key", "!Error reading salt", "!OpenSSL error", "!Error allocating memory", "Input is not valid scrypt-encrypted block", "Unrecognized scrypt format version", "Decrypting file would require too much memory", "Decrypting file would take too much CPU time", "Passphrase is incorrect", "!Error writing file: ", "!Error reading file: ", "Error in explicit parameters", "Decrypting file would require too much memory and CPU time" };
			int rc = 1 + vh_rnd(15); const char *in = vh_rnd(3) ? msg : NULL, *out = vh_rnd(3) ? msg : NULL; static char other[300]; text(other, vh_rnd(250), "\n"); if (rc == 12) in = other; else out = other;
			if (e == 0) e = 5; start(); odd = vh_rnd(3) == 0; out_odd(); errno = e; scryptenc_print_error(rc, in, out); out_back("scryptenc_print_error"); end();
			snprintf(want, sizeof want, "%s: %s%s%s%s\n", nm, T[rc] + (*T[rc] == '!'), rc == 12 ? out ? out : "standard output" : rc == 13 ? in ? in : "standard input" : "", *T[rc] == '!' ? ": " : "", *T[rc] == '!' ? strerror(e) : "");
			cmp(what, want, 0, 0); vh_case(2, rc, l, e);
			/* a standard error that cannot be written: nothing but the message is lost */
			{ int s2, f = open(vh_rnd(2) ? "/dev/full" : "/dev/null", vh_rnd(2) ? O_WRONLY : O_RDONLY); fflush(stderr); s2 = dup(2); dup2(f, 2); close(f); errno = e; if (vh_rnd(2)) warn("%s", msg); else warnx("%s", msg); e1 = errno; __fpurge(stderr); clearerr(stderr); dup2(s2, 2); close(s2); if (e1 != e) vh_viol("errno", "with an unusable standard error: errno %d became %d", e, e1); vh_ev("unusable_standard_error"); }
		} else { /* syslog: one call, cut at the longest line allowed, errno kept */
			int P = vh_rnd(8); size_t cut = l > WARNP_SYSLOG_MAX_LINE ? WARNP_SYSLOG_MAX_LINE : l; calls = closed = 0; warnp_syslog_priority(P); warnp_syslog(1); errno = e; gotn = 0;
			if (how == 8) { warn("%s", msg); snprintf(want, sizeof want, "%.*s: %s\n", (int)cut, msg, strerror(e)); } else { warnx("%s", msg); snprintf(want, sizeof want, "%.*s\n", (int)cut, msg); }
			e1 = errno; cmp(what, want, e, e1); if (calls != 1 || prio != P) vh_viol("syslog", "%s: %d calls, priority %d instead of %d", what, calls, prio, P);
			warnp_syslog(0); if (closed != 1) vh_viol("syslog", "%s: log closed %d times", what, closed); vh_ev("syslog_messages"); vh_case(3, how, l, e);
			start(); errno = 1; warn("%s", "after"); end(); snprintf(want, sizeof want, "%s: after: %s\n", nm, strerror(1)); cmp("after syslog", want, 0, 0);
		}
	}
	/* messages of several threads do not get mixed up */
	if (vh_nviol == 0) {
		pthread_t t[8]; long k; char *l, *nl; int seen[8] = { 0 }; FILE *o = cap; warnp_setprogname("/x/thrd"); setvbuf(stderr, NULL, _IONBF, 0); pthread_barrier_init(&bar, NULL, 8); start(); for (k = 0; k < 8; k++) if (pthread_create(t + k, NULL, talk, (void *)k)) vh_hard("thread"); for (k = 0; k < 8; k++) pthread_join(t[k], NULL); end(); (void)o;
		if (gotn >= sizeof got - 2) vh_hard("too many messages");
		for (l = got; *l; l = nl) { long a; int b; char r[100]; nl = strchr(l, '\n'); if (!nl) { vh_viol("mixed", "last line incomplete"); break; } *nl++ = 0; r[0] = 0;
			if (sscanf(l, "thrd: thread %ld message %d%99[^\n]", &a, &b, r) < 2 || a < 0 || a > 7 || b != seen[a] || strcmp(r, b & 1 ? "" : ": No such file or directory")) { vh_viol("mixed", "line of several threads: %.100s", l); break; } seen[a]++; vh_ev("lines_of_threads"); }
		for (k = 0; k < 8; k++) if (seen[k] != 200 && !vh_nviol) vh_viol("mixed", "%d messages of 200", seen[k]);
	}
	vh_sample("%d messages, last name %.40s", n, base); return vh_done();
}
