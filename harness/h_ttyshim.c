/*
 * Linked into the real command: delivers a signal before or after the n-th call of a
 * function used during passphrase entry, makes terminal calls fail, and records the
 * signal dispositions and terminal settings when the key derivation starts and at exit.
 */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

static int logfd = -1, sig, at, when, count, inited;
static char failfn[32];
static int failat, failn;

int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int __real_isatty(int);
int __real_tcgetattr(int, struct termios *);
int __real_tcsetattr(int, int, const struct termios *);
char * __real_fgets(char *, int, FILE *);
FILE * __real_fopen(const char *, const char *);
int __real_fclose(FILE *);
char * __real_strdup(const char *);
size_t __real_strcspn(const char *, const char *);
int __real_strcmp(const char *, const char *);
int __real_raise(int);
int __real_fprintf(FILE *, const char *, ...);
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);

static void
init(void)
{
	const char * s;

	if (inited)
		return;
	inited = 1;
	if ((s = getenv("VT_LOG")) != NULL)
		logfd = open(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
	if ((s = getenv("VT_SIG")) != NULL)
		sig = atoi(s);
	if ((s = getenv("VT_AT")) != NULL)
		at = atoi(s);
	if ((s = getenv("VT_WHEN")) != NULL)
		when = atoi(s);
	if ((s = getenv("VT_FAIL")) != NULL)
		sscanf(s, "%31[^:]:%d", failfn, &failat);
}

static void
say(const char * fmt, ...)
{
	char b[400];
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if (logfd >= 0 && n > 0 && write(logfd, b, (size_t)n) < 0)
		n = 0;
}

static void
state(const char * what)
{
	static const int sigs[] = { SIGALRM, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN, SIGTTOU };
	struct sigaction sa;
	sigset_t blocked;
	unsigned i;
	int e = errno;

	init();
	for (i = 0; i < sizeof(sigs) / sizeof(sigs[0]); i++) {
		__real_sigaction(sigs[i], NULL, &sa);
		sigprocmask(SIG_BLOCK, NULL, &blocked);
		say("%s sig %d %s%s\n", what, sigs[i], sa.sa_handler == SIG_DFL ? "default" : sa.sa_handler == SIG_IGN ? "ignored" : "handler",
		    sigismember(&blocked, sigs[i]) ? " blocked" : "");
	}
	errno = e;
}

static __attribute__((destructor)) void
atend(void)
{

	struct timespec t;

	/* A signal sent before this moment has to have its effect: it is taken at the latest when this line is written. */
	init();
	clock_gettime(CLOCK_MONOTONIC, &t);
	say("END %lld\n", (long long)t.tv_sec * 1000000000 + t.tv_nsec);
	state("EXIT");
	say("COUNT %d\n", count);
}

static void
point(int w, const char * fn)
{
	int e = errno;

	init();
	if (w == 0)
		count++;
	if (sig && count == at && w == when) {
		say("INJECT %d %s %s\n", sig, w ? "after" : "before", fn);
		kill(getpid(), sig);
	}
	errno = e;
}

static int
fails(const char * fn)
{

	init();
	if (failat == 0 || __real_strcmp(fn, failfn))
		return (0);
	if (++failn != failat)
		return (0);
	say("FAILED %s\n", fn);
	return (1);
}

#define W(ret, fn, proto, args, failret, err)		\
ret __wrap_##fn proto;					\
ret __wrap_##fn proto					\
{							\
	ret r;						\
							\
	point(0, #fn);					\
	if (fails(#fn)) {				\
		errno = err;				\
		return (failret);			\
	}						\
	r = __real_##fn args;				\
	point(1, #fn);					\
	return (r);					\
}

W(int, sigaction, (int s, const struct sigaction * a, struct sigaction * o), (s, a, o), -1, EINVAL)
W(int, isatty, (int fd), (fd), 0, ENOTTY)
W(int, tcgetattr, (int fd, struct termios * t), (fd, t), -1, EIO)
W(int, tcsetattr, (int fd, int a, const struct termios * t), (fd, a, t), -1, EIO)
W(char *, fgets, (char * b, int n, FILE * f), (b, n, f), NULL, EIO)
W(FILE *, fopen, (const char * p, const char * m), (p, m), NULL, EMFILE)
W(int, fclose, (FILE * f), (f), -1, EIO)
W(char *, strdup, (const char * s), (s), NULL, ENOMEM)
W(size_t, strcspn, (const char * s, const char * t), (s, t), 0, 0)
W(int, strcmp, (const char * s, const char * t), (s, t), 1, 0)
W(int, raise, (int s), (s), -1, EINVAL)

int __wrap_fprintf(FILE *, const char *, ...);
int
__wrap_fprintf(FILE * f, const char * fmt, ...)
{
	va_list ap;
	int r;

	point(0, "fprintf");
	va_start(ap, fmt);
	r = vfprintf(f, fmt, ap);
	va_end(ap);
	point(1, "fprintf");
	return (r);
}

int __wrap_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int
__wrap_crypto_scrypt(const uint8_t * p, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t pp, uint8_t * b, size_t bl)
{

	state("KDF");
	if (getenv("VT_HOLD") != NULL) {
		say("HELD\n");
		for (;;)
			pause();
	}
	return (__real_crypto_scrypt(p, pl, s, sl, N, r, pp, b, bl));
}
