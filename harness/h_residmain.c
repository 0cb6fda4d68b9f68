/*
 * C19, linked into the real command: main() runs on a stack of its own and all its heap blocks are
 * followed.  Blocks being released, the dead part of the stack after passphrase entry and when the
 * key derivation starts, and at the end the whole stack, the blocks left and static memory are
 * searched for the passphrases (file VR_SECRETS, one per line, \0-terminated) and derived keys.
 * VR_FAILAT: number of the allocation that fails.  Findings go to the file VR_LOG.
 */
#include <fcntl.h>
#include <stdarg.h>
#include "resid.h"
#include "passphrase_entry.h"

static int logfd = -1;
static void say(const char * f, ...) { char b[400]; va_list ap; int n; va_start(ap, f); n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (write(logfd, b, n) < 0) abort(); }
static void report(const char * where, const char * name, size_t len) { say("LEFT\t%s\t%s\t%zu\n", where, name, len); }
int __real_main(int, char **); void __real_exit(int) __attribute__((noreturn));
static int gargc, done, rcode; static char ** gargv;
static void after(const char * w) { int e = errno; if (rs && va_on) { rs_deadstack(w); } errno = e; }
#define AFTER "the stack after passphrase entry"
#ifdef W_passphrase_entry_readpass
int __real_passphrase_entry_readpass(char **, enum passphrase_entry, const char *, const char *, const char *, int);
int __wrap_passphrase_entry_readpass(char ** p, enum passphrase_entry e, const char * a, const char * x, const char * y, int o) { int rc = __real_passphrase_entry_readpass(p, e, a, x, y, o); after(AFTER); return rc; }
#endif
#ifdef W_libcperciva_readpass
int __real_libcperciva_readpass(char **, const char *, const char *, int);
int __wrap_libcperciva_readpass(char ** p, const char * x, const char * y, int o) { int rc = __real_libcperciva_readpass(p, x, y, o); after(AFTER); return rc; }
#endif
#ifdef W_readpass_file
int __real_readpass_file(char **, const char *);
int __wrap_readpass_file(char ** p, const char * x) { int rc = __real_readpass_file(p, x); after(AFTER); return rc; }
#endif
static void beforekdf(const uint8_t * p, size_t n) { (void)p; (void)n; after("the stack when the key derivation starts"); say("KDF\n"); }
static int domain(void * a) { (void)a; return __real_main(gargc, gargv); }
static void finish(void) {
	va_on = 0; va_onfree = NULL; done = 1;
	rs_stack("the stack at the end"); rs_static(); rs_outstanding();
	say("DONE freed %lu bytes %lu stacks %lu kdfs %lu left %d failed %ld allocs %ld secrets %d\n", rs_freed, rs_freedbytes, rs_stacks, rs_kdfs, va_n, va_failed, va_cnt, rs->ns);
}
static int exiting;
void __wrap_exit(int rc) {
	if (!done && rs_wfn && !exiting) { exiting = 1; rs_wrc = rc; setcontext(&rs_main); }
	__real_exit(rc);
}
int __wrap_main(int argc, char ** argv) {
	const char * s; int fd; ssize_t n; static char * b;
	gargc = argc; gargv = argv; rs_init(); rs_report = report; rs_beforekdf = beforekdf; rs_reset();
	if ((s = getenv("VR_LOG")) == NULL || (logfd = open(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600)) < 0) _exit(90);
	if ((s = getenv("VR_SECRETS")) != NULL && (fd = open(s, O_RDONLY)) >= 0) {
		char * q, * e; b = __real_mmap(NULL, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		n = read(fd, b, 65535); close(fd); if (n < 0) n = 0;
		for (q = b; q < b + n; q = e + 1) { e = memchr(q, 0, b + n - q); if (!e) break; rs_add(q, e - q, e - q < 12 ? (size_t)(e - q) : 12, 1, "a passphrase"); }
	}
	if ((s = getenv("VR_FAILAT")) != NULL) va_failat = atol(s);
	s = getenv("VR_FAILAT"); va_begin(); if (s) va_failat = atol(s); va_onfree = rs_freehook;
	rcode = rs_run(domain, NULL);
	finish();
	return rcode;
}
