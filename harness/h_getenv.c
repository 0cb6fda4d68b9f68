/* C30: writes down which environment variables the command asks for. wraps: getenv,secure_getenv */
#include <fcntl.h>
#include <string.h>
#include <unistd.h>
char *__real_getenv(const char *); char *__real_secure_getenv(const char *);
static void say(const char *n) {
	static int fd = -2; if (fd == -2) { const char *p = __real_getenv("VS_NAMES"); fd = p ? open(p, O_WRONLY | O_APPEND | O_CLOEXEC) : -1; }
	if (fd >= 0 && (write(fd, n, strlen(n)) < 0 || write(fd, "\n", 1) < 0)) return;
}
char *__wrap_getenv(const char *n) { say(n); return __real_getenv(n); }
char *__wrap_secure_getenv(const char *n) { say(n); return __real_secure_getenv(n); }
