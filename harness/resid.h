/* C19: looking for secrets left behind in freed heap blocks, on the stack and in static memory. */
#ifndef RESID_H_
#define RESID_H_
#include <sys/mman.h>
#include <ucontext.h>
#define VA_SCRUB
#include "vh_alloc.h"
#include "crypto_scrypt.h"

/* Everything that holds a secret on the monitor's behalf lives in this mapping, which is never scanned. */
struct rs_secret { uint8_t b[2100]; size_t n, min; const char * name; };
struct rs_hit { uint64_t v; int s; int off; int next; };
static struct rs_mem {
	struct rs_secret s[40]; int ns;
	uint8_t bits[8192]; int head[1024]; struct rs_hit h[60000]; int nh;
	uint8_t dk[64];
} * rs;
static uint8_t * rs_stk, * rs_hstk;
#define RS_STK (640u << 10)
#define RS_HSTK (4u << 20)
static ucontext_t rs_main, rs_work, rs_helper, rs_back;
static uint64_t rs_freed, rs_freedbytes, rs_stacks, rs_statics, rs_kdfs, rs_outst;
static void (*rs_report)(const char * where, const char * name, size_t len);
static int rs_inhelp;

static void rs_init(void) {
	if (rs) return;
	rs = __real_mmap(NULL, sizeof *rs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	rs_stk = __real_mmap(NULL, RS_STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	rs_hstk = __real_mmap(NULL, RS_HSTK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (rs == MAP_FAILED || rs_stk == MAP_FAILED || rs_hstk == MAP_FAILED) vh_hard("mmap");
}
static inline uint64_t rs_ld(const uint8_t * p) { uint64_t v; memcpy(&v, p, 8); return v; }
static inline uint32_t rs_hash(uint64_t v) { return (uint32_t)((v * 0x9e3779b97f4a7c15ull) >> 48); }
static void rs_reset(void) { rs->ns = rs->nh = 0; memset(rs->bits, 0, sizeof rs->bits); memset(rs->head, 0, sizeof rs->head); }
static void rs_add(const void * b, size_t n, size_t min, int step, const char * name) {
	struct rs_secret * s; size_t o;
	if (n < min || n < 8) return;
	if (n > sizeof s->b) n = sizeof s->b;
	for (int i = 0; i < rs->ns; i++) if (rs->s[i].n == n && !memcmp(rs->s[i].b, b, n)) return;
	if (rs->ns == 40) vh_hard("too many secrets");
	s = &rs->s[rs->ns]; memcpy(s->b, b, n); s->n = n; s->min = min; s->name = name;
	for (o = 0; o + 8 <= n; o += step) {
		uint64_t v = rs_ld(s->b + o); uint32_t h = rs_hash(v);
		if (rs->nh + 1 >= 60000) vh_hard("too many windows");
		rs->nh++; rs->h[rs->nh].v = v; rs->h[rs->nh].s = rs->ns; rs->h[rs->nh].off = (int)o;
		rs->h[rs->nh].next = rs->head[h & 1023]; rs->head[h & 1023] = rs->nh; rs->bits[h >> 3] |= 1 << (h & 7);
	}
	rs->ns++;
}
static void rs_scan(const uint8_t * p, size_t n, const char * where) {
	size_t i = 0;
	if (n < 8) return;
	while (i + 8 <= n) {
		uint64_t v = rs_ld(p + i);
		if (v == 0) { /* skip zeroes; a window of zeroes cannot begin a secret */ while (i + 16 <= n && rs_ld(p + i + 8) == 0) i += 8; i++; continue; }
		uint32_t h = rs_hash(v);
		if (rs->bits[h >> 3] & (1 << (h & 7))) {
			int k;
			for (k = rs->head[h & 1023]; k; k = rs->h[k].next) if (rs->h[k].v == v) {
				struct rs_secret * s = &rs->s[rs->h[k].s]; size_t a = 0, b = 8, o = rs->h[k].off;
				while (a < i && a < o && p[i - a - 1] == s->b[o - a - 1]) a++;
				while (i + b < n && o + b < s->n && p[i + b] == s->b[o + b]) b++;
				if (a + b >= s->min) { rs_report(where, s->name, a + b); return; }
			}
		}
		i++;
	}
}
/* run something on the helper stack, which is never scanned */
static void (*rs_hfn)(void *); static void * rs_harg;
static void rs_htramp(void) { rs_hfn(rs_harg); }
static void rs_help(void (*fn)(void *), void * arg) {
	if (rs_inhelp) { fn(arg); return; }
	rs_inhelp = 1; rs_hfn = fn; rs_harg = arg; getcontext(&rs_helper);
	rs_helper.uc_stack.ss_sp = rs_hstk; rs_helper.uc_stack.ss_size = RS_HSTK; rs_helper.uc_link = &rs_back;
	makecontext(&rs_helper, rs_htramp, 0); swapcontext(&rs_back, &rs_helper); rs_inhelp = 0;
}
struct rs_reg { const uint8_t * p; size_t n; const char * w; };
static void rs_scanreg(void * a) { struct rs_reg * r = a; rs_scan(r->p, r->n, r->w); }
static void rs_scanh(const void * p, size_t n, const char * w) { struct rs_reg r = { p, n, w }; rs_help(rs_scanreg, &r); }
static void rs_freehook(void * p, size_t n) { rs_freed++; rs_freedbytes += n; rs_scanh(p, n, "a heap block being released"); }
/* the part of the working stack below the caller's frame */
static __attribute__((noinline)) void rs_deadstack(const char * w) {
	uint8_t * sp = __builtin_frame_address(0);
	if (sp > rs_stk && sp < rs_stk + RS_STK) { rs_stacks++; rs_scanh(rs_stk, sp - 128 - rs_stk, w); }
}
static void rs_static(void) { extern char __data_start[], _end[]; rs_statics++; rs_scanh(__data_start, _end - __data_start, "static memory"); }
static void rs_outstanding(void) { int i; for (i = 0; i < va_n; i++) { rs_outst++; rs_scanh(va_tab[i].p, va_tab[i].n, "a heap block never released"); } }
/* run fn on the working stack, scan the stack afterwards */
static int (*rs_wfn)(void *); static void * rs_warg; static int rs_wrc;
static void rs_wtramp(void) { rs_wrc = rs_wfn(rs_warg); }
static int rs_run(int (*fn)(void *), void * arg) {
	memset(rs_stk, 0, RS_STK); rs_wfn = fn; rs_warg = arg; rs_wrc = -1; getcontext(&rs_work);
	rs_work.uc_stack.ss_sp = rs_stk; rs_work.uc_stack.ss_size = RS_STK; rs_work.uc_link = &rs_main;
	makecontext(&rs_work, rs_wtramp, 0); swapcontext(&rs_main, &rs_work); return rs_wrc;
}
static void rs_stack(const char * w) { rs_stacks++; rs_scanh(rs_stk, RS_STK, w); }

/* AES-256 key expansion (FIPS 197), to know what the schedule looks like */
static uint8_t rs_mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ (a & 0x80 ? 0x1b : 0); b >>= 1; } return r; }
static uint8_t rs_sbox(uint8_t x) { uint8_t i = 1, k, r; int n; if (x == 0) return 0x63; for (n = 0; n < 254; n++) i = rs_mul(i, x); for (r = i, k = 0; k < 4; k++) { i = (uint8_t)(i << 1 | i >> 7); r ^= i; } return r ^ 0x63; }
static void rs_expand(const uint8_t key[32], uint8_t out[240]) {
	int i, j; uint8_t t[4], rc = 1, u; static uint8_t sb[256]; static int init;
	if (!init) { for (i = 0; i < 256; i++) sb[i] = rs_sbox(i); init = 1; }
	memcpy(out, key, 32);
	for (i = 8; i < 60; i++) {
		memcpy(t, out + 4 * i - 4, 4);
		if (i % 8 == 0) { u = t[0]; t[0] = sb[t[1]] ^ rc; t[1] = sb[t[2]]; t[2] = sb[t[3]]; t[3] = sb[u]; rc <<= 1; }
		else if (i % 8 == 4) for (j = 0; j < 4; j++) t[j] = sb[t[j]];
		for (j = 0; j < 4; j++) out[4 * i + j] = out[4 * (i - 8) + j] ^ t[j];
	}
}
static void rs_addkeys(void * unused) {
	uint8_t x[240], y[240]; int i; (void)unused;
	rs_add(rs->dk, 64, 32, 4, "the derived keys");
	rs_expand(rs->dk, x); rs_add(x, 240, 32, 4, "the expanded cipher key");
	for (i = 0; i < 240; i++) y[i] = x[i ^ 3];
	rs_add(y, 240, 32, 4, "the expanded cipher key");
	for (i = 0; i < 32; i++) x[i] = rs->dk[32 + i] ^ 0x36, y[i] = rs->dk[32 + i] ^ 0x5c;
	rs_add(x, 32, 32, 4, "the padded MAC key"); rs_add(y, 32, 32, 4, "the padded MAC key");
	for (i = 0; i < 32; i++) x[32 + i] = x[i ^ 3], y[32 + i] = y[i ^ 3];
	rs_add(x + 32, 32, 32, 4, "the padded MAC key"); rs_add(y + 32, 32, 32, 4, "the padded MAC key");
}
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
struct rs_kdf { const uint8_t * p, * s; size_t pl, sl; uint64_t N; uint32_t r, pp; };
static void rs_pre(void * a) {
	struct rs_kdf * k = a; int on = va_on, rc, e = errno;
	va_on = 0; rc = __real_crypto_scrypt(k->p, k->pl, k->s, k->sl, k->N, k->r, k->pp, rs->dk, 64); va_on = on; errno = e;
	if (rc == 0) { rs_kdfs++; rs_addkeys(NULL); }
}
static void (*rs_beforekdf)(const uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t * p, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t pp, uint8_t * b, size_t bl) {
	struct rs_kdf k = { p, s, pl, sl, N, r, pp };
	if (rs_beforekdf) rs_beforekdf(p, pl);
	if (bl == 64) rs_help(rs_pre, &k);
	return __real_crypto_scrypt(p, pl, s, sl, N, r, pp, b, bl);
}
#endif
