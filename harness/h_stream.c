/* C24: feeds the command through pipes and judges what comes out against an independent stream implementation.
 * args: exe mode(enc|dec) bytes style(big|hold|zero:FILE) seed ; PW=the passphrase is in the environment.
 * big: as fast as possible; hold: the input stays open at many points and the output must keep up;
 * prints RSS peak as event peak_rss_kib and the largest amount held back. */
#include "vh.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#define CH (1 << 18)
static const uint8_t *pw = (const uint8_t *)"streaming"; static const size_t pwn = 9;
static int dec, zero; static uint64_t total, gseed;
static int inw = -1, outr = -1; static uint64_t fed, fedgoal; static volatile int writerdone;
static void gen(uint64_t pos, uint8_t *b, size_t n) { /* plaintext at pos; pos multiple of 8 */
	size_t i; uint64_t v; if (zero) { memset(b, 0, n); return; }
	for (i = 0; i + 8 <= n; i += 8) { v = vh_mix(gseed + (pos + i) / 8); memcpy(b + i, &v, 8); } if (i < n) { v = vh_mix(gseed + (pos + i) / 8); memcpy(b + i, &v, n - i); }
}
/* ---- byte-exact independent codec ---- */
static uint8_t hdr[96], dk[64]; static EVP_CIPHER_CTX *ctr; static EVP_MD_CTX *hin; static uint8_t kpad[64];
static void codec_start(void) {
	static uint8_t iv[16]; int i; ctr = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(ctr, EVP_aes_256_ctr(), NULL, dk, iv);
	memset(kpad, 0x36, 64); for (i = 0; i < 32; i++) kpad[i] ^= dk[32 + i]; hin = EVP_MD_CTX_new(); EVP_DigestInit_ex(hin, EVP_sha256(), NULL); EVP_DigestUpdate(hin, kpad, 64); EVP_DigestUpdate(hin, hdr, 96);
}
static void codec_mac(uint8_t m[32]) { uint8_t ih[32]; unsigned l; EVP_MD_CTX *o = EVP_MD_CTX_new(); int i; EVP_DigestFinal_ex(hin, ih, &l); for (i = 0; i < 64; i++) kpad[i] ^= 0x36 ^ 0x5c; EVP_DigestInit_ex(o, EVP_sha256(), NULL); EVP_DigestUpdate(o, kpad, 64); EVP_DigestUpdate(o, ih, 32); EVP_DigestFinal_ex(o, m, &l); EVP_MD_CTX_free(o); }
static void mkheader(void) {
	uint8_t h[32]; memcpy(hdr, "scrypt", 7); hdr[7] = 4; o_be32(hdr + 8, 1); o_be32(hdr + 12, 1); vh_bytes(hdr + 16, 32);
	o_scrypt(pw, pwn, hdr + 16, 32, 16, 1, 1, dk, 64); o_sha256(hdr, 48, h); memcpy(hdr + 48, h, 16); o_hmac(dk + 32, 32, hdr, 64, h); memcpy(hdr + 64, h, 32);
}
static int wr(const uint8_t *b, size_t n) { ssize_t w; while (n) { w = write(inw, b, n); if (w < 0) { if (errno == EINTR) continue; return -1; } __atomic_add_fetch(&fed, w, __ATOMIC_RELAXED); b += w; n -= w; } return 0; }
/* ---- writer ---- */
static uint64_t sent; /* payload produced so far */
static uint8_t wb[CH + 64], wc[CH + 64];
static int produce(size_t n) { int l; gen(sent, wb, n); if (dec) { EVP_EncryptUpdate(ctr, wc, &l, wb, n); EVP_DigestUpdate(hin, wc, n); if (wr(wc, n)) return -1; } else if (wr(wb, n)) return -1; sent += n; return 0; }
static void *writer(void *a) {
	if (dec && wr(hdr, 96)) return NULL;
	while (sent < total) { size_t k = total - sent < CH ? total - sent : CH; if (produce(k)) break; }
	if (dec && sent == total) { uint8_t m[32]; codec_mac(m); wr(m, 32); }
	close(inw); return NULL;
}
/* ---- reader: checks everything that arrives ---- */
static uint64_t got; static uint8_t ob[CH * 2]; static uint8_t tail[32]; static size_t tn; static uint8_t hb[96]; static uint64_t payload; static int bad;
static void check_plain(const uint8_t *b, size_t n) {
	static uint8_t e[CH * 2 + 64]; uint64_t base = payload & ~7ULL; size_t off = payload - base;
	gen(base, e, n + off); if (payload + n > total) { bad = 1; vh_viol("too_long", "more than %llu bytes of plaintext", (unsigned long long)total); return; }
	if (memcmp(b, e + off, n)) { size_t i; for (i = 0; b[i] == e[off + i]; i++) ; bad = 1; vh_viol(dec ? "dec_wrong" : "enc_wrong", "plaintext differs at byte %llu of %llu", (unsigned long long)(payload + i), (unsigned long long)total); }
	payload += n;
}
static void check_cipher(const uint8_t *b, size_t n) { static uint8_t p[CH * 2 + 64]; int l; EVP_DigestUpdate(hin, b, n); EVP_EncryptUpdate(ctr, p, &l, b, n); check_plain(p, n); }
static void arrive(const uint8_t *b, size_t n) {
	size_t k; if (bad) { got += n; return; }
	if (dec) { check_plain(b, n); got += n; return; }
	while (n && got < 96) { hb[got++] = *b++; n--; if (got == 96) { uint8_t h[32];
		memcpy(hdr, hb, 96); o_sha256(hdr, 48, h); if (memcmp(hdr, "scrypt", 7) || memcmp(h, hdr + 48, 16) || hdr[7] > 16) { bad = 1; vh_viol("enc_header", "invalid header"); return; }
		o_scrypt(pw, pwn, hdr + 16, 32, 1ULL << hdr[7], hdr[8] << 24 | hdr[9] << 16 | hdr[10] << 8 | hdr[11], hdr[12] << 24 | hdr[13] << 16 | hdr[14] << 8 | hdr[15], dk, 64); codec_start(); } }
	got += n;
	/* the last 32 bytes seen so far may be the MAC */
	if (tn + n <= 32) { memcpy(tail + tn, b, n); tn += n; return; }
	if (n >= 32) { if (tn) check_cipher(tail, tn); check_cipher(b, n - 32); memcpy(tail, b + n - 32, 32); tn = 32; }
	else { k = tn + n - 32; check_cipher(tail, k); memmove(tail, tail + k, tn - k); memcpy(tail + tn - k, b, n); tn = 32; }
}
static double nowd(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void nonblock(int fd, int on) { int f = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, on ? f | O_NONBLOCK : f & ~O_NONBLOCK); }
int main(int argc, char **argv) {
	const char *style; int pi[2], po[2], st, hold, fd; pid_t pid; struct rusage ru; pthread_t t; ssize_t r; const char *file = NULL; char *args[16]; int na = 0; uint64_t maxheld = 0;
	dec = !strcmp(argv[2], "dec"); total = strtoull(argv[3], NULL, 10); style = argv[4]; vh_seed(2400 + atoi(argv[5])); gseed = vh_next(); hold = !strcmp(style, "hold");
	if (!strncmp(style, "zero:", 5)) { zero = 1; file = style + 5; }
	signal(SIGPIPE, SIG_IGN); setenv("PW", "streaming", 1);
	if (pipe(pi) || pipe(po)) vh_hard("pipe"); fcntl(pi[1], F_SETFD, FD_CLOEXEC); fcntl(po[0], F_SETFD, FD_CLOEXEC);
	args[na++] = argv[1]; args[na++] = argv[2]; if (!dec) { args[na++] = "--logN"; args[na++] = "10"; args[na++] = "-r"; args[na++] = "1"; args[na++] = "-p"; args[na++] = "1"; }
	args[na++] = "-f"; args[na++] = "--passphrase"; args[na++] = "env:PW"; args[na++] = file ? (char *)file : "-"; args[na] = NULL;
	fflush(stdout); pid = fork(); if (pid < 0) vh_hard("fork");
	if (pid == 0) { dup2(pi[0], 0); dup2(po[1], 1); close(pi[0]); close(po[1]); execv(argv[1], args); _exit(127); }
	close(pi[0]); close(po[1]); inw = pi[1]; outr = po[0];
	if (dec) { mkheader(); codec_start(); }
	if (!hold) {
		if (file) close(inw); else if (pthread_create(&t, NULL, writer, NULL)) vh_hard("thread");
		while ((r = read(outr, ob, sizeof ob)) > 0) arrive(ob, r);
		if (!file) pthread_join(t, NULL);
	} else {
		/* single-threaded: feed some, then require everything but a bounded rest to come out while the input stays open */
		uint64_t mark = 0, phase = 0; struct pollfd pf[2]; int eof = 0; size_t pend = 0, po_ = 0; uint8_t pb[CH + 128]; int l; double t0;
		nonblock(inw, 1); nonblock(outr, 1);
		if (dec) { memcpy(pb, hdr, 96); pend = 96; }
		while (!eof && !bad) {
			/* next step: amount to feed */
			static const size_t steps[] = { 1, 7, 100, 4096, 65535, 65536, 65537, 131072, 1 << 20, 3 << 20, 9 << 20 }; uint64_t goal = sent + steps[vh_rnd(sizeof steps / sizeof *steps)]; size_t piece = vh_rnd(3) ? 1 + vh_rnd(CH - 1) : 1 + vh_rnd(3000);
			piece = (piece + 7) & ~(size_t)7; goal = (goal + 7) & ~7ULL; if (goal > total) goal = total; phase++;
			t0 = nowd();
			for (;;) {
				uint64_t outp, held; int full = sent >= goal && po_ == pend;
				if (po_ == pend && sent < goal) { size_t k = goal - sent < piece ? goal - sent : piece; gen(sent, wb, k); if (dec) { EVP_EncryptUpdate(ctr, pb, &l, wb, k); EVP_DigestUpdate(hin, pb, k); } else memcpy(pb, wb, k); pend = k; po_ = 0; sent += k; full = 0; }
				outp = dec ? got : got > 96 ? got - 96 : 0; held = sent > outp ? sent - outp : 0;
				if (full && held < (1 << 20)) { /* also record what is held once things are quiet */
					pf[0].fd = outr; pf[0].events = POLLIN; if (poll(pf, 1, 30) <= 0) { if (held > maxheld) maxheld = held; break; } }
				pf[0].fd = outr; pf[0].events = POLLIN; pf[1].fd = po_ < pend ? inw : -1; pf[1].events = POLLOUT;
				poll(pf, 2, 1000);
				if (pf[0].revents & (POLLIN | POLLHUP)) { r = read(outr, ob, sizeof ob); if (r > 0) { arrive(ob, r); t0 = nowd(); } else if (r == 0) { eof = 1; vh_viol("early_end", "output ended while the input was open, after %llu bytes in", (unsigned long long)sent); break; } }
				if (po_ < pend && (pf[1].revents & (POLLOUT | POLLERR))) { r = write(inw, pb + po_, pend - po_); if (r > 0) { po_ += r; t0 = nowd(); } else if (r < 0 && errno != EAGAIN) { vh_viol("input_refused", "write failed after %llu", (unsigned long long)sent); eof = 1; break; } }
				if (nowd() - t0 > 40) { vh_viol("held_back", "%s: %llu bytes were fed (input still open) but only %llu came out", argv[2], (unsigned long long)sent, (unsigned long long)outp); eof = 1; break; }
			}
			vh_case(dec, phase, sent, piece); vh_ev("hold_points");
			if (sent >= total) break;
		}
		if (!eof) {
			if (dec) { uint8_t m[32]; codec_mac(m); nonblock(inw, 0); wr(m, 32); }
			close(inw); nonblock(outr, 0); while ((r = read(outr, ob, sizeof ob)) > 0) arrive(ob, r);
		} else { kill(pid, SIGKILL); }
		vh_evn(dec ? "max_held_back_dec" : "max_held_back_enc", maxheld);
	}
	if (wait4(pid, &st, 0, &ru) != pid) vh_hard("wait");
	if (!bad && !vh_nviol) {
		if (!WIFEXITED(st) || WEXITSTATUS(st)) vh_viol("failed", "%s of %llu bytes: wait status %x", argv[2], (unsigned long long)total, st);
		else if (payload != total) vh_viol("short", "%llu of %llu bytes", (unsigned long long)payload, (unsigned long long)total);
		else if (!dec) { uint8_t m[32]; codec_mac(m); if (tn != 32 || memcmp(m, tail, 32)) vh_viol("enc_mac", "wrong final MAC for %llu bytes", (unsigned long long)total); }
	}
	printf("RSS %ld\n", ru.ru_maxrss); vh_evn(dec ? "mib_decrypted" : "mib_encrypted", total >> 20); vh_ev(total > 1ULL << 32 ? "streams_over_4gib" : "streams");
	if (!hold) vh_case(dec, total, file != NULL, 0);
	vh_sample("%s %s %llu bytes peak rss %ld KiB max held back %llu", argv[2], hold ? "hold" : file ? "file" : "pipe", (unsigned long long)total, ru.ru_maxrss, (unsigned long long)maxheld);
	return vh_done();
}
