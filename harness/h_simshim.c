/* Linked into the command: simulated machine configured by VS_RAM, VS_US (microseconds per 512 cores), VS_AS, VS_RSS; logs key derivations to VS_KDFLOG. */
#include "vh_vclock.h"
#include <fcntl.h>
static unsigned long long num(const char *e, unsigned long long d) { const char *s = getenv(e); return s ? strtoull(s, NULL, 10) : d; }
__attribute__((constructor)) static void sim_init(void) {
	vc_totalram = num("VS_RAM", 8ULL << 30); vc_unit = 1; vc_pagesz = 4096; vc_pages = (vc_totalram + 4095) / 4096; vc_sysconf_unlimited = 1; vc_as = num("VS_AS", RLIM_INFINITY); vc_rss = num("VS_RSS", RLIM_INFINITY); vc_speed(num("VS_US", 1000)); vc_fit();
	if (getenv("VS_FAILALL")) { vc_clockfail = vc_resfail = vc_sysinfofail = vc_sysconffail = 1; vc_rlimitfail = -1; }
}
__attribute__((destructor)) static void sim_done(void) {
	const char *l = getenv("VS_KDFLOG"); FILE *f; int i; if (!l || !(f = fopen(l, "w"))) return;
	for (i = 0; i < vc_nkdf && i < 4; i++) fprintf(f, "%llu %zu %zu %zu\n", (unsigned long long)vc_kdf[i].N, vc_kdf[i].r, vc_kdf[i].p, vc_kdf[i].dn); fclose(f);
}
