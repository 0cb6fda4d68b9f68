/* C22: many threads run derivations, hashes, MACs, PBKDF2 and AES-CTR on their own data; every result is compared with an oracle.
 * args: mode(warm|cold) threads rounds stream */
#include "vh.h"
#include <sched.h>
#include <sys/wait.h>
#include <time.h>
#include "vh_ops.h"
static struct work *W; static int nW;
static int nthreads; static long rounds; static int cold;
static volatile int go; static int ready; static uint64_t opcount[NOP]; static int inflight[NOP]; static uint64_t overlap[NOP][NOP]; static uint64_t switches;
struct th { pthread_t t; int id; uint64_t seed; int firstop; };
static void *runner(void *a) {
	struct th *t = a; uint64_t rs0 = t->seed, *rs = &rs0; long i; const char *why; int j;
	__atomic_add_fetch(&ready, 1, __ATOMIC_SEQ_CST); while (!__atomic_load_n(&go, __ATOMIC_ACQUIRE)) ;
	if (cold && RN(2)) { volatile int d = RN(2000); while (d--) ; }
	for (i = 0; i < rounds; i++) {
		struct work *w = &W[RN(nW)]; if (cold) { while (w->op != OP_KDF && w->op > OP_PBKDF2) w = &W[RN(nW)]; if (i == 0 && t->firstop >= 0) while (w->op != t->firstop) w = &W[RN(nW)]; }
		__atomic_add_fetch(&inflight[w->op], 1, __ATOMIC_RELAXED);
		if (doone(w, rs, &why)) vh_viol(cold ? "cold" : "concurrent", "%s %s wrong with %d threads (round %ld)", ON[w->op], why, nthreads, i);
		__atomic_sub_fetch(&inflight[w->op], 1, __ATOMIC_RELAXED);
		for (j = 0; j < NOP; j++) if (__atomic_load_n(&inflight[j], __ATOMIC_RELAXED) > 0) __atomic_add_fetch(&overlap[w->op][j], 1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&opcount[w->op], 1, __ATOMIC_RELAXED);
	}
	return NULL;
}
static void go_threads(int firstop) {
	struct th T[64]; int i; uint64_t s = vh_next(); __atomic_store_n(&go, 0, __ATOMIC_SEQ_CST); ready = 0;
	for (i = 0; i < nthreads; i++) { T[i].id = i; T[i].seed = vh_mix(s + i); T[i].firstop = firstop; if (pthread_create(&T[i].t, NULL, runner, &T[i])) vh_hard("thread"); }
	while (__atomic_load_n(&ready, __ATOMIC_SEQ_CST) < nthreads) sched_yield();
	__atomic_store_n(&go, 1, __ATOMIC_RELEASE); for (i = 0; i < nthreads; i++) pthread_join(T[i].t, NULL);
}
int main(int argc, char **argv) {
	int i, j; uint64_t rs = 1; const char *why; cold = !strcmp(argv[1], "cold"); nthreads = atoi(argv[2]); rounds = atol(argv[3]); vh_seed(2200 + atoi(argv[4])); setvbuf(stdout, NULL, _IOLBF, 0);
	nW = 160; W = malloc(nW * sizeof *W); for (i = 0; i < nW; i++) mkwork(&W[i], i % NOP);
	if (!cold) {
		/* one completed call of each kind initialises the library */
		for (i = 0; i < NOP; i++) if (doone(&W[i], &rs, &why)) vh_viol("alone", "%s %s wrong", ON[i], why);
		for (i = 0; i < 10; i++) { go_threads(-1); vh_case(i, nthreads, vh_next(), 0); }
		for (i = 0; i < NOP; i++) { static char nm[NOP][24]; snprintf(nm[i], 24, "op_%s", ON[i]); vh_evn(nm[i], opcount[i]); }
		for (i = 0; i < NOP; i++) for (j = 0; j < NOP; j++) if (overlap[i][j]) vh_ev("op_pairs_seen_overlapping");
	} else {
		/* each process: the first calls of all threads start together */
		int k; for (k = 0; k < atoi(argv[5]); k++) {
			pid_t pid; int st, fo = k % 3 == 0 ? OP_KDF : k % 3 == 1 ? OP_SHA + (k / 3) % 5 : -1; rs = vh_next(); fflush(stdout); pid = fork();
			if (pid == 0) { alarm(120); vh_s[0] ^= rs; go_threads(fo); fflush(stdout); _exit(vh_nviol ? 9 : 0); }
			waitpid(pid, &st, 0); vh_case(k, nthreads, rs, 1);
			if (WIFSIGNALED(st)) vh_viol("cold_died", "signal %d, first op %d, %d threads", WTERMSIG(st), fo, nthreads); else if (WEXITSTATUS(st)) vh_nviol++; 
			vh_ev("cold_processes");
		}
	}
	vh_sample("%s threads=%d rounds=%ld", argv[1], nthreads, rounds);
	free(W); return vh_done();
}
