LEVEL = "fault_enumeration"
WR = "malloc calloc realloc free posix_memalign aligned_alloc strdup mmap munmap".split()


def main(c):
    c.rule = ("one evaluation = one crypto_scrypt call with given (N, r, p, buflen) and allocator behaviour whose return value, errno, "
              "output guard bytes and outstanding allocations are compared with the documented domain; includes every boundary product, "
              "every allocation failing in turn, allocations >= 64 MB refused, and real RLIMIT_AS refusals; distinct by (N,r,p,buflen,mode)")
    jobs = []
    for v in ["full", "nommap", "nomemalign", "nomemalign_mmap", "ref"] + (["m32", "m32nommap", "m32nomemalign"] if c.m32_ok() else []):
        def j(v=v):
            exe = c.link("h_kdfdom_" + v, ["h_kdfdom.c"], "full" if v == "ref" else v, wraps=WR, ref=(v == "ref"))
            for s in range(c.scale(1, 8)):
                c.harness(exe, [s, c.scale(1, 6)], tag=v, timeout=700)
        jobs.append(j)

    def ja():
        exe = c.link("h_kdfdom_asan", ["h_kdfdom.c"], "full", san="asan", extra=["-fno-sanitize=address"], cflags=["-fno-sanitize=address"], wraps=WR)
        c.harness(exe, [77, 1], tag="ubsan", timeout=700)
    jobs.append(ja)
    c.par(jobs)
    for e in ("refused_invalid", "refused_toobig", "refused_nomem", "accepted_valid", "alloc_faults_injected", "kernel_refusals"):
        c.need(e, 20)
