import os
from vlib import core
LEVEL = "exploration"
W = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "strdup", "mmap", "munmap", "open", "open64", "read", "close"]


def main(c):
    c.rule = ("one evaluation = one library call (18 kinds, successful, refused, with bad arguments or a failing allocation) in a process with signal dispositions, mask, limits, locale, rounding mode, "
              "timers and descriptors of its own, with the complete state recorded before and after and compared; distinct = distinct (call, result, cause)")
    d = os.path.join(c.tmp, "s")
    os.makedirs(d)
    jobs = []

    def j(v, seeds, n, fault=0, **kw):
        exe = c.link("h_state_%s" % v, ["h_state.c"], v, wraps=W, **kw)
        for s in seeds:
            c.harness(exe, [s, n, fault, d], tag="%s-%d" % (v, fault), timeout=400)
    k = c.scale(4, 40)
    for i in range(4):
        jobs.append(lambda i=i: j("full", range(i * 1000, i * 1000 + k), 400))
    jobs.append(lambda: j("full", range(5000, 5000 + k), 400, 1))
    jobs.append(lambda: j("soft", range(6000, 6000 + k), 300))
    jobs.append(lambda: j("nommap", range(7000, 7000 + k), 300, 1))
    jobs.append(lambda: j("nosse2", range(8000, 8000 + k // 2), 300))
    if c.m32_ok():
        jobs.append(lambda: j("m32", range(9000, 9000 + k // 2), 300))
    c.par(jobs)
    for e, m in (("items_compared", 200000), ("calls_observed", 3000), ("successful_calls", 1000), ("failed_calls", 300), ("allocation_failures", 100), ("silent_calls", 1000), ("random_device_failures", 100), ("failing_streams", 100)):
        c.need(e, m)
