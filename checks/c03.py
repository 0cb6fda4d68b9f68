def main(c):
    c.rule = ("one evaluation = one digest, MAC, PBKDF2 output (or PBKDF2 block of a huge output) compared byte for byte with OpenSSL; "
              "cases: every message length 0..520 in 9 chunking styles, every two-part split up to 200 bytes, every key length 0..200, "
              "dkLen 0..300 and past 2^16/2^24 blocks, 24 interleaved and copied contexts, messages past 2^32 bits and 2^32 bytes, single "
              "updates past 2^32 bytes, first call of a process; distinct = distinct (lengths, chunking, alignment) per build variant")
    vs = ["full", "noshani", "nosse2"] + (["arm"] if c.arm_ok() else []) + (["soft"] if c.thorough else [])
    exes = {}
    c.par([lambda v=v: exes.__setitem__(v, c.link("h_hash_" + v, ["h_hash.c"], v)) for v in vs], 4)
    sc = c.scale(1, 20)
    jobs = []
    for v in vs:
        if v == "full" or c.thorough:
            jobs.append(lambda v=v: c.harness(exes[v], ["long4", 0, sc], tag=v, timeout=800))
            jobs.append(lambda v=v: c.harness(exes[v], ["long4", 1, sc], tag=v, timeout=800))
            jobs.append(lambda v=v: c.harness(exes[v], ["huge", 0, sc], tag=v, timeout=800))
        jobs.append(lambda v=v: c.harness(exes[v], ["bigpb", 0, sc, 2**24 + 2 if v == "full" or c.thorough else 2**17 + 3], tag=v, timeout=800))
        jobs.append(lambda v=v: c.harness(exes[v], ["long", 0, sc], tag=v, timeout=800))
        for m in ("sweep", "hmac", "pbkdf2", "ctx"):
            for s in range(c.scale(1, 4)):
                jobs.append(lambda v=v, m=m, s=s: c.harness(exes[v], [m, s, sc], tag=v, timeout=800))
        for s in range(6):
            jobs.append(lambda v=v, s=s: c.harness(exes[v], ["first", s, sc], tag=v))
    asan = c.link("h_hash_asan", ["h_hash.c"], "full", san="asan")
    asan2 = c.link("h_hash_asan2", ["h_hash.c"], "nosse2", san="asan")
    for e in (asan, asan2):
        for m in ("sweep", "hmac", "pbkdf2", "ctx"):
            jobs.append(lambda e=e, m=m: c.harness(e, [m, 50, 1], tag="asan", timeout=800))
    if c.m32_ok():
        for v in ("m32", "m32soft"):
            def j32(v=v):
                e = c.link("h_hash_" + v, ["h_hash.c"], v)
                for m in ("sweep", "hmac", "pbkdf2", "ctx") + (("long",) if c.thorough else ()):
                    c.harness(e, [m, 70, 1], tag=v, timeout=800)
            jobs.append(j32)
    c.par(jobs)
    for e, n in (("digests_compared", 10000), ("macs_compared", 5000), ("pbkdf2_compared", 1000), ("interleaved_finals", 500),
                 ("long_messages", 5), ("huge_updates", 1), ("big_pbkdf2_blocks", 3000), ("context_copies", 100)):
        c.need(e, n)
    c.assumptions += ["OpenSSL's SHA-256 is right"]
