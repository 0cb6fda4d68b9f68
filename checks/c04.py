def main(c):
    c.rule = ("one evaluation = one stream (or piece of a stream) compared byte for byte with OpenSSL's AES-CTR; cases: every length 0..300 in "
              "10 chunkings, every pair of piece lengths 0..48, all alignments, in place and not, both key sizes, special nonces, 16 interleaved "
              "streams with resets, whole streams across block numbers 2^8, 2^16, 2^24 (both implementations) and 2^28 and 2^32 (AES-NI, with pieces shorter than a block done by the portable code), one call past "
              "2^32 bytes; distinct = distinct (length, chunking, nonce/key size, alignment/in-place)")
    exes = {v: None for v in ("full", "soft") + (("arm",) if c.arm_ok() else ())}
    c.par([lambda v=v: exes.__setitem__(v, c.link("h_aes_" + v, ["h_aes.c"], v)) for v in exes])
    sc = c.scale(1, 20)
    G = 16
    jobs = [lambda: c.harness(exes["full"], ["carry", 1, sc, G * ((1 << 32) + 70000), 1], tag="full", timeout=600),
            lambda: c.harness(exes["full"], ["huge", 1, sc], tag="full", timeout=600),
            lambda: c.harness(exes["soft"], ["carry", 1, sc, G * ((1 << 24) + 1000), 1], tag="soft", timeout=600)]
    if c.thorough:
        jobs.append(lambda: c.harness(exes["soft"], ["carry", 2, sc, G * ((1 << 28) + 70000), 1], tag="soft", timeout=1800))
        jobs.append(lambda: c.harness(exes["soft"], ["huge", 2, sc], tag="soft", timeout=900))
    for v in exes:
        jobs.append(lambda v=v: c.harness(exes[v], ["carry", 3, sc, G * ((1 << 20) + 300), 0], tag=v))
        for s in range(c.scale(1, 4)):
            for m in ("sweep", "block", "inter"):
                jobs.append(lambda v=v, m=m, s=s: c.harness(exes[v], [m, s, sc], tag=v, timeout=900))
    for v in exes:
        def ja(v=v):
            e = c.link("h_aes_asan_" + v, ["h_aes.c"], v, san="asan")
            for m in ("sweep", "block", "inter"):
                c.harness(e, [m, 60, 1], tag="asan-" + v, timeout=600)
        jobs.append(ja)
    if c.m32_ok():
        for v in ("m32", "m32soft"):
            def j32(v=v):
                e = c.link("h_aes_" + v, ["h_aes.c"], v)
                for m in ("sweep", "block", "inter"):
                    c.harness(e, [m, 80, 1], tag=v, timeout=800)
            jobs.append(j32)
    c.par(jobs)
    for e, n in (("streams_compared", 5000), ("interleaved_calls", 10000), ("resets", 500), ("carry_blocks", 1 << 24), ("huge_calls", 1),
                 ("impl_generic", 1), ("blocks_compared", 10000), ("piece_pairs", 2000)):
        c.need(e, n)
    c.assumptions += ["OpenSSL's AES is right"]
    if c.events.get("carry_out_of_time"):
        c.assumptions.append("%d runs across block numbers were cut short by their time limit" % c.events["carry_out_of_time"])
    if not c.events.get("impl_aesni"):
        c.assumptions.append("AES-NI was not used on this machine")
