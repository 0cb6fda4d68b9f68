def main(c):
    c.rule = ("one evaluation = one crypto_scrypt call compared byte for byte with an independent RFC 7914 implementation "
              "(itself cross-checked against OpenSSL EVP_PBE_scrypt); cases: r x p grid, every log2(N), all password/salt/output "
              "lengths 0..299/0..599, hash-block boundaries, many-block sizes, random tuples, first call of a fresh process; "
              "distinct = distinct (lengths, N, r, p) per variant")
    variants = ["full", "noshani", "nosse2", "soft", "nommap", "nomemalign", "nomemalign_mmap", "ref"] + (["arm"] if c.arm_ok() else [])
    exes = {}

    def build(v):
        if v == "ref":
            exes[v] = c.link("h_kdf_ref", ["h_kdf.c"], "full", ref=True)
        else:
            exes[v] = c.link("h_kdf_" + v, ["h_kdf.c"], v)
    big = {}
    # The p > 2^25 run needs about 30 s of one core: start it first.
    lib = c.link("h_bigp", ["h_bigp.c"], "full", wraps=["PBKDF2_SHA256"])

    def bigp(args):
        r = c.harness(lib, args, timeout=600, tag="bigp")
    c.par([lambda v=v: build(v) for v in variants], 4)
    scale = c.scale(1, 6)
    jobs = [lambda: bigp(["1", str(2**25 + 3)])]
    # More than 4 GiB of memory, against EVP_PBE_scrypt (one after another: 5 GiB each).
    bigs = [("full", 2**20, 33, 1), ("nosse2", 2**20, 33, 1)]
    if c.thorough:
        bigs += [("full", 2**22, 9, 2), ("nommap", 2**23, 5, 1), ("nosse2", 2**26, 1, 1), ("full", 2**16, 600, 1)]

    def bigmem():
        for v, N, r, p in bigs:
            c.harness(exes[v], ["big", c.seed, 1, N, r, p], timeout=800, tag="big-" + v)
    jobs.insert(0, bigmem)
    if c.thorough:
        jobs.append(lambda: bigp(["2", str(2**25 + 2)]))
    for v in variants:
        parts = range(4)
        for s in parts:
            if v in ("nommap", "nomemalign", "nomemalign_mmap") and s in (1,) and not c.thorough:
                continue
            jobs.append(lambda v=v, s=s: c.harness(exes[v], ["sweep", s, scale], tag=v, timeout=800))
        jobs.append(lambda v=v: c.harness(exes[v], ["first", 100, scale], tag=v))
    asan = c.link("h_kdf_asan", ["h_kdf.c"], "full", san="asan")
    jobs.append(lambda: c.harness(asan, ["sweep", 0, 1], tag="asan"))
    jobs.append(lambda: c.harness(asan, ["sweep", 2, 1], tag="asan"))
    if c.m32_ok():
        for i, v in enumerate(("m32", "m32soft", "m32nommap", "m32nomemalign")):
            def j32(v=v, i=i):
                exes[v] = c.link("h_kdf_" + v, ["h_kdf.c"], v)
                for s in range(4) if c.thorough else (i, 2) if i != 2 else (i,):
                    c.harness(exes[v], ["sweep", s, 1], tag=v, timeout=800)
            jobs.append(j32)
    if c.thorough:
        for k in range(4, 60):
            v = variants[k % len(variants)]
            jobs.append(lambda v=v, k=k: c.harness(exes[v], ["sweep", k, scale], tag=v, timeout=800))
    c.par(jobs)
    c.need("kdf_calls_compared", 1000)
    c.need("oracle_cross_checks", 10)
    if not c.events.get("big_no_memory"):
        c.need("kdf_calls_above_4GiB", 2)
    c.assumptions += ["OpenSSL SHA-256 and the RFC 7914 transcription in harness/vh.h are right (they agree with EVP_PBE_scrypt)"]
