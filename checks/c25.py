import re
from vlib import core
LEVEL = "fault_enumeration"
FUN = {"SHA256_Transform_shani": "HAVE_SHANI", "SHA256_Transform_sse2": "HAVE_SHASSE2", "crypto_scrypt_smix_sse2": "HAVE_SMIX",
       "crypto_aes_key_expand_aesni": "HAVE_AESNI", "crypto_aes_encrypt_block_aesni": "HAVE_AESNI", "crypto_aesctr_aesni_stream": "HAVE_AESCTR",
       "SHA256_Transform_arm": "HAVE_SHANI", "crypto_aes_key_expand_arm": "HAVE_AESNI", "crypto_aes_encrypt_block_arm": "HAVE_AESNI", "crypto_aesctr_arm_stream": "HAVE_AESCTR"}


def accel(c, v, s, n, san=None):
    """h_accel in variant v, with the accelerated functions it has wrapped."""
    lib, _ = c.build(v, san)
    syms = set(re.findall(r" T (\S+)", core.run(["nm", lib]).out.decode()))
    wraps, flags = [], {"-DARMSIM"} if v == "arm" else set()
    for f, d in FUN.items():
        if f in syms and (d != "HAVE_AESNI" or {"crypto_aes_key_expand_" + f[-5:].split("_")[-1], "crypto_aes_encrypt_block_" + f[-5:].split("_")[-1]} <= syms):
            wraps.append(f)
            flags.add("-D" + d)
    for f in ("shani", "ssse3", "sse2", "aesni", "rdrand"):
        s_ = "cpusupport_x86_%s_detect_1" % f
        if s_ in syms:
            wraps.append(s_)
            flags.add("-DDET_" + f)
    exe = c.link("h_accel_%s_%s" % (v, san), ["h_accel.c"], v, san=san, wraps=wraps, cflags=sorted(flags))
    c.harness(exe, [s, n], tag=v, timeout=700)


def main(c):
    c.rule = ("one evaluation = one process in which accelerated functions are made to misbehave consistently (each output bit, unchanged, "
              "zero, reversed output; key expansion failing or wrong for one key length; any subset) or features are reported absent; about 40 results of "
              "all operations are compared with oracles and warnings and calls are monitored; distinct by configuration")
    jobs = []

    def j(*a):
        accel(c, *a)
    for s in range(c.scale(1, 6)):
        jobs.append(lambda s=s: j("full", s, c.scale(700, 3000)))
        jobs.append(lambda s=s: j("noshani", 20 + s, c.scale(400, 2000)))
        jobs.append(lambda s=s: j("soft", 40 + s, 20))
        jobs.append(lambda s=s: j("nosse2", 60 + s, 300))
    if c.arm_ok():
        jobs.append(lambda: j("arm", 110, c.scale(300, 3000)))
    jobs.append(lambda: j("full", 90, c.scale(100, 1000), "asan"))
    c.par(jobs)
    c.need("results_compared", 10000)
    for f in ("sha256_shani", "sha256_sse2", "smix_sse2", "aesni_key", "aesni_encrypt"):
        if not c.events.get("broken_calls_" + f):
            c.assumptions.append("%s was never called here (not built, renamed or not supported by this processor): not exercised" % f)
