import os, re
from vlib import core
from checks import c25
LEVEL = "fault_enumeration"

# what an instruction needs of the processor: (name, word, bit); words: 0 leaf 1 ecx, 1 leaf 1 edx, 2 leaf 7 ebx, 3 leaf 7 ecx
TABLE = [
    (r"sha(1|256)(rnds|msg|nexte).*", ("SHA", 2, 29)),
    (r"aes(enc|dec|imc|keygen).*", ("AES", 0, 25)),
    (r"pclmul.*", ("PCLMULQDQ", 0, 1)),
    (r"rdrand.*", ("RDRAND", 0, 30)),
    (r"rdseed.*", ("RDSEED", 2, 18)),
    (r"(pshufb|palignr|pabs[bwd]|ph(add|sub)(s?w|d)|pmaddubsw|pmulhrsw|psign[bwd])", ("SSSE3", 0, 9)),
    (r"(addsub|hadd|hsub)p[sd]|mov(sh|sl|d)dup|lddqu", ("SSE3", 0, 0)),
    (r"pblend(w|vb)|blendv?p[sd]|pinsr[bdq]|pextr[bdq]|extractps|insertps|ptest|pmulld|pmuldq|p(min|max)(sb|sd|uw|ud)|round[ps][sd]|pmov[sz]x.*|pcmpeqq|packusdw|mpsadbw|phminposuw|dpp[sd]|movntdqa", ("SSE4.1", 0, 19)),
    (r"pcmp[ei]str[im]|pcmpgtq|crc32.*", ("SSE4.2", 0, 20)),
    (r"popcnt.*", ("POPCNT", 0, 23)),
    (r"movbe.*", ("MOVBE", 0, 22)),
    (r"andn[lq]?|blsr.*|blsi.*|blsmsk.*|bextr.*", ("BMI1", 2, 3)),
    (r"mulx.*|rorx.*|sarx.*|shlx.*|shrx.*|pdep.*|pext[lq]?|bzhi.*", ("BMI2", 2, 8)),
    (r"adcx.*|adox.*", ("ADX", 2, 19)),
    (r"v[a-z].*", ("AVX", 0, 28)),
    (r"p(add|sub)[bwd]|ps[lr]l[wd]|psra[wd]|pshufd", ("SSE2", 1, 26)),
]
NOT = {"verr", "verw"}


def need_of(m):
    if m in NOT:
        return None
    for pat, n in TABLE:
        if re.fullmatch(pat, m):
            return n
    return None


def main(c):
    c.rule = ("one evaluation = hashes, MACs, PBKDF2, AES, AES-CTR, entropy, key derivation, an encryption and a decryption executed instruction by instruction on one simulated processor (its "
              "answers to CPUID chosen: each combination of SSE2, SSSE3, SHA, AES, RDRAND, noise in all other bits, few leaves with arbitrary data beyond them); every executed "
              "instruction must be one the processor reports (ARM: calls of code using AES or SHA-256 instructions checked against the hardware capabilities reported); distinct = distinct processors")
    jobs = []

    def j(v, s, parts, part, n, cc):
        exe = c.link("h_isa_%s_%s" % (v, cc), ["h_isa.c"], v, cc=cc, opt="-O1", cflags=["-fcf-protection=none", "-fno-tree-vectorize"], extra=["-fno-tree-vectorize", "-fno-tree-slp-vectorize", "-fcf-protection=none"] if cc == "gcc" else ["-fno-vectorize", "-fno-slp-vectorize"])
        out = os.path.join(c.tmp, "isa-%s-%s-%d" % (v, cc, part))
        c.harness(exe, [out, s, n, part, parts], tag="%s-%s" % (v, cc), timeout=700)
        if not os.path.exists(out):
            return
        ins, fn, names = {}, "?", {}
        start = int(re.search(rb"([0-9a-f]+) \S (__executable_start)\n", core.run(["nm", exe]).out).group(1), 16)
        for l in core.run(["objdump", "-d", "--no-show-raw-insn", exe], timeout=200).out.decode("latin-1").splitlines():
            m = re.match(r"[0-9a-f]+ <([^>]+)>:", l)
            if m:
                fn = m.group(1)
                continue
            m = re.match(r"\s*([0-9a-f]+):\s+(\S+)(.*)", l)
            if m:
                mn, rest = m.group(2), m.group(3).split()
                while mn in ("rep", "repz", "repnz", "lock", "bnd", "data16", "cs", "notrack") or mn.startswith("rex"):
                    if not rest:
                        break
                    mn, rest = rest[0], rest[1:]
                ins[int(m.group(1), 16) - start] = (mn, fn)
        need = {}
        for a, (mn, f) in ins.items():
            n_ = need_of(mn)
            if n_:
                need[a] = n_
        for l in open(out):
            w = l.split()
            words, mx, feat = [int(x) for x in w[:4]], int(w[4]), int(w[5])
            for x in w[6:]:
                a = int(x, 16)
                if a not in ins:
                    c.ev("addresses_not_understood")
                    continue
                c.ev("distinct_instructions_executed")
                if a in need:
                    n_ = need[a]
                    c.ev("instructions_needing_" + n_[0])
                    if not words[n_[1]] >> n_[2] & 1:
                        if n_[0] == "SSE2" and (words[2] >> 29 | words[0] >> 25 | words[0] >> 9) & 1:
                            continue  # a processor with SSSE3, SHA or AES has SSE2
                        c.viol("%s-unsupported:%s" % (n_[0], ins[a][1]), "%s built with %s: %s in %s executed on a processor not reporting %s (highest leaf %d, leaf 1 ecx %08x edx %08x, leaf 7 ebx %08x)" % (v, cc, ins[a][0], ins[a][1], n_[0], mx, words[0], words[1], words[2]), l[:120])
    n = c.scale(120, 2000)
    for part in range(8):
        jobs.append(lambda part=part: j("full", 0, 8, part, n, "gcc"))
    for part in range(2):
        jobs.append(lambda part=part: j("noshani", 1, 2, part, c.scale(8, 100), "gcc"))
        jobs.append(lambda part=part: j("full", 2, 2, part, c.scale(8, 100), "clang"))
    if c.arm_ok():
        jobs.append(lambda: c25.accel(c, "arm", 28, c.scale(60, 600)))
    c.par(jobs)
    for e, k in (("processors_simulated", 60), ("cpuid_instructions", 300), ("instructions_executed_on_simulated_processors", 1000000)):
        c.need(e, k)
    for f in ("SHA", "AES", "RDRAND", "SSSE3", "SSE2"):
        if not c.events.get("instructions_needing_" + f):
            c.assumptions.append("no instruction needing %s was executed: not built, or this processor lacks it" % f)
