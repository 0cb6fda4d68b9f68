import os, random, re
from vlib import core, fmt

WR = "malloc calloc realloc free posix_memalign aligned_alloc strdup mmap munmap crypto_scrypt".split()


def main(c):
    c.rule = ("one evaluation = one library call (derivation, encryption, decryption, two-phase decryption; successful, refused for its header or limits, wrong passphrase, damaged "
              "data) with all allocations and mappings followed and key derivations counted, or one run of the command with its peak memory measured; distinct = distinct "
              "(interface, outcome, parameters, data length)")
    jobs = []

    def lib(v, san, s, n):
        e = c.link("h_cost_%s_%s" % (v, san), ["h_cost.c"], v, san=san, wraps=WR)
        c.harness(e, [s, n], tag="%s-%s" % (v, san), timeout=600)
    for s in range(c.scale(2, 8)):
        jobs.append(lambda s=s: lib("full", None, s, c.scale(400, 8000)))
    for v in ("nommap", "nomemalign", "nomemalign_mmap", "nosse2"):
        jobs.append(lambda v=v: lib(v, None, 50, c.scale(200, 3000)))
    if c.m32_ok():
        for v in ("m32", "m32nommap", "m32nomemalign"):
            jobs.append(lambda v=v: lib(v, None, 60, c.scale(120, 2000)))
    cli = c.cli()
    runner = c.link("h_cost_full_None", ["h_cost.c"], "full", wraps=WR)

    def cmd(s):
        rng = random.Random("%s-c26-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "cmd%d" % s)
        os.makedirs(d)
        pj = lambda x: os.path.join(d, x)
        env = dict(c.env, VP="pass")

        def rss(args, **kw):
            r = core.run([runner, "-run", cli] + args, env=env, cwd=d, timeout=120, **kw)
            m = re.search(rb"\nRSS (\d+) STATUS (\d+)\n", r.err)
            if not m:
                raise core.CheckError("no measurement: " + r.text())
            return int(m.group(1)) << 10, int(m.group(2)), r
        open(pj("tiny"), "wb").write(fmt.encode(b"pass", b"x", 1, 1, 1, b"s" * 32))
        base = max(rss(["dec", "-f", "--passphrase", "env:VP", pj("tiny"), pj("o")])[0] for _ in range(3))
        for i in range(c.scale(14, 150)):
            n = rng.choice([0, 1000, 3 << 20, 20 << 20])
            data = rng.randbytes(n)
            open(pj("in"), "wb").write(data)
            logN, r_, p = rng.choice([(10, 1, 2048), (12, 8, 1), (14, 8, 1), (15, 8, 1), (10, 32, 500), (13, 32, 2), (16, 8, 1)])
            via = rng.choice(["explicit", "limits", "dec"])
            if via == "explicit":
                args = ["enc", "-f", "--logN", str(logN), "-r", str(r_), "-p", str(p), "--passphrase", "env:VP"]
            elif via == "limits":
                args = ["enc", "-M", "%dMB" % rng.choice([2, 5, 17, 40]), "-t", "0.2", "-v", "--passphrase", "env:VP"]
            else:
                open(pj("in"), "wb").write(fmt.encode(b"pass", data, logN, r_, p, rng.randbytes(32)))
                args = ["dec", "-f", "--passphrase", "env:VP"]
            piped = rng.random() < .5
            src = open(pj("in"), "rb").read() if piped else None
            got, st, r = rss(args + ["-" if piped else pj("in"), pj("out")], **({"input": src} if piped else {}))
            if st:
                c.viol("command-failed", "%s: status %d %s" % (args, st, r.text()), {"args": args})
                continue
            if via != "dec":
                logN, r_, p = fmt.params(open(pj("out"), "rb").read())
            need = (128 * r_ << logN) + 128 * r_ * p + 256 * r_
            c.ev("commands_measured")
            c.ev("commands_" + via)
            c.case((via, logN, r_, p, n, piped))
            if got > base + need + (3 << 20):
                c.viol("command-memory:" + via, "scrypt %s on %d bytes (logN %d r %d p %d) used %d KiB of memory, with little to do %d KiB; parameters announce %d KiB" % (" ".join(args), n, logN, r_, p, got >> 10, base >> 10, need >> 10), {"args": args})
            if got > base + need // 2 and need > 4 << 20:
                c.ev("peaks_near_the_announced_memory")
            c.sample("%s: peak %d KiB, announced %d KiB, base %d KiB" % (" ".join(args[:6]), got >> 10, need >> 10, base >> 10))
    for s in range(3):
        jobs.append(lambda s=s: cmd(s))
    c.par(jobs)
    for e, n in (("operations_with_derivation", 500), ("operations_without_derivation", 50), ("refused_cheaply", 50), ("peaks_near_the_announced_memory", 50),
                 ("operations_measuring_the_machine", 10), ("operations_on_much_data", 30), ("commands_measured", 30)):
        c.need(e, n)
