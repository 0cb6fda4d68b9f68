import math, os, random, re, struct
from vlib import fmt, core, limits
from checks.c13 import human


def main(c):
    c.rule = ("one evaluation = one header shown by scrypt info (or refused) and compared with 128-bit arithmetic, or one enc/dec -v on a simulated machine whose parameters, memory limit, "
              "estimated and maximum time were parsed and compared with the model; distinct = distinct (parameters, length, fault) or (command line, machine, file)")
    jobs = []

    def lib(s, san):
        e = c.link("h_info_%s" % san, ["h_info.c"], san=san)
        c.harness(e, [s, c.scale(200000, 5000000) // (5 if san else 1)], tag=san or "")
    jobs += [lambda: lib(1, None), lambda: lib(2, None), lambda: lib(3, "asan")]

    cli = c.cli()
    PAR = re.compile(r"Parameters used: N = (\d+); r = (\d+); p = (\d+);\n")
    MEM = re.compile(r"requires at least ([\d.]+ \w+) of memory(?: \(([\d.]+ \w+) available\))?")
    SEC = re.compile(r"approximately ([\d.]+|inf|nan|-nan) seconds \(limit: ([\d.]+|inf) seconds\)")

    def info(k):
        rng = random.Random("%s-c15i-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "i%d" % k)
        os.makedirs(d)
        for i in range(c.scale(150, 3000)):
            L = rng.choice([rng.randrange(1, 64)] * 4 + [0, 64, 255])
            r = rng.choice([0, 1, 8, 8, 32, rng.randrange(1, 1 << 30), rng.randrange(1 << 32)])
            p = rng.choice([0, 1, 1, 2048, rng.randrange(1, 1 << 12), rng.randrange(1 << 32)])
            if rng.random() < .6 and not 0 < r * p < 1 << 30:
                r, p = rng.randrange(1, 1 << 20), rng.randrange(1, 1 << 9)
            f = fmt.header(rng.randbytes(32), L, r, p) + rng.randbytes(rng.choice([32, 64, 500]))
            want = b"" if 1 <= L <= 63 and 0 < r * p < 1 << 30 else b"Input is not valid scrypt-encrypted block"
            k2 = rng.randrange(8)
            if k2 == 0:
                f, want = f[:rng.choice([0, 1, 5, 6, 7, 8, 16, 48, 64, 95, rng.randrange(96)])], b"Input is not valid scrypt-encrypted block"
            elif k2 == 1:
                f, want = f[:6] + bytes([rng.randrange(1, 256)]) + f[7:], b"Unrecognized scrypt format version"
            elif k2 == 2:
                f, want = rng.choice([rng.randbytes(200), b"Scrypt" + f[6:], b"scrypT" + f[6:], bytes(128)]), b"Input is not valid scrypt-encrypted block"
            path = os.path.join(d, "f")
            open(path, "wb").write(f)
            opts = rng.choice([[], [], ["-v"], ["-f"], ["-fv"], ["--passphrase", "dev:tty-once"], ["--passphrase", "file:/nonexistent"], ["--passphrase", "env:UNSET"]])
            via = rng.randrange(3)
            rd, wr = os.pipe()
            if via == 0:
                os.write(wr, f)
                os.close(wr)
                res = core.run([cli, "info"] + opts + ["-"], stdin=rd, env=c.env, cwd=d)
            else:
                os.write(wr, b"untouched")
                os.close(wr)
                if via == 1:
                    opts = opts + ["-P"] if not any("pass" in x for x in opts) else opts
                res = core.run([cli, "info"] + opts + [path], stdin=rd, env=c.env, cwd=d)
                if os.read(rd, 100) != b"untouched":
                    c.viol("info-reads-stdin", "info %s reads standard input" % opts)
            os.close(rd)
            t = res.err.decode("utf-8", "replace")
            desc = "info%s of logN=%d r=%d p=%d, %d bytes, variation %d" % (" ".join([""] + opts), L, r, p, len(f), k2)
            c.case(("info", L, r, p, len(f), k2, via))
            c.ev("info_commands")
            if res.timeout or res.out or os.listdir(d) != ["f"] or open(path, "rb").read() != f:
                c.viol("info-effects", desc + ": " + res.text())
            if want:
                c.ev("info_refused")
                if res.rc != 1 or want not in res.err or PAR.search(t):
                    c.viol("info-diagnosis", "%s should fail with %s: %s" % (desc, want, res.text()))
                continue
            m, mm = PAR.search(t), MEM.search(t)
            mem = min(128 * r << L, 2**64 - 1)
            if res.rc != 0 or not m or tuple(map(int, m.groups())) != (1 << L, r, p) or not mm or mm.group(1) != human(mem) or mm.group(2):
                c.viol("info-text", "%s (memory %s): %s" % (desc, human(mem), res.text()))
            c.sample(desc + ": " + " ".join(t.split()))
        for args, want in ((["info", os.path.join(d, "missing")], b"Cannot open input file"), (["info", d], b"Error reading file")):
            res = core.run([cli] + args, env=c.env, cwd=d)
            c.case(("info", want))
            if res.rc != 1 or want not in res.err or res.out:
                c.viol("info-unreadable", "%s: %s" % (args, res.text()))
    for k in range(3):
        jobs.append(lambda k=k: info(k))

    def verbose(c_, exe, rng, d, n, m32=False):
        for i in range(n):
            ram, as_, rss, S, env = limits.machine(rng, c, d, i)
            dec = rng.random() < .5
            a, frac, maxmem, t = limits.args_for(rng, dec)
            if m32 and maxmem >> 32:
                continue
            M, ops = limits.memlimit(ram, as_, rss, frac, maxmem, m32), S * t
            force = rng.random() < .2
            expl = []
            if dec:
                L, r, p = rng.choice([rng.randrange(1, 30), rng.randrange(1, 64)]), rng.choice([1, 8, 3, rng.randrange(1, 1 << 20)]), rng.choice([1, 2, rng.randrange(1, 1 << 12)])
                if rng.random() < .6:
                    L = max(1, min(40, (M // (128 * r)).bit_length() - rng.randrange(0, 3)))
                    p = max(1, min((1 << 30) // r - 2, int(min(ops, 1e30) / (4 * r << L) * rng.choice([0.4, 0.9, 1.1, 2]))))
                if not 0 < r * p < 1 << 30:
                    continue
                inp = limits.simencode(b"pass", b"data", L, r, p, rng.randbytes(32))
            else:
                inp = rng.randbytes(20)
                if rng.random() < .4:
                    L, r, p = rng.randrange(10, 41), rng.randrange(1, 33), rng.randrange(1, 2049)
                    expl = ["--logN", str(L), "-r", str(r), "-p", str(p)]
                else:
                    if limits.edge(M, ops):
                        continue
                    L, r, p = limits.pick(M, ops)
            forced = force and (dec or expl)
            res = core.run([exe, "dec" if dec else "enc", "-v"] + a + expl + (["-f"] if force else []) + ["--passphrase", "env:VP", "-"], input=inp, env=env)
            tx = res.err.decode("utf-8", "replace")
            desc = "%s -v %s%s of logN=%d r=%d p=%d on a machine with %d bytes (AS %s, RSS %s) and %g cores/s" % ("dec" if dec else "enc", " ".join(a + expl), " -f" if force else "", L, r, p, ram, as_, rss, S)
            c.case(("v", dec, tuple(a), ram, as_, rss, S, L, r, p, force))
            c.ev("verbose_commands")
            m, mm, ss = PAR.search(tx), MEM.search(tx), SEC.search(tx)
            mem, est = min(128 * r << L, 2**64 - 1), (4 * r * p << L) / S
            if not m or tuple(map(int, m.groups())) != (1 << L, r, p):
                c.viol("verbose-parameters", "%s: %s" % (desc, res.text()))
                continue
            if not dec and (res.rc != 0 or fmt.params(res.out) != (L, r, p)):
                c.viol("verbose-not-used", "%s: file has %s: %s" % (desc, fmt.params(res.out) if len(res.out) > 16 else None, res.text()))
            if not mm or mm.group(1) != human(mem):
                c.viol("verbose-memory", "%s: memory needed is %s: %s" % (desc, human(mem), res.text()))
            elif forced:
                c.ev("verbose_forced")
                if mm.group(2) or ss:
                    c.viol("verbose-forced", "%s: limits shown although not enforced: %s" % (desc, res.text()))
            else:
                c.ev("verbose_limits")
                if mm.group(2) != human(M):
                    c.viol("verbose-available", "%s: memory limit is %s: %s" % (desc, human(M), res.text()))
                if not ss:
                    c.viol("verbose-time-missing", "%s: %s" % (desc, res.text()))
                else:
                    e, l = float(ss.group(1)), float(ss.group(2))
                    if not abs(e - est) <= 0.051 + 1e-9 * est:
                        c.viol("verbose-estimate", "%s: estimate is %.3f s: %s" % (desc, est, res.text()))
                    if not (l == t or abs(l - t) <= 0.051 + 1e-9 * t):
                        c.viol("verbose-limit", "%s: limit is %g s: %s" % (desc, t, res.text()))
            if tx.count("Parameters used") != 1:
                c.viol("verbose-repeated", "%s: %s" % (desc, res.text()))
            c.sample(desc + ": " + " ".join(tx.split())[:200])
    jobs += limits.cli_jobs(c, verbose, c.scale(500, 8000), 3)
    c.par(jobs)
    for e, n in (("infos_shown", 50000), ("infos_saturated", 1000), ("infos_invalid", 10000), ("infos_version", 5000), ("infos_readerror", 5000), ("info_commands", 400), ("info_refused", 100), ("verbose_limits", 400), ("verbose_forced", 100)):
        c.need(e, n)
