import os, random
from vlib import core, fmt, tty

WR = "malloc,calloc,realloc,free,posix_memalign,aligned_alloc,strdup,mmap,munmap".split(",")
CW = WR + ["crypto_scrypt", "main", "exit"]
ENTRY = ["passphrase_entry_readpass", "libcperciva_readpass", "readpass_file"]


def clilink(c, name, variant, cc):
    lib, _ = c.build(variant, cc=cc)
    have = [x for x in ENTRY if (" T %s\n" % x).encode() in core.run(["nm", lib]).out]
    return c.link(name, ["h_residmain.c"], variant, cc=cc, wraps=CW + have, libs=["-Wl,-z,now"], with_main=True, cflags=["-DW_" + x for x in have])


def main(c):
    c.rule = ("one evaluation = one library call (encrypting, decrypting, two-phase decryption) or one run of the command, successful or with a wrong passphrase, damaged data, a read or write error or a failing "
              "allocation, on a stack of its own with every heap block followed; blocks at release, the stack, static memory and blocks never released were searched for the derived keys, the AES schedule, "
              "the padded MAC key and (command) the passphrases typed; distinct = distinct (interface, scenario, lengths, fault position)")
    jobs = []
    for variant, san, cc in (("full", None, "gcc"), ("full", None, "clang"), ("soft", None, "gcc"), ("full", "asan", "gcc")) + ((("m32", None, "gcc"),) if c.m32_ok() else ()):
        jobs.append(lambda variant=variant, san=san, cc=cc: c.harness(c.link("h_zero-%s-%s-%s" % (variant, san, cc), ["h_zero.c"], variant, san=san, cc=cc), [1], tag="zero-%s-%s-%s" % (variant, san, cc)))
    for i, (variant, cc) in enumerate([("full", "gcc"), ("full", "clang"), ("soft", "gcc"), ("noshani", "gcc"), ("nommap", "gcc"), ("nosse2", "clang")] + ([("arm", "gcc")] if c.arm_ok() else [])):
        def job(i=i, variant=variant, cc=cc):
            exe = c.link("h_resid-%s-%s" % (variant, cc), ["h_resid.c"], variant, cc=cc, wraps=WR + ["crypto_scrypt"], libs=["-Wl,-z,now"])
            c.harness(exe, [i, c.scale(2, 60)], tag="%s-%s" % (variant, cc), timeout=800)
        jobs.append(job)

    def cli(s, variant, cc):
        name = "scrypt-resid-%s-%s" % (variant, cc)
        exe = clilink(c, name, variant, cc)
        rng = random.Random("%s-c19-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "m%d" % s)
        os.makedirs(d)
        pj = lambda x: os.path.join(d, x)
        P = lambda: bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&/()=?+*~#-_.:,;<>| ") for _ in range(rng.choice([12, 16, 30, 63, 64, 65, 128, 300, 1500, 2040])))
        for i in range(c.scale(160, 5000)):
            for x in os.listdir(d):
                os.unlink(pj(x))
            mode = rng.choice(["enc", "dec"])
            method = rng.choice(["env", "file", "-P", "stdin-once", "default", "tty-stdin", "tty", "tty-once"])
            pw = P()
            secrets = [pw]
            env = dict(c.env)
            term = method.startswith("tty-once") or method == "tty"
            if term:
                pw = secrets[0] = pw[:1000]
            what, stdin, args = "", b"", []
            if method == "env":
                env["VP"] = pw.decode()
                args = ["--passphrase", "env:VP"]
            elif method == "file":
                k = rng.randrange(6)
                body = pw + b"\n"
                if k == 0:
                    secrets.append(P())
                    body, what = body + secrets[1] + b"\n", "second line"
                elif k == 1:
                    long = P() * 200
                    secrets = [long[:2047]]
                    body, what = long[:rng.choice([2048, 3000])], "line too long"
                elif k == 2:
                    body = pw
                elif k == 3:
                    body = pw + b"\r\n"
                open(pj("pw"), "wb").write(body)
                args = ["--passphrase", "file:" + pj("pw")]
            elif method in ("-P", "stdin-once"):
                args = ["-P"] if method == "-P" else ["--passphrase", "dev:stdin-once"]
                stdin = pw + rng.choice([b"\n", b"", b"\r\n"])
            else:
                args = {"default": [], "tty": [], "tty-stdin": ["--passphrase", "dev:tty-stdin"], "tty-once": ["--passphrase", "dev:tty-once"]}[method]
                two = mode == "enc" and method != "tty-once"
                stdin = (pw + b"\n") * (2 if two else 1)
                if two and rng.random() < .4:
                    w1, w2 = P()[:1000], P()[:1000]
                    secrets += [w1, w2]
                    stdin = w1 + b"\n" + w2 + b"\n" + stdin
                    what = "mistyped"
                if rng.random() < .2:
                    stdin = b"" if not two else stdin[:stdin.rindex(b"\n", 0, -1) + 1]
                    what += " end of input"
                    if term:
                        stdin += b"\x04"
            inp = rng.randbytes(rng.choice([0, 1, 100, 5000, 70000]))
            if mode == "dec":
                inp = fmt.encode(pw, inp, rng.choice([4, 10]), 1, 1, rng.randbytes(32))
                k = rng.randrange(7)
                if k == 0:
                    inp, what = fmt.encode(pw[:-1] + b"@@", b"other", 4, 1, 1, rng.randbytes(32)), what + " wrong passphrase"
                elif k == 1:
                    p = rng.randrange(len(inp))
                    inp, what = inp[:p] + bytes([inp[p] ^ 4]) + inp[p + 1:], what + " changed byte"
                    if p in range(7, 16):
                        inp = inp[:7] + b"\x50" + inp[8:]
                elif k == 2:
                    inp, what = inp[:rng.randrange(len(inp))], what + " truncated"
            open(pj("in"), "wb").write(inp)
            infile, outfile = pj("in"), rng.choice([pj("out"), pj("out"), None])
            k = rng.randrange(12)
            if k == 0:
                outfile, what = pj("no/such/dir"), what + " output cannot be opened"
            elif k in (1, 2):
                outfile, what = "/dev/full", what + " disk full"
            elif k == 3:
                infile, what = d, what + " input is a directory"
            elif k == 4:
                infile, what = pj("missing"), what + " input missing"
            if rng.random() < .3:
                env["VR_FAILAT"] = str(rng.randrange(1, 14))
                what += " allocation %s fails" % env["VR_FAILAT"]
            env["VR_LOG"], env["VR_SECRETS"] = pj("log"), pj("secrets")
            open(pj("secrets"), "wb").write(b"".join(x + b"\0" for x in secrets))
            argv = [exe, mode] + (["--logN", "10", "-r", "1", "-p", "1"] if mode == "enc" else ["-f"]) + args + (["-v"] if rng.random() < .2 else []) + [infile] + ([outfile] if outfile else [])
            if term:
                r = tty.run(argv, stdin, env=env, cwd=d)
            else:
                r = core.run(argv, input=stdin, env=env, cwd=d)
            desc = "scrypt %s, %s%s" % (mode, method, ":" + what if what else "")
            log = open(pj("log")).read() if os.path.exists(pj("log")) else ""
            rep = {"argv": argv[1:], "stdin": stdin[:4000], "rc": r.rc, "stderr": r.err[-300:]}
            c.case((mode, method, what, len(pw), len(inp), i))
            c.sample("%s -> %s" % (desc, r.rc))
            c.ev("command_runs")
            c.ev("command_runs_failing" if r.rc else "command_runs_succeeding")
            done = False
            for l in log.splitlines():
                f = l.split("\t")
                if f[0] == "LEFT":
                    c.viol("cli:%s:%s:%s" % (f[2], f[1], method if "pass" in f[2] else mode), "%s bytes of %s found in %s: %s" % (f[3], f[2], f[1], desc), rep)
                if l == "KDF":
                    c.ev("command_key_derivations")
                if l.startswith("DONE"):
                    done = True
                    f = l.split()
                    c.ev("command_blocks_scanned", int(f[2]))
                    c.ev("command_stack_scans", int(f[6]))
                    if int(f[12]):
                        c.ev("command_allocation_failures")
            if not done and r.rc == -6 and "VR_FAILAT" in env and b"getopt" in r.err:
                c.ev("command_runs_without_memory_for_options")
            elif not done:
                if r.timeout or (r.rc is not None and r.rc < 0):
                    c.viol("died", "%s: %s" % (desc, r.text()), rep)
                else:
                    raise core.CheckError("monitor did not finish: %s: %s" % (desc, r.text()))
    for s, (v, cc) in enumerate([("full", "gcc"), ("full", "gcc"), ("full", "clang"), ("soft", "gcc")]):
        jobs.append(lambda s=s, v=v, cc=cc: cli(s, v, cc))
    c.par(jobs)
    for e, n in (("calls", 5000), ("zeroings_checked", 50000), ("calls_failing", 3000), ("calls_with_keys_known", 3000), ("heap_blocks_scanned_at_release", 20000), ("command_runs", 500), ("command_runs_failing", 150), ("command_runs_succeeding", 150),
                 ("command_key_derivations", 200), ("command_blocks_scanned", 1000), ("command_allocation_failures", 50)):
        c.need(e, n)
    c.assumptions.append("stack residue is judged for optimised (-O2) builds; 32 or more consecutive bytes of key material, 12 of a passphrase count as remaining")
