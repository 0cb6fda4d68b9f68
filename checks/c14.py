import os, random, re
from vlib import fmt, core, limits


def corpus(c, d):
    rng = random.Random("corpus-%d" % c.seed)
    os.makedirs(d)
    n = 0

    def put(b):
        nonlocal n
        open(os.path.join(d, "s%03d" % n), "wb").write(b)
        n += 1
    for op in range(4):
        for how in (0, 1, 3, 7, 31):
            for k in (0, 1, 40):
                put(bytes([op, how, rng.randrange(256)]) + fmt.encode(b"fuzz-pass", rng.randbytes(k), 1, 1, 1))
    for op in (4, 5, 6):
        for t in (b"pass\n", b"pass\r\n", b"a\nb", b"", b"x" * 2047, b"x" * 2050):
            put(bytes([op, rng.choice([0, 1, 2, 128])]) + t)
    for op in (7, 8):
        put(bytes([op, 7, 0, 2, 1, 2]) + rng.randbytes(50))
        put(bytes([op, 0, 0, 9, 3, 20, 40, 9]) + rng.randbytes(50))
        put(bytes([op, 2 | 16, 0, 9, 0, 0, 0, 2, 0, 0, 0, 1, 255, 255, 255, 255]) + rng.randbytes(50))
    for t in (b"dev:tty-stdin", b"env:X", b"file:x", b"dev:stdin-once", b"foo:"):
        put(bytes([9, 0]) + t)
    for t in (b"10 kB", b"18446744073709551615", b"1EB", b"0.5", b"1e10", b"nan", b"-1", b"inf", b"40"):
        put(bytes([10, rng.randrange(2)]) + t)


TOK = ["enc", "dec", "info", "--version", "-f", "-v", "-P", "-fv", "-vf", "-Pf", "--logN", "--logN=10", "--logN=9", "-r", "-r8", "-p", "-p1", "-t", "-t5", "-tinf", "-tnan",
       "-M", "-M1GB", "-M 1 MB", "-m", "-m.5", "-m0", "--passphrase", "--passphrase=env:VP", "--passphrase=file:pw", "--passphrase=dev:stdin-once", "--passphrase=dev:tty-once", "--passphrase=dev:tty-stdin",
       "--passphrase=", "--passphrase=x:y", "--", "-", "in", "good", "missing", "out", "dir", "", "-x", "--foo", "--foo=bar", "-", "---", "-=", "--=", "--logN=", "env:VP", "env:", "file:pw", "file:missing", "file:dir", "file:", "dev:stdin-once", "dev:tty-once",
       "0", "1", "8", "10", "12", "40", "41", "-1", "4294967296", "4294967297", "18446744073709551616", "99999999999999999999999999", "0.5", ".1", "1e-400", "1e400", "nan", "inf", "-inf", "0x10", "1x", " 1", "+1", "1 ", "1k", "1 kB", "16EB", "18EB", "19EB", "1Q", "B", "\xff", "%s%n", "a" * 5000]


def cmdline(rng):
    k = rng.randrange(3)
    if k == 0:
        a = [rng.choice(TOK) for _ in range(rng.randrange(9))]
    elif k == 1:
        a = [rng.choice(["enc", "dec", "info"])] + [rng.choice(TOK) for _ in range(rng.randrange(7))]
    else:
        a = [rng.choice(["enc", "dec", "info"])]
        for _ in range(rng.randrange(5)):
            o = rng.choice(["--logN", "-r", "-p", "-t", "-M", "-m", "--passphrase"])
            v = rng.choice(TOK[58:])
            a += rng.choice([[o, v], [o + v], [o + "=" + v]])
        if rng.random() < .5:
            a += ["--passphrase", rng.choice(["env:VP", "file:pw", "dev:stdin-once", "dev:tty-once", "dev:tty-stdin"])]
        a += rng.choice([["in"], ["good"], ["-"], ["in", "out"], ["good", "out"], ["-", "out"], ["--", "-", "out"], ["--", "good"]])
    if rng.random() < .15:
        a = [rng.choice(["enc", "dec"]), rng.choice(["-f", "-v", "-fv", "-t5", "-M1GB"]), "--passphrase", "env:VP"] + rng.choice([["in"], ["good"], ["good", "out"], ["in", "out"], ["-"]])
    if rng.random() < .3 and a:
        # conversions, long runs and separators at any place of an argument, once more the option names and methods included
        if rng.random() < .5:
            a[1:1] = rng.choice([["--passphrase"], ["--passphrase"], ["-M"], ["-t"], ["--logN"], ["-m"]]) + [rng.choice(["env:VP", "file:pw", "dev:tty-once", "x:y", "1", ":", "a=b", "1 kB"])]
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(a))
            j = rng.randrange(len(a[i]) + 1)
            bit = rng.choice(["%n%s%n%s%n", "%s%s%s%s%s%s", "%n", "%99999999d", "%*d%n", "%", "%%n", "x" * 300, "=" * 40, ":" * 40, "x" * 70000, "\n%s", "\x7f\x1b[0m", "-" * 9])
            a[i] = a[i][:j] + bit + a[i][j if rng.random() < .6 else rng.randrange(j, len(a[i]) + 1):]
    if rng.random() < .1:
        a = [x if rng.random() < .7 else "".join(chr(rng.choice([rng.randrange(1, 256), rng.randrange(32, 127)])) for _ in range(rng.randrange(12))) for x in a]
    return [os.fsencode(x) if all(ord(ch) < 128 for ch in x) else x.encode("latin-1", "replace") for x in a]


def main(c):
    c.rule = ("one evaluation = one hostile input (bytes offered to a decryption, info or passphrase interface; arbitrary data and parameters to encrypt; numbers, sizes and "
              "methods to parse; a command line with its environment) processed by the code under AddressSanitizer+UBSan+LeakSanitizer, MemorySanitizer or valgrind, "
              "required to end with a documented status and message; distinct = distinct inputs")
    jobs = []

    def lib(san, v, s, n, cc=None):
        e = c.link("h_fuzz_%s_%s" % (san, v), ["h_fuzz.c"], v, san=san)
        c.harness(e, [s, n], tag="%s-%s" % (san, v), timeout=800)
    for s in range(c.scale(3, 12)):
        jobs.append(lambda s=s: lib("asan", "full", s, c.scale(16000, 400000)))
    for i, v in enumerate(("noshani", "nosse2", "soft", "nommap") + (("arm",) if c.arm_ok() else ())):
        jobs.append(lambda v=v, i=i: lib("asan", v, 100 + i, c.scale(4000, 100000)))
    for i, v in enumerate(("full", "noshani", "nosse2")):
        jobs.append(lambda v=v, i=i: lib("msan", v, 200 + i, c.scale(6000, 150000)))

    if c.m32_ok():
        for i, v in enumerate(("m32", "m32soft", "m32nommap")):
            jobs.append(lambda v=v, i=i: lib(None, v, 300 + i, c.scale(8000, 100000)))

    def fuzz(s):
        e = c.link("h_fuzz_libfuzzer", ["h_fuzz.c"], "full", san="asan", extra=("-fsanitize=fuzzer-no-link",), cflags=["-DLIBFUZZER", "-fsanitize=fuzzer"])
        d = os.path.join(c.tmp, "corpus%d" % s)
        corpus(c, d)
        n = c.scale(25000, 1500000)
        r = core.run([e, "-runs=%d" % n, "-seed=%d" % (c.seed * 100 + s + 1), "-max_len=%d" % (700 if s % 2 == 0 else 4200), "-timeout=60", "-rss_limit_mb=4000", "-print_final_stats=1",
                      "-artifact_prefix=" + d + "/crash-", "-verbosity=0", d], env=c.env, timeout=c.scale(400, 3000), cwd=d)
        t = r.err.decode("utf-8", "replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        if r.rc != 0 or r.timeout:
            art = [x for x in os.listdir(d) if x.startswith("crash-")]
            b = open(os.path.join(d, art[0]), "rb").read() if art else b""
            c.viol("fuzz:" + core.Check.crash_kind(r), "coverage-guided input ends abnormally: rc=%s %s" % (r.rc, t[-2500:]), {"input": b[:5000]})
        elif m:
            k = int(m.group(1))
            c.ev("coverage_guided_inputs", k)
            c.ev("coverage_guided_corpus_growth", max(0, len(os.listdir(d)) - 60))
            with c.lock:
                c.evals += k
                c.ndistinct += len(os.listdir(d))
        else:
            raise core.CheckError("no statistics from libFuzzer: " + t[-500:])
    for s in range(c.scale(4, 8)):
        jobs.append(lambda s=s: fuzz(s))

    BAD = re.compile(rb"Sanitizer|runtime error|Assertion|core dumped|terminated|==\d+==")

    def args(s):
        e = c.link("scrypt-fuzz-asan", ["h_simshim.c"], "full", san="asan", with_main=True, wraps=limits.WRAPS)
        rng = random.Random("%s-c14-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "args%d" % s)
        for i in range(c.scale(450, 12000)):
            if i % 25 == 0:
                os.makedirs(d, exist_ok=True)
                os.makedirs(os.path.join(d, "dir"), exist_ok=True)
                open(os.path.join(d, "in"), "wb").write(rng.randbytes(rng.randrange(300)))
                open(os.path.join(d, "pw"), "wb").write(rng.choice([b"pass\n", b"pass", b"a\nb\n", b"", b"x" * 2047, b"\n", b"pa\0ss\n", b"x" * 4000]))
                open(os.path.join(d, "good"), "wb").write(limits.simencode(b"pass", b"data", 12, 8, 1, rng.randbytes(32)))
            a = cmdline(rng)
            # nothing but plain names in the scratch directory may be opened or created
            a = [x for x in a if b"/" not in x and b"\0" not in x and not x.startswith(b"..")]
            stdin = rng.choice([b"", b"pass\n", b"pass\npass\n", b"a\nb\n", b"x" * 5000 + b"\n", rng.randbytes(100), limits.simencode(b"pass", b"data", 3, 1, 1, bytes(32))])
            env = dict(c.env, VS_US=str(rng.choice([1, 1000, 10**6])), VS_RAM=str(rng.choice([1 << 20, 1 << 30, 1 << 45])))
            if rng.random() < .8:
                env["VP"] = rng.choice(["pass", "", "x" * 5000, "p\xe9ss"])
            if rng.random() < .1:
                env["POSIXLY_CORRECT"] = "1"
            av = [e] + a
            r = core.run(av, input=stdin, env=env, cwd=d, timeout=60, fsize=1 << 24)
            c.case((tuple(a), stdin[:20], env.get("VP", "")[:5]))
            c.ev("command_lines")
            c.ev("command_status_%s" % r.rc)
            desc = "scrypt %s, stdin %r" % (" ".join(repr(x)[1:] for x in a), stdin[:30])
            rep = {"args": [x.decode("latin-1") for x in a], "stdin": stdin, "VP": env.get("VP")}
            if r.timeout:
                c.viol("cli-hang", desc, rep)
            elif BAD.search(r.err):
                c.viol("cli-sanitizer:" + core.Check.crash_kind(r), desc + ": " + r.err[:2500].decode("utf-8", "replace"), rep)
            elif r.rc not in (0, 1):
                c.viol("cli-status", "%s: %s" % (desc, r.text()), rep)
            elif r.rc == 1 and not r.err.strip():
                c.viol("cli-silent", desc + ": status 1 without a message", rep)
            for x in os.listdir(d):
                if x not in ("in", "pw", "good", "dir"):
                    try:
                        os.unlink(os.path.join(d, x))
                    except OSError:
                        pass
    for s in range(4):
        jobs.append(lambda s=s: args(s))

    def vg(s):
        """valgrind memcheck on the plain command: uninitialised memory including inside libc and libcrypto, leaks"""
        e = c.cli("full" if s % 2 == 0 else "soft", opt="-O1")
        rng = random.Random("%s-vg-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "vg%d" % s)
        os.makedirs(d)
        fi, fo, pw = (os.path.join(d, x) for x in ("i", "o", "pw"))
        for i in range(c.scale(5, 60)):
            k = (s * 5 + i) % 8
            n = rng.choice([0, 1, 33, 100, 70000])
            data = rng.randbytes(n)
            f = bytearray(fmt.encode(b"pass", data, 1, 1, 1))
            open(pw, "wb").write(b"pass\n")
            a, want = ["dec", "-f", "--passphrase", "file:" + pw, fi, fo], 0
            if k == 0:
                f[rng.randrange(96, len(f))] ^= 1
                want = 1
            elif k == 1:
                f = f[:rng.randrange(128)]
                want = 1
            elif k == 2:
                a, f = ["enc", "-f", "-v", "--logN", "10", "-r", "1", "-p", "1", "-P", fi, fo], data
            elif k == 3:
                a = ["info", fi]
            elif k == 4:
                f[50] ^= 1
                a, want = ["info", fi], 0
            elif k == 5:
                a = ["dec", "-v", "-P", fi, fo]
            elif k == 6:
                f, a = data, ["enc", "-t", "0", "-M", "1MB", "--passphrase", "env:VP", fi, fo]
            open(fi, "wb").write(bytes(f))
            r = core.run(["valgrind", "-q", "--error-exitcode=55", "--leak-check=full", "--show-leak-kinds=definite,indirect", "--errors-for-leak-kinds=definite,indirect", "--track-fds=no", e] + a, input=b"pass\n", env=dict(c.env, VP="pass"), timeout=300)
            c.case(("vg", s, i))
            c.ev("valgrind_commands")
            if r.timeout or r.rc != want or b"== " in r.err:
                c.viol("valgrind", "scrypt %s (case %d): %s" % (" ".join(a), k, r.text()), {"args": a, "input": bytes(f)[:3000]})
    for s in range(c.scale(2, 4)):
        jobs.append(lambda s=s: vg(s))
    c.par(jobs)
    for e, n in (("command_lines", 1000), ("command_status_0", 50), ("command_status_1", 500), ("coverage_guided_inputs", 20000), ("valgrind_commands", 8),
                 ("status_0", 5000), ("status_7", 5000), ("status_11", 100), ("status_12", 100), ("status_13", 100), ("operation_4", 1000), ("operation_6", 1000), ("operation_10", 1000)):
        c.need(e, n)
    c.assumptions.append("passphrases and plaintext have bounded size in the fuzzed interfaces; expensive valid parameters are only offered with limits that refuse them")
