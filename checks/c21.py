import os
from vlib import core, fmt

LEVEL = "fault_enumeration"
WR = ("malloc calloc realloc free posix_memalign aligned_alloc strdup mmap munmap clock_gettime clock_getres gettimeofday sysinfo sysconf "
      "getrlimit open read close crypto_scrypt crypto_entropy_read crypto_aes_key_expand crypto_aesctr_init").split()


MSG = {"limit": "Error determining amount of available memory", "clock": "Error reading clocks", "entropy": "Error reading salt"}
PHMSG = {"crypto_scrypt": "Error computing derived key", "crypto_entropy_read": "Error reading salt",
         "crypto_aes_key_expand": "OpenSSL error", "crypto_aesctr_init": "Error allocating memory", "other": "Error allocating memory"}


def command(c):
    """The command: any failing call gives exit status 1 with the message for its cause, or the correct output."""
    exe = c.cli("full", None, name="scrypt_env", srcs=["h_envshim.c"],
                wraps=[w for w in WR if w not in ("free", "munmap", "aligned_alloc", "gettimeofday")] + ["scryptenc_file", "scryptdec_file_prep"])
    pt = b"some plaintext " * 500
    enc = os.path.join(c.tmp, "env.enc")
    open(enc, "wb").write(fmt.encode(b"pw", pt, 5, 2, 1))
    ops = [("enc", ["-M", "4000000", "-t", "0.001"]), ("enc-v", ["-v", "-M", "4000000", "-t", "0.001"]), ("enc-p", ["--logN", "10", "-r", "1", "-p", "2"]),
           ("enc-f", ["-f", "--logN", "10", "-r", "1", "-p", "2"]), ("dec", ["-t", "5"]), ("dec-v", ["-v", "-t", "5"]), ("dec-f", ["-f"])]
    jobs = []
    for name, args in ops:
        def j(name=name, args=args):
            op = name[:3]
            for k in range(1, 400):
                d = os.path.join(c.tmp, "e-%s-%d" % (name, k))
                inp = enc if op == "dec" else os.path.join(c.tmp, "env.plain")
                log, out = d + ".log", d + ".out"
                e = dict(c.env)
                e.update(VE_N=str(k), VE_LOG=log)
                r = core.run([exe, op] + args + ["--passphrase", "file:" + pwf, inp, out], env=e, timeout=60)
                c.case("cli-%s-%d" % (name, k))
                fired = [l.split() for l in open(log)] if os.path.exists(log) else []
                if r.timeout or r.rc not in (0, 1):
                    c.viol("cli_abnormal:%s:%s" % (name, fired[0][0] if fired else "-"), "%s call %d %s: %s" % (name, k, fired, r.text()))
                elif r.rc == 0:
                    c.ev("cli_ok_by_fallback" if fired else "cli_ok")
                    got = open(out, "rb").read()
                    try:
                        ok = (fmt.decode(b"pw", got)[0] if op == "enc" else got) == pt
                    except fmt.Bad as x:
                        ok = False
                    if not ok or (fired and fired[0][2] == "0"):
                        c.viol("cli_false_success:%s:%s" % (name, fired[0][0] if fired else "-"), "%s call %d %s" % (name, k, fired))
                else:
                    c.ev("cli_error")
                    kind, ph, soft = fired[0] if fired else ("none", "", "")
                    want = MSG.get(kind) or PHMSG.get(ph, "?")
                    if want.encode() not in r.err:
                        c.viol("cli_wrong_message:%s:%s:%s" % (name, kind, ph), "call %d: wanted %r, got %r" % (k, want, r.err[-400:]))
                for f in (log, out):
                    if os.path.exists(f):
                        os.unlink(f)
                if not fired:
                    break
        jobs.append(j)
    pwf = os.path.join(c.tmp, "env.pw")
    open(pwf, "w").write("pw\n")
    open(os.path.join(c.tmp, "env.plain"), "wb").write(pt)
    c.par(jobs)
    c.need("cli_error", 60)


def main(c):
    c.rule = ("one evaluation = one encryption/decryption call (operation x explicit/automatic parameters x force x verbose x cold/warm/reseeding "
              "process) with one chosen environment call failing (or two, or one kind persistently), whose return code, result, outstanding "
              "allocations, descriptors and a following undisturbed call are judged; distinct by operation, failing call(s) and error flavour")
    jobs = []

    def j(v, san, mode, s, n):
        soft = v == "soft"
        exe = c.link("h_env_%s_%s" % (v, san), ["h_env.c"], v, san=san, wraps=WR + (["AES_set_encrypt_key"] if soft else []),
                     cflags=["-DSOFTAES"] if soft else [])
        e = {}
        if san:
            e["ASAN_OPTIONS"] = "detect_stack_use_after_return=0:detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"
        c.harness(exe, [mode, s, n], tag="%s-%s" % (v, mode), timeout=600, env=e)
    for v, san in (("full", None), ("soft", None), ("nommap", None), ("nomemalign_mmap", None), ("full", "asan")) + ((("arm", None),) if c.arm_ok() else ()) + ((("m32", None),) if c.m32_ok() else ()):
        for s in range(c.scale(1, 4)):
            jobs.append(lambda v=v, san=san, s=s: j(v, san, "single", 2 * s + (v == "soft"), 0))
        for s in range(c.scale(1, 3)):
            jobs.append(lambda v=v, san=san, s=s: j(v, san, "pair", 10 + s, c.scale(10 if san else 25, 300)))
            jobs.append(lambda v=v, san=san, s=s: j(v, san, "persist", 20 + s, c.scale(8, 60)))
    c.par(jobs)
    command(c)
    for e, m in (("trials_with_fault", 2000), ("later_call_correct", 2000), ("fault_alloc", 500), ("fault_clock", 100), ("fault_limit", 100),
                 ("fault_open", 30), ("fault_read", 30), ("fault_close", 20), ("fault_clockres", 30), ("returned_1", 50), ("returned_2", 50),
                 ("returned_3", 50), ("returned_4", 50), ("returned_5", 20), ("returned_6", 20)):
        c.need(e, m)
