import errno, os, random, resource, signal, string, subprocess
from vlib import core, fmt
LEVEL = "exploration"
AL = string.ascii_letters + string.digits


def main(c):
    c.rule = ("one evaluation = one message (warn, warnx, scryptenc_print_error; random program name, text of up to 20000 bytes with conversions, errno; to standard error or syslog) compared byte for byte, "
              "or one failing run of the command, called by some name on file names of every kind, whose message must name the program, the file in full and the reason the system gave; "
              "distinct = distinct (function, length, errno) and (mode, failure, name)")
    jobs = []

    def j(v, seeds, san=None):
        e = c.link("h_warn_%s_%s" % (v, san), ["h_warn.c"], v, san=san, wraps=["syslog", "vsyslog", "__syslog_chk", "__vsyslog_chk", "closelog"])
        for s in seeds:
            c.harness(e, [s, 1500], tag="%s-%s" % (v, san))
    n = c.scale(6, 80)
    jobs.append(lambda: j("full", range(n)))
    jobs.append(lambda: j("full", range(100, 100 + n), "asan"))
    if c.m32_ok():
        jobs.append(lambda: j("m32", range(200, 200 + n // 2)))
    exe = c.cli()

    def cli(k):
        rng = random.Random("%s-c31-%d" % (c.seed, k))
        for i in range(c.scale(90, 1500)):
            d = os.path.join(c.tmp, "m%d-%d" % (k, i))
            os.makedirs(d)
            word = lambda n: "".join(rng.choice(AL) for _ in range(n))
            odd = rng.choice([word(5), word(200), "a b", "%s%n%d", "x:y", "Error", "'q'\"", "\xe9\u20ac", "tab\there", "-dash", "a\\n", "x" * 255, "~", "$HOME", "..." + word(3)])
            deep = d
            if rng.random() < .3:  # long path names
                for _ in range(rng.randrange(1, 14)):
                    deep = os.path.join(deep, word(rng.choice([20, 250])))
                os.makedirs(deep)
            if rng.random() < .3:  # a long name in few components
                deep = deep + "/" + "./" * rng.randrange(500)
            F = lambda x: deep + ("" if deep.endswith("/") else "/") + x
            mode = rng.choice(["enc", "dec", "info", "dec"])
            good = F("good")
            data = rng.randbytes(rng.choice([3, 500, 200000]))
            open(good, "wb").write(data if mode == "enc" else fmt.encode(b"p", data, 10, 1, 1))
            kind = rng.choice(["in", "in", "pass", "out", "write", "read"] if mode != "info" else ["in", "read"])
            env, args, inp, out, pre, stdout, note = dict(c.env, VP="p"), ["--passphrase", "env:VP"], good, F("o"), [], subprocess.PIPE, ""
            if mode == "info":
                args, out = [], None
            if mode == "enc":
                args += ["--logN", "10", "-r", "1", "-p", "1"]
            bad, why = F(odd), None

            def broken():
                """A path which cannot be opened, and why."""
                w = rng.choice([errno.ENOENT, errno.ENOTDIR, errno.ENAMETOOLONG, errno.ELOOP])
                if w == errno.ENOENT:
                    return F("no/" + odd) if kind == "out" or rng.random() < .5 or len(odd) > 240 else F("absent" + odd), w
                if w == errno.ENOTDIR:
                    return good + "/" + odd, w
                if w == errno.ENAMETOOLONG:
                    return F("y" * 256), w
                a = F("loop" + odd[:200])
                os.symlink(os.path.basename(a), a)
                return a, w
            if kind == "in":
                inp, why = broken()
                shown = "Cannot open input file: " + inp
            elif kind == "pass":
                q, why = broken()
                args[1] = "file:" + q
                shown = "(" + q + ")"
            elif kind == "out":
                out, why = broken()
                if rng.random() < .3:
                    out, why = F("dir" + odd[:200]), errno.EISDIR
                    os.makedirs(out, exist_ok=True)
                shown = "Cannot open output file: " + out
            elif kind == "read":
                inp, why = F("dir" + odd[:200]), errno.EISDIR
                os.makedirs(inp, exist_ok=True)
                shown = "Error reading file: " + inp
            else:
                w = rng.choice(["full", "stdoutfull", "epipe", "fsize", "closed"])
                note = w
                if w == "full":
                    out = F("full")
                    os.symlink("/dev/full", out)
                    why, shown = errno.ENOSPC, "Error writing file: " + out
                else:
                    if w != "fsize":
                        out = None
                    shown = "Error writing file: " + (out or "standard output")
                    if w == "stdoutfull":
                        stdout = os.open("/dev/full", os.O_WRONLY)
                        why = errno.ENOSPC
                    elif w == "epipe":
                        r_, stdout = os.pipe()
                        os.close(r_)
                        why = errno.EPIPE
                        pre.append(lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))
                    elif w == "closed":
                        # descriptor open, but not for writing
                        stdout = os.open("/dev/null", os.O_RDONLY)
                        why = errno.EBADF
                    else:
                        lim = rng.randrange(0, len(data) + (128 if mode == "enc" else 0))
                        why = errno.EFBIG
                        pre += [lambda: signal.signal(signal.SIGXFSZ, signal.SIG_IGN), lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))]
            name = rng.choice(["scrypt", "/usr/local/bin/scrypt", "./x", "/a/b/enc file", "p%sq", "-scrypt", "dir/\u00e9"])
            args = [mode] + args + rng.choice([[], ["--"]]) + [inp] + ([out] if out else [])
            p = subprocess.Popen([name] + args, executable=exe, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE,
                                 preexec_fn=lambda: [f() for f in pre] and None, start_new_session=True, restore_signals=True)
            try:
                o, e = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
            if isinstance(stdout, int) and stdout >= 0:
                os.close(stdout)
            e = e.decode("utf-8", "surrogateescape")
            c.ev("failing_runs")
            c.ev("failing_" + kind)
            c.ev("reason_" + errno.errorcode[why])
            c.case((mode, kind, note, why, name, odd[:20], len(deep)))
            det = "%s %s: status %s" % (name, " ".join(args)[:200], p.returncode)
            if p.returncode != 1:
                c.viol("status", det)
            lines = [l for l in e.split("\n") if l]
            base = name.rsplit("/", 1)[-1]
            if not any(l.startswith(base + ": ") and shown in l and l.endswith(": " + os.strerror(why)) for l in lines):
                c.viol("message:" + kind, "%s: no line names %s, %s and \"%s\": %r" % (det, base, shown[:80] + ("..." if len(shown) > 80 else ""), os.strerror(why), e[-400:]))
            if any(not l.startswith(base + ": ") for l in lines):
                c.viol("attribution", "%s: a line without the name of the program: %r" % (det, e[-300:]))
            if o:
                c.viol("standard-output", "%s: %r on standard output" % (det, o[:100]))
            core.run(["rm", "-rf", d])
    for k in range(6):
        jobs.append(lambda k=k: cli(k))
    c.par(jobs)
    for e, m in (("messages", 5000), ("syslog_messages", 500), ("lines_of_threads", 1600), ("unusable_standard_output", 1000), ("unusable_standard_error", 500), ("failing_runs", 300), ("failing_in", 40), ("failing_out", 20), ("failing_pass", 20), ("failing_read", 20), ("failing_write", 20)):
        c.need(e, m)
