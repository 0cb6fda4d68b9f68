import os, random, re, subprocess, time
from vlib import fmt, core, limits, tty

Q1, Q2, MIS = b"Please enter passphrase: ", b"Please confirm passphrase: ", b"Passwords mismatch, please try again\n"


# what a helpful program might take for something other than the passphrase
STARTS = [b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xef\xbb", b"#", b";", b"//", b'"', b"'", b"`", b" ", b"\t", b"  ", b"\x0b", b"\x0c", b"=", b"\\", b"\\n", b"0x", b"\\x", b"file:", b"env:", b"dev:", b"-", b"--",
          b"$", b"${", b"$(", b"%s", b"%", b"%41", b"~", b"!", b"@", b"&", b"|", b"<", b">", b"\x01", b"\x1b[", b"\x1a", b"\x7f", b"\x03", b"\x04", b"\x80", b"\xc2\xa0", b"\xff", b"password", b"pass: ", b"PASS=", b"-----BEGIN", b"$1$", b"base64:", b"<?xml"]
ENDS = [b" ", b"\t", b"  ", b"\x0b", b"\x0c", b"\\", b"\\n", b"\\r", b"\x1a", b"\x04", b"\x7f", b"\xff", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"#", b" # comment", b";", b'"', b"'", b"=", b"==", b"\x85", b"\xe2", b"\xf0\x9f", b"\xc3"]


def rndpw(rng, kind=None, limit=2046):
    if kind is None and getattr(rng, "force", None):
        s, e = rng.force
        return (s + rndpw(rng, rng.choice([1, 2, 6]), limit) + e)[:limit]
    if kind is None and rng.random() < .2:
        s = rng.choice(STARTS) if rng.random() < .7 else b""
        e = rng.choice(ENDS) if not s or rng.random() < .3 else b""
        if s in (b'"', b"'", b"`") and rng.random() < .5:
            e = s
        return (s + rndpw(rng, rng.choice([2, 2, 6, 6, 0, 1]), limit) + e)[:limit]
    k = rng.randrange(8) if kind is None else kind
    n = {0: 0, 1: 1, 2: rng.randrange(2, 40), 3: rng.randrange(40, 300), 4: rng.choice([2044, 2045, 2046, 1023, 1024, 255, 256]), 5: rng.randrange(60, 70)}.get(k, rng.randrange(1, 20))
    n = min(n, limit)
    if rng.random() < .5:
        return bytes(rng.choice(b"abcdefgh XYZ0123456789 \t!$%&\\'\"`~:=-") for _ in range(n))
    return bytes(rng.choice([b for b in range(1, 256) if b not in (10, 13)]) for _ in range(n))


def line(b):
    """What one line of input means: (passphrase, bytes of the stream used)."""
    i = b.find(b"\n")
    ln = b if i < 0 else b[:i + 1]
    ln = ln[:2047]
    return re.split(rb"[\r\n]", ln)[0], len(ln)


def main(c):
    c.rule = ("one evaluation = one enc or dec with a generated passphrase delivered through one method (environment, file, standard input, terminal) with and without line ends, "
              "at the length limits, mistyped, missing or too long; the passphrase that reached the key derivation was recovered from the output (it must decrypt under exactly "
              "the expected bytes) and prompts, status and output compared with a model; distinct = distinct (method, mode, contents)")
    exe = limits.simcli(c)
    ENC = ["enc", "--logN", "10", "-r", "1", "-p", "1", "-f"]
    DEC = ["dec", "-f"]
    ALLPW = b"the right one"

    def job(s):
        rng = random.Random("%s-c17-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "j%d" % s)
        os.makedirs(d)
        pj = lambda x: os.path.join(d, x)
        M = ["env", "file", "stdin-once", "-P", "tty-once", "tty-stdin", "tty-stdin-noterm", "default", "default-noterm"]
        # every peculiar start and end by every method, then at random
        forced = [(m, x) for m in M for x in [(a, b"") for a in STARTS] + [(b"", b) for b in ENDS]][s::7]
        for i in range(len(forced) + c.scale(420, 9000)):
            for x in os.listdir(d):
                (os.rmdir if os.path.isdir(pj(x)) else os.unlink)(pj(x))
            mode = rng.choice(["enc", "dec"])
            method, rng.force = forced[i] if i < len(forced) else (rng.choice(M), None)
            data = rng.randbytes(rng.randrange(1, 40))
            env = dict(c.env)
            args, term, feed, stdin, expect, pieces, prompts = [], rng.random() < .3, b"", b"", None, b"", None
            canonical = True
            stdin_tty = False
            note = ""
            mism = 0
            if method == "env":
                pw = rndpw(rng)
                if rng.random() < .3:
                    pw += rng.choice([b"\n", b"\r", b"\r\nmore", b"\n\n", b" "])
                if rng.random() < .1:
                    pw = rndpw(rng, 2) * 400  # longer than any line limit
                expect = pw
                name = rng.choice(["VP", "A_B", "x", "a:b", ":", "env:VP", "file:pw", "dev:tty-once", "stdin-once", "x y", "%s%n", "-P", "\u00e9", "v" * 300])
                # other variables with similar names must not be taken instead
                for x in {"VP", "x", "b", "B", "P", "a", "tty-once", "pw", "y", name[1:], name[:-1], name.split(":")[-1], name.split(":")[0], name.upper(), name.lower()} - {name, ""}:
                    env[x] = "decoy"
                if rng.random() < .12:
                    expect, note = None, "unset"
                else:
                    env[name] = os.fsdecode(pw)
                args = ["--passphrase", "env:" + name]
            elif method == "file":
                pw = rndpw(rng)
                k = rng.randrange(14)
                name = pj("pw")
                if rng.random() < .4:
                    name = rng.choice(["", d + "/"]) + rng.choice(["p:w", ":pw", "file:pw", "env:VP", "dev:tty-once", "tty-stdin", "a b", "%s%n", "-", "--", "pw=", "~pw", "$HOME", "\u00e9", "p" * 200])
                base = name[name.rindex("/") + 1 if "/" in name else 0:]
                for x in {"pw", "w", "VP", "b", "tty-once", base[1:], base[:-1], base.split(":")[-1]} - {base, ""}:
                    open(pj(x), "wb").write(b"decoy\n")
                if k < 6:
                    body = pw + rng.choice([b"", b"\n", b"\r\n", b"\r"])
                elif k == 6:
                    body, note = pw + rng.choice([b"\n", b"\r\n"]) + rng.choice([b"second", b"\n", b"x\n", b" "]), "second line"
                elif k == 7:
                    n = rng.choice([2045, 2046, 2047, 2048, 2049, 4095, 4096, 5000])
                    body, note = (b"q" * n) + rng.choice([b"", b"\n", b"\r\n"]), "long"
                elif k == 8:
                    body = b""
                elif k == 9:
                    body = rndpw(rng, 6) + b"\r" + rndpw(rng, 6) + b"\n"
                elif k == 10:
                    body, note = b"\n\n", "second line"
                elif k == 11:
                    body, note, name = None, "missing", pj("nosuchfile")
                elif k == 12:
                    os.mkdir(pj("dirpw"))
                    body, note, name = None, "directory", pj("dirpw")
                else:
                    body = rng.choice([b"\n", b"\r\n", b"\r", b" \n", b"\t"])
                if body is not None:
                    open(pj(base), "wb").write(body)
                    p0, used = line(body)
                    expect = p0 if used == len(body) else None
                args = ["--passphrase", "file:" + name]
            elif method in ("stdin-once", "-P"):
                args = ["-P"] if method == "-P" else ["--passphrase", "dev:stdin-once"]
                k = rng.randrange(6)
                pw = rndpw(rng)
                if k == 0:
                    stdin, note = b"", "eof"
                elif k == 1:
                    stdin = pw or b"z"
                elif k == 2:
                    stdin, note = b"r" * rng.choice([2046, 2047, 2048, 3000]) + b"\n", "long"
                else:
                    stdin = pw + rng.choice([b"\n", b"\r\n", b"\rrest\n"]) + rng.choice([b"", b"more\n", b"\n"])
                expect = line(stdin)[0] if stdin else None
                prompts = 0
            else:
                term = not method.endswith("noterm")
                once = mode == "dec" or method == "tty-once"
                if not method.startswith("default"):
                    args = ["--passphrase", "dev:" + method.replace("-noterm", "")]
                if method == "tty-once" and rng.random() < .15:
                    term, expect, note = False, None, "no terminal"
                    stdin = b"some line\nsome line\n"
                else:
                    pw = rndpw(rng, limit=2046) if not term else bytes(rng.choice(b"abcdefgh XYZ0123456789!$%&'\"`~:=-") for _ in range(rng.choice([0, 1, 8, 30, 63, 64, 65, 200, 1000])))
                    if term and rng.random() < .5:
                        canonical = False
                        if rng.random() < .5:
                            pw = rndpw(rng, limit=600)
                    # a terminal in canonical mode turns \r into a second \n
                    nl = rng.choice([b"\n", b"\n", b"\n" if term and canonical else b"\r\n"])
                    pw = pw[:2047 - len(nl)]
                    k = rng.randrange(8)
                    mism = 0
                    body = pw + nl
                    if not once:
                        body += pw + nl
                    expect = pw
                    if k == 0 and not (term and not canonical):
                        # end of input too early
                        note = "eof"
                        body = b"" if once else rng.choice([b"", pw + nl, b"a\nb\n", b"a\nb\n" + pw + nl])
                        mism = body.count(b"a\nb\n") if not once and pw + nl != b"a\nb\n" else 0
                        expect = None
                        if term:
                            body += b"\x04"
                    elif k <= 3 and not once:
                        mism = rng.choice([1, 1, 2, 3])
                        bad = b""
                        for _ in range(mism):
                            x = rndpw(rng, 6) if not term else b"wrong%d" % rng.randrange(100)
                            y = rng.choice([x + b"!", x[:-1], b"", pw]) if x else b"other"
                            if y == x:
                                y += b"#"
                            bad += x + nl + y + nl
                        body = bad + body
                        note = "mistyped"
                    if term:
                        feed = body
                        stdin_tty = rng.random() < .2
                        stdin = b"not this one\nnot this one\n"
                    else:
                        stdin = body
                    prompts = (1 if once else 2) if term else 0
            if term and method in ("env", "file", "stdin-once", "-P"):
                feed = b"not this one\nnot this one\n"
            # the input file; from standard input after the passphrase where that is possible
            inp = data
            if mode == "dec":
                inp = limits.simencode(expect if expect is not None else ALLPW, data, 10, 1, 1, rng.randbytes(32))
            infile = "in"
            if method.endswith("noterm") and rng.random() < .5 and note != "eof" and rng.random() < .9:
                infile = "-"
                stdin += inp
            elif method in ("env", "file") and rng.random() < .4 and not stdin:
                infile = "-"
                stdin = inp
            else:
                open(pj("in"), "wb").write(inp)
            outfile = pj("out") if rng.random() < .6 else None
            argv = [exe] + (ENC if mode == "enc" else DEC) + args + [infile if infile == "-" else pj("in")] + ([outfile] if outfile else [])
            if term:
                r = tty.run(argv, feed, env=env, cwd=d, stdin=stdin, canonical=canonical, stdin_tty=stdin_tty and infile == "in" and method not in ("stdin-once", "-P"))
            else:
                r = core.run(argv, input=stdin, env=env, cwd=d, timeout=30)
            txt = "rc=%s%s stderr=%r" % (r.rc, " TIMEOUT" if r.timeout else "", r.err[-500:])
            desc = "%s, passphrase via %s%s%s, expected %r, standard input %r, typed %r" % (mode, method, " (%s)" % note if note else "", " with a terminal" if term else "", expect if expect is None or len(expect) < 60 else (expect[:40], len(expect)), stdin[:80], feed[:80])
            rep = {"argv": argv[1:], "stdin": stdin[:5000], "typed": feed, "expected": expect}
            c.case((mode, method, note, expect, stdin[:200], feed))
            if expect and (expect.startswith(tuple(STARTS)) or expect.endswith(tuple(ENDS))):
                c.ev("passphrases with a peculiar start or end")
            c.ev("passphrases_%s" % method)
            if note:
                c.ev("special: " + note)
            out = r.out
            if outfile:
                out = open(outfile, "rb").read() if os.path.exists(outfile) else None
                if r.out:
                    c.viol("stray-output", desc + ": " + txt, rep)
            if r.timeout:
                c.viol("hang:" + method, desc + ": " + txt, rep)
                continue
            if expect is None:
                c.ev("refused")
                if r.rc != 1 or not r.err.strip():
                    c.viol("not-refused:%s:%s" % (method, note), "%s should be refused: %s" % (desc, txt), rep)
                if out or (outfile and out is not None):
                    c.viol("output-after-refusal", "%s leaves output %r" % (desc, out[:50]), rep)
            elif r.rc != 0:
                c.viol("refused:%s:%s:%s" % (mode, method, note), "%s: %s" % (desc, txt), rep)
            elif mode == "dec":
                c.ev("delivered")
                if out != data:
                    c.viol("wrong-data", "%s: %r instead of %r" % (desc, out, data), rep)
            else:
                c.ev("delivered")
                try:
                    if limits.simdecode(expect, out) != data:
                        c.viol("wrong-data", desc, rep)
                except Exception:
                    c.viol("wrong-passphrase:" + method, desc + ": the file does not decrypt under the expected passphrase", rep)
            n1, n2, n3 = r.err.count(Q1), r.err.count(Q2), r.err.count(MIS)
            if prompts == 0 or not term or method in ("env", "file", "stdin-once", "-P"):
                if n1 or n2:
                    c.viol("prompt-without-terminal", "%s: %s" % (desc, txt), rep)
            elif expect is not None:
                if (n1, n2) != ((1 + mism, 1 + mism) if prompts == 2 else (1, 0)):
                    c.viol("prompts", "%s: %d first and %d second prompts with %d mistypings: %s" % (desc, n1, n2, mism, txt), rep)
            if expect is not None and n3 != mism:
                c.viol("mismatch-message", "%s: %d messages for %d mistypings: %s" % (desc, n3, mism, txt), rep)
            for leak in (expect,):
                if leak and len(leak) > 5 and leak in r.err:
                    c.viol("passphrase-shown", desc + ": " + txt, rep)
            c.sample(desc)
    jobs = [lambda s=s: job(s) for s in range(7)]

    def cross():
        """the real command, every pair of methods"""
        cli = c.cli()
        rng = random.Random("%s-c17x" % c.seed)
        d = os.path.join(c.tmp, "cross")
        os.makedirs(d)
        pj = lambda x: os.path.join(d, x)

        def go(mode, method, pw, i, o):
            a = [cli] + (ENC if mode == "enc" else DEC)
            env, stdin = dict(c.env), b""
            two = 2 if mode == "enc" and method.startswith("tty-stdin") else 1
            if method == "env":
                env["VP"] = os.fsdecode(pw)
                a += ["--passphrase", "env:VP"]
            elif method == "file":
                open(pj("pw"), "wb").write(pw + b"\n")
                a += ["--passphrase", "file:" + pj("pw")]
            elif method in ("-P", "stdin-once"):
                a += ["-P"] if method == "-P" else ["--passphrase", "dev:stdin-once"]
                stdin = pw + b"\n"
            else:
                a += ["--passphrase", "dev:" + method.replace("+t", "")]
                if method.endswith("+t"):
                    return tty.run(a + [i, o], (pw + b"\n") * two, env=env, cwd=d)
                stdin = (pw + b"\n") * two
            return core.run(a + [i, o], input=stdin, env=env, cwd=d)
        M = ["env", "file", "-P", "stdin-once", "tty-stdin", "tty-stdin+t", "tty-once+t"]
        for k in range(c.scale(1, 6)):
            for m1 in M:
                for m2 in M:
                    pw = bytes(rng.choice(b"abcXYZ0129 !$") for _ in range(rng.choice([1, 5, 12, 64, 65, 300])))
                    data = rng.randbytes(30)
                    open(pj("a"), "wb").write(data)
                    for x in ("b", "c"):
                        if os.path.exists(pj(x)):
                            os.unlink(pj(x))
                    r1 = go("enc", m1, pw, pj("a"), pj("b"))
                    r2 = go("dec", m2, pw, pj("b"), pj("c")) if os.path.exists(pj("b")) else None
                    c.case((m1, m2, pw))
                    c.ev("method_pairs")
                    if r1.rc != 0 or r2 is None or r2.rc != 0 or open(pj("c"), "rb").read() != data:
                        c.viol("cross:%s:%s" % (m1, m2), "encrypted with %s, decrypted with %s, passphrase %r: %s / %s" % (m1, m2, pw, r1.err, r2 and r2.err))
                    try:
                        fmt.decode(pw, open(pj("b"), "rb").read())
                    except (fmt.Bad, OSError) as e:
                        c.viol("cross-format:" + m1, "encrypted with %s, passphrase %r: %s" % (m1, pw, e))
    jobs.append(cross)

    def pieces(s):
        """the passphrase arrives in pieces, late, over a descriptor in non-blocking mode, or its source breaks after some bytes"""
        cli = c.cli()
        rng = random.Random("%s-c17p-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "pieces%d" % s)
        os.makedirs(d)
        pj = lambda x: os.path.join(d, x)
        for k in range(c.scale(45, 1200)):
            mode = rng.choice(["enc", "dec"])
            method = rng.choice(["-P", "dev:stdin-once", "dev:tty-stdin", "default"])
            how = rng.choice(["pieces", "pieces", "nonblocking", "nonblocking", "breaks", "breaks"])
            pw = bytes(rng.choice(b"abcXYZ0129 !$") for _ in range(rng.choice([2, 5, 12, 64, 300])))
            pre = pw[:rng.randrange(1, len(pw))]
            data = rng.randbytes(30)
            twice = mode == "enc" and method in ("dev:tty-stdin", "default")
            open(pj("a"), "wb").write(data if mode == "enc" else fmt.encode(rng.choice([pre, pw]) if how != "pieces" else pw, data, 1, 1, 1, rng.randbytes(32)))
            if os.path.exists(pj("b")):
                os.unlink(pj("b"))
            parts = [pre, pw[len(pre):] + b"\n"] + ([pre, pw[len(pre):] + b"\n"] if twice else [])
            margs = {"-P": ["-P"], "default": []}.get(method, ["--passphrase", method])
            master = None
            if how == "breaks":
                # a terminal whose other side goes away, named as the passphrase file
                master, slave = os.openpty()
                twice = False
                parts = [rng.choice([pre, pw + b"\n"])]
                margs = ["--passphrase", "file:" + os.ttyname(slave)]
                rd = os.open("/dev/null", os.O_RDONLY)
                w = master
                os.set_blocking(master, False)
            else:
                rd, w = os.pipe()
                if how == "nonblocking":
                    os.set_blocking(rd, False)
                    if rng.random() < .3:
                        parts = [b"".join(parts)]
                    os.write(w, parts.pop(0))
            p = subprocess.Popen([cli] + (ENC if mode == "enc" else DEC) + margs + [pj("a"), pj("b")], stdin=rd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=c.env, cwd=d, start_new_session=how != "breaks")
            os.close(rd)
            if how == "breaks":
                time.sleep(.03)
            n = len(parts)
            for x in parts:
                if how != "breaks":
                    try:
                        p.wait(.05 if how == "pieces" else .25)
                    except subprocess.TimeoutExpired:
                        pass
                try:
                    os.write(w, x)
                except (BrokenPipeError, BlockingIOError):
                    pass
            if how == "breaks":
                # wait until what was typed has been taken, then hang up
                for _ in range(200):
                    if p.poll() is not None or not len(parts[0]) or not outq(slave):
                        break
                    time.sleep(.01)
                time.sleep(.03)
                os.close(slave)
            os.close(w)
            try:
                out, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                c.viol("pieces-hang:" + how, "%s with %s hangs: %r" % (mode, method, err))
                continue
            made = open(pj("b"), "rb").read() if os.path.exists(pj("b")) else None
            desc = "%s, passphrase %r via %s, %s (first %r%s): rc=%d %r" % (mode, pw, margs, how, pre, " and %d more" % n if n else "", p.returncode, err[-300:])
            rep = {"argv": margs, "passphrase": pw, "first": pre, "how": how}
            c.case((mode, method, how, pw, pre, n))
            c.ev("arrival_" + how)
            c.sample(desc)
            if p.returncode == 0:
                if how == "breaks":
                    c.viol("read-error-ignored", desc + ": the passphrase file could not be read to its end", rep)
                    continue
                c.ev("arrival_delivered")
                try:
                    ok = (fmt.decode(pw, made)[0] == data) if mode == "enc" else (fmt.decode(pw, open(pj("a"), "rb").read())[0] == made == data)
                except (fmt.Bad, TypeError):
                    ok = False
                if not ok:
                    c.viol("part-of-passphrase:" + how, desc + ": only a part of the passphrase was used", rep)
            else:
                c.ev("arrival_refused")
                # a complete passphrase that arrives slowly, or at once, has to be taken
                wrong = mode == "dec" and b"incorrect" in err
                if how == "pieces" and p.returncode:
                    c.viol("pieces-refused", desc, rep)
                elif p.returncode != 1 or not err.strip() or out or made:
                    c.viol("pieces-refusal", desc + ": output %r" % (made,), rep)
                elif wrong and fmt_ok(pw, pj("a")):
                    c.viol("part-of-passphrase:" + how, desc + ": only a part of the passphrase was used", rep)

    def outq(fd):
        import fcntl, termios, struct
        return struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0\0\0\0"))[0]

    def fmt_ok(pw, path):
        try:
            fmt.decode(pw, open(path, "rb").read())
            return True
        except fmt.Bad:
            return False
    jobs += [lambda s=s: pieces(s) for s in range(4)]

    def kinds():
        """the passphrase file is any kind of file: a name for a pipe, a device, a link, one of the descriptors"""
        import threading
        cli = c.cli()
        rng = random.Random("%s-c17k" % c.seed)
        d = os.path.join(c.tmp, "kinds")
        os.makedirs(d)
        pj = lambda x: os.path.join(d, x)
        K = ["regular", "symlink", "hardlink", "fifo", "fifo-slow", "fifo-symlink", "/dev/stdin pipe", "/dev/stdin file", "/dev/stdin socketless", "/dev/fd pipe", "/dev/fd file", "/proc/self/fd pipe", "terminal", "/dev/null", "0444", "relative", "dangling"]
        for k in K * c.scale(4, 60):
            for x in os.listdir(d):
                os.unlink(pj(x))
            mode = rng.choice(["enc", "dec"])
            pw = bytes(rng.choice(b"abcXYZ0129 !$") for _ in range(rng.choice([1, 5, 12, 64, 300, 1500])))
            body = pw + rng.choice([b"\n", b"\n", b"", b"\r\n"])
            two = k != "terminal" and rng.random() < .2
            if k == "terminal":
                body = pw[:200] + b"\n"
            if two:
                body = pw + b"\nmore\n"
            if k == "/dev/null":
                body, two = b"", False
            expect = None if two or k == "dangling" else line(body)[0]
            data = rng.randbytes(30)
            fds, name, stdin, stop, th = [], pj("pw"), subprocess.DEVNULL, threading.Event(), None
            slow = k == "fifo-slow"

            def write(fd):
                try:
                    for i in range(0, len(body), 7 if slow else len(body) or 1):
                        os.write(fd, body[i:i + (7 if slow else len(body))])
                        if slow and i < 100:
                            time.sleep(.002)
                except OSError:
                    pass
                os.close(fd)

            def writefifo():
                while not stop.is_set():
                    try:
                        fd = os.open(pj("pw"), os.O_WRONLY | os.O_NONBLOCK)
                    except OSError:
                        time.sleep(.002)
                        continue
                    os.set_blocking(fd, True)
                    return write(fd)
            mine = []
            if k.startswith("fifo"):
                os.mkfifo(pj("pw"))
                th = threading.Thread(target=writefifo)
                if k == "fifo-symlink":
                    os.symlink("pw", pj("l"))
                    name = pj("l")
            elif k.endswith("pipe"):
                r, w = os.pipe()
                write(w)
                mine.append(r)
                if k.startswith("/dev/stdin"):
                    name, stdin = "/dev/stdin", r
                else:
                    fds, name = [r], k.split()[0] + "/%d" % r
            elif k == "terminal":
                import tty as t_
                m, sl = os.openpty()
                t_.setraw(sl)
                # the line, then the end of the input
                a = __import__("termios").tcgetattr(sl)
                a[3] |= 2
                __import__("termios").tcsetattr(sl, 0, a)
                os.write(m, body + b"\4")
                name = os.ttyname(sl)
                mine += [m, sl]
            elif k == "/dev/null":
                name = k
            elif k == "dangling":
                os.symlink("nothing", pj("pw"))
            else:
                open(pj("pw"), "wb").write(body)
                if k in ("symlink", "hardlink"):
                    (os.symlink if k == "symlink" else os.link)(pj("pw"), pj("l"))
                    name = pj("l")
                elif k == "0444":
                    os.chmod(pj("pw"), 0o444)
                elif k == "relative":
                    name = rng.choice(["pw", "./pw", "../kinds/pw"])
                elif k.startswith("/dev"):
                    r = os.open(pj("pw"), os.O_RDONLY)
                    mine.append(r)
                    if "stdin" in k:
                        name, stdin = "/dev/stdin", r
                    else:
                        fds, name = [r], "/dev/fd/%d" % r
            open(pj("a"), "wb").write(data if mode == "enc" else fmt.encode(expect if expect is not None else pw, data, 1, 1, 1, rng.randbytes(32)))
            p = subprocess.Popen([cli] + (ENC if mode == "enc" else DEC) + ["--passphrase", "file:" + name, pj("a"), pj("b")], stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=c.env, cwd=d, pass_fds=fds, start_new_session=True)
            if th:
                th.start()
            hang = False
            try:
                out, err = p.communicate(timeout=30)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                hang = True
            stop.set()
            if th:
                th.join()
            for f in mine:
                os.close(f)
            made = open(pj("b"), "rb").read() if os.path.exists(pj("b")) else None
            desc = "%s, passphrase file %s (%s) with %r: rc=%s %r" % (mode, k, name, body[:50], p.returncode, err[-300:])
            rep = {"kind": k, "mode": mode, "contents": body}
            c.case((k, mode, body))
            c.ev("passphrase_files_of_kinds")
            c.sample(desc)
            if hang:
                c.viol("kind-hang:" + k, desc, rep)
            elif expect is None:
                if p.returncode != 1 or not err.strip() or out or made:
                    c.viol("kind-not-refused:" + k, desc, rep)
            elif p.returncode != 0 or made is None:
                c.viol("kind-refused:" + k, desc, rep)
            else:
                try:
                    ok = fmt.decode(expect, made)[0] == data if mode == "enc" else made == data
                except fmt.Bad:
                    ok = False
                if not ok:
                    c.viol("kind-wrong:" + k, desc, rep)
    jobs.append(kinds)

    def behind():
        """what is typed behind the passphrase belongs to whoever reads next: the file to encrypt, or the shell"""
        cli = c.cli()
        rng = random.Random("%s-c17b" % c.seed)
        d = os.path.join(c.tmp, "behind")
        os.makedirs(d)
        for k in range(c.scale(24, 300)):
            pw = bytes(rng.choice(b"abcXYZ0129 !$") for _ in range(rng.choice([1, 5, 12, 64, 300])))
            text = b"".join(bytes(rng.choice(b"abc XYZ.,") for _ in range(rng.randrange(60))) + b"\n" for _ in range(rng.randrange(1, 12)))
            method = rng.choice(["dev:tty-once", "dev:tty-stdin", "default"])
            bad = b"".join(b"a\nb\n" for _ in range(rng.randrange(2))) if method != "dev:tty-once" else b""
            feed = bad + (pw + b"\n") * (1 if method == "dev:tty-once" else 2) + text + b"\x04\x04\x04"  # stdio may ask again after the end
            o = os.path.join(d, "o")
            if os.path.exists(o):
                os.unlink(o)
            r = tty.run([cli] + ENC + ([] if method == "default" else ["--passphrase", method]) + ["-", o], feed, env=c.env, cwd=d, stdin_tty=True)
            desc = "enc of what is typed behind the passphrase (%s, %d bytes): %s" % (method, len(text), r.text())
            c.case((method, pw, text))
            c.ev("typed_behind_the_passphrase")
            try:
                got = fmt.decode(pw, open(o, "rb").read())[0]
            except (OSError, fmt.Bad) as e:
                got = e
            if r.rc != 0 or got != text:
                c.viol("typed-ahead", "%s: encrypted %r instead of %r" % (desc, got, text), {"typed": feed})
    jobs.append(behind)
    c.par(jobs)
    for e, n in (("arrival_pieces", 30), ("arrival_nonblocking", 30), ("arrival_breaks", 30), ("arrival_delivered", 25), ("delivered", 1000), ("refused", 150), ("special: mistyped", 60), ("special: eof", 60), ("special: long", 30), ("special: second line", 20), ("special: missing", 5), ("special: unset", 10),
                 ("passphrases_tty-once", 100), ("passphrases_tty-stdin", 100), ("passphrases_default", 100), ("passphrases with a peculiar start or end", 900), ("passphrase_files_of_kinds", 60), ("typed_behind_the_passphrase", 20), ("method_pairs", 49)):
        c.need(e, n)
    c.assumptions.append("passphrases without NUL bytes; the confirmation ends its line like the first entry; lines over the limit are only offered where one line is read")
