import base64, os, random, re, shutil, string
from vlib import core, fmt, tty

AL = string.ascii_letters + string.digits


def shapes(secret, what):
    """(bytes to look for, description): windows of the secret in plain, hexadecimal and base64 form."""
    out = set()
    w = min(8, len(secret))
    for i in range(0, len(secret) - w + 1):
        x = secret[i:i + w]
        out.add(x)
        out.add(x[::-1])
        out.add(x.hex().encode())
    for k in range(3):
        b = base64.b64encode(secret[k:k + (len(secret) - k) // 3 * 3])
        if len(b) >= 12:
            out.add(b[:12])
    return [(x, what) for x in out]


def short(secret, what):
    """Shorter windows, for messages, where nothing else looks like them."""
    out = set()
    if what == "derived keys":
        for i in range(0, len(secret) - 3):
            out.add(secret[i:i + 4].hex().encode())
            out.add(secret[i:i + 4][::-1].hex().encode())
    else:
        for i in range(0, len(secret) - 5):
            out.add(secret[i:i + 6])
            out.add(secret[i:i + 5].hex().encode())
            out.add(secret[i:i + 5][::-1].hex().encode())
    return [(x, what) for x in out]


def squeeze(b):
    """Hexadecimal dumps with separators, as one string."""
    return re.sub(rb"[^0-9a-f]", b"", re.sub(rb"0x|\\x", b"", b.lower()))


def main(c):
    c.rule = ("one evaluation = one run of the command (entry method x encrypting, decrypting, info x success or a way of failing x -v) in which everything it wrote - both outputs, every "
              "file, and with strace every argument of every system call other than what it read - was searched for the passphrases, the derived keys, and, unless a decryption had accepted the passphrase, "
              "the plaintext, in plain, reversed, hexadecimal and base64 form; distinct = distinct (mode, method, scenario, lengths)")
    exe = c.cli()
    strace = shutil.which("strace")
    if strace:
        r = core.run([strace, "-o", os.path.join(c.tmp, "st"), "-xx", "true"], timeout=20)
        if r.rc or not os.path.exists(os.path.join(c.tmp, "st")):
            strace = None
    if not strace:
        c.assumptions.append("strace does not work here: system calls were not recorded")

    def job(s):
        rng = random.Random("%s-c27-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "x%d" % s)
        os.makedirs(d)
        pj = lambda x: os.path.join(d, x)
        word = lambda n: "".join(rng.choice(AL) for _ in range(n)).encode()
        for i in range(c.scale(110, 2500)):
            for x in os.listdir(d):
                os.unlink(pj(x))
            mode = rng.choice(["enc", "dec", "dec", "info"])
            method = rng.choice(["env", "file", "-P", "stdin", "tty", "tty-once", "tty-stdin"]) if mode != "info" else "env"
            pw = word(rng.choice([16, 20, 40, 70, 150]))
            if rng.random() < .4:
                # characters which mean something to somebody
                pw = rng.choice([b"/", b"~/", b"./", b"-", b"--", b"@", b"$", b"$HOME/", b"%s%n", b"\"", b"'", b"#", b"file:", b"env:", b" ", b"\t", b"http://", b"=", b"\xff\xfe"]) + pw
                if rng.random() < .5:
                    k = rng.randrange(len(pw) + 1)
                    pw = pw[:k] + rng.choice([b"/", b"=", b":", b" ", b"%", b"\\", b"\xc3\xa9", b"+"]) + pw[k:]
            typed = [pw]
            what = rng.choice(["ok", "ok", "ok", "wrong", "damage", "magic", "version", "checksum", "short", "limit", "nooutput", "full", "pwlong", "twolines", "noparam", "junk", "noinput"])
            text = b" ".join(word(17) for _ in range(rng.choice([1, 2, 30, 30, 200, 200, 200, 4500])))
            salt = rng.randbytes(32)
            logN, r_, p = rng.choice([(10, 1, 1), (10, 8, 1), (11, 1, 2), (12, 1, 1)])
            sec, shrt = [], []
            accepted = False
            inp = text
            if mode != "enc":
                inp = fmt.encode(pw, text, logN, r_, p, salt)
                sec += shapes(fmt.kdf(pw, salt, logN, r_, p), "derived keys")
                shrt += short(fmt.kdf(pw, salt, logN, r_, p), "derived keys")
                accepted = True
                if what == "wrong":
                    typed = [pw[:-1] + word(1) + word(2) if rng.random() < .3 else rng.choice([b"", b"", b"/", b"-", b"file:", b"$"]) + word(24)]
                    k = fmt.kdf(typed[0], salt, logN, r_, p)
                    sec += shapes(k, "derived keys")
                    shrt += short(k, "derived keys")
                    accepted = False
                elif what == "damage":
                    k = rng.randrange(96, len(inp))
                    inp = inp[:k] + bytes([inp[k] ^ 4]) + inp[k + 1:]
                elif what in ("magic", "version", "checksum"):
                    k = {"magic": 2, "version": 6, "checksum": 50}[what]
                    inp = inp[:k] + bytes([inp[k] ^ 4]) + inp[k + 1:]
                    accepted = False
                elif what == "short":
                    inp = inp[:rng.randrange(len(inp))]
                    accepted = len(inp) >= 96
                elif what == "junk":
                    inp = pw + b"\n" + text  # not an encrypted file at all: somebody mixed up the files
                    accepted = False
            env = dict(c.env)
            stdin, args, feed = b"", [], None
            line = typed[0] + b"\n"
            if what == "pwlong" and method in ("file", "-P", "stdin"):
                typed = [word(2100)]
                line = typed[0] + b"\n"
            if what == "twolines":
                typed.append(word(20))
                line += typed[1] + b"\n"
            if method == "env":
                env["VP"] = typed[0]
                args = ["--passphrase", "env:VP"]
            elif method == "file":
                open(pj("pw"), "wb").write(line)
                args = ["--passphrase", "file:" + pj("pw")]
            elif method == "-P":
                args, stdin = ["-P"], line
            elif method == "stdin":
                stdin = line * (2 if mode == "enc" else 1)
            elif method == "tty-once":
                args, feed = ["--passphrase", "dev:tty-once"], typed[0][:300] + b"\n"
            else:
                feed = typed[0] + b"\n"
                if mode == "enc":
                    if rng.random() < .7:  # first try: the two lines differ, more or less
                        k = rng.randrange(len(pw))
                        typed.append(rng.choice([word(18), pw[:k] + word(1) + pw[k + 1:], pw[:k] + word(1) + pw[k + 1:], pw[:k] + pw[k + 1:], pw[:k] + word(1) + pw[k:], pw.swapcase(), pw + b" "]))
                        feed = typed[-1] + b"\n" + feed
                        feed += typed[0] + b"\n" + typed[0] + b"\n"
                        c.ev("confirmations_that_differ")
                    else:
                        feed *= 2
            if mode == "info":
                args, feed = [], None
            if mode == "enc":
                args = ["--logN", str(logN), "-r", str(r_), "-p", str(p)] + args
                if what == "noparam":
                    args = ["-M", "1", "-t", "0.01"] + args[6:]
                if what == "limit":
                    args = ["-m", "1e-9", "-t", "0"] + args
            elif mode == "dec" and what == "limit":
                inp = fmt.header(salt, 40, 8, 1) + inp[96:]
                accepted = False
                args = ["-M", "1MB"] + args
            if rng.random() < .6 and mode != "info":
                args = ["-v"] + args
            if rng.random() < .5 and mode != "info" and what != "limit":
                args = ["-f"] + args
            for t in typed:
                sec += shapes(t, "passphrase")
                shrt += short(t, "passphrase")
            if not (mode == "dec" and accepted):
                for k in range(0, min(len(text), 160) - 16, 18):
                    sec += shapes(text[k:k + 17], "plaintext")
                shrt += short(text[:60], "plaintext")
            open(pj("in"), "wb").write(inp)
            out = {"nooutput": pj("no/such/dir"), "full": "/dev/full"}.get(what, rng.choice([pj("out"), None]))
            src = pj("in") if what != "noinput" else pj("absent")
            a = [mode] + args + [src] + ([out] if out and mode != "info" else [])
            log = pj("strace")
            traced = strace and feed is None and i % 2 == 0
            cmd = ([strace, "-f", "-xx", "-s", "100000", "-o", log] if traced else []) + [exe] + a
            if feed is None:
                r = core.run(cmd, input=stdin, env=env, cwd=d, timeout=60)
            else:
                r = tty.run(cmd, feed, env=env, cwd=d, stdin=b"")
            desc = "scrypt %s (%s, %s)" % (" ".join(a), method, what)
            rep = {"args": a, "rc": r.rc, "stderr": r.err[-2000:].decode("latin-1"), "secrets": [t.decode("latin-1") for t in typed]}
            c.case((mode, method, what, tuple(args[:2]), len(text), len(pw)))
            c.ev("runs_" + mode)
            c.ev("runs_succeeding" if r.rc == 0 else "runs_failing")
            c.ev("scenario_" + what)
            emitted = {"standard error": r.err, "standard output": r.out}
            for x in os.listdir(d):
                if x not in ("in", "pw", "strace"):
                    emitted["the file " + x] = open(pj(x), "rb").read()
            if mode == "enc" and r.rc == 0:
                # the keys of this file
                f = emitted.get("the file out", b"") or r.out
                try:
                    L, a_, b_ = fmt.params(f)
                    if (a_ * b_) << L <= 1 << 17:
                        k = fmt.kdf(typed[0], f[16:48], L, a_, b_)
                        sec += shapes(k, "derived keys")
                        shrt += short(k, "derived keys")
                        c.ev("keys_of_new_files")
                except fmt.Bad:
                    pass
            if traced:
                t = b""
                for l in open(log, "rb"):
                    # not: what was read, the environment given to it
                    if not re.match(rb"\d+ +(execve|read|readv|pread64|getrandom|\+\+\+|---)", l):
                        t += re.sub(rb"\\x", b"", l)
                emitted["the arguments of a system call"] = t
                c.ev("system_call_bytes_searched", len(t))
                hexed = t.lower()
            for name, b in emitted.items():
                if not b:
                    continue
                c.ev("bytes_searched", len(b))
                if name == "the arguments of a system call":
                    bad = next((w for x, w in sec if x.hex().encode() in hexed), None)
                else:
                    q = squeeze(b) if len(b) < 20000 else b""
                    bad = next((w for x, w in sec + (shrt if name == "standard error" else []) if x in b or x in q), None)
                if bad:
                    c.viol("%s-in-%s" % (bad, name.split(" ")[-1] if "file" not in name else "output"), "%s: the %s is found in %s: %r" % (desc, bad, name, b[-300:]), rep)
            c.sample(desc)
    c.par([lambda s=s: job(s) for s in range(8)])
    for e, n in (("runs_enc", 120), ("runs_dec", 300), ("runs_info", 80), ("runs_succeeding", 150), ("runs_failing", 250), ("keys_of_new_files", 30), ("confirmations_that_differ", 20)):
        c.need(e, n)
