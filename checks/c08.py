import os, random, struct, hashlib
from vlib import fmt, core, limits

MSG = {
    "einval": b"Input is not valid scrypt-encrypted block", "eversion": b"Unrecognized scrypt format version",
    "etoobig": b"Decrypting file would require too much memory\n", "etooslow": b"Decrypting file would take too much CPU time",
    "ebigslow": b"Decrypting file would require too much memory and CPU time", "epass": b"Passphrase is incorrect",
    "erdfile": b"Error reading file: ", "open": b"Cannot open input file: ", "env": b"Failed to read from ${", "passfile": b"",
}
CAUSES = [k for k in MSG if k != "passfile"]


def main(c):
    c.rule = ("one evaluation = one refused decryption through one interface whose return code (or message and exit status) was compared with the one "
              "documented for its cause and whose output (buffer, stream, existing or absent file, standard output, directory) was compared with the "
              "state before; distinct = distinct (cause, position/value, file length, interface, force)")
    jobs = []
    exe = c.link("h_refuse", ["h_refuse.c"])
    for s in range(c.scale(6, 60)):
        jobs.append(lambda s=s: c.harness(exe, [s, c.scale(1, 3)], timeout=900))

    def ja():
        e = c.link("h_refuse_asan", ["h_refuse.c"], san="asan")
        c.harness(e, [500, 1], tag="asan", timeout=900)
    jobs.append(ja)
    if c.m32_ok():
        jobs.append(lambda: c.harness(c.link("h_refuse_m32", ["h_refuse.c"], "m32"), [501, 1], tag="m32", timeout=900))
    cli = c.cli()

    def hdr(f, L, r, p, fix=True):
        h = f[:7] + bytes([L]) + struct.pack(">II", r, p) + f[16:48]
        return h + (hashlib.sha256(h).digest()[:16] if fix else f[48:64]) + f[64:]

    def run_cli(k):
        rng = random.Random("%s-c08-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "cli%d" % k)
        os.makedirs(d)
        fi = os.path.join(d, "in")
        out = os.path.join(d, "out")
        big = bytes(rng.randrange(256) for _ in range(3)) * 30000

        def snap():
            s = {}
            for x in sorted(os.listdir(d)):
                p = os.path.join(d, x)
                st = os.lstat(p)
                s[x] = (st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns, open(p, "rb").read() if os.path.isfile(p) else os.readlink(p) if os.path.islink(p) else None)
            return s

        def refuse(what, f, msg, opts=("-f",), pwargs=None, env=None, via=None, infile=None, stdin=b""):
            dst = rng.choice(["absent", "present", "stdout", "symlink", "fifo", "same", "readonly"])
            via = via or rng.choice(["file", "stdin"])
            for x in os.listdir(d):
                if not os.path.isdir(os.path.join(d, x)):
                    os.unlink(os.path.join(d, x))
            e = dict(c.env, VP="pass phrase")
            e.update(env or {})
            open(os.path.join(d, "pwfile"), "wb").write(b"pass phrase\n")
            a = [cli, "dec"] + list(opts) + (pwargs if pwargs is not None else ["--passphrase", "env:VP"])
            data = b""
            if infile is not None:
                a.append(infile)
                data = stdin
            elif via == "file":
                open(fi, "wb").write(f)
                a.append(fi)
                data = stdin
            else:
                a.append("-")
                data = f
            if dst == "same" and (via != "file" or infile is not None):
                dst = "present"
            if dst in ("absent", "present", "readonly"):
                if dst != "absent":
                    open(out, "wb").write(rng.choice([b"precious", b"", big]))
                a.append(out)
                if dst == "readonly":
                    os.chmod(out, 0o400)
            elif dst == "symlink":
                t = os.path.join(d, "target")
                if rng.random() < .5:
                    open(t, "wb").write(b"precious target")
                os.symlink("target", out)
                a.append(out)
            elif dst == "fifo":
                os.mkfifo(out)
                a.append(out)
            elif dst == "same":
                a.append(fi)
            before = snap()
            r = core.run(a, input=data, env=e, timeout=60, cwd=d)
            c.case((what, dst, via, len(f or b"")))
            c.ev("commands_refused")
            c.ev("dst_" + dst)
            desc = "%s (output %s, input %s)" % (what, dst, via)
            if r.timeout:
                c.viol("cli-hang", "%s: did not terminate%s" % (desc, " (the output FIFO was opened)" if dst == "fifo" else ""))
                return
            if r.rc != 1:
                c.viol("cli-status", "%s: exit status %s instead of 1: %s" % (desc, r.rc, r.text()))
            if r.out:
                c.viol("cli-stdout", "%s: %d bytes on standard output" % (desc, len(r.out)))
            if MSG[msg] not in r.err or not r.err:
                c.viol("cli-message:" + msg, "%s: message is %r" % (desc, r.err[-300:]))
            for o in CAUSES:
                if o != msg and MSG[o] in r.err:
                    c.viol("cli-message:" + msg, "%s: also reports another cause: %r" % (desc, r.err[-300:]))
            if msg == "erdfile" and not r.err.rstrip().split(b"Error reading file: ")[1].startswith((infile or "").encode()):
                c.viol("cli-message:erdfile-name", "%s: %r" % (desc, r.err))
            after = snap()
            if after != before:
                ch = [x for x in set(before) | set(after) if before.get(x) != after.get(x)]
                c.viol("cli-output-changed:" + dst, "%s: changed, created or removed: %s" % (desc, ", ".join("%s %s -> %s" % (x, before.get(x, ["absent"])[:4], after.get(x, ["absent"])[:4]) for x in ch)))

        for i in range(c.scale(2, 30)):
            n = rng.choice([0, 1, 40, 5000, 70000])
            f = fmt.encode(b"pass phrase", rng.randbytes(n), rng.randrange(1, 5), rng.randrange(1, 4), 1)
            for w in (b"pass phras", b"pass phrasf", b"Pass phrase", b"pass phrase ", b" pass phrase", b"", b"pass phrase\n", b"x" * 300):
                refuse("wrong passphrase %r" % w, f, "epass", env={"VP": w.decode()}, opts=rng.choice([["-f"], []]))
            g = bytearray(f)
            g[64 + rng.randrange(32)] ^= 1
            refuse("header HMAC changed", bytes(g), "epass")
            g = bytearray(f)
            g[48 + rng.randrange(16)] ^= 1
            refuse("checksum changed", bytes(g), "einval", opts=rng.choice([["-f"], [], ["-v"]]))
            g = bytearray(f)
            g[16 + rng.randrange(32)] ^= 1
            refuse("salt changed", bytes(g), "einval", opts=rng.choice([["-f"], []]))
            g = bytearray(f)
            g[rng.randrange(6)] ^= 32
            refuse("magic changed", bytes(g), "einval", opts=rng.choice([["-f"], []]))
            refuse("plain text", rng.choice([b"", b"hello", b"scrypt", b"SCRYPT" + bytes(200), b"\0" * 500]), "einval", opts=rng.choice([["-f"], []]))
            for v in rng.sample(range(1, 256), 4):
                refuse("version %d" % v, f[:6] + bytes([v]) + f[7:], "eversion", opts=rng.choice([["-f"], []]))
            refuse("version, short", b"scrypt\x01", "eversion")
            for t in [0, 1, 6, 7, 8, 95] + rng.sample(range(2, 95), 4):
                refuse("truncated to %d" % t, f[:t], "einval", opts=rng.choice([["-f"], []]))
            refuse("truncated to 97 and wrong passphrase", f[:97], "epass", env={"VP": "no"})
            for L, r, p in rng.sample([(0, 8, 1), (64, 8, 1), (255, 1, 1), (10, 0, 1), (10, 1, 0), (10, 1 << 15, 1 << 15), (10, 1, 1 << 30), (10, 2**32 - 1, 2**32 - 1), (10, 1 << 16, 1 << 16), (10, 1 << 31, 2)], 5):
                refuse("invalid parameters %d %d %d" % (L, r, p), hdr(f, L, r, p), "einval", opts=rng.choice([["-f"], [], ["-v"], ["-v", "-f"]]))
            for L, r, p in ((50, 8, 1), (63, 1, 1), (63, 2**30 - 1, 1)):
                refuse("too big %d %d %d" % (L, r, p), hdr(f, L, r, p), "etoobig", opts=["-M", "1MB", "-t", "1e300"])
                refuse("too big and slow %d %d %d" % (L, r, p), hdr(f, L, r, p), "ebigslow", opts=["-t", "1e-9"])
            refuse("too slow", hdr(f, 10, 1, 2**30 - 1), "etooslow", opts=["-t", "1e-9"])
            refuse("too slow", hdr(f, 4, 1, 2**30 - 1), "etooslow", opts=["-t", "0"])
            refuse("too slow, -v", hdr(f, 9, 1, 2**30 - 1), "etooslow", opts=["-v", "-t", "0"])
            # unreadable inputs and passphrase sources
            refuse("missing input", None, "open", infile=os.path.join(d, "nothing"), via="x")
            os.makedirs(os.path.join(d, "dir"), exist_ok=True)
            refuse("input is a directory", None, "erdfile", infile=os.path.join(d, "dir"), via="x")
            refuse("read error", None, "erdfile", infile="/proc/self/mem", via="x")
            refuse("input through a file", None, "open", infile=os.path.join(d, "pwfile", "x"), via="x")
            refuse("variable not set", f, "env", pwargs=["--passphrase", "env:VERIF_NOT_SET"])
            refuse("passphrase file missing", f, "passfile", pwargs=["--passphrase", "file:" + os.path.join(d, "nofile")])
            refuse("passphrase file is a directory", f, "passfile", pwargs=["--passphrase", "file:" + d])
            refuse("standard input empty", f, "passfile", pwargs=["-P"], via="file")
            refuse("no terminal", f, "passfile", pwargs=["--passphrase", "dev:tty-once"])
            refuse("wrong passphrase from stdin", f, "epass", pwargs=["--passphrase", "dev:stdin-once"], via="file", stdin=b"pass phrase2\n")
            refuse("wrong passphrase from stdin without terminal", f, "epass", pwargs=[], via="file", stdin=b"pass phrase2\n")
            refuse("wrong passphrase from file", hdr(f, f[7], *struct.unpack(">II", f[8:16])), "epass", pwargs=["--passphrase", "file:/dev/null"])
    for k in range(6):
        jobs.append(lambda k=k: run_cli(k))
    # limits on a simulated machine: the cause must be the right one of three
    jobs += limits.harness_jobs(c, ["dec"], c.scale(15000, 200000), c.scale(2, 10), nommap=False)
    jobs += limits.cli_jobs(c, limits.cli_dec, c.scale(100, 1500), 2)
    c.par(jobs)
    for e, n in (("refusals_checked", 10000), ("successes_before_a_refusal", 5000), ("commands_refused", 300), ("control_accepted", 18), ("refused_EPASS", 500), ("refused_EVERSION", 500),
                 ("refused_ETOOBIG", 50), ("refused_ETOOSLOW", 50), ("refused_EBIGSLOW", 50), ("refused_ERDFILE", 200), ("refused_EINVAL", 2000), ("dst_fifo", 20),
                 ("decisions_toobig", 1000), ("decisions_tooslow", 1000), ("decisions_bigslow", 1000), ("cli_decisions", 100)):
        c.need(e, n)
    c.assumptions.append("a FIFO without reader blocks an open for writing, so opening the output before the header is accepted is observed as a hang")
