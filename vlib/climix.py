"""Running the scrypt command with every mix of files, pipes and passphrase sources."""
import os, subprocess, threading, time
from . import core


def passphrase(rng, maxlen=300):
    k = rng.randrange(7)
    n = {0: 1, 1: 63 + rng.randrange(4), 2: 65 + rng.randrange(maxlen - 65)}.get(k, 1 + rng.randrange(30))
    return bytes(rng.choice([b for b in range(1, 256) if b not in (10, 13)]) for _ in range(n))


def length(rng, big=True):
    k = rng.randrange(6 if big else 3)
    if k == 0:
        return rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 64, 95, 96, 97, 127, 128, 129])
    if k < 3:
        return rng.randrange(5000)
    if k == 3:
        return 65536 * rng.randrange(1, 4) + rng.randrange(-40, 41)
    return rng.randrange(600000)


class Job:
    """One invocation; inp is fed in the way asked for, the output collected."""

    def __init__(self, c, exe, rng, d, tag):
        self.c, self.exe, self.rng, self.d, self.tag = c, exe, rng, d, tag

    def run(self, mode, opts, pw, inp, src, dst, method, timeout=120):
        c, rng = self.c, self.rng
        env = dict(c.env)
        args = [self.exe, mode] + list(opts)
        fin = os.path.join(self.d, self.tag + ".in")
        fout = os.path.join(self.d, self.tag + ".out")
        stdin_data = b""
        if method == "env":
            env["VPASS"] = os.fsdecode(pw)
            args += ["--passphrase", "env:VPASS"]
        elif method == "file":
            pf = os.path.join(self.d, self.tag + ".pw")
            open(pf, "wb").write(pw + rng.choice([b"", b"\n", b"\r\n"]))
            args += ["--passphrase", "file:" + pf]
        elif method == "stdin-once":
            args += rng.choice([["-P"], ["--passphrase", "dev:stdin-once"]])
            stdin_data = pw + b"\n"
        elif method == "tty-stdin":  # without a terminal: read from stdin, twice for enc
            stdin_data = (pw + b"\n") * (2 if mode == "enc" else 1)
        if src == "file":
            open(fin, "wb").write(inp)
            args.append(fin)
        else:
            args.append("-")
        if dst == "file":
            if rng.random() < 0.5:  # an existing longer file must be replaced
                open(fout, "wb").write(b"old content " * (len(inp) // 8 + 40))
            elif os.path.exists(fout):
                os.unlink(fout)
            args.append(fout)
        of = None
        if dst == "stdoutfile":
            # an output which already has something in it, and may be appended to
            before = os.urandom(rng.choice([0, 0, 1, 50, 5000]))
            of = open(fout, "wb")
            of.write(before)
            if before and rng.random() < .5:
                of.close()
                of = open(fout, "ab")
            of.flush()
            if before:
                c.ev("output_after_other_data")
        if src in ("file", "stdinfile"):
            if src == "stdinfile":
                skip = rng.choice([0, 0, 1, 96, 4096, 70000])  # what another program has read already
                inp = rng.randbytes(skip) + inp
                open(fin, "wb").write(inp)
                fd = open(fin, "rb")
                os.lseek(fd.fileno(), skip, 0)
                if skip:
                    c.ev("input_at_an_offset")
                r = core.run(args, stdin=fd, stdout=of, env=env, timeout=timeout, cwd=self.d)
            else:
                r = core.run(args, input=stdin_data, stdout=of, env=env, timeout=timeout, cwd=self.d)
        elif src == "pipe":
            r = core.run(args, input=inp, stdout=of, env=env, timeout=timeout, cwd=self.d)
        else:  # trickle
            rd, wr = os.pipe()
            stop = []

            def feed():
                o = 0
                try:
                    while o < len(inp) and not stop:
                        k = rng.choice([1, 7, 31, 33, 1000, 65536, 65567])
                        os.write(wr, inp[o:o + k])
                        o += k
                        if rng.random() < 0.3:
                            time.sleep(0.0005)
                except OSError:
                    pass
                os.close(wr)
            t = threading.Thread(target=feed)

            t.start()
            r = core.run(args, stdin=rd, stdout=of, env=env, timeout=timeout, cwd=self.d)
            os.close(rd)
            stop.append(1)
            t.join()
        if of:
            of.close()
        if dst in ("file", "stdoutfile"):
            try:
                out = open(fout, "rb").read()
                if of:
                    if out[:len(before)] != before:
                        c.viol("stdout-rewritten", "what standard output already held changed (%s %s)" % (mode, args))
                    out = out[len(before):]
            except FileNotFoundError:
                out = None
            if dst == "file" and r.out:
                c.viol("stdout-noise", "bytes on standard output although an output file was given: %r" % r.out[:80])
        else:
            out = r.out
        if src in ("file", "stdinfile") and open(fin, "rb").read() != inp:
            c.viol("input-file-modified", "the input file changed (%s %s)" % (mode, args))
        return r, out
