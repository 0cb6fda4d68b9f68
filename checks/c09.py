import os, random, signal, socket, fcntl, subprocess
from vlib import fmt, core


def main(c):
    c.rule = ("one evaluation = one encryption or decryption during which reading, writing, flushing or closing was made to fail at one byte position "
              "(or not at all), whose status was compared with what really reached the output; every position for small files, all positions around "
              "64 KiB and 4 KiB boundaries for large ones; distinct = distinct (operation, length, read fault, write fault, persistence)")
    jobs = []
    exe = c.link("h_iofault", ["h_iofault.c"])
    for s in range(c.scale(12, 160)):
        jobs.append(lambda s=s: c.harness(exe, [s, 1], timeout=900))

    def ja():
        e = c.link("h_iofault_asan", ["h_iofault.c"], san="asan")
        c.harness(e, [700, 1], tag="asan", timeout=900)
    jobs.append(ja)
    if c.m32_ok():
        jobs.append(lambda: c.harness(c.link("h_iofault_m32", ["h_iofault.c"], "m32"), [701, 1], tag="m32", timeout=900))
    cli = c.cli()
    shim = c.cli(name="scrypt-shim", srcs=["h_shim.c"], wraps=["fopen"])
    PW = b"pw"
    ENC = ["enc", "-f", "--logN", "10", "-r", "1", "-p", "1"]

    def good(mode, out, data):
        if out is None:
            return False
        if mode == "dec":
            return out == data
        try:
            return fmt.decode(PW, out)[0] == data
        except fmt.Bad:
            return False

    def rdfile(p):
        try:
            return open(p, "rb").read()
        except OSError:
            return None

    def judge(desc, mode, r, out, data, faulted, inname, outname, sigpipe_ok=False):
        c.ev("commands")
        ok = good(mode, out, data)
        if r.timeout:
            c.viol("cli-hang", desc)
        elif r.rc == 0 and not ok:
            c.viol("cli-false-success", "%s: exit status 0 but the output is not complete and correct (%s bytes)" % (desc, None if out is None else len(out)))
        elif r.rc == 0 and faulted:
            c.viol("cli-error-ignored", "%s: exit status 0 although %s" % (desc, faulted))
        elif r.rc != 0 and not faulted:
            c.viol("cli-control", "%s: fails without a fault: %s" % (desc, r.text()))
        elif r.rc != 0:
            if sigpipe_ok and r.rc == -signal.SIGPIPE:
                return
            if r.rc != 1:
                c.viol("cli-status", "%s: status %s: %s" % (desc, r.rc, r.text()))
            m = []
            if "read" in faulted:
                m.append(b"Error reading file: " + inname)
            if "write" in faulted or "close" in faulted:
                m.append(b"Error writing file: " + outname)
            if not any(x in r.err for x in m):
                c.viol("cli-message", "%s: %s, message %r" % (desc, faulted, r.err[-300:]))

    def shimmed(k):
        rng = random.Random("%s-c09-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "shim%d" % k)
        os.makedirs(d)
        fi, fo, lg = (os.path.join(d, x) for x in ("i", "o", "log"))
        for i in range(c.scale(150, 2500)):
            mode = rng.choice(["enc", "dec"])
            n = rng.choice([0, 1, 31, 100, 4000, 4096, 65536, 65537, 65440, 70000, 140000, rng.randrange(200000)])
            data = rng.randbytes(n)
            inp = data if mode == "enc" else fmt.encode(PW, data, 1, 1, 1)
            outlen = n + 128 if mode == "enc" else n
            env = dict(c.env, VP=PW.decode(), VS_LOG=lg)
            src, dst = rng.choice(["file", "stdin"]), rng.choice(["file", "stdout"])
            edge = lambda m: max(0, min(m, rng.choice([0, 1, 95, 96, 97, 127, 128, m, m - 1, m - 31, m - 32, m - 33, 4096, 4095, 65536, 65535, 65568, 65632, rng.randrange(m + 1), rng.randrange(m + 1)])))
            kind = rng.choice(["none", "read", "write", "write", "close", "both"])
            if kind in ("read", "both"):
                env["VS_RFAIL"] = str(edge(len(inp)))
                env["VS_RONCE"] = rng.choice("01")
            if kind in ("write", "both"):
                env["VS_WFAIL"] = str(edge(max(outlen - 1, 0)))
                env["VS_WONCE"] = rng.choice("01")
            if kind == "close":
                env["VS_WCLOSE"] = "1"
                dst = "file"
            env["VS_STYLE"] = rng.choice("012")
            for x in "RW":
                b = rng.choice([None, None, "0", "100", "65536", "1000000"])
                if b and not (b == "0" and x == "R"):
                    env["VS_%sBUF" % x] = b
            a = [shim] + (ENC if mode == "enc" else ["dec", "-f"]) + ["--passphrase", "env:VP"]
            open(fi, "wb").write(inp)
            for x in (lg, fo):
                if os.path.exists(x):
                    os.unlink(x)
            if src == "file":
                env["VS_IN"] = fi
                a.append(fi)
            else:
                env["VS_STDIN"] = "1"
                a.append("-")
            if dst == "file":
                env["VS_OUT"] = fo
                a.append(fo)
            else:
                env["VS_STDOUT"] = "1"
            with open(fi, "rb") as I, open(fo if dst == "stdout" else os.devnull, "wb") as O:
                r = core.run(a, stdin=I, stdout=O, env=env, cwd=d, timeout=60)
            log = (rdfile(lg) or b"").decode()
            hit = sorted(set(x.split()[0] for x in log.split("\n") if x and not x.startswith("closed-")))
            for h in hit:
                c.ev("cli_%s_faults" % h)
            desc = "%s of %d bytes, %s -> %s, %s" % (mode, n, src, dst, {x: env[x] for x in env if x.startswith("VS_") and x not in ("VS_LOG", "VS_IN", "VS_OUT")})
            c.case((mode, n, src, dst, kind, env.get("VS_RFAIL"), env.get("VS_WFAIL")))
            judge(desc, mode, r, rdfile(fo), data, " and ".join(hit) + " failed" if hit else "",
                  fi.encode() if src == "file" else b"standard input", fo.encode() if dst == "file" else b"standard output")
            if dst == "file" and r.rc == 0 and "closed-out" not in log:
                c.viol("cli-output-not-closed", "%s: exit 0 without having closed the output" % desc)
            c.sample(desc + ": exit %s" % r.rc)
    for k in range(4):
        jobs.append(lambda k=k: shimmed(k))

    def real():
        """Faults produced by the kernel."""
        rng = random.Random("%s-c09-real" % c.seed)
        d = os.path.join(c.tmp, "real")
        os.makedirs(d)
        fi, fo = os.path.join(d, "i"), os.path.join(d, "o")
        env = dict(c.env, VP=PW.decode())

        def args(mode):
            return [cli] + (ENC if mode == "enc" else ["dec", "-f"]) + ["--passphrase", "env:VP"]
        for i in range(c.scale(60, 800)):
            mode = rng.choice(["enc", "dec"])
            n = rng.choice([0, 1, 100, 4000, 5000, 65536, 70000, 200000])
            data = rng.randbytes(n)
            inp = data if mode == "enc" else fmt.encode(PW, data, 1, 1, 1)
            outlen = n + 128 if mode == "enc" else n
            open(fi, "wb").write(inp)
            if os.path.exists(fo):
                os.unlink(fo)
            # file size limit
            lim = rng.choice([0, 1, 96, outlen - 1, outlen - 32, outlen // 2, 4096, outlen, outlen + 1, 1 << 20])
            lim = max(lim, 0)
            f = "write failed" if lim < outlen else ""
            desc = "%s of %d bytes with a file size limit of %d" % (mode, n, lim)
            if rng.random() < .5:
                r = core.run(args(mode) + [fi, fo], env=env, fsize=lim, cwd=d)
                judge(desc, mode, r, rdfile(fo), data, f, b"", fo.encode())
            else:
                with open(fo, "wb") as O:
                    r = core.run(args(mode) + [fi], stdout=O, env=env, fsize=lim, cwd=d)
                judge(desc + " on standard output", mode, r, rdfile(fo), data, f, b"", b"standard output")
            c.case(("fsize", mode, n, lim))
            c.ev("fsize_limits")
            # full device (an empty plaintext writes nothing)
            if outlen:
                with open("/dev/full", "wb") as O:
                    r = core.run(args(mode) + [fi], stdout=O, env=env, cwd=d)
                judge("%s of %d bytes > /dev/full" % (mode, n), mode, r, None, data, "write failed", b"", b"standard output")
                r = core.run(args(mode) + [fi, "/dev/full"], env=env, cwd=d)
                judge("%s of %d bytes to /dev/full" % (mode, n), mode, r, None, data, "write failed", b"", b"/dev/full")
                c.case(("full", mode, n))
                # standard output closed
                r = core.run(["/bin/sh", "-c", 'exec "$@" >&-', "sh"] + args(mode) + [fi], env=env, cwd=d)
                judge("%s of %d bytes, standard output closed" % (mode, n), mode, r, None, data, "write failed", b"", b"standard output")
                if rdfile(fi) != inp:
                    c.viol("input-file-modified", "%s with standard output closed changed the input file" % mode)
                # read-only descriptor as output
                with open(os.devnull, "rb") as O:
                    r = core.run(args(mode) + [fi], stdout=O, env=env, cwd=d)
                judge("%s of %d bytes, standard output not writable" % (mode, n), mode, r, None, data, "write failed", b"", b"standard output")
                # broken pipe
                rd, wr = os.pipe()
                os.close(rd)
                ign = rng.random() < .5
                r = core.run((["/bin/sh", "-c", 'trap "" PIPE; exec "$@"', "sh"] if ign else ["/bin/sh", "-c", 'exec "$@"', "sh"]) + args(mode) + [fi], stdout=wr, env=env, cwd=d)
                os.close(wr)
                judge("%s of %d bytes into a broken pipe" % (mode, n), mode, r, None, data, "write failed", b"", b"standard output", sigpipe_ok=True)
                c.ev("broken_pipes")
            # input that cannot be read
            for src, nm in ((d, d), ("/proc/self/mem", "/proc/self/mem")):
                r = core.run(args(mode) + [src, fo], env=env, cwd=d)
                judge("%s of %s" % (mode, src), mode, r, None, data, "read failed", nm.encode(), b"")
            r = core.run(["/bin/sh", "-c", 'exec "$@" <&-', "sh"] + args(mode) + ["-"], env=env, cwd=d)
            judge("%s, standard input closed" % mode, mode, r, None, data, "read failed", b"standard input", b"")
            with open(os.devnull, "wb") as I:
                r = core.run(args(mode) + ["-", fo], stdin=I, env=env, cwd=d)
            judge("%s, standard input not readable" % mode, mode, r, None, data, "read failed", b"standard input", b"")
            # nonblocking pipe that runs dry: EAGAIN is an error
            rd, wr = os.pipe()
            os.set_blocking(rd, False)
            os.write(wr, inp[:rng.choice([0, 1, 96, 100, 4096])])
            r = core.run(args(mode) + ["-", fo], stdin=rd, env=env, cwd=d, timeout=60)
            os.close(rd)
            os.close(wr)
            judge("%s from a nonblocking pipe" % mode, mode, r, None, data, "read failed", b"standard input", b"")
            # output to a nonblocking pipe or socket: what it does not take at once must not be lost silently
            sock = rng.random() < .3
            if sock:
                x, y = socket.socketpair()
                rd, wr = x.detach(), y.detach()
            else:
                rd, wr = os.pipe()
                fcntl.fcntl(wr, 1031, rng.choice([4096, 65536]))
            os.set_blocking(wr, False)
            staged = rng.random() < .6
            pr = subprocess.Popen(args(mode) + (["-"] if staged else [fi]), stdin=subprocess.PIPE if staged else subprocess.DEVNULL, stdout=wr, stderr=subprocess.PIPE, env=env, cwd=d)
            os.close(wr)
            got = b""
            if staged:
                # the output is full for a while, is then read, and more input comes
                cut = rng.choice([len(inp), len(inp) // 2, max(0, len(inp) - 100), 100000])
                os.set_blocking(rd, False)

                def pull():
                    x = b""
                    try:
                        while True:
                            y = os.read(rd, 65536)
                            if not y:
                                return x
                            x += y
                    except BlockingIOError:
                        return x
                try:
                    pr.stdin.write(inp[:cut])
                    pr.stdin.flush()
                    try:
                        pr.wait(.1)
                    except subprocess.TimeoutExpired:
                        pass
                    got += pull()
                    for o in range(cut, len(inp), 30000):
                        pr.stdin.write(inp[o:o + 30000])
                        pr.stdin.flush()
                        try:
                            pr.wait(.01)
                        except subprocess.TimeoutExpired:
                            pass
                        got += pull()
                except BrokenPipeError:
                    pass
                try:
                    pr.stdin.close()
                except BrokenPipeError:
                    pass
                pr.stdin = None
                os.set_blocking(rd, True)
            elif rng.random() < .6:
                try:
                    pr.wait(.15)
                except subprocess.TimeoutExpired:
                    pass
            while True:
                x = os.read(rd, rng.choice([100, 4096, 65536]))
                if not x:
                    break
                got += x
            os.close(rd)
            err = pr.communicate()[1]
            c.case(("nonblocking-output", mode, n, i))
            desc = "%s of %d bytes to a nonblocking %s" % (mode, n, "socket" if sock else "pipe")
            if pr.returncode == 0:
                c.ev("nonblocking_outputs_complete")
                if not good(mode, got, data):
                    c.viol("cli-false-success", "%s: exit status 0 but the output is not complete and correct (%d bytes)" % (desc, len(got)))
            else:
                c.ev("nonblocking_outputs_failed")
                if outlen < 4096:
                    c.viol("cli-control", "%s: fails without a fault: %r" % (desc, err[-300:]))
                if pr.returncode != 1 or b"Error writing file: standard output" not in err:
                    c.viol("cli-message", "%s: write failed, status %d, message %r" % (desc, pr.returncode, err[-300:]))
            # connection reset while reading
            s = socket.create_server(("127.0.0.1", 0))
            a = socket.create_connection(s.getsockname())
            b, _ = s.accept()
            a.sendall(inp[:rng.choice([10, 96, 2000])])
            a.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\0\0\0\0\0\0\0")
            a.close()
            r = core.run(args(mode) + ["-", fo], stdin=b.fileno(), env=env, cwd=d, timeout=60)
            b.close()
            s.close()
            judge("%s from a connection that is reset" % mode, mode, r, None, data, "read failed", b"standard input", b"")
            c.case(("kernel-read", mode, n, i))
            c.ev("kernel_read_errors", 5)
    for k in range(1):
        jobs.append(real)
    c.par(jobs)
    for e, n in (("read_faults", 10000), ("write_faults", 10000), ("close_faults", 1000), ("no_fault_runs", 300), ("cli_read_faults", 50), ("cli_write_faults", 50),
                 ("cli_close_faults", 20), ("fsize_limits", 40), ("nonblocking_outputs_failed", 8), ("nonblocking_outputs_complete", 8), ("broken_pipes", 20)):
        c.need(e, n)
    c.assumptions.append("standard error is open; descriptors 0 and 1 may be closed")
