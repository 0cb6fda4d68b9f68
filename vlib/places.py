"""Where the data of the command comes from and goes to: every kind of file a descriptor or a name can stand for, with
data of shapes which invite special treatment."""
import os, select, socket, subprocess, threading, time
from . import core

SRC = ["file", "symlink", "sparse", "stdin", "stdin-offset", "stdin-unlinked", "stdin-rdwr", "stdin-memfd", "stdin-pipe", "stdin-socket", "fifo", "/dev/stdin pipe", "/dev/stdin file", "/dev/fd"]
DST = ["new", "over", "hardlink", "symlink", "stdout", "stdout-append", "stdout-offset", "stdout-append-empty", "stdout-rdwr", "stdout-memfd", "stdout-pipe", "stdout-socket", "stdout-unlinked", "fifo", "/dev/stdout pipe", "/dev/stdout file", "/dev/fd"]
OLD = b"what was there before. " * 20000


def shapes(rng):
    z = lambda n: bytes(n)
    R = rng.randbytes
    return [("zeros", z(rng.choice([65536, 131072, 200000, 196608, 65537, 65535]))), ("zeros then data", z(65536 * rng.randrange(1, 3)) + R(rng.randrange(1, 9000))), ("data, a hole, data", R(65536) + z(65536) + R(rng.randrange(70000))),
            ("data then zeros", R(rng.randrange(1, 70000)) + z(140000)), ("ones", b"\xff" * rng.randrange(60000, 140000)), ("one byte repeated", bytes([rng.randrange(256)]) * rng.randrange(1, 140000)),
            ("lines", b"".join(rng.choice([b"a line\n", b"a line\r\n", b"\n", b"\r", b"\x1a", b"\x04"]) for _ in range(rng.randrange(20000)))), ("random", R(rng.randrange(150000))), ("short", R(rng.randrange(40))), ("few zeros", z(rng.randrange(1, 5000))),
            ("same block twice", R(65536) * 2), ("like an encrypted file", b"scrypt\0" + R(rng.randrange(300))), ("text", b"the quick brown fox " * rng.randrange(9000)), ("empty", b"")]


def run(c, argv, env, d, data, src, dst, timeout=60):
    """argv without the file names.  Returns (result, output or None, what else went wrong or None)."""
    fi, fo, ln = os.path.join(d, "in"), os.path.join(d, "out"), os.path.join(d, "link")
    for x in (fi, fo, ln, fi + ".l"):
        if os.path.lexists(x):
            os.unlink(x)
    close, threads, feeders = [], [], []
    done = threading.Event()
    stdin, infd, pass_fds = subprocess.DEVNULL, None, []
    name = "-"

    def feed(fd):
        try:
            o = 0
            while o < len(data):
                o += os.write(fd, data[o:o + 50000])
        except OSError:
            pass
        os.close(fd)

    def feedfifo():
        while not done.is_set():
            try:
                fd = os.open(fi, os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                time.sleep(.002)
                continue
            os.set_blocking(fd, True)
            return feed(fd)
    if src in ("file", "symlink", "sparse", "/dev/fd") or src.startswith("stdin") or src == "/dev/stdin file":
        off = len(OLD) // 7 if src == "stdin-offset" else 0
        with open(fi, "wb") as f:
            f.write(OLD[:off])
            if src == "sparse":
                f.truncate(len(data))
                for o in range(0, len(data), 4096):
                    if data[o:o + 4096].strip(b"\0"):
                        f.seek(o)
                        f.write(data[o:o + 4096])
            else:
                f.write(data)
    if src in ("file", "sparse"):
        name = fi
    elif src == "symlink":
        os.symlink("in", fi + ".l")
        name = fi + ".l"
    elif src == "fifo":
        os.mkfifo(fi)
        feeders.append(feedfifo)
        name = fi
    elif src in ("stdin-pipe", "/dev/stdin pipe"):
        stdin, w = os.pipe()
        feeders.append(lambda: feed(w))
    elif src == "stdin-socket":
        a, b = socket.socketpair()
        stdin, w = a.detach(), b.detach()
        feeders.append(lambda: feed(w))
    elif src == "stdin-memfd":
        stdin = os.memfd_create("in")
        os.write(stdin, b"")
        o = 0
        while o < len(data):
            o += os.write(stdin, data[o:])
        os.lseek(stdin, 0, 0)
    else:
        stdin = os.open(fi, os.O_RDWR if src == "stdin-rdwr" else os.O_RDONLY)
        if src == "stdin-offset":
            os.lseek(stdin, off, 0)
        if src == "stdin-unlinked":
            os.unlink(fi)
        if src == "/dev/fd":
            infd, stdin = stdin, subprocess.DEVNULL
            pass_fds.append(infd)
            name = "/dev/fd/%d" % infd
    if src.startswith("/dev/stdin"):
        name = "/dev/stdin"
    args = list(argv) + [name]
    keep0 = keep1 = b""
    stdout, collect = None, None
    got = []
    nul = os.open(os.devnull, os.O_WRONLY)
    close.append(nul)
    stdout = nul

    def collector(fd):
        while True:
            rd, _, _ = select.select([fd], [], [], .02)
            if rd:
                try:
                    x = os.read(fd, 1 << 16)
                except OSError:
                    break
                if x:
                    got.append(x)
                    continue
                if done.is_set():
                    break
                time.sleep(.002)
            elif done.is_set():
                break
        os.close(fd)
    if dst == "new":
        args.append(fo)
    elif dst in ("over", "hardlink", "symlink"):
        open(fo, "wb").write(OLD)
        if dst == "over":
            args.append(fo)
        else:
            (os.link if dst == "hardlink" else os.symlink)(fo, ln)
            args.append(ln)
    elif dst == "fifo":
        os.mkfifo(fo)
        fd = os.open(fo, os.O_RDONLY | os.O_NONBLOCK)
        threads.append(lambda: collector(fd))
        args.append(fo)
    elif dst in ("stdout-pipe", "stdout-socket", "/dev/stdout pipe"):
        if dst == "stdout-socket":
            a, b = socket.socketpair()
            fd, stdout = a.detach(), b.detach()
        else:
            fd, stdout = os.pipe()
        close.append(stdout)
        threads.append(lambda: collector(fd))
        if dst[0] == "/":
            args.append("/dev/stdout")
    elif dst == "stdout-memfd":
        stdout = os.memfd_create("out")
        close.append(stdout)
    else:
        open(fo, "wb").write(b"" if dst in ("stdout", "stdout-append-empty", "stdout-unlinked") else OLD)
        stdout = os.open(fo, {"stdout-append": os.O_WRONLY | os.O_APPEND, "stdout-append-empty": os.O_WRONLY | os.O_APPEND, "stdout-rdwr": os.O_RDWR}.get(dst, os.O_RDWR if dst == "stdout-unlinked" else os.O_WRONLY))
        close.append(stdout)
        if dst == "stdout-append":
            keep0 = OLD
        elif dst == "stdout-offset":
            os.lseek(stdout, 777, 0)
            keep0 = OLD[:777]
            keep1 = OLD
        elif dst == "stdout-rdwr":
            keep1 = OLD
        elif dst == "stdout-unlinked":
            os.unlink(fo)
        elif dst == "/dev/stdout file":
            args.append("/dev/stdout")
        elif dst == "/dev/fd":
            pass_fds.append(stdout)
            args.append("/dev/fd/%d" % stdout)
    r = core.Result()
    r.argv = args
    r.timeout = False
    p = subprocess.Popen(args, stdin=stdin, stdout=nul if dst == "/dev/fd" else stdout, stderr=subprocess.PIPE, env=env, cwd=d, pass_fds=pass_fds, start_new_session=True)
    for f in (stdin, infd):
        if isinstance(f, int) and f > 2:
            os.close(f)
    T = [threading.Thread(target=t) for t in threads + feeders]
    for t in T:
        t.start()
    try:
        _, r.err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        p.kill()
        _, r.err = p.communicate()
    r.rc, r.out = p.returncode, b""
    done.set()
    for t in T:
        t.join()
    other = None
    if threads:
        out = b"".join(got)
    elif dst in ("stdout-memfd", "stdout-unlinked"):
        n = os.fstat(stdout).st_size
        out = os.pread(stdout, n, 0)
    elif not os.path.exists(fo):
        out = None
    else:
        out = open(fo, "rb").read()
    for f in close:
        os.close(f)
    if out is not None and keep0:
        if out[:len(keep0)] != keep0:
            other = "what the output held before the place written to was changed"
        out = out[len(keep0):]
    if out is not None and keep1:
        tail = OLD[len(keep0):]
        # the rest of the old contents stays; the caller knows how much was to be written
        r.tail = tail
    else:
        r.tail = b""
    if dst in ("hardlink", "symlink") and r.rc == 0 and os.path.exists(fo) and (not os.path.samefile(fo, ln) or os.path.islink(ln) != (dst == "symlink")):
        other = "the name given for the output no longer leads to the file it led to"
    if src in ("file", "symlink", "sparse") and open(fi, "rb").read() != data:
        other = "the input file was changed"
    return r, out, other


def written(r, out, n):
    """the n bytes written, given what the old contents were; None if the rest is not as it was"""
    if not r.tail or out is None:
        return out
    return out[:n] if out[n:] == r.tail[n:] else None
