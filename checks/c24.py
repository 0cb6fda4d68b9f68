import os, re, subprocess
from vlib import core
LEVEL = "exploration"
GIB = 1 << 30


def main(c):
    c.rule = ("one evaluation = one stream run of the command (pipe or file in, pipe out, up to beyond 4 GiB) whose every output byte is compared "
              "with an independent codec and whose peak memory is compared with that of a small stream, or one point of an open stream at which "
              "all but < 1 MiB of the data fed must have come out; distinct by direction, size, feeding pattern")
    hs = c.link("h_stream", ["h_stream.c"])
    rss = {}

    def j(v, op, size, style, s):
        exe = c.cli(v, None, name="scrypt-" + v)
        r = c.harness(hs, [exe, op, size, style, s], tag="%s-%s" % (v, op), timeout=800)
        m = re.search(rb"^RSS (\d+)", r.out, re.M)
        if m:
            with c.lock:
                rss[(v, op, size, style.split(":")[0])] = int(m.group(1))
    big = os.path.join(c.tmp, "sparse")
    with open(big, "wb") as f:
        f.truncate(3 * GIB // 2 + 12345)
    smallf = os.path.join(c.tmp, "sparse-small")
    with open(smallf, "wb") as f:
        f.truncate(12345)

    def files():
        """regular files in both directions"""
        exe = c.cli("full", None, name="scrypt-full")
        env = dict(c.env, PW="streaming")
        peaks = {}
        for n in (12345, c.scale(500 << 20, 5 * GIB)):
            p = os.path.join(c.tmp, "f%d" % n)
            with open(p, "wb") as f:
                f.truncate(n)
                f.seek(n // 2)
                f.write(b"middle")
            for op, a, b in (("enc", p, p + ".enc"), ("dec", p + ".enc", p + ".dec")):
                args = [exe, op] + (["--logN", "10", "-r", "1", "-p", "1"] if op == "enc" else []) + ["-f", "--passphrase", "env:PW", a, b]
                q = subprocess.Popen(args, env=env, stdin=subprocess.DEVNULL)
                _, st, ru = os.wait4(q.pid, 0)
                q.returncode = st
                peaks.setdefault(op, []).append(ru.ru_maxrss)
                if st:
                    c.viol("file_failed:" + op, "%d bytes: wait status %x" % (n, st))
            if subprocess.call(["cmp", "-s", p, p + ".dec"]) or os.path.getsize(p + ".enc") != n + 128:
                c.viol("file_wrong", "%d bytes did not survive file to file" % n)
            c.case("file-%d" % n)
            for x in (p, p + ".enc", p + ".dec"):
                if os.path.exists(x):
                    os.unlink(x)
        for op, (a, b) in peaks.items():
            c.ev("memory_comparisons")
            if b > a + 4096:
                c.viol("memory_grows:file:" + op, "peak RSS %d KiB, small file %d KiB" % (b, a))
    jobs = []
    small = [0, 1, 95, 65536, 65537, 1 << 20, (1 << 24) + 5]
    for op in ("enc", "dec"):
        jobs.append(lambda op=op: j("full", op, 4 * GIB + 64 * (1 << 20) + 13, "big", 1))
        jobs.append(lambda op=op: j("noshani", op, c.scale(600 << 20, 5 * GIB), "big", 2))
        jobs.append(lambda op=op: j("soft", op, c.scale(200 << 20, 5 * GIB), "big", 3))
        for k in range(c.scale(3, 12)):
            jobs.append(lambda op=op, k=k: j("full", op, 24 << 20, "hold", 10 + k))
        for k, n in enumerate(small):
            jobs.append(lambda op=op, k=k, n=n: j("full", op, n, "big", 30 + k))
            jobs.append(lambda op=op, k=k, n=n: j("soft", op, n, "big", 50 + k))
            jobs.append(lambda op=op, k=k, n=n: j("noshani", op, n, "big", 70 + k))
        if c.thorough:
            jobs.append(lambda op=op: j("full", op, 70 * GIB, "big", 4))
    jobs.append(lambda: j("full", "enc", 3 * GIB // 2 + 12345, "zero:" + big, 5))
    jobs.append(lambda: j("full", "enc", 12345, "zero:" + smallf, 6))
    if c.m32_ok():
        for op in ("enc", "dec"):
            jobs.append(lambda op=op: j("m32", op, c.scale(150 << 20, 5 * GIB), "big", 80))
            jobs.append(lambda op=op: j("m32", op, 24 << 20, "hold", 81))
            jobs.append(lambda op=op: j("m32", op, 70000, "big", 82))
    jobs.append(files)
    c.par(jobs)
    # memory does not grow with the amount of data
    for (v, op, size, style), kb in rss.items():
        ref = [k for (v2, op2, s2, st2), k in rss.items() if v2 == v and op2 == op and s2 <= 1 << 20]
        if size > 1 << 20 and ref:
            c.ev("memory_comparisons")
            if kb > max(ref) + 4096:
                c.viol("memory_grows:%s:%s:%s" % (v, op, style), "%d bytes: peak RSS %d KiB, small streams %d KiB" % (size, kb, max(ref)))
    c.extra["peak_rss_kib"] = {"%s %s %s %d" % (k[0], k[1], k[3], k[2]): v for k, v in sorted(rss.items(), key=str)}
    c.need("streams_over_4gib", 2)
    c.need("hold_points", 20)
    c.need("memory_comparisons", 6)
