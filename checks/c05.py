import os, random
from vlib import fmt, climix, limits, places, core


def main(c):
    c.rule = ("one evaluation = one encryption whose complete output was decoded by an independent implementation of FORMAT (C/OpenSSL for the "
              "library, Python/hashlib for the command) and compared with the input; distinct = distinct (length, interface, delivery, "
              "passphrase length, parameters)")
    sc = c.scale(6, 120)
    exe = {}
    jobs = []

    def lib(v, san, seeds):
        e = c.link("h_enc_%s_%s" % (v, san), ["h_enc.c"], v, san=san)
        for s in seeds:
            c.harness(e, ["enc", s, sc if san is None and v != "m32" else 1], tag="%s-%s" % (v, san), timeout=800)
    for s in range(4):
        jobs.append(lambda s=s: lib("full", None, range(s, c.scale(24, 200), 4)))
    jobs.append(lambda: lib("soft", None, range(0, c.scale(4, 40))))
    if c.arm_ok():
        jobs.append(lambda: lib("arm", None, range(400, 400 + c.scale(2, 12))))
    jobs.append(lambda: lib("full", "asan", range(300, 304)))

    def wide(san, mode, s, n, v="full"):
        e = c.link("h_wide_%s_%s" % (v, san), ["h_wide.c"], v, san=san, wraps=limits.WRAPS)
        c.harness(e, [mode, s, n], tag="wide-%s-%s" % (v, san), timeout=800)
    for s in range(c.scale(1, 6)):
        jobs.append(lambda s=s: wide(None, "enc", s, c.scale(6000, 60000)))
    jobs.append(lambda: wide("asan", "enc", 77, 1000))
    jobs.append(lambda: wide(None, "encreal", 5, c.scale(8, 60)))
    if c.m32_ok():
        jobs.append(lambda: lib("m32", None, range(500, 500 + c.scale(1, 8))))
        jobs.append(lambda: wide(None, "enc", 9, c.scale(600, 6000), "m32"))
    cli = c.cli()

    def run_cli(k):
        rng = random.Random("%s-c05-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "cli%d" % k)
        os.makedirs(d)
        j = climix.Job(c, cli, rng, d, "x")
        for i in range(c.scale(45, 600)):
            pw = climix.passphrase(rng)
            n = climix.length(rng)
            data = rng.randbytes(n) if rng.random() < 0.8 else bytes(n)
            dst = rng.choice(["file", "pipe", "stdoutfile"])
            method = rng.choice(["env", "file", "stdin-once", "tty-stdin"])
            src = "file" if method in ("stdin-once", "tty-stdin") else rng.choice(["file", "pipe", "stdinfile", "trickle"])
            if rng.random() < 0.93:
                L, r, p = rng.choice([(10, 1, 1), (10, 8, 1), (11, 2, 3), (12, 1, 1), (10, 32, 1), (10, 1, 1 + rng.randrange(40)), (13, 1 + rng.randrange(8), 1)])
                opts = ["--logN", str(L), "-r", str(r), "-p", str(p)]
                want = (L, r, p)
            else:
                opts, want = ["-t", rng.choice(["0.01", "0.05", "0"]), "-M", rng.choice(["1MB", "4194304", "0"])], None
            if rng.random() < 0.6:
                opts.append("-f")
            if rng.random() < 0.2:
                opts.append("-v")
            rng.shuffle if 0 else None
            r_, out = j.run("enc", opts, pw, data, src, dst, method)
            desc = "enc %s: %d bytes, %s -> %s, passphrase by %s (%d bytes)" % (" ".join(opts), n, src, dst, method, len(pw))
            c.case((n, src, dst, method, tuple(opts), len(pw)))
            c.ev("cli_outputs_decoded")
            if r_.timeout:
                c.viol("cli-hang", desc)
                continue
            if r_.rc != 0 or out is None:
                c.viol("cli-enc-failed", desc + ": " + r_.text())
                continue
            try:
                got, *P, salt = fmt.decode(pw, out)
            except fmt.Bad as e:
                c.viol("cli-format", "%s: output does not conform: %s (%d bytes, expected %d)" % (desc, e, len(out), n + 128))
                continue
            if got != data:
                c.viol("cli-plaintext", desc + ": independent decryption differs (%d bytes)" % len(got))
            if want and tuple(P) != want:
                c.viol("cli-params", "%s: parameters %s" % (desc, P))
            c.sample(desc)
    for k in range(4):
        jobs.append(lambda k=k: run_cli(k))

    def run_places(k):
        """every kind of input and of output, and files which say a wrong size"""
        rng = random.Random("%s-c05pl-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "places%d" % k)
        os.makedirs(d)
        env = dict(c.env, VPASS="a passphrase")
        argv = [cli, "enc", "--logN", "10", "-r", "1", "-p", "1", "-f", "--passphrase", "env:VPASS"]
        todo = [(s, t) for s in places.SRC for t in places.DST]
        rng.shuffle(todo)
        for s, t in todo[:c.scale(110, 238)] * c.scale(1, 6):
            what, data = rng.choice(places.shapes(rng))
            r_, out, other = places.run(c, argv, env, d, data, s, t)
            out = places.written(r_, out, len(data) + 128)
            desc = "enc of %d bytes (%s), %s -> %s" % (len(data), what, s, t)
            c.case((s, t, what, len(data)))
            c.ev("places_encrypted")
            c.ev("from " + s)
            c.ev("to " + t)
            c.sample(desc)
            if r_.timeout or r_.rc != 0 or out is None:
                c.viol("cli-hang" if r_.timeout else "cli-enc-failed:%s:%s" % (s, t), desc + ": " + r_.text())
                continue
            if other:
                c.viol("cli-other:%s:%s" % (s, t), desc + ": " + other)
            try:
                if fmt.decode(b"a passphrase", out)[0] != data:
                    c.viol("cli-plaintext", desc + ": independent decryption differs")
            except fmt.Bad as e:
                c.viol("cli-format", "%s: output does not conform: %s (%d bytes, expected %d)" % (desc, e, len(out), len(data) + 128))
        if k:
            return
        for f in ["/proc/version", "/proc/filesystems", "/proc/devices", "/proc/self/environ", "/proc/self/cmdline", "/proc/kallsyms", "/sys/kernel/mm/transparent_hugepage/enabled", "/dev/null", "/proc/self/limits", "/proc/self/auxv"]:
            try:
                a = open(f, "rb").read()
                st = os.stat(f)
            except OSError:
                continue
            o = os.path.join(d, "o")
            r_ = core.run(argv + [f, o], env=env, cwd=d)
            try:
                b = open(f, "rb").read()
            except OSError:
                b = None
            own = {"environ": b"".join(os.fsencode("%s=%s" % x) + b"\0" for x in env.items()), "cmdline": b"".join(os.fsencode(x) + b"\0" for x in argv + [f, o])}.get(os.path.basename(f) if "self" in f else None)
            if a != b or (own is None and "self" in f and "limits" not in f and "auxv" not in f):
                continue
            c.case((f,))
            c.ev("files_of_unknown_size")
            c.ev("files_of_unknown_size_with_data" if a and st.st_size != len(a) else "files_of_known_size")
            try:
                got = fmt.decode(b"a passphrase", open(o, "rb").read())[0]
            except (fmt.Bad, OSError) as e:
                c.viol("cli-special:" + f, "enc %s: %s: %s" % (f, e, r_.text()))
                continue
            if (got != own) if own is not None else len(got) != len(a) if "self" in f else got != a:
                c.viol("cli-special:" + f, "enc %s: %d bytes encrypted, the file reads as %d (its status says %d)" % (f, len(got), len(own or a), st.st_size))
    for k in range(2):
        jobs.append(lambda k=k: run_places(k))
    c.par(jobs)
    for e, n in (("wide_parameter_encryptions", 3000), ("wide_real_derivations", 8), ("buf_outputs_decoded", 500), ("stream_outputs_decoded", 1000), ("cli_outputs_decoded", 100), ("picked_params", 5), ("places_encrypted", 200), ("files_of_unknown_size_with_data", 2)):
        c.need(e, n)
    c.assumptions += ["OpenSSL and Python hashlib implement SHA-256, HMAC, scrypt and AES correctly"]
