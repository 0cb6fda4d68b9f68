import os, random, shutil
from vlib import fmt, climix, limits, core, places


def main(c):
    c.rule = ("one evaluation = one decryption of a file made by an independent encoder (C/OpenSSL, Python/hashlib) or by the installed "
              "/usr/bin/scrypt, or of this tree's output by another interface, whose result was compared byte for byte; distinct = distinct "
              "(length, interface, delivery, passphrase length, parameters)")
    sc = c.scale(6, 120)
    jobs = []

    def lib(v, san, seeds):
        e = c.link("h_enc_%s_%s" % (v, san), ["h_enc.c"], v, san=san)
        for s in seeds:
            c.harness(e, ["dec", s, sc if san is None and v != "m32" else 1], tag="%s-%s" % (v, san), timeout=800)
    for s in range(4):
        jobs.append(lambda s=s: lib("full", None, range(s, c.scale(24, 200), 4)))
    jobs.append(lambda: lib("soft", None, range(0, c.scale(4, 40))))
    if c.arm_ok():
        jobs.append(lambda: lib("arm", None, range(400, 400 + c.scale(2, 12))))
    jobs.append(lambda: lib("full", "asan", range(300, 304)))

    def wide(san, mode, s, n, v="full"):
        e = c.link("h_wide_%s_%s" % (v, san), ["h_wide.c"], v, san=san, wraps=limits.WRAPS)
        c.harness(e, [mode, s, n], tag="wide-%s-%s" % (v, san), timeout=800)
    for s in range(c.scale(1, 6)):
        jobs.append(lambda s=s: wide(None, "dec", s, c.scale(6000, 60000)))
    jobs.append(lambda: wide("asan", "dec", 77, 1000))
    jobs.append(lambda: wide(None, "decreal", 5, c.scale(8, 60)))
    if c.m32_ok():
        jobs.append(lambda: lib("m32", None, range(500, 500 + c.scale(1, 8))))
        jobs.append(lambda: wide(None, "dec", 9, c.scale(600, 6000), "m32"))
    cli = c.cli()
    sysscrypt = shutil.which("scrypt", path="/usr/bin:/usr/local/bin")

    def run_cli(k):
        rng = random.Random("%s-c06-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "cli%d" % k)
        os.makedirs(d)
        j = climix.Job(c, cli, rng, d, "x")
        for i in range(c.scale(45, 600)):
            pw = climix.passphrase(rng)
            n = climix.length(rng)
            data = rng.randbytes(n)
            L, r, p = rng.choice([(1, 1, 1), (3, 5, 7), (9, 33, 2), (10, 8, 1), (2, 100, 3), (1, 1, 3000), (12, 3, 1), (1, 700, 1), (14, 8, 1)])
            maker = rng.choice(["python", "python", "self"] + (["system"] if sysscrypt else []))
            if maker == "python":
                enc = fmt.encode(pw, data, L, r, p, rng.randbytes(32))
            else:
                L = max(L, 10)
                r = min(r, 32)
                p = min(p, 50)
                m = climix.Job(c, cli if maker == "self" else sysscrypt, rng, d, "m")
                rr, enc = m.run("enc", ["-f", "--logN", str(L), "-r", str(r), "-p", str(p)], pw, data, "file", "file", "env")
                if rr.rc != 0:
                    if maker == "self":
                        c.viol("cli-enc-failed", rr.text())
                    continue
                c.ev("made_by_" + maker)
            dst = rng.choice(["file", "pipe", "stdoutfile"])
            method = rng.choice(["env", "file", "stdin-once", "tty-stdin"])
            src = "file" if method in ("stdin-once", "tty-stdin") else rng.choice(["file", "pipe", "stdinfile", "trickle"])
            opts = ["-f"] if rng.random() < 0.8 else []
            if rng.random() < 0.2:
                opts.append("-v")
            r_, out = j.run("dec", opts, pw, enc, src, dst, method)
            desc = "dec of a file by %s: %d bytes, logN=%d r=%d p=%d, %s -> %s, passphrase by %s (%d bytes)" % (maker, n, L, r, p, src, dst, method, len(pw))
            c.case((n, src, dst, method, L, r, p, len(pw)))
            c.ev("cli_decryptions")
            if r_.timeout:
                c.viol("cli-hang", desc)
            elif r_.rc != 0 or out is None:
                c.viol("cli-dec-failed", desc + ": " + r_.text())
            elif out != data:
                c.viol("cli-plaintext", "%s: wrong plaintext, %d bytes" % (desc, len(out)))
            c.sample(desc)
            if sysscrypt and maker == "self" and rng.random() < 0.3:
                m = climix.Job(c, sysscrypt, rng, d, "y")
                r_, out = m.run("dec", ["-f"], pw, enc, "file", "file", "env")
                c.ev("read_by_system_scrypt")
                if r_.rc != 0 or out != data:
                    c.viol("interop", "the installed scrypt cannot decrypt this tree's output: " + desc)
    for k in range(4):
        jobs.append(lambda k=k: run_cli(k))

    def run_places(k):
        rng = random.Random("%s-c06pl-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "places%d" % k)
        os.makedirs(d)
        env = dict(c.env, VPASS="a passphrase")
        argv = [cli, "dec", "-f", "--passphrase", "env:VPASS"]
        S = len(places.shapes(random.Random(0)))
        # every shape to every kind of output
        todo = [(rng.choice(places.SRC), t, w) for t in places.DST for w in range(S)][k::2]
        for s, t, w in todo * c.scale(1, 8):
            what, data = places.shapes(rng)[w]
            r_, out, other = places.run(c, argv, env, d, fmt.encode(b"a passphrase", data, 1, 1, 1, rng.randbytes(32)), s, t)
            raw, out = out, places.written(r_, out, len(data))
            desc = "dec of %d bytes (%s), %s -> %s" % (len(data), what, s, t)
            c.case((s, t, what, len(data)))
            c.ev("places_decrypted")
            c.ev("from " + s)
            c.ev("to " + t)
            c.ev("shape " + what)
            c.sample(desc)
            if r_.timeout:
                c.viol("cli-hang", desc)
            elif r_.rc != 0 or raw is None:
                c.viol("cli-dec-failed:%s:%s" % (s, t), desc + ": " + r_.text())
            elif out != data:
                c.viol("cli-plaintext:%s:%s" % (what, t), "%s: wrong output, %d bytes%s" % (desc, len(raw), ", what followed the place written to was changed" if out is None else ""))
            if other:
                c.viol("cli-other:%s:%s" % (s, t), desc + ": " + other)
    for k in range(2):
        jobs.append(lambda k=k: run_places(k))
    # the reference file of the project
    ref = os.path.join(core.REPO, "tests/verify-strings/test_scrypt.good")
    c.par(jobs)
    for e, n in (("wide_parameter_decryptions", 3000), ("wide_real_derivations", 8), ("buf_decryptions", 500), ("stream_decryptions", 1000), ("prep_copy_decryptions", 300), ("cli_decryptions", 100), ("places_decrypted", 200), ("shape zeros", 17), ("interleaved_copies", 150), ("operations_between_phases", 200)):
        c.need(e, n)
    c.assumptions += ["OpenSSL and Python hashlib implement SHA-256, HMAC, scrypt and AES correctly"]
