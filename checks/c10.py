import os
from vlib import fmt, core


def main(c):
    c.rule = ("one evaluation = one request for random bytes or one encryption whose bytes/salt were compared with an independent HMAC_DRBG fed with "
              "exactly the entropy the interposed device handed out, or one request under a device fault that had to fail; plus salts of separate "
              "processes compared pairwise; distinct = distinct (state of the reseed counter, request size, short-read mode or fault)")
    W = ["open", "open64", "openat", "read", "close", "getrandom", "getentropy", "generate_seed_rdrand"]
    jobs = []

    def lib(v, san, seeds):
        e = c.link("h_drbg_%s_%s" % (v, san), ["h_drbg.c"], v, san=san, wraps=W)
        for s in seeds:
            c.harness(e, [s, 1500], tag="%s-%s" % (v, san), timeout=300)
    n = c.scale(40, 800)
    for k in range(4):
        jobs.append(lambda k=k: lib("full", None, range(k, n, 4)))
    jobs.append(lambda: lib("soft", None, range(1000, 1000 + n // 4)))
    jobs.append(lambda: lib("full", "asan", range(2000, 2000 + n // 10)))
    if c.m32_ok():
        jobs.append(lambda: lib("m32", None, range(3000, 3000 + n // 8)))
    cli = c.cli()
    shim = c.cli(name="scrypt-rnd", srcs=["h_rndshim.c"], wraps=["open", "read", "close", "getrandom", "getentropy"])
    env = dict(c.env, VP="p")
    args = ["enc", "-f", "--logN", "10", "-r", "1", "-p", "1", "--passphrase", "env:VP", "-"]
    salts = []

    def many(k):
        for i in range(c.scale(60, 800)):
            r = core.run([cli] + args, input=b"x" * (i % 3), env=env)
            c.ev("command_salts")
            if r.rc != 0 or len(r.out) < 128:
                c.viol("cli-enc", r.text())
                continue
            c.case(("salt", k, i))
            salts.append(r.out[16:48])
    for k in range(4):
        jobs.append(lambda k=k: many(k))

    def faults():
        d = os.path.join(c.tmp, "f")
        os.makedirs(d)
        fo = os.path.join(d, "o")
        for m in ["open", "close", "err0", "z0"] + ["%s%d" % (x, i) for x in ("err", "z") for i in (1, 16, 31, 32, 33, 40, 47)]:
            for out in (None, fo):
                r = core.run([shim] + args + ([out] if out else []), input=b"secret data", env=dict(env, VS_RND=m))
                c.case(("fault", m, out is None))
                c.ev("command_faults")
                if r.rc == 0:
                    c.viol("cli-fault-ignored", "enc succeeds although the random device fails (%s)" % m)
                elif b"Error reading salt" not in r.err or r.rc != 1:
                    c.viol("cli-message", "random device failure %s: status %s, %r" % (m, r.rc, r.err[-300:]))
                if r.out:
                    c.viol("cli-output", "output without salt (%s)" % m)
        for m in ("one", "err48", "z48", ""):
            r = core.run([shim] + args, input=b"secret data", env=dict(env, VS_RND=m))
            c.ev("command_controls")
            try:
                if fmt.decode(b"p", r.out)[0] != b"secret data":
                    raise fmt.Bad("data")
            except fmt.Bad as e:
                c.viol("cli-control", "device delivering enough bytes (%s): %s %s" % (m, e, r.text()))
    jobs.append(faults)
    c.par(jobs)
    dup = len(salts) - len(set(salts))
    if dup:
        c.viol("salt-repeats", "%d of %d salts of separate processes repeat" % (dup, len(salts)))
    if len(salts) > 200:
        bad = [i for i in range(256) if not 0.2 < sum(s[i // 8] >> (i % 8) & 1 for s in salts) / len(salts) < 0.8]
        if bad:
            c.viol("salt-constant-bits", "bits %s of the salt are (nearly) the same in %d processes" % (bad[:10], len(salts)))
        for i in range(29):
            if len(set(s[i:i + 4] for s in salts)) < len(salts) * 0.95:
                c.viol("salt-repeats", "bytes %d..%d of salts repeat" % (i, i + 3))
                break
    for e, n in (("outputs_compared", 20000), ("salts", 5000), ("instantiations", 30), ("reseeds", 100), ("failed_requests", 50), ("short_reads", 500),
                 ("fault_open", 5), ("fault_read", 5), ("fault_eof", 5), ("fault_close", 5), ("command_salts", 200), ("command_faults", 30)):
        c.need(e, n)
    c.assumptions += ["the operating system's device delivers unpredictable bytes", "OpenSSL implements SHA-256 correctly"]
