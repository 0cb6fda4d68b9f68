WRAPS = ["crypto_scrypt", "clock_gettime", "clock_getres", "gettimeofday", "sysinfo", "sysconf", "getrlimit"]


def harness_jobs(c, modes, n, seeds, asan=True, nommap=True):
    """Jobs running h_limits in the given modes on several builds."""
    def lib(v, san, mode, s, k):
        e = c.link("h_limits_%s_%s" % (v, san), ["h_limits.c"], v, san=san, wraps=WRAPS)
        c.harness(e, [mode, s, k, 1 if v.endswith("nommap") else 0], tag="%s-%s" % (v, san), timeout=600)
    jobs = []
    for m in modes:
        for s in range(seeds):
            jobs.append(lambda m=m, s=s: lib("full", None, m, s, n))
        if nommap:
            jobs.append(lambda m=m: lib("nommap", None, m, 777, n))
        if c.m32_ok():
            jobs.append(lambda m=m: lib("m32", None, m, 555, max(200, n // 2)))
            if nommap:
                jobs.append(lambda m=m: lib("m32nommap", None, m, 556, max(200, n // 4)))
        if asan:
            jobs.append(lambda m=m: lib("full", "asan", m, 888, max(200, n // 8)))
    return jobs


# ---- the command on a simulated machine ----
import hashlib, hmac, math, os, struct
from . import core, fmt


def simcli(c, m32=False):
    return c.cli("m32" if m32 else "full", name="scrypt-sim32" if m32 else "scrypt-sim", srcs=["h_simshim.c"], wraps=WRAPS)


def fakekdf(pw, salt, logN, r, p, n=64):
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(pw + salt + struct.pack("<QQQQQ", 1 << (logN & 63), r, p, len(pw), i)).digest()
        i += 32
    return out[:n]


def simencode(pw, data, logN, r, p, salt):
    dk = fakekdf(pw, salt, logN, r, p)
    h = fmt.header(salt, logN, r, p)
    h += hmac.new(dk[32:], h, hashlib.sha256).digest()
    f = h + fmt.aesctr(dk[:32], data)
    return f + hmac.new(dk[32:], f, hashlib.sha256).digest()


def simdecode(pw, f):
    L, r, p = fmt.params(f)
    dk = fakekdf(pw, f[16:48], L, r, p)
    if len(f) < 128 or f[48:64] != hashlib.sha256(f[:48]).digest()[:16] or hmac.new(dk[32:], f[:64], hashlib.sha256).digest() != f[64:96] or hmac.new(dk[32:], f[:-32], hashlib.sha256).digest() != f[-32:]:
        raise fmt.Bad("simulated file")
    return fmt.aesctr(dk[:32], f[96:-32])


def memlimit(ram, as_, rss, frac, maxmem, m32=False):
    m = min(x for x in (ram, as_, rss, 2**32 - 1 if m32 else None) if x is not None)
    a = int(frac * m)
    if maxmem:
        a = min(a, maxmem)
    return max(a, 1 << 20)


def pick(M, ops):
    ops = max(ops, 32768)
    if ops == math.inf:
        ops = 1 << 126
    L = 1
    while L < 62 and 1024 << (L + 1) <= M and 32 << (L + 1) <= ops:
        L += 1
    p = int(ops / 32 / (1 << L))
    return L, 8, max(1, min(p, 0x3fffffff // 8))


def edge(M, ops):
    """Is a decision too close to a rounding boundary?"""
    if ops == math.inf or ops <= 0:
        return False
    x = ops / 32
    k = 2.0 ** round(math.log2(x)) if x > 0 else 1
    if abs(x / k - 1) < 1e-6:
        return True
    L = pick(M, ops)[0]
    q = x / (1 << L)
    return q < 2e8 and round(q) > 0 and abs(q / round(q) - 1) < 1e-7


def args_for(rng, dec):
    """Random -m/-M/-t options: (args, frac, maxmem, time)."""
    frac, maxmem, t = (0.5, 0, 300.0) if dec else (0.125, 0, 5.0)
    a = []
    if rng.random() < .4:
        frac = rng.choice([0.5, 0.25, 0.125, 0.01, 0.3, 1e-7])
        a += ["-m", repr(frac)]
    if rng.random() < .4:
        k, u = rng.randrange(1, 1000), rng.choice(["", "B", "kB", "MB", "GB", "k", "M", "G", " MB"])
        maxmem = k * {"": 1, "B": 1, "kB": 1000, "k": 1000, "MB": 10**6, "M": 10**6, " MB": 10**6, "GB": 10**9, "G": 10**9}[u]
        a += ["-M", "%d%s" % (k, u)]
    if rng.random() < .4:
        t = rng.choice([0.0, 0.001, 0.25, 1.0, 7.5, 60.0, 1e4, 1e9, 1e300, math.inf])
        a += ["-t", "inf" if t == math.inf else repr(t)]
    return a, frac, maxmem, t


def machine(rng, c, d, k):
    ram = rng.choice([1 << 20, 1 << 24, 1 << 28, 1 << 30, 8 << 30, 3 << 31, 1 << 40, rng.randrange(1 << 20, 1 << 36)])
    as_ = rng.choice([None] * 3 + [1 << 28, rng.randrange(1 << 34)])
    rss = rng.choice([None] * 3 + [1 << 27, rng.randrange(1 << 34)])
    us = rng.choice([1, 10, 100, 512, 1000, 50000, 1000000, rng.randrange(1, 100000)])
    env = dict(c.env, VP="pass", VS_RAM=str(ram), VS_US=str(us), VS_KDFLOG=os.path.join(d, "kdf%d" % k))
    if as_ is not None:
        env["VS_AS"] = str(as_)
    if rss is not None:
        env["VS_RSS"] = str(rss)
    return ram, as_, rss, 512 / (us * 1e-6), env


def kdflog(env):
    try:
        return [tuple(int(x) for x in l.split()) for l in open(env["VS_KDFLOG"])]
    except OSError:
        return None


REFUSE = {9: b"Decrypting file would require too much memory\n", 10: b"Decrypting file would take too much CPU time",
          15: b"Decrypting file would require too much memory and CPU time", 7: b"Input is not valid scrypt-encrypted block"}


def cli_pick(c, exe, rng, d, n, m32=False):
    for i in range(n):
        ram, as_, rss, S, env = machine(rng, c, d, i)
        a, frac, maxmem, t = args_for(rng, False)
        if m32 and maxmem >> 32:
            continue
        M, ops = memlimit(ram, as_, rss, frac, maxmem, m32), S * t
        if edge(M, ops):
            continue
        data = rng.randbytes(rng.randrange(50))
        r = core.run([exe, "enc"] + a + (["-f"] if rng.random() < .3 else []) + ["--passphrase", "env:VP", "-"], input=data, env=env)
        desc = "enc %s on a machine with %d bytes (AS %s, RSS %s) and %g cores/s" % (" ".join(a), ram, as_, rss, S)
        c.case((tuple(a), ram, as_, rss, S))
        c.ev("cli_choices")
        want = pick(M, ops)
        if r.rc != 0:
            c.viol("cli-pick-failed", desc + ": " + r.text())
        elif fmt.params(r.out) != want:
            c.viol("cli-choice", "%s: chose logN, r, p = %s instead of %s" % (desc, fmt.params(r.out), want))
        elif kdflog(env) is not None and [k[:3] for k in kdflog(env)] != [(1 << want[0], want[1], want[2])]:
            c.viol("cli-kdf", "%s: key derivations %s, header %s" % (desc, kdflog(env), want))
        else:
            if simdecode(b"pass", r.out) != data:
                c.viol("cli-data", desc)
        c.sample(desc + ": logN, r, p = %s" % (want,))


def cli_dec(c, exe, rng, d, n, m32=False):
    for i in range(n):
        ram, as_, rss, S, env = machine(rng, c, d, i)
        a, frac, maxmem, t = args_for(rng, True)
        if m32 and maxmem >> 32:
            continue
        M, ops = memlimit(ram, as_, rss, frac, maxmem, m32), S * t
        L, r, p = rng.choice([rng.randrange(1, 30), rng.randrange(1, 64)]), rng.choice([1, 8, 3, rng.randrange(1, 1 << 20)]), rng.choice([1, 2, rng.randrange(1, 1 << 12)])
        if rng.random() < .4:  # near the limits
            L = max(1, min(40, (M // (128 * r)).bit_length() - rng.randrange(0, 3)))
            p = max(1, min((1 << 30) // r - 2, int(min(ops, 1e30) / (4 * r << L) * rng.choice([0.4, 0.9, 1.1, 2]))))
        if not 0 < r * p < 1 << 30:
            continue
        mem, cost = 128 * r << L, 4 * r * p << L
        if ops > 0 and ops != math.inf and abs(cost / ops - 1) < 1e-6 or abs(mem / M - 1) < 1e-9:
            continue
        force = rng.random() < .25
        if force and rng.random() < .5:
            env["VS_FAILALL"] = "1"
        want = 0 if force else 15 if mem > M and cost > ops else 9 if mem > M else 10 if cost > ops else 0
        data = rng.randbytes(20)
        f = simencode(b"pass", data, L, r, p, rng.randbytes(32))
        ex = rng.choice([[], [], ["--logN", "12", "-r", "8", "-p", "1"]])
        dst = rng.choice(["", "", "new", "old"])
        of, old = os.path.join(d, "out%d" % i), rng.randbytes(40)
        if dst == "old":
            open(of, "wb").write(old)
        res = core.run([exe, "dec"] + a + ex + (["-f"] if force else []) + ["--passphrase", "env:VP", "-"] + ([of] if dst else []), input=f, env=env)
        got = res.out
        if dst:
            got = open(of, "rb").read() if os.path.exists(of) else None
            if os.path.exists(of):
                os.unlink(of)
        desc = "dec %s%s of N=2^%d r=%d p=%d on a machine with %d bytes (AS %s, RSS %s) and %g cores/s" % (" ".join(a + ex), " -f" if force else "", L, r, p, ram, as_, rss, S)
        c.case((tuple(a), ram, as_, rss, S, L, r, p, force))
        c.ev("cli_decisions")
        c.ev("cli_decision_%d" % want)
        if want == 0:
            if res.rc != 0 or got != data or dst and res.out:
                c.viol("cli-refused", desc + ": " + res.text())
            elif kdflog(env) is not None and [k[:3] for k in kdflog(env)] != [(1 << L, r, p)]:
                c.viol("cli-kdf", "%s: key derivations %s" % (desc, kdflog(env)))
        else:
            if got != {"": b"", "new": None, "old": old}[dst]:
                c.viol("cli-refused-output", "%s: refused (%d) but the %s output was touched" % (desc, want, dst or "standard"))
            if res.rc != 1 or REFUSE[want] not in res.err or res.out:
                c.viol("cli-decision", "%s: should be refused (%d): %s" % (desc, want, res.text()))
            if kdflog(env):
                c.viol("cli-work-before-refusal", "%s: key derivations %s" % (desc, kdflog(env)))
        c.sample(desc + ": %d" % want)


def cli_explicit(c, exe, rng, d, n, m32=False):
    WM, WT = b"Explicit parameters might exceed memory limit", b"Explicit parameters might exceed time limit"
    for i in range(n):
        ram, as_, rss, S, env = machine(rng, c, d, i)
        a, frac, maxmem, t = args_for(rng, False)
        if m32 and maxmem >> 32:
            continue
        M, ops = memlimit(ram, as_, rss, frac, maxmem, m32), S * t
        L, r, p = rng.randrange(10, 41), rng.randrange(1, 33), rng.choice([1, 2, rng.randrange(1, 2049)])
        mem, cost = 128 * r << L, 4 * r * p << L
        if ops > 0 and ops != math.inf and abs(cost / ops - 1) < 1e-6 or abs(mem / M - 1) < 1e-9:
            continue
        force = rng.random() < .3
        ex = [["--logN", str(L)], ["-r", str(r)], ["-p", str(p)]]
        rng.shuffle(ex)
        data = rng.randbytes(20)
        res = core.run([exe, "enc"] + a + sum(ex, []) + (["-f"] if force else []) + ["--passphrase", "env:VP", "-"], input=data, env=env)
        desc = "enc %s logN=%d r=%d p=%d%s, limit %d bytes and %g cores" % (" ".join(a), L, r, p, " -f" if force else "", M, ops)
        c.case((tuple(a), ram, L, r, p, force))
        c.ev("cli_explicit")
        wm, wt = (not force and mem > M), (not force and cost > ops)
        if res.rc != 0 or fmt.params(res.out) != (L, r, p) or simdecode(b"pass", res.out) != data:
            c.viol("cli-explicit", "%s: header %s, %s" % (desc, fmt.params(res.out) if len(res.out) > 16 else None, res.text()))
        elif kdflog(env) is not None and [k[:3] for k in kdflog(env)] != [(1 << L, r, p)]:
            c.viol("cli-kdf", "%s: key derivations %s" % (desc, kdflog(env)))
        if (WM in res.err, WT in res.err) != (wm, wt):
            c.viol("cli-explicit-warning", "%s: warnings %s, should be memory %s time %s" % (desc, res.err, wm, wt))
        if not wm and not wt and res.err:
            c.viol("cli-explicit-noise", "%s: %r" % (desc, res.err))
        c.sample(desc + ": warnings %s %s" % (wm, wt))


def cli_jobs(c, fn, n, k=3):
    import random
    jobs = []

    def job(s):
        d = os.path.join(c.tmp, "sim%d" % s)
        os.makedirs(d)
        m32 = s == k
        fn(c, simcli(c, m32), random.Random("%s-%s-%d" % (c.seed, c.id, s)), d, n, m32)
    for s in range(k + bool(c.m32_ok())):
        jobs.append(lambda s=s: job(s))
    return jobs
