import os, random, struct, hashlib, hmac
from vlib import fmt, core


def main(c):
    c.rule = ("one evaluation = one file that differs from a valid one, offered with the right passphrase through one interface (buffer, stream, "
              "prepare/copy, command) and required to be refused; includes every single-bit flip, every prefix, cancelling pairs inside each "
              "check value, header edits with valid checksums/HMACs, length changes, splices and 64 KiB boundary positions; distinct = distinct "
              "(kind of change, position, interface)")
    sc = c.scale(1, 12)
    jobs = []
    exe = c.link("h_mut", ["h_mut.c"])
    for m in ("flip", "hdr", "mac", "len", "mix", "big"):
        for s in range(c.scale(1, 4)):
            jobs.append(lambda m=m, s=s: c.harness(exe, [m, s, sc], timeout=900))

    def ja():
        e = c.link("h_mut_asan", ["h_mut.c"], san="asan")
        for m in ("len", "mix"):
            c.harness(e, [m, 99, 1], tag="asan", timeout=900)
    jobs.append(ja)
    if c.m32_ok():
        def j32():
            e = c.link("h_mut_m32", ["h_mut.c"], "m32")
            for m in ("hdr", "mac", "len", "mix"):
                c.harness(e, [m, 98, 1], tag="m32", timeout=900)
        jobs.append(j32)
    cli = c.cli()

    def run_cli(k):
        rng = random.Random("%s-c07-%d" % (c.seed, k))
        d = os.path.join(c.tmp, "cli%d" % k)
        os.makedirs(d)
        env = dict(c.env, VP="pass")
        fi, fo = os.path.join(d, "i"), os.path.join(d, "o")

        def offer(f, orig, what):
            if f == orig:
                return
            via = rng.randrange(3)
            a = [cli, "dec", "-f", "--passphrase", "env:VP"]
            if via == 0:
                open(fi, "wb").write(f)
                r = core.run(a + [fi, fo], env=env)
            elif via == 1:
                r = core.run(a + ["-"], input=f, env=env)
            else:
                r = core.run(a + ["-", fo], input=f, env=env)
            c.case((what, len(f), k, via, hash(f)))
            c.ev("changed_files_to_command")
            if r.timeout:
                c.viol("cli-hang", what)
            elif r.rc == 0:
                c.viol("cli-accepted:" + what.split()[0], "scrypt dec exits 0 for a changed file: %s" % what, {"file": f[:4096], "passphrase": "pass"})
        for n in ([0, 1, 31, 32, 33, 100, 65535, 65536, 65536 + 31, 65536 + 33, 70000] if k == 0 else [rng.randrange(300) for _ in range(c.scale(3, 40))]):
            f = fmt.encode(b"pass", rng.randbytes(n), 1, 1, 1)
            open(fi, "wb").write(f)
            r = core.run([cli, "dec", "-f", "--passphrase", "env:VP", fi, fo], env=env)
            if r.rc != 0:
                c.viol("cli-control", "the unchanged file is refused: " + r.text())
            c.ev("cli_control")
            pos = list(range(len(f))) if len(f) < 200 else sorted(set(list(range(16, 128, 5)) + [rng.randrange(16, len(f)) for _ in range(25)] + list(range(len(f) - 33, len(f))) + [x for b in range(65536, len(f), 65536) for x in (b - 1, b, b + 31, b + 32, b + 95, b + 96, b + 127, b + 128) if x < len(f)]))
            for i in pos:
                if 7 <= i < 16:
                    continue
                g = bytearray(f)
                g[i] ^= 1 << rng.randrange(8)
                offer(bytes(g), f, "flip %d" % i)
            for i in [0, 1, 6, 7, 8, 47, 48, 64, 95, 96, 97, 127] + [len(f) - x for x in (1, 2, 31, 32, 33)] + [rng.randrange(len(f)) for _ in range(10)] + list(range(65536, len(f), 65536)):
                if 0 <= i < len(f):
                    offer(f[:i], f, "prefix %d" % i)
            for i in (1, 16, 31, 32, 33, 64, 65536):
                offer(f + rng.randbytes(i), f, "extended %d" % i)
                offer(f + bytes(i), f, "extended-zero %d" % i)
                offer(f + f[-32:] * (i // 32 + 1), f, "extended-mac %d" % i)
            g = fmt.encode(b"pass", rng.randbytes(n), 1, 1, 1)
            offer(f[:96] + g[96:], f, "spliced")
            offer(g[:64] + f[64:], f, "spliced-fields")
            offer(f + g, f, "concatenated")
            for _ in range(12):
                h = bytearray(f[:48])
                h[rng.randrange(16, 48)] ^= 1 << rng.randrange(8)
                offer(bytes(h) + hashlib.sha256(bytes(h)).digest()[:16] + f[64:], f, "header-checksum-fixed")
            a, b = rng.sample(range(32), 2)
            for base in (64, len(f) - 32):
                g = bytearray(f)
                g[base + a] ^= 0x40
                g[base + b] ^= 0x40
                offer(bytes(g), f, "mac-pair")
    for k in range(4):
        jobs.append(lambda k=k: run_cli(k))
    c.par(jobs)
    for e, n in (("changed_files_offered", 50000), ("changed_files_to_command", 500), ("control_accepted", 30), ("changed_body_reached_copy", 3000)):
        c.need(e, n)
